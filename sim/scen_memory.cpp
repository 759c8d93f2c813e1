// M01: every request for memory may be refused.
#include "activity.h"
#include "cfgmodel.h"
#include "dists.h"
#include "fields.h"
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/RKDP45.h>
#include <algorithm>
#include <cmath>
#include <memory>
using namespace sim;

// ---- operations without files --------------------------------------------
static Activity act_clone_field() {
    auto what = std::make_shared<std::string>();
    std::shared_ptr<MagneticField2D> m; double r0, r1, z0, z1;
    if (maybe(300)) {
        MagneticFieldAnalytical2D *a = gen_analytical(*what); m.reset(a);
        double R = a->GetRMajor(), q = a->GetRMinor(), z = a->GetMagneticAxisZ(); r0 = R - q; r1 = R + q; z0 = z - q; z1 = z + q;
    } else { Equil e = gen_equil(10); *what = e.describe(); m.reset(make_field(e)); r0 = e.R.front(); r1 = e.R.back(); z0 = e.Z.front(); z1 = e.Z.back(); }
    double dr = (r1 - r0) * 1e-6, dz = (z1 - z0) * 1e-6;
    auto ps = std::make_shared<PointSet>(gen_points(r0 + dr, r1 - dr, z0 + dz, z1 - dz, 3));
    auto want = std::make_shared<Obs>(observe(m.get(), *ps));
    bool sample = maybe(200);
    Activity a; a.what = "clone field " + *what;
    a.attempt = [=] {
        std::unique_ptr<MagneticField2D> c(m->Clone());
        std::string d = diff(observe(c.get(), *ps), *want); checked(want->v.size());
        if (!d.empty()) violate("wrong-result", "%s: the clone differs: %s", what->c_str(), d.c_str());
        if (sample) if (auto *an = dynamic_cast<MagneticFieldAnalytical2D *>(m.get())) { std::unique_ptr<MagneticFieldNumeric2D> n(an->ToNumeric2D(6, 5)); }
    };
    a.verify = [=] {
        std::string d = diff(observe(m.get(), *ps), *want); checked(want->v.size());
        if (!d.empty()) violate("original-disturbed", "%s: the original changed: %s", what->c_str(), d.c_str());
    };
    return a;
}
static Activity act_dist_memory() {
    unsigned nr = 1 + op(4);
    auto m = std::make_shared<DistModel>(); m->lg = maybe(400); m->linear = !maybe(400);
    { Rng g(op(1u << 16) * 7 + 3); m->r = gen_increasing(g, nr, 1 + g.unit(), 2.5 + g.unit()); }
    for (unsigned i = 0; i < nr; i++) m->s.push_back(gen_slice(false, 4, 4));
    auto pts = std::make_shared<std::vector<EvPt>>(gen_evpoints(*m, 6));
    Activity a; a.what = "build and clone a numeric distribution";
    a.attempt = [=] {
        std::vector<Slice> keep; { Granted granted; keep = m->s; }
        std::unique_ptr<NumericDistributionFunction> d(new NumericDistributionFunction());
        int it = m->linear ? NumericDistributionFunction::INTERPOLATION_LINEAR : NumericDistributionFunction::INTERPOLATION_CUBIC;
        for (unsigned i = nr; i-- > 0;) {
            Slice &s = keep[i];
            if (m->lg) d->InsertMomentumSpaceDistributionLog(s.np, s.nxi, m->r[i], s.p.data(), s.xi.data(), s.f.data(), it);
            else d->InsertMomentumSpaceDistribution(s.np, s.nxi, m->r[i], s.p.data(), s.xi.data(), s.f.data(), it);
        }
        std::unique_ptr<DistributionFunction> c(d->MinClone());
        std::string e = against_model(c.get(), *m, *pts);
        if (!e.empty()) violate("wrong-result", "clone of a numeric distribution with %u radii: %s", nr, e.c_str());
    };
    a.verify = [] {};
    return a;
}
// An object in use that is asked to grow: what it had stays right.
static Activity act_dist_grow() {
    unsigned nr = 2 + op(3);
    struct St { DistModel all, now; std::vector<Slice> keep; std::unique_ptr<NumericDistributionFunction> d; std::vector<unsigned> order; };
    auto s = std::make_shared<St>(); s->all.lg = maybe(300); s->all.linear = true;
    { Rng g(op(1u << 16) * 7 + 3); s->all.r = gen_increasing(g, nr, 1 + g.unit(), 2.5 + g.unit()); }
    for (unsigned i = 0; i < nr; i++) s->all.s.push_back(gen_slice(false, 4, 4));
    for (unsigned i = 0; i < nr; i++) s->order.insert(s->order.begin() + op(i + 1), i);
    s->keep = s->all.s;
    unsigned start = 1 + op(nr - 1);
    auto insert = [s](unsigned k) {
        unsigned i = s->order[k]; Slice &x = s->keep[i]; { Granted granted; x = s->all.s[i]; }
        if (s->all.lg) s->d->InsertMomentumSpaceDistributionLog(x.np, x.nxi, s->all.r[i], x.p.data(), x.xi.data(), x.f.data(), NumericDistributionFunction::INTERPOLATION_LINEAR);
        else s->d->InsertMomentumSpaceDistribution(x.np, x.nxi, s->all.r[i], x.p.data(), x.xi.data(), x.f.data(), NumericDistributionFunction::INTERPOLATION_LINEAR);
    };
    auto model = [s](unsigned n) {
        DistModel m; m.lg = s->all.lg; m.linear = true; std::vector<unsigned> o(s->order.begin(), s->order.begin() + n); std::sort(o.begin(), o.end());
        for (unsigned i : o) { m.r.push_back(s->all.r[i]); m.s.push_back(s->all.s[i]); }
        return m;
    };
    auto done = std::make_shared<unsigned>(0);
    auto fresh = [=] { s->d.reset(new NumericDistributionFunction()); for (*done = 0; *done < start; ++*done) insert(*done); };
    fresh();
    std::shared_ptr<std::vector<EvPt>> pts = std::make_shared<std::vector<EvPt>>(gen_evpoints(s->all, 6));
    Activity a; a.what = "insert radii into a distribution in use";
    a.attempt = [=] {
        while (*done < nr) { insert(*done); ++*done; }
    };
    a.verify = [=] {};
    a.after = [=](bool failed) {
        // whatever happened, what is there evaluates as it should
        DistModel m = model(*done); std::vector<EvPt> p = gen_evpoints(m, 6);
        std::string e = against_model(s->d.get(), m, p);
        if (!e.empty()) violate(failed ? "results-lost" : "wrong-result", "distribution with %u of %u radii inserted%s: %s", *done, nr, failed ? " after an insertion failed for lack of memory" : "", e.c_str());
        if (!failed) fresh();
    };
    return a;
}
static Activity act_config_memory() {
    auto t = std::make_shared<CText>(); CfgOpt o; o.big = maybe(100); o.includes = false;
    gen_config(*t, o);
    bool copy = maybe(400), in = maybe(400);
    Activity a; a.what = in ? "load configuration from standard input" : "load configuration from text";
    a.attempt = [=] {
        if (in) { uint64_t k = alloc_calls; (void)k; set_stdin(t->text, -1, true, 0); }
        ConfigurationScript c; cfg_register(c);
        if (in) c.FromStdin(); else c.FromString(t->text, "text");
        if (c.HasError()) throw SOFTLibException("error flag");
        std::string d = cfg_diff(c.GetRootBlock(), t->root); checked();
        if (!d.empty()) violate("wrong-result", "configuration differs: %s", d.c_str());
        if (copy) {
            std::unique_ptr<ConfigBlock> b(new ConfigBlock(c.GetRootBlock()));
            d = cfg_diff(b.get(), t->root);
            if (!d.empty()) violate("wrong-result", "copy of the configuration differs: %s", d.c_str());
        }
    };
    a.verify = [] {};
    return a;
}
// ---- integrator ------------------------------------------------------------
struct Osc : IntegratorEquation<2> {
    double w; Vector<2> &Evaluate(const slibreal_t, const Vector<2> &y, Vector<2> &r) override { r[0] = y[1]; r[1] = -w * w * y[0]; return r; }
};
static Activity act_integrate() {
    struct St { Osc eq; std::unique_ptr<RKDP45<2>> s; std::vector<double> t, y; double tend; };
    auto s = std::make_shared<St>();
    s->eq.w = 0.5 + op(20) * 0.25;
    static const double tol[] = {1e-6, 1e-9, 1e-12};
    double tl = tol[op(3)]; bool dense = !maybe(200);
    unsigned want = 5 + (maybe(700) ? 995 + op(15) : op(2500));
    auto fresh = [=] { s->s.reset(new RKDP45<2>(tl)); s->s->SetEquation(&s->eq); s->s->ToggleDenseOutput(dense); s->s->SetMaxScaleFactor(1.0); s->t.clear(); s->y.clear(); };
    fresh();
    auto known = [=](const char *when) {
        if (s->s->StepsTaken() < s->t.size()) violate("results-lost", "%u steps left of %zu %s", s->s->StepsTaken(), s->t.size(), when);
        for (size_t i = 0; i < s->t.size(); i += 1 + i / 7) if (s->s->TimeAt(i) != s->t[i] || s->s->SolutionAt(i)[0] != s->y[2 * i] || s->s->SolutionAt(i)[1] != s->y[2 * i + 1])
            violate("results-lost", "step %zu of %zu changed %s", i, s->t.size(), when);
        checked();
    };
    auto take = [=] { for (unsigned i = (unsigned)s->t.size(); i < s->s->StepsTaken(); i++) { s->t.push_back(s->s->TimeAt(i)); s->y.push_back(s->s->SolutionAt(i)[0]); s->y.push_back(s->s->SolutionAt(i)[1]); } };
    Activity a; a.what = "integrate";
    a.attempt = [=] {
        if (s->s->StepsTaken() == 0) { Vector<2> y0; y0[0] = 1; y0[1] = 0; s->s->InitialValue(y0); }
        while (s->s->StepsTaken() < want) s->s->Step();
    };
    a.verify = [] {};
    a.after = [=](bool failed) {
        known(failed ? "after memory ran out" : "after more steps");
        take();
        unsigned n = s->s->StepsTaken();
        if (!failed && n != want) violate("wrong-result", "%u steps instead of %u", n, want);
        if (n == 0) return;
        // the solution is that of the oscillator, also at and between the steps
        double T = s->s->LastTime(), lim = 1e3 * tl * (1 + s->eq.w * T) + 1e-9;
        for (unsigned i = 0; i < n; i += 1 + i / 7) {
            double e = fabs(s->s->SolutionAt(i)[0] - cos(s->eq.w * s->s->TimeAt(i)));
            if (!(e <= lim)) violate("wrong-result", "step %u of %u is off by %g", i, n, e);
            if (i && s->s->TimeAt(i) <= s->s->TimeAt(i - 1)) violate("wrong-result", "time does not increase at step %u", i);
            double d0 = s->s->DerivativeAt(i)[0]; if (d0 != s->s->SolutionAt(i)[1]) violate("wrong-result", "derivative stored with step %u is not that of the step", i);
        }
        if (dense && n > 1) {
            unsigned m = 300; std::vector<double> out(2 * m), tt(m);
            std::string w;
            if (throws([&] { s->s->OutputDense(m, 0.0, T, out.data(), tt.data()); }, &w)) violate("wrong-result", "dense output of %u steps fails: %s", n, w.c_str());
            for (unsigned i = 0; i < m; i++) { double e = fabs(out[2 * i] - cos(s->eq.w * tt[i])); if (!(e <= 10 * lim + 1e-3 * sqrt(tl))) violate(failed ? "results-lost" : "wrong-result", "dense output at t=%g of %g is off by %g", tt[i], T, e); }
        }
        if (!failed) fresh();
    };
    return a;
}

static void m01() {
    set_clock(1700000000ll * 1000000000);
    Activity a;
    switch (op(8)) {
    case 0: a = act_integrate(); break;
    case 1: a = act_clone_field(); break;
    case 2: a = act_dist_memory(); break;
    case 3: a = act_dist_grow(); break;
    case 4: a = act_config_memory(); break;
    default: a = gen_activity(0); break;
    }
    no_faults();
    std::string w;
    // how many requests the operation makes when all are granted
    oom_plan(~0ull, 0);
    bool t = throws(a.attempt, &w);
    uint64_t total = alloc_calls;
    oom_off();
    ev("M01 %s", a.what.c_str());
    if (t) violate("spurious-failure", "%s fails with memory to spare: %s", a.what.c_str(), w.c_str());
    if (throws(a.verify, &w)) violate("wrong-result", "%s: the result cannot be read back: %s", a.what.c_str(), w.c_str());
    if (a.after) a.after(false);
    nontrivial();
    if (!faulty() || !total) return;
    unsigned rounds = 1 + draw(FAULT, 3);
    for (unsigned i = 0; i < rounds; i++) {
        uint64_t nth = draw(FAULT, (uint32_t)total); uint32_t shape = draw(FAULT, 4), len = shape < 2 ? 1 : shape == 2 ? 1 + draw(FAULT, 10) : 1u << 30;
        uint64_t f0 = oom_fired;
        note("memory plan: request %llu of %llu, %u refused", (unsigned long long)nth, (unsigned long long)total, len);
        oom_plan(nth, len);
        t = throws(a.attempt, &w);
        oom_off();
        bool fired = oom_fired > f0;
        ev("attempt: %s", t ? "exception" : "ok");
        checked();
        count(t ? "attempt_failed" : fired ? "attempt_ok_despite_refusal" : "attempt_ok");
        if (t && !fired) violate("spurious-failure", "%s fails with memory to spare: %s", a.what.c_str(), w.c_str());
        if (open_fds()) violate("file-left-open", "%s that %s leaves a file open: %s", a.what.c_str(), t ? "ran out of memory" : "succeeded", open_fd_names().c_str());
        std::string w2;
        if (!t && throws(a.verify, &w2)) violate("wrong-result", "%s reported no error when memory ran out, but its result cannot be read back: %s", a.what.c_str(), w2.c_str());
        if (a.after) a.after(t);
    }
    if (throws(a.attempt, &w)) violate("retry-fails", "%s fails once memory is available again: %s", a.what.c_str(), w.c_str());
    if (throws(a.verify, &w)) violate("retry-wrong", "%s: the result of the retry cannot be read back: %s", a.what.c_str(), w.c_str());
    if (a.after) a.after(false);
    if (open_fds()) violate("file-left-open", "%s (retry) leaves a file open: %s", a.what.c_str(), open_fd_names().c_str());
    count("retry_ok");
}
static Reg r("M01", m01, 930);
