// T04: clones of distribution functions in threads.
#include "dists.h"
#include "simthreads.h"
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#include <softlib/DistributionFunction/BesselRadialProfile.h>
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#include <softlib/DistributionFunction/ExponentialPitch.h>
#include <softlib/DistributionFunction/GOCODEDistributionFunction.h>
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
#include <softlib/DistributionFunction/LinearRadialProfile.h>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h>
#include <softlib/DistributionFunction/PowerRadialProfile.h>
#include <softlib/DistributionFunction/RadialDistributionFunction.h>
#include <softlib/DistributionFunction/UniformRadialProfile.h>
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
using namespace sim;

// Arrays handed to the library, which keeps using them; alive until the end.
static std::vector<std::unique_ptr<std::vector<double>>> arrays;
static double *keep(const std::vector<double> &v) { arrays.emplace_back(new std::vector<double>(v)); return arrays.back()->data(); }
static double *heap(const std::vector<double> &v) { double *p = new double[v.size()]; memcpy(p, v.data(), 8 * v.size()); return p; }

typedef std::function<DistributionFunction *()> Maker;              // makes the same distribution every time
static MomentumSpaceDistributionFunction *ms(DistributionFunction *d) { return dynamic_cast<MomentumSpaceDistributionFunction *>(d); }

static Maker gen_momentum(std::string &what, double &p0, double &p1) {
    p0 = 1; p1 = 40;
    Rng r(0);
    switch (op(7)) {
    case 0: { Slice s = gen_slice(false, 4, 4); bool lg = maybe(400), flip = maybe(300); int it = maybe(500); what = "numeric momentum-space";
        p0 = s.p.front(); p1 = s.p.back();
        return [=] { auto *d = new NumericMomentumSpaceDistributionFunction(); if (lg) d->InitializeLog(s.np, s.nxi, keep(s.p), keep(s.xi), keep(s.f), it); else d->Initialize(s.np, s.nxi, keep(s.p), keep(s.xi), keep(s.f), it); d->FlipPitchSign(flip); return d; }; }
    case 1: { Slice s = gen_slice(true, 6, 1); int it = maybe(600) ? CODEDistributionFunction::INTERPOLATION_LINEAR : CODEDistributionFunction::INTERPOLATION_CSPLINE; what = "CODE";
        p0 = s.p.front(); p1 = s.p.back();
        return [=] { auto *d = new CODEDistributionFunction(); d->Initialize(s.np, s.nxi, keep(s.p), keep(s.f), it); return d; }; }
    case 2: { double E = 2 + op(40), l = 10 + op(10), Z = 1 + op(5); what = "avalanche"; return [=] { return new AnalyticalAvalanche(E, l, Z); }; }
    case 3: { double E = 2 + op(40), Z = 1 + op(5), pm = op(2) ? 20 + op(20) : 0, dp = 1 + op(5); what = "Connor-Hastie"; return [=] { return new ConnorHastieDistribution(E, Z, pm, dp); }; }
    case 4: { double C = 1 + op(40); what = "exponential pitch"; return [=] { return new ExponentialPitch(C); }; }
    case 5: { Slice s = gen_slice(true, 6, 2); unsigned n = 3 + op(5); bool lg = false; what = "CODE on a pitch grid"; p0 = s.p.front(); p1 = s.p.back();
        for (auto &v : s.f) v = fabs(v) + 0.1;
        return [=] { CODEDistributionFunction d; d.Initialize(s.np, s.nxi, keep(s.p), keep(s.f), CODEDistributionFunction::INTERPOLATION_LINEAR); return d.ToMomentumSpace(lg, true, n); }; }
    default: what = "unit"; return [] { return new UnitDistributionFunction(); };
    }
}
static Maker gen_profile_dist(std::string &what, Maker m, double r0, double r1) {
    unsigned k = op(6); double u = 0.1 + 0.1 * op(9), v = 1 + op(5), c = 0.1 + 0.1 * op(5);
    static const char *nm[] = {"linear", "uniform", "power", "gaussian", "bessel", "default"};
    what += std::string(" with ") + nm[k] + " radial profile";
    return [=]() -> DistributionFunction * {
        RadialProfile *p;
        switch (k) {
        case 0: p = new LinearRadialProfile(r0, r1); break;
        case 2: p = new PowerRadialProfile(r0, r1, v); break;
        case 3: p = new GaussianRadialProfile(r0, r1, v, r0 + u * (r1 - r0), c); break;
        case 4: p = new BesselRadialProfile(r0, r1); break;
        case 5: return ms(m())->ToRadialDistribution();
        default: p = new UniformRadialProfile(); break;
        }
        return new RadialDistributionFunction(p, ms(m()));
    };
}
static Maker gen_dist(std::string &what, std::vector<EvPt> &pts, unsigned n) {
    double r0 = 1, r1 = 2, p0 = 1, p1 = 40; Maker m;
    switch (op(4)) {
    case 0: {
        unsigned nr = 1 + op(4); Rng g(op(1u << 16) * 7 + 3); DistModel d; d.r = gen_increasing(g, nr, 1 + g.unit(), 2.5 + g.unit());
        d.lg = maybe(400); bool cubic = maybe(400), flip = maybe(300), noext = maybe(200);
        for (unsigned i = 0; i < nr; i++) d.s.push_back(gen_slice(false, 4, 4));
        std::vector<double> rr = d.r; unsigned way = op(3);       // inserted in order, inserted in another order, all at once
        if (way == 2) { for (unsigned i = 1; i < nr; i++) { Slice t = d.s[0]; Rng q(op(65536)); for (auto &v : t.f) v = q.unit() + 0.01; d.s[i] = t; } }
        std::vector<unsigned> ord; for (unsigned i = 0; i < nr; i++) ord.insert(ord.begin() + (way == 1 ? op(i + 1) : i), i);
        m = [=] {
            auto *x = new NumericDistributionFunction();
            int it = cubic ? NumericDistributionFunction::INTERPOLATION_CUBIC : NumericDistributionFunction::INTERPOLATION_LINEAR;
            if (way == 2) {
                std::vector<double> f; for (auto &s : d.s) f.insert(f.end(), s.f.begin(), s.f.end());
                const Slice &s = d.s[0];
                if (d.lg) x->InitializeLog(nr, s.np, s.nxi, keep(rr), keep(s.p), keep(s.xi), keep(f), it); else x->Initialize(nr, s.np, s.nxi, keep(rr), keep(s.p), keep(s.xi), keep(f), it);
            } else
                for (unsigned i : ord) { const Slice &s = d.s[i]; if (d.lg) x->InsertMomentumSpaceDistributionLog(s.np, s.nxi, rr[i], keep(s.p), keep(s.xi), keep(s.f), it); else x->InsertMomentumSpaceDistribution(s.np, s.nxi, rr[i], keep(s.p), keep(s.xi), keep(s.f), it); }
            x->FlipPitchSign(flip); x->SetExtrapolationPermission(!noext); x->SetLogarithmic(d.lg);
            return x;
        };
        what = "numeric"; if (noext) what += " without extrapolation";
        r0 = d.r.front(); r1 = nr > 1 ? d.r.back() : r0 + 0.01; p0 = d.s[0].p.front(); p1 = d.s[0].p.back(); break; }
    case 1: {
        unsigned nr = 1 + op(4); Rng g(op(1u << 16) * 7 + 3); std::vector<double> rr = gen_increasing(g, nr, 1 + g.unit(), 2.5 + g.unit());
        std::vector<Slice> s; for (unsigned i = 0; i < nr; i++) s.push_back(gen_slice(true, 5, 1));
        m = [=] {
            auto **c = new CODEDistributionFunction *[nr];
            for (unsigned i = 0; i < nr; i++) { c[i] = new CODEDistributionFunction(); c[i]->Initialize(s[i].np, s[i].nxi, keep(s[i].p), keep(s[i].f), CODEDistributionFunction::INTERPOLATION_LINEAR); }
            auto *x = new GOCODEDistributionFunction(); x->Initialize(nr, heap(rr), c); return x;
        };
        what = "GO+CODE"; r0 = rr.front(); r1 = nr > 1 ? rr.back() : r0 + 0.01; p0 = s[0].p.front(); p1 = s[0].p.back(); break; }
    case 2: m = gen_momentum(what, p0, p1); break;
    default: m = gen_momentum(what, p0, p1); m = gen_profile_dist(what, m, r0, r1); break;
    }
    Rng r(op(1u << 16) * 17 + 1);
    for (unsigned i = 0; i < n; i++) {
        EvPt e; e.drift = r.below(3) ? 0 : (r.unit() - 0.5) * 0.1; e.r = r0 + (r1 - r0) * (r.below(8) ? r.unit() : 1.2 * r.unit() - 0.1) + e.drift;
        e.p = p0 + (p1 - p0) * (r.below(8) ? r.unit() : 1.3 * r.unit()); e.xi = -1 + 2 * r.unit(); e.modelled = false;
        pts.push_back(e);
        if (r.below(4) == 0) pts.push_back(pts[r.below(pts.size())]);
        if (r.below(4) == 0) {                          // nearly the same point again, and special pitches
            EvPt c = pts[r.below(pts.size())]; unsigned how = r.below(5); double d = pow(10, -2 - 13 * r.unit()) * (r.below(2) ? 1 : -1);
            if (how == 0) c.xi = r.below(3) - 1.0; else if (how == 1) c.xi = (float)c.xi; else if (how == 2) c.p *= 1 + d; else c.xi += d;
            if (fabs(c.xi) <= 1) pts.push_back(c);
        }
    }
    return m;
}
static int is_log(DistributionFunction *d) {
    if (auto *n = dynamic_cast<NumericDistributionFunction *>(d)) return n->IsLogarithmic();
    if (auto *n = dynamic_cast<NumericMomentumSpaceDistributionFunction *>(d)) return n->IsLogarithmic();
    return 0;
}
// values, or that the point is refused
static std::vector<double> values(DistributionFunction *d, const std::vector<EvPt> &pts) {
    std::vector<double> v;
    for (auto &e : pts) { double x = 0; bool t = throws([&] { x = d->Eval(e.r, e.p, e.xi, e.drift); }); v.push_back(t); v.push_back(t ? 0 : x); }
    return v;
}
static std::string differ(const std::vector<double> &a, const std::vector<double> &b, const std::vector<EvPt> &pts) {
    char t[300];
    for (size_t i = 0; i < pts.size(); i++) {
        if (a[2 * i] != b[2 * i]) { snprintf(t, sizeof t, "f(r=%.6g,p=%.6g,xi=%.6g,drift=%.3g) is %s", pts[i].r, pts[i].p, pts[i].xi, pts[i].drift, a[2 * i] ? "refused" : "given although it is refused by the original"); return t; }
        if (!same_bits(a[2 * i + 1], b[2 * i + 1])) { snprintf(t, sizeof t, "f(r=%.6g,p=%.6g,xi=%.6g,drift=%.3g) is %.17g, should be %.17g", pts[i].r, pts[i].p, pts[i].xi, pts[i].drift, a[2 * i + 1], b[2 * i + 1]); return t; }
    }
    return "";
}
static void t04() {
    std::string what; std::vector<EvPt> pts; unsigned nt = 1 + op(4);
    Maker m = gen_dist(what, pts, 3 + op(8));
    std::unique_ptr<DistributionFunction> orig(m()), twin(m());
    std::vector<double> ref = values(twin.get(), pts);
    if (maybe(400)) { std::string d = differ(values(orig.get(), pts), ref, pts); if (!d.empty()) violate("not-repeatable", "%s: the same distribution made twice differs: %s", what.c_str(), d.c_str()); }
    bool inside = maybe(400), useorig = !inside && maybe(400);
    std::vector<std::unique_ptr<DistributionFunction>> obj(nt); std::vector<int> stay(nt), re(nt), alter(nt);
    std::vector<std::vector<unsigned>> order(nt);
    for (unsigned j = 0; j < nt; j++) {
        if (!inside) obj[j].reset(j && maybe(300) ? obj[op(j)]->MinClone() : orig->MinClone());
        stay[j] = maybe(600); re[j] = maybe(250); alter[j] = maybe(150);
        for (unsigned i = 0; i < pts.size(); i++) order[j].insert(order[j].begin() + op(i + 1), i);
    }
    // a momentum distribution inserted into a clone (or the original) is its own
    Slice extra = gen_slice(false, 3, 3); double er = pts[0].r; bool numeric = dynamic_cast<NumericDistributionFunction *>(orig.get());
    std::vector<double> refx; std::vector<int> insert(nt); bool insorig = numeric && maybe(300);
    for (unsigned j = 0; j < nt; j++) insert[j] = numeric && maybe(250);
    auto ins = [&](DistributionFunction *d) { dynamic_cast<NumericDistributionFunction *>(d)->InsertMomentumSpaceDistribution(extra.np, extra.nxi, er, extra.p.data(), extra.xi.data(), extra.f.data(), NumericDistributionFunction::INTERPOLATION_LINEAR); };
    std::unique_ptr<DistributionFunction> more(m());
    if (numeric) { ins(more.get()); refx = values(more.get(), pts); }
    auto inserted = [&](DistributionFunction *d, const char *who) {
        ins(d); std::vector<double> v = values(d, pts); checked(v.size());
        std::string x = differ(v, refx, pts);
        if (!x.empty()) violate("clone-differs", "%s, %s with another momentum distribution inserted at r=%.6g: %s", what.c_str(), who, er, x.c_str());
    };
    ev("T04 %s threads=%u inside=%d original-used=%d", what.c_str(), nt, inside, useorig);
    auto inorder = [&](DistributionFunction *d, unsigned j, const char *who) {
        std::vector<EvPt> p; std::vector<double> w;
        for (unsigned i : order[j]) { p.push_back(pts[i]); w.push_back(ref[2 * i]); w.push_back(ref[2 * i + 1]); }
        std::vector<double> v = values(d, p); checked(v.size());
        std::string x = differ(v, w, p);
        if (is_log(d) != is_log(twin.get())) violate("clone-differs", "%s, %s: logarithmic is %d, should be %d", what.c_str(), who, is_log(d), is_log(twin.get()));
        if (!x.empty()) violate("clone-differs", "%s, %s, %u threads: %s", what.c_str(), who, nt, x.c_str());
    };
    std::vector<std::function<void()>> f;
    for (unsigned j = 0; j < nt; j++) f.push_back([&, j] {
        if (inside) obj[j].reset(orig->MinClone());
        inorder(obj[j].get(), j, "clone");
        if (re[j]) { std::unique_ptr<DistributionFunction> c(obj[j]->MinClone()); inorder(c.get(), j, "clone of a clone"); c.reset(); inorder(obj[j].get(), j, "clone whose clone is gone"); }
        if (insert[j]) { inserted(obj[j].get(), "clone"); obj[j].reset(); return; }
        if (alter[j]) {                                             // settings of a clone are its own
            if (auto *n = dynamic_cast<NumericDistributionFunction *>(obj[j].get())) { n->FlipPitchSign(true); n->SetExtrapolationPermission(false); }
            if (auto *n = dynamic_cast<NumericMomentumSpaceDistributionFunction *>(obj[j].get())) n->FlipPitchSign(true);
            values(obj[j].get(), pts);
            obj[j].reset();
        }
        if (!stay[j]) obj[j].reset();
    });
    if (useorig) f.push_back([&] { inorder(orig.get(), 0, "original"); });
    run_threads(f);
    nontrivial();
    if (insorig) inserted(orig.get(), "original");
    for (unsigned j = 0; j < nt; j++) if (obj[j]) { inorder(obj[j].get(), j, "clone after the threads ended"); obj[j].reset(); }
    if (!insorig) inorder(orig.get(), 0, "original after clones were used");
    orig.reset();
    inorder(twin.get(), 0, "another distribution");
}
static Reg r("T04", t04, 300);
