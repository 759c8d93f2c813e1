// D01: distribution functions are loaded completely, or not at all.
#include "distfile.h"
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/DistributionFunction/GOCODEDistributionFunction.h>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <climits>
#include <cmath>
#include <memory>
using namespace sim;

// two-phase use: an object is created empty, fails to load, and is destroyed
// or loads at the second attempt
static DistributionFunction *load_twophase(const DistFile &f, const LoadReq &q, unsigned attempts, bool again) {
    std::string w;
    if (f.kind == D_GOCODE) {
        GOCODEDistributionFunction *g = new GOCODEDistributionFunction();
        for (unsigned i = 0; i < attempts; i++) if (!throws([&] { g->Load(f.file, f.mf, q.time, q.interp); }, &w)) return g;
        delete g; throw SOFTLibException("%s", w.c_str());
    }
    CODEDistributionFunction *c = new CODEDistributionFunction();
    for (unsigned i = 0; i < attempts; i++) if (!throws([&] { c->Load(f.file, q.time, q.interp, f.group); }, &w)) {
        if (!again) return c;
        again = false; i = (unsigned)-1; c->Destroy();       // emptied, and loaded once more
        count("emptied_and_loaded_again");
    }
    delete c; throw SOFTLibException("%s", w.c_str());
}

static void inserted() {
    // radii inserted one by one, in any order
    unsigned nr = 1 + op(6), np = 0; (void)np;
    std::vector<double> r; { Rng g(op(1u << 16) * 7 + 3); r = gen_increasing(g, nr, 1 + g.unit(), 2.5 + g.unit()); }
    DistModel m; m.lg = maybe(400); m.linear = !maybe(400); m.r = r;
    for (unsigned i = 0; i < nr; i++) m.s.push_back(gen_slice(false, 4, 4));
    std::vector<unsigned> order; for (unsigned i = 0; i < nr; i++) order.insert(order.begin() + op(i + 1), i);
    NumericDistributionFunction d;
    bool bulk = maybe(250), copy = m.lg && maybe(500);
    std::vector<double> all;
    if (bulk) {                                                     // all radii on one momentum grid, given at once
        for (auto &x : m.s) { Slice t = m.s[0]; for (auto &v : t.f) v *= 1 + (double)(&x - &m.s[0]) / 3; x = t; }
        bool down = maybe(400); std::vector<double> rr = r; if (down) std::reverse(rr.begin(), rr.end());       // from the inside out or from the outside in
        for (unsigned i = 0; i < nr; i++) { auto &x = m.s[down ? nr - 1 - i : i]; all.insert(all.end(), x.f.begin(), x.f.end()); }
        std::vector<double> was = all; int it = m.linear ? NumericDistributionFunction::INTERPOLATION_LINEAR : NumericDistributionFunction::INTERPOLATION_CUBIC;
        if (m.lg) d.InitializeLog(nr, m.s[0].np, m.s[0].nxi, rr.data(), m.s[0].p.data(), m.s[0].xi.data(), all.data(), it, copy);
        else d.Initialize(nr, m.s[0].np, m.s[0].nxi, rr.data(), m.s[0].p.data(), m.s[0].xi.data(), all.data(), it);
        if ((copy || !m.lg) && memcmp(was.data(), all.data(), sizeof(double) * all.size())) violate("argument-overwritten", "initializing %s overwrites the caller's array", copy ? "with a copy requested" : "a distribution");
        order.clear(); count("given_at_once");
    }
    std::vector<Slice> keep = m.s; std::vector<bool> kept(nr);
    for (unsigned i : order) {
        Slice &s = keep[i];
        int it = m.linear ? NumericDistributionFunction::INTERPOLATION_LINEAR : NumericDistributionFunction::INTERPOLATION_CUBIC;
        if (maybe(250)) {
            // one that cannot be interpolated is refused and leaves no trace
            Slice b = m.s[i]; unsigned k = op(4), j; auto &g = maybe(500) ? b.p : b.xi;
            unsigned &n = &g == &b.p ? b.np : b.nxi;
            j = op(n - 1); std::string w;
            if (k == 0) std::swap(g[j], g[j + 1]); else if (k == 1) g[j] = g[j + 1]; else if (k == 2) g[j] = __builtin_nan(""); else n = op(2);
            double rb = r[op(nr)] + (g[0] - g[0] == 0 ? 0.25 : -5) * (1 + op(3));
            bool t = throws([&] { if (m.lg && k % 2) d.InsertMomentumSpaceDistributionLog(b.np, b.nxi, rb, b.p.data(), b.xi.data(), b.f.data(), it, maybe(500)); else d.InsertMomentumSpaceDistribution(b.np, b.nxi, rb, b.p.data(), b.xi.data(), b.f.data(), it); }, &w);
            ev("insert bad grid %u: %d", k, (int)t); checked();
            if (!t) violate("inconsistent-accepted", "a momentum distribution with a grid that cannot be interpolated (kind %u) was inserted", k);
        }
        bool alloc = m.lg && maybe(400); kept[i] = alloc;
        if (m.lg) d.InsertMomentumSpaceDistributionLog(s.np, s.nxi, r[i], s.p.data(), s.xi.data(), s.f.data(), it, alloc);
        else d.InsertMomentumSpaceDistribution(s.np, s.nxi, r[i], s.p.data(), s.xi.data(), s.f.data(), it);
    }
    for (unsigned i = 0; i < nr; i++) if (kept[i] && memcmp(keep[i].f.data(), m.s[i].f.data(), sizeof(double) * m.s[i].f.size())) violate("argument-overwritten", "inserting with a copy requested overwrites the caller's array");
    std::vector<EvPt> pts = gen_evpoints(m, 20);
    bool noext = maybe(400);
    if (noext) {
        d.SetExtrapolationPermission(false);
        for (auto &e : pts) {
            double rho = e.r - e.drift, w = (r.back() - r.front() + 1) * 1e-9;
            bool t = throws([&] { d.Eval(e.r, e.p, e.xi, e.drift); });
            if (t && rho >= r.front() + w && rho <= r.back() - w) violate("refused-inside", "rho=%.6g within the radial grid [%.6g,%.6g] is refused", rho, r.front(), r.back());
            if (!t && (rho < r.front() - w || rho > r.back() + w)) violate("extrapolated", "rho=%.6g outside the radial grid [%.6g,%.6g] is evaluated although extrapolation is off", rho, r.front(), r.back());
            checked();
        }
        d.SetExtrapolationPermission(true);
    }
    ev("D01 inserted nr=%u log=%d linear=%d noext=%d", nr, m.lg, m.linear, noext);
    std::string x = against_model(&d, m, pts);
    if (!x.empty()) violate("inserted-wrong", "%u radii inserted one by one: %s", nr, x.c_str());
    nontrivial();
}

static void d01() {
    set_clock(1700000000ll * 1000000000);
    if (maybe(120)) return inserted();
    std::string w, what;
    std::unique_ptr<MagneticFieldAnalytical2D> an(gen_analytical(what));
    DistFile f = gen_distfile("dist", an.get(), true);
    plan_faults(FM_READ);
    unsigned n = 1 + op(3);
    ev("D01 %s", f.describe().c_str());
    struct Live { DistributionFunction *d; std::vector<EvPt> pts; std::vector<double> want; bool clone; DistModel m; };
    std::vector<Live> live;
    for (unsigned s = 0; s < n; s++) {
        LoadReq q = gen_request(f);
        bool valid = request_valid(f, q) && !f.broken;
        faults_pause();
        DistModel m; std::vector<EvPt> pts; std::vector<double> want;
        DistributionFunction *ref = nullptr;
        bool t = throws([&] { ref = load_dist(f, q); }, &w);
        if (t && valid) violate("spurious-failure", "%s (time %d, radius %d) does not load: %s", f.describe().c_str(), q.time, q.radindex, w.c_str());
        if (!t && f.broken) violate("damaged-accepted", "%s was loaded", f.describe().c_str());
        if (!t && !valid) violate("bad-slice-accepted", "%s: time %d / radius %d does not exist but was loaded", f.describe().c_str(), q.time, q.radindex);
        if (ref) {
            m = model_of(f, q);
            pts = gen_evpoints(m, 14);
            std::string d = against_model(ref, m, pts);
            if (!d.empty()) violate("loaded-wrong", "%s (time %d, radius %d, %s, %s): %s", f.describe().c_str(), q.time, q.radindex, q.lg ? "logarithmic" : "plain", m.linear ? "linear" : "smooth", d.c_str());
            want = evaluate(ref, pts);
            nontrivial();
        }
        if (s == 0) faults_fit(n);
        faults_resume();
        uint64_t h0 = hard_faults;
        bool two = (f.kind == D_GOCODE || f.kind == D_CODE) && maybe(400); unsigned att = 1 + op(3);
        bool again = two && maybe(300);
        DistributionFunction *d = nullptr;
        t = throws([&] { d = two ? load_twophase(f, q, att, again) : load_dist(f, q); }, &w);
        ev("load %d/%d: %s", q.time, q.radindex, t ? "exception" : "ok");
        nontrivial();
        faults_pause();
        if (t && hard_faults == h0 && valid) violate("spurious-failure", "%s: loading again fails without a fault: %s", f.describe().c_str(), w.c_str());
        if (!t) {
            if (!valid) violate("damaged-accepted", "%s (time %d, radius %d) was loaded under faults", f.describe().c_str(), q.time, q.radindex);
            std::string e = diff_values(evaluate(d, pts), want, pts);
            if (!e.empty()) violate("loaded-incomplete", "%s loaded without an error differs from the same file on a healthy disk: %s", f.describe().c_str(), e.c_str());
            count(hard_faults > h0 ? "load_ok_despite_fault" : "load_ok");
            live.push_back({d, pts, want, false, m});
            if (maybe(400)) live.push_back({d->MinClone(), pts, want, true, m});
        } else count("load_failed");
        if (ref) live.push_back({ref, pts, want, false, m});
        faults_resume();
    }
    faults_pause();
    // histories of evaluating and destroying; a clone goes before its original
    while (!live.empty()) {
        unsigned k = op((uint32_t)live.size());
        if (auto *c = dynamic_cast<CODEDistributionFunction *>(live[k].d)) if (maybe(200)) {       // put on a pitch grid
            unsigned n = 4 + op(6); bool th = maybe(500), lg = maybe(300);
            std::unique_ptr<NumericMomentumSpaceDistributionFunction> g(c->ToMomentumSpace(lg, th, n));
            for (unsigned i = 0; i < n; i++) for (const EvPt &e : live[k].pts) {
                double xi = th ? cos(M_PI * (n - 1 - i) / (n - 1.0)) : -1 + 2.0 * i / (n - 1.0);
                const Slice *sl = nullptr; for (auto &t : live[k].m.s) sl = &t;
                unsigned j = 0; while (j + 1 < sl->np && sl->p[j] < e.p) j++;
                double p = fmin(fmax(sl->p[j], c->GetPMin()), c->GetPMax()), w = 0;
                for (unsigned l = 0; l < sl->nxi; l++) w += sl->f[l * sl->np + j] * std::legendre(l, xi) * (l % 2 ? -1 : 1);
                double v = g->Eval(p, xi < -1 ? -1 : xi > 1 ? 1 : xi); checked();
                if (lg) continue;                                   // next to zeros of the sum the logarithm says nothing
                if (!(fabs(v - w) <= 1e-8 * sl->fmax())) violate("gridded-wrong", "%s on a grid of %u pitches: f(p=%.6g,xi=%.6g) is %.12g, should be %.12g", f.describe().c_str(), n, p, xi, v, w);
            }
            count("put_on_pitch_grid");
        }
        if (auto *nd = dynamic_cast<NumericDistributionFunction *>(live[k].d)) if (maybe(200)) {       // mirrored in pitch, and back
            std::vector<EvPt> mp = live[k].pts; for (auto &e : mp) e.xi = -e.xi;
            nd->FlipPitchSign(true);
            std::unique_ptr<DistributionFunction> c; if (maybe(300)) c.reset(nd->MinClone());
            std::string e = diff_values(evaluate(c ? c.get() : nd, mp), live[k].want, mp); checked();
            nd->FlipPitchSign(false);
            if (!e.empty()) violate("mirrored-wrong", "%s with the sign of the pitch flipped: %s", f.describe().c_str(), e.c_str());
            count("pitch_flipped");
        }
        if (maybe(500)) {
            std::string e = diff_values(evaluate(live[k].d, live[k].pts), live[k].want, live[k].pts);
            if (!e.empty()) violate("value-changed", "%s: %s after other objects were loaded or destroyed", f.describe().c_str(), e.c_str());
            if (maybe(700)) continue;
        }
        if (k + 1 < live.size() && live[k + 1].clone) k++;
        if (!(live[k].clone)) delete live[k].d; else delete live[k].d;
        live.erase(live.begin() + k);
    }
}
static Reg r1("D01", d01, 750);
