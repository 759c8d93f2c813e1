// Equilibria on disk: F01 (save and load back), F02 (load under read faults).
#include "eqfile.h"
#include <softlib/MagneticField/MagneticFieldLUKE.h>
#include <cmath>
#include <memory>

using namespace sim;

static MagneticFieldNumeric2D *load_numeric(const std::string &p, Fmt f, bool explicit_type, bool bare) {
    (void)bare;
    return explicit_type ? new MagneticFieldNumeric2D(p, fmt_type[f]) : new MagneticFieldNumeric2D(p);
}

static std::string any_name(Fmt f, const char *stem, bool &explicit_type) {
    explicit_type = maybe(300);
    if (explicit_type && maybe(400)) return path(std::string(stem) + (maybe(500) ? ".dat" : ".h5"));
    return path(std::string(stem) + "." + fmt_ext[f]);
}

static void f01() {
    set_clock(1700000000ll * 1000000000);
    unsigned src = weighted({5, 2, 1});
    Equil e; std::unique_ptr<MagneticFieldNumeric2D> m;
    double r0, r1, z0, z1;
    std::string what;
    std::unique_ptr<MagneticFieldAnalytical2D> an;
    if (src == 0 || src == 2) {
        e = gen_equil(maybe(150) ? 40 : 14);
        m.reset(make_field(e));
        r0 = e.R.front(); r1 = e.R.back(); z0 = e.Z.front(); z1 = e.Z.back();
        what = e.describe();
        std::string d = diff_nodes(m.get(), e);
        if (!d.empty()) violate("field-wrong", "a field built from %s: %s", what.c_str(), d.c_str());
    } else {
        an.reset(gen_analytical(what));
        unsigned nr = 4 + op(12), nz = 4 + op(12);
        m.reset(an->ToNumeric2D(nr, nz));
        double R = an->GetRMajor(), a = an->GetRMinor(), z = an->GetMagneticAxisZ();
        r0 = R - a; r1 = R + a; z0 = z - a; z1 = z + a;
        // the sampled field is that of the original at every grid point
        for (unsigned i = 0; i < nr; i++) for (unsigned j = 0; j < nz; j++) {
            double x = r0 + (r1 - r0) * i / (nr - 1.0), y = z0 + (z1 - z0) * j / (nz - 1.0);
            if (i == nr - 1) x = r1; if (j == nz - 1) y = z1;
            // stay on the grid's side of rounding
            x = fmin(fmax(x, r0 * (1 + 1e-15)), r1 * (1 - 1e-15));
            double B[3]; memcpy(B, an->Eval(x, 0, y), sizeof B);
            slibreal_t *G = m->Eval(x, 0, y);
            double sc = fabs(B[0]) + fabs(B[1]) + fabs(B[2]);
            for (unsigned k = 0; k < 3; k++) if (!(fabs(G[k] - B[k]) <= 1e-7 * sc)) violate("sampled-field-wrong", "%s: B[%u] at grid point (%u,%u) of %ux%u is %.12g, should be %.12g", what.c_str(), k, i, j, nr, nz, G[k], B[k]);
            if (i && j && i < nr - 1 && j < nz - 1) {
                double p = an->EvalFlux(x, 0, y), q = m->EvalFlux(x, 0, y), s = fabs(an->EvalFlux(r1, 0, z1)) + fabs(p);
                if (!(fabs(p - q) <= 1e-7 * s)) violate("sampled-field-wrong", "%s: flux at grid point (%u,%u) of %ux%u is %.12g, should be %.12g", what.c_str(), i, j, nr, nz, q, p);
            }
            checked();
        }
        if (((MagneticField2D *)m.get())->GetName() != an->GetName() || m->GetNDomain() != an->GetNDomain() || !same_bits(m->GetMagneticAxisZ(), z) || !same_bits(m->GetMagneticAxisR(), R)) violate("sampled-field-wrong", "%s: metadata of the sampled field differs", what.c_str());
        for (unsigned i = 0; i < m->GetNDomain(); i++) if (!same_bits(m->GetRDomain()[i], an->GetRDomain()[i]) || !same_bits(m->GetZDomain()[i], an->GetZDomain()[i])) violate("sampled-field-wrong", "%s: domain of the sampled field differs", what.c_str());
        nontrivial();
    }
    double dr = (r1 - r0) * 1e-6, dz = (z1 - z0) * 1e-6;
    PointSet ps = gen_points(r0 + dr, r1 - dr, z0 + dz, z1 - dz, 6);
    Obs want = observe(m.get(), ps);
    if (src == 2) { m.reset(m->Clone()); what += " (clone)"; }
    Fmt f = (Fmt)weighted({1, 4, 4});
    plan_faults(FM_WRITE);
    unsigned n = 1 + op(3);
    faults_pause();
    throws([&] { m->Save(path("probe"), fmt_type[f]); });
    faults_fit(n);
    faults_resume();
    ev("F01 %s as %s, %u saves", what.c_str(), fmt_name[f], n);
    for (unsigned s = 0; s < n; s++) {
        bool ex; std::string p = any_name(f, s && maybe(500) ? "other" : "eq", ex), w;
        uint64_t h0 = hard_faults;
        bool t = throws([&] { if (ex) m->Save(p, fmt_type[f]); else m->Save(p); }, &w);
        ev("save: %s", t ? "exception" : "ok");
        nontrivial();
        if (t && hard_faults == h0 && f != FMT_SDT) violate("spurious-failure", "%s: saving %s fails without a fault: %s", fmt_name[f], what.c_str(), w.c_str());
        if (t) { count("save_failed"); }
        else {
            faults_pause();
            std::unique_ptr<MagneticFieldNumeric2D> g;
            if (throws([&] { g.reset(load_numeric(p, f, ex, false)); }, &w)) violate("saved-not-loadable", "%s: %s was saved without an error but does not load: %s", fmt_name[f], what.c_str(), w.c_str());
            std::string d = diff(observe(g.get(), ps), want);
            if (!d.empty()) violate("saved-differs", "%s: %s loads back differently: %s", fmt_name[f], what.c_str(), d.c_str());
            if (src == 0 && !(d = diff_nodes(g.get(), e)).empty()) violate("saved-differs", "%s: %s loads back differently: %s", fmt_name[f], what.c_str(), d.c_str());
            checked(want.v.size());
            count(hard_faults > h0 ? "save_ok_despite_fault" : "save_ok");
            if (maybe(200)) m = std::move(g);          // go on with what was loaded
            faults_resume();
        }
        // saving did not change the field
        std::string d = diff(observe(m.get(), ps), want);
        if (!d.empty()) violate("save-disturbs", "%s: the field differs after saving: %s", what.c_str(), d.c_str());
    }
}
static Reg r1("F01", f01, 800);

static void f02_generic() {
    Equil e = gen_equil(maybe(150) ? 40 : 14);
    EqVariant v = gen_variant();
    Fmt f = (Fmt)op(3);
    bool ex; std::string p = any_name(f, "eq", ex), w;
    write_equil(p, f, e, v);
    std::unique_ptr<MagneticFieldNumeric2D> ref(make_field(e));
    double dr = (e.R.back() - e.R.front()) * 1e-6, dz = (e.Z.back() - e.Z.front()) * 1e-6;
    PointSet ps = gen_points(e.R.front() + dr, e.R.back() - dr, e.Z.front() + dz, e.Z.back() - dz, 6);
    Obs want = observe(ref.get(), ps);
    plan_faults(FM_READ);
    unsigned n = 1 + op(3);
    faults_pause();
    { std::unique_ptr<MagneticFieldNumeric2D> g; throws([&] { g.reset(load_numeric(p, f, ex, false)); }, &w); }
    faults_fit(n);
    faults_resume();
    ev("F02 %s %s variant t%d w%d s%d v%u broken=%d", fmt_name[f], e.describe().c_str(), v.transpose, v.wall_rows, v.sep_rows, v.ver, v.broken);
    for (unsigned s = 0; s < n; s++) {
        uint64_t h0 = hard_faults;
        std::unique_ptr<MagneticFieldNumeric2D> g;
        bool t = throws([&] { g.reset(load_numeric(p, f, ex, false)); }, &w);
        ev("load: %s", t ? "exception" : "ok");
        nontrivial();
        if (t && hard_faults == h0 && !v.broken) violate("spurious-failure", "%s: loading %s fails without a fault: %s", fmt_name[f], e.describe().c_str(), w.c_str());
        if (!t && v.broken) violate("damaged-accepted", "%s: an equilibrium %s was loaded", fmt_name[f], v.broken <= 8 ? "lacking a required part" : v.broken == 9 ? "with a three-coordinate axis" : "that disagrees with its verification vector");
        if (!t) {
            faults_pause();
            std::string d = diff(observe(g.get(), ps), want);
            if (d.empty()) d = diff_nodes(g.get(), e);
            if (!d.empty()) violate("loaded-incomplete", "%s: %s loaded without an error differs from what is in the file: %s", fmt_name[f], e.describe().c_str(), d.c_str());
            checked(want.v.size());
            count(hard_faults > h0 ? "load_ok_despite_fault" : "load_ok");
            faults_resume();
        } else count("load_failed");
        g.reset();
    }
}
static void f02_luke() {
    Fmt f = maybe(500) ? FMT_MAT : FMT_HDF5, wf = (Fmt)op(3);
    bool wall = maybe(600);
    unsigned how = op(3);
    // names whose extension says something else where the type is given
    std::string p = path(std::string("EQUIL_x.") + (how && maybe(400) ? maybe(500) ? "sdt" : fmt_ext[f == FMT_MAT ? FMT_HDF5 : FMT_MAT] : fmt_ext[f])), wp = wall ? path(std::string("wall.") + (how == 2 && maybe(400) ? "eq" : fmt_ext[wf])) : "", w;
    Luke l = write_luke(p, f, wp, wf);
    auto load = [&]() -> MagneticFieldLUKE * {
        if (!wall) return how == 0 ? new MagneticFieldLUKE(p) : new MagneticFieldLUKE(p, fmt_type[f]);
        return how == 0 ? new MagneticFieldLUKE(p, wp) : how == 1 ? new MagneticFieldLUKE(p, fmt_type[f], wp) : new MagneticFieldLUKE(p, fmt_type[f], wp, fmt_type[wf]);
    };
    plan_faults(FM_READ);
    faults_pause();
    std::unique_ptr<MagneticFieldLUKE> ref;
    if (throws([&] { ref.reset(load()); }, &w)) violate("spurious-failure", "LUKE equilibrium does not load: %s", w.c_str());
    std::string dn = diff_nodes(ref.get(), l.e);
    if (!dn.empty()) violate("loaded-wrong", "LUKE equilibrium: %s", dn.c_str());
    double r0 = l.Rp + l.x.front(), r1 = l.Rp + l.x.back(), z0 = l.Zp + l.y.front(), z1 = l.Zp + l.y.back(), hr = (r1 - r0) * 1e-6, hz = (z1 - z0) * 1e-6;
    PointSet ps = gen_points(r0 + hr, r1 - hr, z0 + hz, z1 - hz, 6);
    Obs want = observe(ref.get(), ps);
    unsigned n = 1 + op(3);
    faults_fit(n);
    faults_resume();
    ev("F02 LUKE %s wall=%d/%s", fmt_name[f], wall, fmt_name[wf]);
    for (unsigned s = 0; s < n; s++) {
        uint64_t h0 = hard_faults;
        std::unique_ptr<MagneticFieldLUKE> g;
        bool t = throws([&] { g.reset(load()); }, &w);
        ev("load: %s", t ? "exception" : "ok");
        nontrivial();
        if (t && hard_faults == h0) violate("spurious-failure", "LUKE: loading fails without a fault: %s", w.c_str());
        if (!t) {
            std::string d = diff(observe(g.get(), ps), want);
            if (!d.empty()) violate("loaded-incomplete", "LUKE equilibrium loaded without an error differs from the same file on a healthy disk: %s", d.c_str());
            checked(want.v.size());
            count(hard_faults > h0 ? "load_ok_despite_fault" : "load_ok");
        } else count("load_failed");
        g.reset();
    }
}
static void f02() {
    set_clock(1700000000ll * 1000000000);
    if (maybe(350)) f02_luke(); else f02_generic();
}
static Reg r2("F02", f02, 800);
