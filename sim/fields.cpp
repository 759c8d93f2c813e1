#include "fields.h"
#include <cmath>

namespace sim {

bool same_bits(double a, double b) {
    uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
    return x == y || (std::isnan(a) && std::isnan(b));
}

std::string Equil::describe() const {
    char b[200];
    snprintf(b, sizeof b, "%ux%u grid, psi=%d, wall=%zu, separatrix=%zu, name=%zu desc=%zu bytes", nr, nz, has_psi(), rwall.size(), rsep.size(), name.size(), desc.size());
    return b;
}

static void contour(Rng &r, double R, double Z, double a, unsigned n, std::vector<double> &x, std::vector<double> &y) {
    double wob = r.unit() * 0.2, ph = r.unit() * 6;
    bool close = n > 4 && r.below(2);
    for (unsigned i = 0; i < n; i++) {
        double t = 2 * M_PI * (close ? (i + 1 == n ? 0 : i) / (double)(n - 1) : i / (double)n);
        double rr = a * (1 - wob + wob * cos(3 * t + ph));
        x.push_back(R + rr * cos(t)); y.push_back(Z + rr * sin(t));
    }
}

static std::string text(Rng &r, unsigned n) { std::string s; for (unsigned i = 0; i < n; i++) s += (char)(33 + r.below(94)); if (n > 4) s[n / 2] = ' '; return s; }

Equil gen_equil(unsigned maxgrid) {
    Equil e;
    e.nr = 4 + op(maxgrid - 3); e.nz = maybe(250) ? e.nr : 4 + op(maxgrid - 3);
    unsigned parts = op(8), np = 4 + op(maybe(100) ? 60 : 12), np2 = 4 + op(12);
    unsigned style = op(5);
    Rng r(op(1u << 16) * 977 + 5);
    e.name = text(r, (unsigned)r.below(30)); e.desc = text(r, (unsigned)r.below(200));
    if (r.below(40) == 0) e.desc = text(r, 3000 + (unsigned)r.below(3000));
    double Rm = 1 + r.unit() * 3, a = 0.2 + r.unit() * 0.7, Zm = (r.unit() - 0.5) * 2;
    double r0 = Rm - a, r1 = Rm + a, z0 = Zm - 1.3 * a, z1 = Zm + 1.3 * a;
    auto grid = [&](std::vector<double> &g, unsigned n, double lo, double hi) {
        std::vector<double> w; double s = 0;
        for (unsigned i = 0; i < n; i++) { g.push_back(s); s += style & 1 ? 0.5 + r.unit() : 1; }
        double t = g.back();
        for (auto &x : g) x = lo + (hi - lo) * (x / t);
    };
    grid(e.R, e.nr, r0, r1); grid(e.Z, e.nz, z0, z1);
    e.axis[0] = Rm + (r.unit() - 0.5) * 0.1 * a; e.axis[1] = Zm + (r.unit() - 0.5) * 0.1 * a;
    auto fill = [&](std::vector<double> &f, double scale) {
        double c[6]; for (auto &x : c) x = r.unit() * 2 - 1;
        for (unsigned j = 0; j < e.nz; j++) for (unsigned i = 0; i < e.nr; i++) {
            double x = (e.R[i] - Rm) / a, y = (e.Z[j] - Zm) / a, v;
            switch (style) {
            case 0: case 1: v = c[0] + c[1] * x + c[2] * y + c[3] * x * y + c[4] * x * x + c[5] * y * y; break;
            case 2: v = r.unit() * 2 - 1; break;
            case 3: v = (double)(int)r.below(7) - 3; break;               // plenty of zeros and ties
            default: v = ldexp(r.unit() - 0.5, (int)r.below(120) - 60); break;
            }
            f.push_back(v * scale);
        }
    };
    double sc = style == 4 ? 1 : pow(10, (int)r.below(4) - 1);
    fill(e.Br, sc); fill(e.Bphi, sc * 3); fill(e.Bz, sc);
    if (parts & 1) fill(e.Psi, 1);
    if (parts & 2) contour(r, Rm, Zm, a * 0.95, np, e.rwall, e.zwall);
    if ((parts & 4) || !(parts & 2)) contour(r, Rm, Zm, a * 0.8, np2, e.rsep, e.zsep);
    return e;
}

static double *dup(const std::vector<double> &v) {
    if (v.empty()) return nullptr;
    double *p = new double[v.size()];
    memcpy(p, v.data(), v.size() * 8);
    return p;
}
MagneticFieldNumeric2D *make_field(const Equil &e) {
    return new MagneticFieldNumeric2D(e.name, e.desc, dup(e.R), dup(e.Z), e.nr, e.nz, dup(e.Br), dup(e.Bphi), dup(e.Bz), dup(e.Psi),
        e.axis[0], e.axis[1], dup(e.rsep), dup(e.zsep), (unsigned)e.rsep.size(), dup(e.rwall), dup(e.zwall), (unsigned)e.rwall.size());
}

MagneticFieldAnalytical2D *gen_analytical(std::string &what, MagneticFieldAnalytical2D **twin) {
    unsigned q = op(5), sb = op(2), si = op(2);
    Rng r(op(1u << 16) * 31 + 7);
    static const MFASafetyFactorType t[] = {MFASF_CONSTANT, MFASF_LINEAR, MFASF_QUADRATIC, MFASF_EXPONENTIAL, MFASF_CURRENT};
    double B0 = 1 + r.unit() * 7, Rm = 1 + r.unit() * 5, z = (r.unit() - 0.5) * 2, a = Rm * (0.1 + 0.5 * r.unit());
    double q1 = 1 + r.unit() * 3, q2 = 0.5 + r.unit() * 2;
    char b[200]; snprintf(b, sizeof b, "analytical B0=%.3g Rm=%.3g z=%.3g a=%.3g q-type=%u sigmaB=%u sigmaI=%u", B0, Rm, z, a, q, sb, si);
    what = b;
    std::string nm = text(r, 5), ds = text(r, 30);
    if (twin) *twin = new MagneticFieldAnalytical2D(B0, Rm, z, a, sb ? MFAFS_CCW : MFAFS_CW, si ? MFAFS_CCW : MFAFS_CW, t[q], q1, q2, nm, ds);
    return new MagneticFieldAnalytical2D(B0, Rm, z, a, sb ? MFAFS_CCW : MFAFS_CW, si ? MFAFS_CCW : MFAFS_CW, t[q], q1, q2, nm, ds);
}

PointSet gen_points(double r0, double r1, double z0, double z1, unsigned n) {
    PointSet ps;
    Rng r(op(1u << 16) * 131 + 1);
    for (unsigned i = 0; i < n; i++) {
        Pt p; p.inside = r.below(5) != 0;
        double R, ph = r.unit() * 6.283, z;
        if (p.inside) { R = r0 + (r1 - r0) * (0.001 + 0.998 * r.unit()); z = z0 + (z1 - z0) * (0.001 + 0.998 * r.unit()); }
        else { R = r0 + (r1 - r0) * (r.unit() * 2 - 0.5); z = z0 + (z1 - z0) * (r.unit() * 2 - 0.5); if (R <= 0) R = r0 * 0.5; }
        p.x = R * cos(ph); p.y = R * sin(ph); p.z = z;
        ps.pts.push_back(p);
        if (r.below(3) == 0) { double *q[6]; (void)q; for (int k = 0; k < 6; k++) ps.segs.push_back(k % 3 == 2 ? z0 + (z1 - z0) * (r.unit() * 1.4 - 0.2) : r1 * (r.unit() * 2.2 - 1.1)); }
    }
    return ps;
}

Obs observe(MagneticField2D *mf, const PointSet &ps, bool labels) {
    Obs o;
    auto put = [&](double v, const char *l, unsigned i, unsigned k) { Granted granted; o.v.push_back(v); if (labels) { char b[60]; snprintf(b, sizeof b, "%s(%u)[%u]", l, i, k); o.label.push_back(b); } };
    o.name = mf->GetName(); o.desc = mf->GetDescription();
    bool flux = mf->HasMagneticFlux();
    put(flux, "has_flux", 0, 0);
    put(mf->GetMagneticAxisR(), "axis_r", 0, 0); put(mf->GetMagneticAxisZ(), "axis_z", 0, 0);
    put(mf->GetMagneticAxis()[0], "axis", 0, 0); put(mf->GetMagneticAxis()[1], "axis", 0, 1);
    if (ps.pts.size() & 1) put(mf->GetMinRadius(), "min_radius", 0, 1);      // asked for first or last
    put(mf->GetMaxRadius(), "max_radius", 0, 0); put(mf->GetMinRadius(), "min_radius", 0, 0);
    double b[4]; mf->GetDomainBounds(b[0], b[1], b[2], b[3]);
    for (unsigned k = 0; k < 4; k++) put(b[k], "domain_bounds", 0, k);
    unsigned n = mf->GetNDomain(); put(n, "n_domain", 0, 0);
    for (unsigned i = 0; i < n; i++) { put(mf->GetRDomain()[i], "domain_r", i, 0); put(mf->GetZDomain()[i], "domain_z", i, 0); }
    n = mf->GetNSeparatrix(); put(n, "n_separatrix", 0, 0);
    for (unsigned i = 0; i < n; i++) { put(mf->GetRSeparatrix()[i], "separatrix_r", i, 0); put(mf->GetZSeparatrix()[i], "separatrix_z", i, 0); }
    for (unsigned i = 0; i < ps.pts.size(); i++) {
        const Pt &p = ps.pts[i];
        slibreal_t *B = mf->Eval(p.x, p.y, p.z);
        for (unsigned k = 0; k < 3; k++) put(B[k], "B", i, k);
        struct magnetic_field_data &d = mf->EvalDerivatives(p.x, p.y, p.z);
        for (unsigned k = 0; k < 3; k++) put(d.B[k], "deriv.B", i, k);
        for (unsigned k = 0; k < 3; k++) put(d.gradB[k], "gradB", i, k);
        for (unsigned k = 0; k < 3; k++) put(d.curlB[k], "curlB", i, k);
        put(d.Babs, "Babs", i, 0);
        for (unsigned k = 0; k < 9; k++) put(d.J[k / 3][k % 3], "J", i, k);
        if (flux && p.inside) {
            put(mf->EvalFlux(p.x, p.y, p.z), "flux", i, 0);
            struct flux_diff *f = mf->EvalFluxDerivatives(p.x, p.y, p.z);
            put(f->psi, "fluxd.psi", i, 0); put(f->dpsi_dR, "fluxd.dR", i, 0); put(f->dpsi_dZ, "fluxd.dZ", i, 0);
        }
        put(mf->CrossesDomain(p.x, p.y, p.z), "crosses", i, 0);
        if (i == 0) {                                   // the other ways of asking give the same
            double q[3] = {p.x, p.y, p.z}; Vector<3> v; v[0] = p.x; v[1] = p.y; v[2] = p.z;
            double e[3]; memcpy(e, mf->Eval(q), sizeof e); for (unsigned k = 0; k < 3; k++) put(e[k], "B(array)", i, k);
            memcpy(e, mf->Eval(v), sizeof e); for (unsigned k = 0; k < 3; k++) put(e[k], "B(vector)", i, k);
            put(mf->CrossesDomain(q), "crosses(array)", i, 0);
            if (flux && p.inside) { put(mf->EvalFlux(q), "flux(array)", i, 0); put(mf->EvalFluxDerivatives(v)->dpsi_dZ, "fluxd.dZ(vector)", i, 0); }
        }
        double lo = -777, hi = -777;
        try { mf->FindMaxZ(hypot(p.x, p.y), lo, hi); } catch (SOFTLibException &) { lo = hi = -777; }
        put(lo, "min_z", i, 0); put(hi, "max_z", i, 0);
    }
    for (unsigned i = 0; i + 6 <= ps.segs.size(); i += 6) {
        const double *s = &ps.segs[i];
        put(mf->CrossesDomain(s[0], s[1], s[2], s[3], s[4], s[5]), "crosses_segment", i / 6, 0);
        put(mf->IntersectsDomain3D(s[0], s[1], s[2], s[3], s[4], s[5], i & 1), "intersects3d", i / 6, 0);
    }
    return o;
}

std::string diff(const Obs &g, const Obs &w) {
    if (g.name != w.name) return "name is '" + g.name + "', should be '" + w.name + "'";
    if (g.desc != w.desc) return "description is '" + g.desc + "', should be '" + w.desc + "'";
    for (size_t i = 0; i < g.v.size() && i < w.v.size(); i++)
        if (!same_bits(g.v[i], w.v[i])) {
            char b[200]; snprintf(b, sizeof b, "%s is %.17g, should be %.17g", i < w.label.size() ? w.label[i].c_str() : i < g.label.size() ? g.label[i].c_str() : "value", g.v[i], w.v[i]);
            return b;
        }
    if (g.v.size() != w.v.size()) return "number of values differs";
    return "";
}

std::string diff_nodes(MagneticField2D *mf, const Equil &e) {
    double m = 0, mp = 0; char b[200];
    for (auto *f : {&e.Br, &e.Bphi, &e.Bz}) for (double v : *f) m = fmax(m, fabs(v));
    for (double v : e.Psi) mp = fmax(mp, fabs(v));
    for (unsigned j = 0; j < e.nz; j++) for (unsigned i = 0; i < e.nr; i++) {
        slibreal_t *B = mf->Eval(e.R[i], 0, e.Z[j]);
        double w[3] = {e.Br[i + j * e.nr], e.Bphi[i + j * e.nr], e.Bz[i + j * e.nr]};
        for (unsigned k = 0; k < 3; k++) if (!(fabs(B[k] - w[k]) <= 1e-9 * m)) {
            snprintf(b, sizeof b, "B[%u] at grid point (%u,%u) is %.12g, should be %.12g", k, i, j, B[k], w[k]); return b; }
        struct magnetic_field_data &d = mf->EvalDerivatives(e.R[i], 0, e.Z[j]);
        for (unsigned k = 0; k < 3; k++) if (!(fabs(d.B[k] - w[k]) <= 1e-9 * m)) {
            snprintf(b, sizeof b, "B[%u] given with the derivatives at grid point (%u,%u) is %.12g, should be %.12g", k, i, j, d.B[k], w[k]); return b; }
        double nb = sqrt(d.B[0] * d.B[0] + d.B[1] * d.B[1] + d.B[2] * d.B[2]);
        if (nb > 0 && !(fabs(d.Babs - nb) <= 1e-12 * nb)) { snprintf(b, sizeof b, "the field strength of (%g,%g,%g) at grid point (%u,%u) is %.12g", d.B[0], d.B[1], d.B[2], i, j, d.Babs); return b; }
        if ((i + j) % 5 == 0) {                         // whichever way the point is given
            double ph = 0.3 + i, x = (e.R[i] * 0.75 + e.R[i ? i - 1 : 1] * 0.25) * cos(ph), y = (e.R[i] * 0.75 + e.R[i ? i - 1 : 1] * 0.25) * sin(ph), z = e.Z[j] * 0.75 + e.Z[j ? j - 1 : 1] * 0.25;
            double q[3] = {x, y, z}, c[3]; Vector<3> v; v[0] = x; v[1] = y; v[2] = z;
            memcpy(c, mf->Eval(x, y, z), sizeof c);
            if (memcmp(c, mf->Eval(q), sizeof c) || memcmp(c, mf->Eval(v), sizeof c)) return "the field depends on how the point is given";
            struct magnetic_field_data d0 = mf->EvalDerivatives(x, y, z); double g[7] = {d0.B[0], d0.B[1], d0.B[2], d0.gradB[0], d0.gradB[2], d0.curlB[1], d0.Babs};
            for (int k = 0; k < 2; k++) { struct magnetic_field_data &t = k ? mf->EvalDerivatives(q) : mf->EvalDerivatives(v); double h[7] = {t.B[0], t.B[1], t.B[2], t.gradB[0], t.gradB[2], t.curlB[1], t.Babs}; if (memcmp(g, h, sizeof g)) return "the derivatives depend on how the point is given"; }
            {   double q2[3] = {e.axis[0] * cos(ph * 3) * 1.5, e.axis[0] * sin(ph * 3) * 1.5, z * 1.5};
                if (mf->CrossesDomain(q) != mf->CrossesDomain(x, y, z) || mf->CrossesDomain(q, q2) != mf->CrossesDomain(x, y, z, q2[0], q2[1], q2[2]) || mf->CrossesDomain(q2, q) != mf->CrossesDomain(q2[0], q2[1], q2[2], x, y, z)
                    || mf->IntersectsDomain3D(q, q2, i & 1) != mf->IntersectsDomain3D(x, y, z, q2[0], q2[1], q2[2], i & 1)) return "whether the domain is crossed depends on how the points are given"; }
            for (int k = 0; k < 3; k++) if (!(fabs(d0.B[k] - c[k]) <= 1e-9 * (m + fabs(c[k])))) return "the field given with the derivatives is another one";
            if (e.has_psi()) {
                double p = mf->EvalFlux(x, y, z); struct flux_diff f = *mf->EvalFluxDerivatives(x, y, z), fq = *mf->EvalFluxDerivatives(q), fv = *mf->EvalFluxDerivatives(v);
                if (!same_bits(p, mf->EvalFlux(q)) || !same_bits(p, mf->EvalFlux(v)) || !same_bits(f.psi, fq.psi) || !same_bits(f.psi, fv.psi) || !same_bits(f.dpsi_dR, fq.dpsi_dR) || !same_bits(f.dpsi_dR, fv.dpsi_dR) || !same_bits(f.dpsi_dZ, fq.dpsi_dZ) || !same_bits(f.dpsi_dZ, fv.dpsi_dZ)) return "the flux depends on how the point is given";
                if (!(fabs(f.psi - p) <= 1e-9 * (mp + fabs(p)))) return "the flux given with its derivatives is another one";
            }
        }
        if (e.has_psi()) { double p = mf->EvalFlux(e.R[i], 0, e.Z[j]);
            if (!(fabs(p - e.Psi[i + j * e.nr]) <= 1e-9 * mp)) { snprintf(b, sizeof b, "flux at grid point (%u,%u) is %.12g, should be %.12g", i, j, p, e.Psi[i + j * e.nr]); return b; } }
    }
    auto &dr = e.rwall.empty() ? e.rsep : e.rwall; auto &dz = e.rwall.empty() ? e.zsep : e.zwall;
    if (mf->GetNDomain() != dr.size()) return "the domain has the wrong number of points";
    for (size_t i = 0; i < dr.size(); i++) if (!same_bits(mf->GetRDomain()[i], dr[i]) || !same_bits(mf->GetZDomain()[i], dz[i])) return "the domain contour is wrong";
    {   // bounds of the domain, and of the plasma at the level of the axis
        double bd[4], w[4] = {e.axis[0], e.axis[0], e.axis[1], e.axis[1]}; mf->GetDomainBounds(bd[0], bd[1], bd[2], bd[3]);
        for (size_t i = 0; i < dr.size(); i++) { w[0] = fmin(w[0], dr[i]); w[1] = fmax(w[1], dr[i]); w[2] = fmin(w[2], dz[i]); w[3] = fmax(w[3], dz[i]); }
        for (int k = 0; k < 4; k++) if (!same_bits(bd[k], w[k])) { snprintf(b, sizeof b, "bound %d of the domain is %.12g, should be %.12g", k, bd[k], w[k]); return b; }
        auto &pr = e.rsep.empty() ? e.rwall : e.rsep; auto &pz = e.rsep.empty() ? e.zwall : e.zsep;
        double lo = 1e300, hi = -1e300; bool flat = false;
        for (size_t i = 0; i < pr.size(); i++) {
            size_t j = (i + 1) % pr.size(); double u = pz[i] - e.axis[1], v = pz[j] - e.axis[1];
            if (fabs(u) < 1e-9 || fabs(v) < 1e-9) flat = true;          // too close to tell
            if ((u > 0) != (v > 0)) { double x = pr[i] + (pr[j] - pr[i]) * (-u / (v - u)); lo = fmin(lo, x); hi = fmax(hi, x); }
        }
        if (!flat && hi > lo) {
            double gmin, gmax; if (e.nr & 1) gmin = mf->GetMinRadius(), gmax = mf->GetMaxRadius(); else gmax = mf->GetMaxRadius(), gmin = mf->GetMinRadius();
            if (!(fabs(gmin - lo) <= 1e-6) || !(fabs(gmax - hi) <= 1e-6)) { snprintf(b, sizeof b, "the plasma reaches from %.9g to %.9g at the level of the axis, should be %.9g to %.9g", gmin, gmax, lo, hi); return b; }
        }
    }
    if (mf->GetNSeparatrix() != e.rsep.size()) return "the separatrix has the wrong number of points";
    for (size_t i = 0; i < e.rsep.size(); i++) if (!same_bits(mf->GetRSeparatrix()[i], e.rsep[i]) || !same_bits(mf->GetZSeparatrix()[i], e.zsep[i])) return "the separatrix contour is wrong";
    if (mf->HasMagneticFlux() != e.has_psi()) return "presence of flux is wrong";
    if (mf->GetName() != e.name || mf->GetDescription() != e.desc) return "name or description is wrong";
    if (!same_bits(mf->GetMagneticAxisR(), e.axis[0]) || !same_bits(mf->GetMagneticAxisZ(), e.axis[1])) return "magnetic axis is wrong";
    return "";
}

} // namespace sim
