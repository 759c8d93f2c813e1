#include "distfile.h"
#include "eqfile.h"
#include <algorithm>
#include <cmath>
#include <climits>
#include <softlib/constants.h>
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/DistributionFunction/DREAMDistributionFunction.h>
#include <softlib/DistributionFunction/GOCODEDistributionFunction.h>
#include <softlib/DistributionFunction/LUKEDistributionFunction.h>
#include <softlib/DistributionFunction/SOFTDistributionFunction.h>
#include <softlib/DistributionFunction/deprSOFTDistributionFunction.h>
namespace sim {
const char *dkind_name[D_NKIND] = {"SOFT", "old SOFT", "LUKE", "CODE", "GO+CODE", "DREAM"};
std::string DistFile::describe() const {
    char b[200]; snprintf(b, sizeof b, "%s distribution in %s, %zu radii, %u times, %ux%u%s%s%s%s", dkind_name[kind], fmt_name[fmt], r.size(), nt, t[0][0].np, t[0][0].nxi, mf ? "" : ", no field", descending ? ", outermost first" : "", broken ? ", " : "", broken_how.c_str());
    return b;
}
static void vec(SFile *sf, const std::string &n, const std::vector<double> &v) {
    unsigned how = op(3);
    if (how == 0) sf->WriteList(n, v.data(), v.size());
    else if (how == 1) write_matrix(sf, n, v.data(), 1, v.size());
    else write_matrix(sf, n, v.data(), v.size(), 1);
}
static void write_code(SFile *sf, const std::string &g, const std::vector<Slice> &times, double delta, double nref, double Tref, int broken) {
    const Slice &s = times[0];
    std::vector<double> y, f;
    for (double p : s.p) y.push_back(p / delta);
    for (auto &q : times) f.insert(f.end(), q.f.begin(), q.f.end());
    if (broken != 1) vec(sf, g + "y", y);
    if (broken != 2) sf->WriteScalar(g + "delta", delta);
    if (nref > 0) sf->WriteScalar(g + "nref", nref);
    if (Tref > 0) sf->WriteScalar(g + "Tref", Tref);
    sf->WriteScalar(g + "Nxi", s.nxi + (broken == 3 ? (s.nxi > 1 && op(2) ? -1 : 1) : 0));
    if (broken != 4) write_matrix(sf, g + "f", f.data(), times.size(), (sfilesize_t)s.np * s.nxi);
}
bool dist_small = false;
DistFile gen_distfile(const char *stem, MagneticField2D *mf, bool may_break, bool sdt) {
    DistFile d;
    static const DKind plain[] = {D_SOFT, D_DEPR, D_CODE, D_GOCODE};
    d.kind = sdt ? plain[op(4)] : (DKind)op(D_NKIND);
    bool multi = d.kind == D_LUKE || d.kind == D_DREAM;
    d.fmt = sdt ? FMT_SDT : multi ? (maybe(500) ? FMT_MAT : FMT_HDF5) : (Fmt)op(3);
    d.file = path(std::string(stem) + "." + fmt_ext[d.fmt]);
    bool leg = d.kind == D_CODE || d.kind == D_GOCODE;
    bool radial = d.kind != D_CODE, shared = d.kind != D_SOFT && d.kind != D_GOCODE;
    unsigned nr = radial ? 1 + op(4) : 1;
    d.nt = leg || d.kind == D_DREAM ? 1 + op(3) : 1;
    d.positive = leg || !maybe(150);
    d.mf = mf;
    if ((d.kind == D_SOFT || d.kind == D_DREAM || d.kind == D_DEPR) && maybe(250)) d.mf = nullptr;
    d.broken = may_break && maybe(200) ? 1 + (int)op(6) : 0;
    if (d.broken && d.kind == D_DEPR && maybe(500)) d.broken = 4;
    bool zeros = d.zeros = d.positive && !leg && maybe(200);
    // cubic interpolation needs four points, the CODE interpolations up to five
    unsigned minp = dist_small ? 1 : leg ? 5 : 4, minxi = leg || dist_small ? 1 : 4;
    std::vector<Slice> proto;
    for (unsigned i = 0; i < (shared ? 1 : nr); i++) proto.push_back(gen_slice(leg, minp, minxi, d.positive));
    Rng g(op(1u << 16) * 11 + 5);
    for (unsigned k = 0; k < d.nt; k++) {
        d.t.emplace_back();
        for (unsigned i = 0; i < nr; i++) {
            Slice s = proto[shared ? 0 : i];
            if (k || i) for (auto &v : s.f) v *= 0.2 + 2 * g.unit();
            if (zeros) for (auto &v : s.f) if (g.below(8) == 0) v = 0;
            d.t[k].push_back(s);
        }
    }
    std::vector<double> rn = gen_increasing(g, nr, g.below(2) ? 0 : 0.05 + 0.2 * g.unit(), 0.4 + 0.5 * g.unit());
    if (nr == 1) rn[0] = g.below(2) ? 0 : 0.3;
    if (nr > 1 && (d.kind == D_DEPR || d.kind == D_LUKE) && d.broken != 6 && maybe(150)) { std::reverse(rn.begin(), rn.end()); d.descending = true; }
    if (!d.mf) for (auto &v : rn) v += 1;           // major radii already
    std::vector<double> stored = rn;
    if (d.broken == 6 && nr > 1 && (d.kind == D_SOFT || d.kind == D_GOCODE || d.kind == D_DREAM)) { std::swap(stored[0], stored[1]); d.broken_how = "radii out of order"; }
    else if (d.broken == 6) d.broken = 5;
    double delta = 1;
    SFile *sf = SFile::Create(d.file, SFILE_MODE_WRITE, fmt_type[d.fmt]);
    int b = d.broken;
    switch (d.kind) {
    case D_SOFT: {
        if (b == 1) { sf->WriteString("type", "distribution/other"); d.broken_how = "wrong type"; }
        else if (maybe(500)) sf->WriteString("type", "distribution/soft");
        if (b != 2) vec(sf, "r", stored); else d.broken_how = "no radii";
        unsigned bad = b ? (unsigned)g.below(nr) : 0;
        for (unsigned i = 0; i < nr; i++) {
            const Slice &s = d.t[0][i]; std::string n = "r" + std::to_string(i);
            sf->CreateStruct(n); n += "/";
            if (b == 3 && i == bad) { d.broken_how = "no p grid"; } else vec(sf, n + "p", s.p);
            vec(sf, n + "xi", s.xi);
            if (b == 4 && i == bad) { d.broken_how = "f of the wrong shape"; write_matrix(sf, n + "f", s.f.data(), s.nxi - 1, s.np); }
            else if (b == 5 && i == bad) d.broken_how = "no f";
            else write_matrix(sf, n + "f", s.f.data(), s.nxi, s.np);
        }
        break; }
    case D_DEPR: {
        const Slice &s = d.t[0][0];
        const char *un[] = {"normalized", "ev", "si"}; unsigned u = op(3);
        double nf = u == 0 ? 1 : u == 1 ? 5.109989461e5 : ELECTRON_MASS * LIGHTSPEED;
        std::vector<double> p, f, v;
        for (double x : s.p) p.push_back(u ? x * nf : x);
        for (auto &q : d.t[0]) f.insert(f.end(), q.f.begin(), q.f.end());
        if (b != 1) vec(sf, "r", stored); else d.broken_how = "no radii";
        vec(sf, "p", p); if (b != 2) vec(sf, "xi", s.xi); else d.broken_how = "no xi grid";
        unsigned shape = op(3); sfilesize_t N = f.size();
        if (b == 3) { d.broken_how = "f of the wrong shape"; if (shape == 0) write_matrix(sf, "f", f.data(), nr, N / nr - 1); else { long n = (long)N + (g.below(2) ? -1 - (long)g.below(3) : 1 + (long)g.below(3)); f.resize(n, 1); if (shape == 1) sf->WriteList("f", f.data(), n); else write_matrix(sf, "f", f.data(), n, 1); } }
        else if (shape == 0) write_matrix(sf, "f", f.data(), nr, N / nr);
        else if (shape == 1) sf->WriteList("f", f.data(), N);
        else write_matrix(sf, "f", f.data(), N, 1);
        unsigned ver = op(8); unsigned badv = b == 4 ? (unsigned)g.below(3) : 9;
        if (b == 4) { d.broken_how = "a verification vector that disagrees"; ver |= 1u << badv; }
        auto vv = [&](const char *n, unsigned cnt, unsigned step, bool bad) { std::vector<double> w; for (unsigned i = 0; i < cnt; i++) w.push_back(f[(size_t)i * step]); if (bad) { double &z = w[g.below(cnt)]; z += (g.below(2) ? 1 : -1) * (g.below(2) ? 2 * fabs(z) + 1 : fabs(z) * 1e-9 + 1e-12); } vec(sf, n, w); };
        if (ver & 1) vv("fp0", s.np, 1, badv == 0);
        if (ver & 2) vv("fxi0", s.nxi, s.np, badv == 1);
        if (ver & 4) vv("fr0", nr, s.np * s.nxi, badv == 2);
        sf->WriteString("punits", b == 5 ? "furlongs" : un[u]);
        if (b == 5) d.broken_how = "unknown units";
        if (u) for (auto &q : d.t[0]) for (unsigned j = 0; j < q.np; j++) q.p[j] = p[j] / nf;
        break; }
    case D_LUKE: {
        const Slice &s = d.t[0][0];
        double beta = 0.05 + g.unit(); std::vector<double> p, f;
        for (double x : s.p) p.push_back(x / beta);
        for (auto &q : d.t[0]) f.insert(f.end(), q.f.begin(), q.f.end());
        for (auto &q : d.t[0]) for (unsigned j = 0; j < q.np; j++) q.p[j] = p[j] * beta;
        if (b != 1) vec(sf, "xrhoG", stored); else d.broken_how = "no radii";
        if (b != 2) vec(sf, "pn", p); else d.broken_how = "no p grid";
        if (b != 3) sf->WriteScalar("betath_ref", beta); else d.broken_how = "no thermal speed";
        vec(sf, "mhu", s.xi);
        sfilesize_t dims[3] = {nr, s.nxi, s.np};
        if (b == 4) { d.broken_how = "f of the wrong shape"; dims[2]--; }
        if (b == 5) { d.broken_how = "two-dimensional f"; write_matrix(sf, "f", f.data(), nr * s.nxi, s.np); }
        else sf->WriteMultiArray("f", f.data(), 3, dims);
        break; }
    case D_CODE: case D_GOCODE: {
        delta = 0.02 + g.unit() * 0.3;
        double nref = maybe(400) ? 0.5 + g.unit() * 3 : 0, Tref = maybe(400) ? 0.3 + g.unit() * 3 : 0;
        int cb = b == 5 ? 4 : b > 4 ? 0 : b;
        static const char *how[] = {"", "no momentum grid", "no delta", "wrong number of modes", "no f"};
        if (cb) d.broken_how = how[cb];
        double nd = 2 * M_PI * ELECTRON_MASS * (Tref > 0 ? Tref : 1);
        d.norm = (nref > 0 ? nref : 1) / (sqrt(nd) * nd);
        if (d.kind == D_CODE) {
            if (maybe(400)) { d.group = "dist"; sf->CreateStruct(d.group); if (maybe(500)) d.group += "/"; }
            std::vector<Slice> ts; for (auto &q : d.t) ts.push_back(q[0]);
            write_code(sf, d.group.empty() ? "" : d.group.back() == '/' ? d.group : d.group + "/", ts, delta, nref, Tref, cb);
        } else {
            if (b == 5) { sf->WriteString("type", "distribution/soft"); d.broken_how = "wrong type"; cb = 0; }
            else if (maybe(500)) sf->WriteString("type", "distribution/gocode");
            vec(sf, "r", stored);
            sf->WriteScalar("nt", d.nt);
            unsigned bi = (unsigned)g.below(nr);
            for (unsigned k = 0; k < d.nt; k++) {
                std::string tn = "t" + std::to_string(k); sf->CreateStruct(tn);
                for (unsigned i = 0; i < nr; i++) {
                    std::string n = tn + "/r" + std::to_string(i); sf->CreateStruct(n);
                    write_code(sf, n + "/", {d.t[k][i]}, delta, nref, Tref, i == bi ? cb : 0);
                }
            }
        }
        for (auto &q : d.t) for (auto &s : q) {
            for (unsigned j = 0; j < s.np; j++) s.p[j] = (s.p[j] / delta) * delta;
            for (auto &v : s.f) v *= d.norm;
        }
        break; }
    case D_DREAM: {
        const Slice &s = d.t[0][0];
        unsigned which = op(4);       // re, hot, both (loads re), hot by name
        std::vector<double> f, tt;
        for (auto &q : d.t) for (auto &x : q) f.insert(f.end(), x.f.begin(), x.f.end());
        for (unsigned k = 0; k < d.nt; k++) tt.push_back(k * 0.5);
        sf->CreateStruct("eqsys"); sf->CreateStruct("grid");
        sfilesize_t dims[4] = {d.nt, nr, s.nxi, s.np};
        std::string dn = which == 1 || which == 3 ? "f_hot" : "f_re", mg = dn == "f_re" ? "grid/runaway" : "grid/hottail";
        if (b == 1) { d.broken_how = "no distribution of that name"; d.distname = "f_other"; }
        else if (which == 3) d.distname = maybe(500) ? "f_hot" : "/eqsys/f_hot";
        if (b == 2) { dims[3]--; d.broken_how = "f of the wrong shape"; }
        if (b == 3) { sfilesize_t d3[3] = {d.nt * nr, s.nxi, s.np}; d.broken_how = "three-dimensional f"; sf->WriteMultiArray("eqsys/" + dn, f.data(), 3, d3); }
        else sf->WriteMultiArray("eqsys/" + dn, f.data(), 4, dims);
        if (which >= 2) { std::vector<double> z(f.size(), 7); std::string on = dn == "f_re" ? "f_hot" : "f_re"; sf->WriteMultiArray("eqsys/" + on, z.data(), 4, dims);
            std::string og = dn == "f_re" ? "grid/hottail" : "grid/runaway"; sf->CreateStruct(og); unsigned full = maybe(600); sf->WriteList(og + "/p1", s.p.data(), s.np - 1 + full); sf->WriteList(og + "/p2", s.xi.data(), s.nxi - 1 + full); }
        sf->WriteList("grid/t", tt.data(), tt.size());
        if (b == 4) d.broken_how = "no radii"; else sf->WriteList("grid/r", stored.data(), stored.size());
        sf->CreateStruct(mg);
        if (b == 5) d.broken_how = "no p grid"; else sf->WriteList(mg + "/p1", s.p.data(), s.np);
        sf->WriteList(mg + "/p2", s.xi.data(), s.nxi);
        break; }
    default: break;
    }
    sf->Close(); delete sf;
    if (d.kind == D_LUKE) { double a = mf->GetMagneticAxisR(), m = mf->GetMaxRadius(); for (double x : rn) d.r.push_back(a + x * (m - a)); }
    else if (d.kind == D_DEPR) d.r = rn;            // major radii, not shifted
    else if (d.kind == D_CODE) d.r = {};
    else for (double x : rn) d.r.push_back(d.mf ? x + d.mf->GetMagneticAxisR() : x);
    return d;
}
LoadReq gen_request(const DistFile &f) {
    LoadReq q;
    bool leg = f.kind == D_CODE || f.kind == D_GOCODE;
    q.lg = !leg && f.positive && maybe(500);
    q.cubic = !leg && !(q.lg && f.zeros) && maybe(400);
    if (leg) { static const int safe[] = {CODEDistributionFunction::INTERPOLATION_LINEAR, CODEDistributionFunction::INTERPOLATION_CSPLINE, CODEDistributionFunction::INTERPOLATION_AKIMA, CODEDistributionFunction::INTERPOLATION_STEFFEN, CODEDistributionFunction::INTERPOLATION_POLYNOMIAL}; q.interp = safe[maybe(400) ? 1 + op(4) : 0]; }
    int n = (int)f.nt;
    unsigned k = weighted({6, 3, 1});
    if (k == 0) q.time = (int)op(n);
    else if (k == 1) q.time = -1 - (int)op(n);
    else { int bad[] = {n, n + 1, -n - 1, -n - 2, INT_MIN, INT_MAX, n + 1000, -1000000}; q.time = bad[op(8)]; }
    if (!leg && f.kind != D_DREAM) q.time = -1;
    if ((f.kind == D_SOFT || f.kind == D_DEPR || f.kind == D_LUKE) && maybe(350)) q.radindex = maybe(150) ? (int)(f.r.size() + (maybe(500) ? 0 : op(1000000))) : (int)op((uint32_t)f.r.size());
    return q;
}
static int slice_index(const DistFile &f, const LoadReq &q) { return q.time >= 0 ? q.time : (int)f.nt + q.time; }
bool request_valid(const DistFile &f, const LoadReq &q) {
    bool timed = f.kind == D_CODE || f.kind == D_GOCODE || f.kind == D_DREAM;
    if (timed) { int64_t t = q.time; if (t < 0) t += f.nt; if (t < 0 || t >= f.nt) return false; }
    return q.radindex < (int)f.r.size() || q.radindex < 0;
}
DistModel model_of(const DistFile &f, const LoadReq &q) {
    DistModel m;
    bool timed = f.kind == D_CODE || f.kind == D_GOCODE || f.kind == D_DREAM;
    m.s = f.t[timed ? slice_index(f, q) : 0]; m.r = f.r;
    if (f.descending && q.radindex < 0) { std::reverse(m.r.begin(), m.r.end()); std::reverse(m.s.begin(), m.s.end()); }
    if (q.radindex >= 0) { m.s = {m.s[q.radindex]}; m.r = {}; }
    m.lg = q.lg; m.linear = !q.cubic && q.interp == CODEDistributionFunction::INTERPOLATION_LINEAR;
    return m;
}
DistributionFunction *load_dist(const DistFile &f, const LoadReq &q) {
    int it = q.cubic ? NumericDistributionFunction::INTERPOLATION_CUBIC : NumericDistributionFunction::INTERPOLATION_LINEAR;
    int mit = q.cubic ? NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC : NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR;
    switch (f.kind) {
    case D_SOFT: if (q.radindex >= 0) return SOFTDistributionFunction::LoadMomentumSpace(f.file, f.mf, q.lg, q.radindex, mit); return new SOFTDistributionFunction(f.file, f.mf, q.lg, it);
    case D_DEPR: if (q.radindex >= 0) return deprSOFTDistributionFunction::LoadMomentumSpace(f.file, f.mf, q.lg, q.radindex, mit); return new deprSOFTDistributionFunction(f.file, f.mf, q.lg, it);
    case D_LUKE: if (q.radindex >= 0) return LUKEDistributionFunction::LoadMomentumSpace(f.file, f.mf, q.lg, q.radindex, mit); return new LUKEDistributionFunction(f.file, f.mf, q.lg, it);
    case D_CODE: return new CODEDistributionFunction(f.file, q.time, q.interp, f.group);
    case D_GOCODE: return new GOCODEDistributionFunction(f.file, f.mf, q.time, q.interp);
    default: return new DREAMDistributionFunction(f.file, f.mf, f.distname, q.time, q.lg, it);
    }
}
}
