#include "eqfile.h"
#include <cmath>
namespace sim {
void write_matrix(SFile *sf, const std::string &name, const double *a, sfilesize_t rows, sfilesize_t cols) {
    std::vector<const double *> r;
    for (sfilesize_t i = 0; i < rows; i++) r.push_back(a + i * cols);
    sf->WriteArray(name, (double **)r.data(), rows, cols);
}
EqVariant gen_variant() {
    EqVariant v;
    v.transpose = maybe(300); v.wall_rows = maybe(400); v.sep_rows = maybe(400);
    v.ver = op(8);
    v.broken = maybe(150) ? 1 + (int)op(12) : 0;
    return v;
}
static void write_contour(SFile *sf, const char *n, const std::vector<double> &r, const std::vector<double> &z, bool rows) {
    std::vector<double> d;
    if (!rows) { d = r; d.insert(d.end(), z.begin(), z.end()); write_matrix(sf, n, d.data(), 2, r.size()); }
    else { for (size_t i = 0; i < r.size(); i++) { d.push_back(r[i]); d.push_back(z[i]); } write_matrix(sf, n, d.data(), r.size(), 2); }
}
void write_equil(const std::string &p, Fmt f, const Equil &e, const EqVariant &v) {
    SFile *sf = SFile::Create(p, SFILE_MODE_WRITE, fmt_type[f]);
    bool tr = v.transpose && e.nr != e.nz;
    auto field = [&](const char *n, const std::vector<double> &a) {
        if (!tr) { write_matrix(sf, n, a.data(), e.nz, e.nr); return; }
        std::vector<double> t;
        for (unsigned i = 0; i < e.nr; i++) for (unsigned j = 0; j < e.nz; j++) t.push_back(a[i + j * e.nr]);
        write_matrix(sf, n, t.data(), e.nr, e.nz);
    };
    // broken: 1-9 a required part is missing, 10-12 a verification vector disagrees
    if (v.broken != 1) sf->WriteString("name", e.name);
    if (v.broken != 2) sf->WriteString("desc", e.desc);
    if (v.broken != 3) { double ax[3] = {e.axis[0], e.axis[1], 0}; sf->WriteList("maxis", ax, v.broken == 9 ? 3 : 2); }
    if (v.broken != 4) sf->WriteList("r", e.R.data(), e.nr);
    if (v.broken != 5) sf->WriteList("z", e.Z.data(), e.nz);
    if (v.broken != 6) field("Br", e.Br);
    if (v.broken != 7) field("Bphi", e.Bphi);
    if (v.broken != 8) field("Bz", e.Bz);
    auto ver = [&](const char *n, const std::vector<double> &a, bool bad) { std::vector<double> t(a.begin(), a.begin() + e.nr); if (bad) t[e.nr / 2] += 1 + fabs(t[e.nr / 2]); sf->WriteList(n, t.data(), e.nr); };
    if (v.ver & 1 || v.broken == 10) ver("verBr", e.Br, v.broken == 10);
    if (v.ver & 2 || v.broken == 11) ver("verBphi", e.Bphi, v.broken == 11);
    if (v.ver & 4 || v.broken == 12) ver("verBz", e.Bz, v.broken == 12);
    if (e.has_psi()) field("Psi", e.Psi);
    if (!e.rwall.empty()) write_contour(sf, "wall", e.rwall, e.zwall, v.wall_rows);
    if (!e.rsep.empty()) write_contour(sf, "separatrix", e.rsep, e.zsep, v.sep_rows);
    sf->Close();
    delete sf;
}

Luke write_luke(const std::string &p, Fmt f, const std::string &wallp, Fmt wf) {
    unsigned nx = 4 + op(10), ny = 4 + op(10), np = 3 + op(8), nt = 5 + op(14);
    bool neg = maybe(300), rows = maybe(500); unsigned nw = 3 + op(10);
    Rng r(op(1u << 16) * 17 + 3);
    Luke l; l.wall_rows = rows;
    l.id = "LUKE " + std::to_string(r.below(100000));
    l.Rp = 1 + r.unit() * 2; l.Zp = r.unit() - 0.5; l.psia = (neg ? -1 : 1) * (0.2 + r.unit());
    double a = 0.3 + 0.5 * r.unit();
    for (unsigned i = 0; i < nx; i++) l.x.push_back(-a * 1.1 + 2.2 * a * i / (nx - 1));
    for (unsigned i = 0; i < ny; i++) l.y.push_back(-a * 1.1 + 2.2 * a * i / (ny - 1));
    for (unsigned i = 0; i < np; i++) l.psi.push_back(l.psia * i / (np - 1));
    for (unsigned i = 0; i < nt; i++) l.theta.push_back(2 * M_PI * i / (nt - 1));
    std::vector<double> xy, bx, by, bp, px, py;
    for (unsigned j = 0; j < ny; j++) for (unsigned i = 0; i < nx; i++) xy.push_back((l.x[i] * l.x[i] + l.y[j] * l.y[j]) / (a * a) * (0.95 + 0.1 * r.unit()));
    for (unsigned j = 0; j < nt; j++) for (unsigned i = 0; i < np; i++) {
        double rho = a * sqrt(i / (double)(np - 1)), t = l.theta[j];
        bx.push_back(0.3 * rho * sin(t) + 0.01 * r.unit()); by.push_back(-0.3 * rho * cos(t) + 0.01 * r.unit()); bp.push_back(3 / (l.Rp + rho * cos(t)));
        px.push_back(rho * cos(t)); py.push_back(rho * sin(t));
        if (i == np - 1) { l.rsep.push_back(px.back() + l.Rp); l.zsep.push_back(py.back() + l.Zp); }
    }
    SFile *sf = SFile::Create(p, SFILE_MODE_WRITE, fmt_type[f]);
    sf->CreateStruct("equil"); sf->CreateStruct("equil/eqdsk");
    sf->WriteString("equil/id", l.id);
    sf->WriteScalar("equil/Rp", l.Rp); sf->WriteScalar("equil/Zp", l.Zp); sf->WriteScalar("equil/eqdsk/psia", l.psia);
    sf->WriteList("equil/eqdsk/x", l.x.data(), nx); sf->WriteList("equil/eqdsk/y", l.y.data(), ny);
    write_matrix(sf, "equil/eqdsk/xypsin", xy.data(), ny, nx);
    sf->WriteList("equil/psi_apRp", l.psi.data(), np); sf->WriteList("equil/theta", l.theta.data(), nt);
    write_matrix(sf, "equil/ptBx", bx.data(), nt, np); write_matrix(sf, "equil/ptBy", by.data(), nt, np); write_matrix(sf, "equil/ptBPHI", bp.data(), nt, np);
    write_matrix(sf, "equil/ptx", px.data(), nt, np); write_matrix(sf, "equil/pty", py.data(), nt, np);
    sf->Close(); delete sf;
    if (!wallp.empty()) {
        std::vector<double> d;
        for (unsigned i = 0; i < nw; i++) { double t = 2 * M_PI * i / nw; l.rwall.push_back(l.Rp + 1.3 * a * cos(t)); l.zwall.push_back(l.Zp + 1.3 * a * sin(t)); }
        sf = SFile::Create(wallp, SFILE_MODE_WRITE, fmt_type[wf]);
        write_contour(sf, "wall", l.rwall, l.zwall, rows);
        sf->Close(); delete sf;
    }
    // the same, worked out here: bilinear in (normalised flux, angle), continued outside the last flux surface
    Equil &e = l.e; e.nr = nx; e.nz = ny; e.name = e.desc = l.id; e.axis[0] = l.Rp; e.axis[1] = l.Zp;
    for (double v : l.x) e.R.push_back(v + l.Rp);
    for (double v : l.y) e.Z.push_back(v + l.Zp);
    for (unsigned j = 0; j < ny; j++) for (unsigned i = 0; i < nx; i++) {
        double pn = fabs(xy[i + j * nx]), t = atan2(l.y[j], l.x[i]); if (t < 0) t += 2 * M_PI;
        unsigned a = std::min<unsigned>(np - 2, (unsigned)(pn * (np - 1))), b = std::min<unsigned>(nt - 2, (unsigned)(t / (2 * M_PI) * (nt - 1)));
        double u = pn * (np - 1) - a, v = t / (2 * M_PI) * (nt - 1) - b;
        auto at = [&](const std::vector<double> &f) { return (1 - u) * (1 - v) * f[a + b * np] + u * (1 - v) * f[a + 1 + b * np] + (1 - u) * v * f[a + (b + 1) * np] + u * v * f[a + 1 + (b + 1) * np]; };
        e.Br.push_back(at(bx)); e.Bphi.push_back(at(bp)); e.Bz.push_back(at(by)); e.Psi.push_back(xy[i + j * nx] * l.psia);
    }
    e.rsep = l.rsep; e.zsep = l.zsep; e.rwall = l.rwall; e.zwall = l.zwall;
    return l;
}
}
