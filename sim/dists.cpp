#include "dists.h"
#include <cmath>
namespace sim {
static unsigned locate(const std::vector<double> &g, double x) {
    unsigned i = 0;
    while (i + 2 < g.size() && x >= g[i + 1]) i++;
    return i;
}
double Slice::fmax() const { double m = 0; for (double v : f) m = std::max(m, fabs(v)); return m * (legendre ? nxi : 1); }
double Slice::at_node(unsigned j, unsigned k) const { return f[k * np + j]; }
double Slice::eval(double x, double y, bool lg) const {
    if (x < p.front() || x > p.back()) return 0;
    unsigned j = locate(p, x);
    double u = (x - p[j]) / (p[j + 1] - p[j]);
    if (legendre) {
        double s = 0;
        for (unsigned l = 0; l < nxi; l++) s += ((1 - u) * f[l * np + j] + u * f[l * np + j + 1]) * std::legendre(l, y) * (l % 2 ? -1 : 1);
        return s > 0 ? s : 0;
    }
    if (y < xi.front() || y > xi.back()) return 0;
    unsigned k = locate(xi, y);
    double v = (y - xi[k]) / (xi[k + 1] - xi[k]);
    auto g = [&](unsigned a, unsigned b) { double z = f[b * np + a]; return lg ? log(z) : z; };
    if (lg) {                                           // next to a zero the logarithm says nothing, except at the zero itself
        bool zero = false;
        for (unsigned a = j; a < j + 2; a++) for (unsigned b = k; b < k + 2; b++) if (f[b * np + a] <= 0) {
            if (fabs(x - p[a]) <= 1e-9 * (p[j + 1] - p[j]) && fabs(y - xi[b]) <= 1e-9 * (xi[k + 1] - xi[k])) return 0;
            zero = true;
        }
        if (zero) return NAN;
    }
    double z = (1 - u) * (1 - v) * g(j, k) + u * (1 - v) * g(j + 1, k) + (1 - u) * v * g(j, k + 1) + u * v * g(j + 1, k + 1);
    return lg ? exp(z) : z;
}
std::vector<double> gen_increasing(Rng &r, unsigned n, double lo, double hi) {
    std::vector<double> v; double x = 0; std::vector<double> c;
    for (unsigned i = 0; i < n; i++) { c.push_back(x); x += 0.3 + r.unit(); }
    double top = n > 1 ? c.back() : 1;
    for (double y : c) v.push_back(lo + (hi - lo) * y / top);
    if (n > 1) v.back() = hi;
    return v;
}
Slice gen_slice(bool legendre, unsigned minp, unsigned minxi, bool positive) {
    Slice s; s.legendre = legendre;
    s.np = minp + op(5); s.nxi = minxi + op(5);
    Rng r(op(1u << 16) * 31 + 7);
    s.p = gen_increasing(r, s.np, r.unit() * 2, 3 + r.unit() * 40);
    if (!legendre) { double a = r.below(2) ? -1 : -r.unit(), b = r.below(2) ? 1 : r.unit(); s.xi = gen_increasing(r, s.nxi, a, b + 0.01); if (s.xi.back() > 1) s.xi.back() = 1; }
    for (unsigned i = 0; i < s.np * s.nxi; i++) {
        double v = pow(10, r.unit() * 3 - 1.5);
        if (legendre && i >= s.np) v *= 0.4 * (r.unit() - 0.5);
        if (!positive && !legendre && r.below(3) == 0) v = -v;
        s.f.push_back(v);
    }
    return s;
}
double DistModel::scale() const { double m = 0; for (auto &x : s) m = std::max(m, x.fmax()); return m; }
double DistModel::eval(double rho, double p, double xi) const {
    if (r.size() <= 1) return s[0].eval(p, xi, lg);
    unsigned i = locate(r, rho);
    double u = (rho - r[i]) / (r[i + 1] - r[i]);
    return (1 - u) * s[i].eval(p, xi, lg) + u * s[i + 1].eval(p, xi, lg);
}
std::vector<EvPt> gen_evpoints(const DistModel &m, unsigned n) {
    std::vector<EvPt> v;
    Rng r(op(1u << 16) * 13 + 1);
    unsigned ns = (unsigned)m.s.size();
    auto inside = [](double x, const std::vector<double> &g) { double w = (g.back() - g.front()) * 1e-12; return fmin(fmax(x, g.front() + w), g.back() - w); };
    for (unsigned q = 0; q < n; q++) {
        unsigned i = (unsigned)r.below(ns); const Slice &s = m.s[i];
        EvPt e; e.modelled = true; e.drift = r.below(4) ? 0 : (r.unit() - 0.5) * 0.2;
        double rho = m.r.empty() ? 1 : m.r[i];
        bool node = r.below(2);
        e.p = inside(s.p[r.below(s.np)], s.p);
        e.xi = s.legendre ? -1 + 2 * r.unit() : inside(s.xi[r.below(s.nxi)], s.xi);
        if (!node) {                                    // anywhere within the grids
            e.p = inside(s.p.front() + (s.p.back() - s.p.front()) * r.unit(), s.p);
            if (!s.legendre) e.xi = inside(s.xi.front() + (s.xi.back() - s.xi.front()) * r.unit(), s.xi);
            if (m.r.size() > 1) rho = m.r.front() + (m.r.back() - m.r.front()) * r.unit();
            e.modelled = m.linear;
        }
        if (m.r.size() == 1 && r.below(3) == 0) rho = 0;
        e.r = rho + e.drift;
        if (r.below(12) == 0) { e.p = s.p.back() + 1 + r.unit(); for (auto &t : m.s) e.p = std::max(e.p, t.p.back() + 1); e.modelled = true; }   // beyond the momentum grid: zero
        v.push_back(e);
        // the same point, or one very close, again: caches and accelerators
        if (r.below(5) == 0) v.push_back(v[r.below(v.size())]);
        if (r.below(4) == 0) {
            EvPt c = v[r.below(v.size())]; unsigned how = r.below(4);
            if (how == 0 && s.legendre) c.xi = r.below(3) - 1.0;
            else if (how == 1 && s.legendre) c.xi = (float)c.xi;
            else { double d = pow(10, -2 - 13 * r.unit()) * (r.below(2) ? 1 : -1); if (r.below(2)) c.xi += d; else c.p *= 1 + d; c.modelled = m.linear; }
            bool in = c.xi >= -1 && c.xi <= 1;
            for (auto &t : m.s) in &= c.p >= t.p.front() && c.p <= t.p.back() && (t.legendre || (c.xi > t.xi.front() && c.xi < t.xi.back()));
            if (in) v.push_back(c);
        }
    }
    // outside the radial grid
    for (unsigned q = 0; q < 2 && m.r.size(); q++) {
        EvPt e = v[r.below(v.size())];
        e.r = (q ? m.r.back() : m.r.front()) + (q ? 1 : -1) * 0.1 * r.unit() + e.drift; e.modelled = false;
        v.push_back(e);
    }
    return v;
}
std::vector<double> evaluate(DistributionFunction *d, const std::vector<EvPt> &pts) {
    std::vector<double> v;
    for (auto &e : pts) v.push_back(d->Eval(e.r, e.p, e.xi, e.drift));
    return v;
}
std::string against_model(DistributionFunction *d, const DistModel &m, const std::vector<EvPt> &pts) {
    double sc = m.scale(); char b[300];
    for (auto &e : pts) {
        if (!e.modelled) continue;
        double g = d->Eval(e.r, e.p, e.xi, e.drift), w = m.eval(e.r - e.drift, e.p, e.xi);
        checked();
        if (std::isnan(w)) continue;
        if (!(fabs(g - w) <= 1e-8 * sc)) { snprintf(b, sizeof b, "f(r=%.6g,p=%.6g,xi=%.6g,drift=%.3g) is %.12g, should be %.12g", e.r, e.p, e.xi, e.drift, g, w); return b; }
    }
    return "";
}
std::string diff_values(const std::vector<double> &a, const std::vector<double> &b, const std::vector<EvPt> &pts) {
    char t[300];
    for (size_t i = 0; i < pts.size(); i++) {
        if (!same_bits(a[i], b[i])) { snprintf(t, sizeof t, "f(r=%.6g,p=%.6g,xi=%.6g,drift=%.3g) is %.17g, should be %.17g", pts[i].r, pts[i].p, pts[i].xi, pts[i].drift, a[i], b[i]); return t; }
        checked();
    }
    return "";
}
}
