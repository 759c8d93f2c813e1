// T05: threads that each work with objects of their own.
#include "cfgmodel.h"
#include "distfile.h"
#include "dists.h"
#include "simthreads.h"
#include "eqfile.h"
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/ImageGenerator/ImageGenerator.h>
#include <softlib/Integration/PeakedIntegration.h>
#include <softlib/Matrix.h>
#include <softlib/RKDP45.h>
#include <softlib/SFile.h>
#include <softlib/SOFTLibException.h>
#include <softlib/Timer.h>
#include <cmath>
#include <unistd.h>
using namespace sim;

struct Res { std::vector<double> v; std::string s; };
struct Work { std::string what; std::function<Res(const std::string &)> run; };  // argument: prefix for its files

struct Osc : IntegratorEquation<2> {
    double w; Vector<2> &Evaluate(const slibreal_t, const Vector<2> &y, Vector<2> &r) override { r[0] = y[1]; r[1] = -w * w * y[0]; return r; }
};
static std::string file_text(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return "(none)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

static Work gen_work(bool &included) {
    Work w;
    unsigned kind = op(16);
    if (kind == 9) { if (included) kind = 1; included = true; }      // the included files have fixed names
    switch (kind) {
    case 0: { double om = 0.5 + op(8), tol = op(2) ? 1e-4 : 1e-8; unsigned n = 3 + op(25), k = 2 + op(6); w.what = "integrating";
        w.run = [=](const std::string &) { Osc e; e.w = om; RKDP45<2> s(tol); s.SetEquation(&e); s.ToggleDenseOutput(true); Vector<2> y; y[0] = 1; y[1] = 0.5; s.InitialValue(y); Res r;
            for (unsigned i = 0; i < n; i++) { r.v.push_back(s.Step()); r.v.push_back(s.LastSolution()[0]); }
            std::vector<double> o(2 * k), t(k); s.OutputDense(k, 0, s.LastTime(), o.data(), t.data()); for (double x : o) r.v.push_back(x); return r; }; break; }
    case 1: { auto t = std::make_shared<CText>(); CfgOpt o; o.includes = false; gen_config(*t, o); w.what = "configuration";
        w.run = [=](const std::string &) { ConfigurationScript c; cfg_register(c); c.FromString(t->text, "text"); Res r; r.v.push_back(c.HasError()); r.s = cfg_diff(c.GetRootBlock(), t->root); ConfigurationScript d(c); r.s += cfg_diff(d.GetRootBlock(), t->root);
            std::unique_ptr<std::vector<std::string>> u(c.Merge(d, true)); r.s += cfg_diff(c.GetRootBlock(), t->root); r.s += cfg_diff(d.GetRootBlock(), t->root); return r; }; break; }
    case 2: { double m = op(10), g = 0.1 + 0.1 * op(5); w.what = "quadrature";
        w.run = [=](const std::string &) { std::function<double(double)> f = [=](double x) { return exp(-(x - m) * (x - m) * g); }; PeakedIntegration p; Res r; r.v.push_back(p.Evaluate(f, m - 20, m + 20, 0.1, 1e-3, m, f(m))); return r; }; break; }
    case 3: { Equil e = gen_equil(7); PointSet ps = gen_points(e.R.front(), e.R.back(), e.Z.front(), e.Z.back(), 3); w.what = "numeric field";
        w.run = [=](const std::string &) { std::unique_ptr<MagneticFieldNumeric2D> m(make_field(e)); Obs o = observe(m.get(), ps, false); Res r; r.v = o.v; r.s = o.name; return r; }; break; }
    case 4: { double Rm = 1 + 0.5 * op(8), rm = Rm * (0.1 + 0.1 * op(4)), z = 0.25 * op(4), q = 1 + op(3); unsigned n = 5 + op(4), t = op(5); PointSet ps = gen_points(Rm - rm, Rm + rm, z - rm, z + rm, 3); w.what = "analytical field";
        w.run = [=](const std::string &) { static const MFASafetyFactorType ty[] = {MFASF_CONSTANT, MFASF_LINEAR, MFASF_QUADRATIC, MFASF_EXPONENTIAL, MFASF_CURRENT};
            MagneticFieldAnalytical2D m(5, Rm, z, rm, MFAFS_CCW, MFAFS_CW, ty[t], q, 1.5, "a", "b"); Obs o = observe(&m, ps, false); std::unique_ptr<MagneticFieldNumeric2D> g(m.ToNumeric2D(n, n)); Obs p = observe(g.get(), ps, false); Res r; r.v = o.v; r.v.insert(r.v.end(), p.v.begin(), p.v.end()); r.s = o.name; return r; }; break; }
    case 5: { unsigned n = 1 + op(6), m = 1 + op(6); std::vector<double> a(n * m); Rng g(op(65536)); for (auto &x : a) x = g.unit() * 100 - 50; w.what = "SDT file";
        w.run = [=](const std::string &pre) { std::string p = path(pre + "d.sdt"); Res r; std::vector<const double *> row; for (unsigned i = 0; i < n; i++) row.push_back(&a[i * m]);
            { std::unique_ptr<SFile> s(SFile::Create(p, SFILE_MODE_WRITE)); s->WriteArray("a", row.data(), n, m); s->WriteString("s", "text of " + std::to_string(n)); s->WriteList("l", a.data(), n * m); s->Close(); }
            { std::unique_ptr<SFile> s(SFile::Create(p, SFILE_MODE_READ)); sfilesize_t d[2]; double **q = s->GetDoubles("a", d); r.v.push_back(d[0]); r.v.push_back(d[1]); for (unsigned i = 0; i < n * m; i++) r.v.push_back(q[0][i]); r.s = s->GetString("s"); r.s += s->HasVariable("none") ? "?" : "";
              std::string x; if (throws([&] { s->GetScalar("missing"); }, &x)) r.s += x; s->Close(); }
            unlink(p.c_str()); return r; }; break; }
    case 6: { unsigned n = 1 + op(9), m = 1 + op(9); std::vector<double> a(n * m); Rng g(op(65536)); for (auto &x : a) x = g.unit(); bool gray = op(2); w.what = "image";
        w.run = [=](const std::string &pre) { std::string p = path(pre + "i.ppm"); ImageGenerator::gen(ImageGenerator::IMAGE_TYPE_PPM, p, a.data(), n, m, gray ? ImageGenerator::COLORMAP_GRAY : ImageGenerator::COLORMAP_GERIMAP); Res r; r.s = file_text(p); unlink(p.c_str()); return r; }; break; }
    case 7: { Slice s = gen_slice(true, 6, 2); for (auto &v : s.f) v = fabs(v) + 0.1; unsigned n = 3 + op(4); double E = 2 + op(30); w.what = "distributions";
        w.run = [=](const std::string &) { Slice t = s; CODEDistributionFunction d; d.Initialize(t.np, t.nxi, t.p.data(), t.f.data()); std::unique_ptr<NumericMomentumSpaceDistributionFunction> q(d.ToMomentumSpace(false, true, n)); AnalyticalAvalanche av(E, 15, 2); ConnorHastieDistribution ch(E, 2); Res r;
            for (int i = 0; i < 6; i++) { double p = t.p.front() + (t.p.back() - t.p.front()) * (i + 0.5) / 6, x = -0.9 + 0.3 * i; r.v.push_back(d.Eval(p, x)); r.v.push_back(q->Eval(p, x)); r.v.push_back(av.Eval(p, x)); r.v.push_back(ch.Eval(p, x)); } return r; }; break; }
    case 8: { Equil e = gen_equil(6); EqVariant v = gen_variant(); v.broken = 0; PointSet ps = gen_points(e.R.front(), e.R.back(), e.Z.front(), e.Z.back(), 3); w.what = "equilibrium file";
        w.run = [=](const std::string &pre) { std::string p = path(pre + "e.sdt"); Res r; write_equil(p, FMT_SDT, e, v); r.s = file_text(p);
            std::unique_ptr<MagneticFieldNumeric2D> m(new MagneticFieldNumeric2D(p)); Obs o = observe(m.get(), ps, false); r.v = o.v; r.s += o.name + o.desc; unlink(p.c_str()); return r; }; break; }
    case 9: { auto t = std::make_shared<CText>(); gen_config(*t, CfgOpt()); cfg_spit(*t); bool broken = op(4) == 3; if (broken) t->text += " }"; w.what = "configuration file";
        w.run = [=](const std::string &pre) { std::string p = path(pre + "c.cfg"); spit(p, t->text); ConfigurationScript c; cfg_register(c); Res r; throws([&] { c.FromFile(p); }, &r.s); size_t k; while ((k = r.s.find(p)) != std::string::npos) r.s.erase(k, p.size()); r.v.push_back(c.HasError()); if (!broken) r.s += cfg_diff(c.GetRootBlock(), t->root); unlink(p.c_str()); return r; }; break; }
    case 10: { auto an = std::shared_ptr<MagneticFieldAnalytical2D>(new MagneticFieldAnalytical2D(5, 1.7, 0, 0.5, MFAFS_CCW, MFAFS_CW, MFASF_CONSTANT, 1, 0, "a", "b"));
        auto f = std::make_shared<DistFile>(gen_distfile("shared", an.get(), true, true)); LoadReq q = gen_request(*f); bool ok = request_valid(*f, q) && !f->broken; auto pts = ok ? gen_evpoints(model_of(*f, q), 6) : std::vector<EvPt>(); std::string text = file_text(f->file); bool field = f->mf; w.what = std::string(dkind_name[f->kind]) + " distribution file";
        w.run = [=](const std::string &pre) { DistFile g = *f; g.file = path(pre + "f.sdt"); spit(g.file, text); MagneticFieldAnalytical2D own(5, 1.7, 0, 0.5, MFAFS_CCW, MFAFS_CW, MFASF_CONSTANT, 1, 0, "a", "b"); g.mf = field ? &own : nullptr; Res r; std::unique_ptr<DistributionFunction> d;
            if (!throws([&] { d.reset(load_dist(g, q)); }, &r.s)) { r.v = evaluate(d.get(), pts); std::unique_ptr<DistributionFunction> c(d->MinClone()); for (double x : evaluate(c.get(), pts)) r.v.push_back(x); c.reset(); } else { size_t k; while ((k = r.s.find(g.file)) != std::string::npos) r.s.erase(k, g.file.size()); }
            unlink(g.file.c_str()); return r; }; break; }
    case 11: { unsigned nr = 1 + op(4); DistModel m; m.lg = op(2); bool cubic = op(2); { Rng g(op(1u << 16)); m.r = gen_increasing(g, nr, 1 + g.unit(), 2.5 + g.unit()); } for (unsigned i = 0; i < nr; i++) m.s.push_back(gen_slice(false, 4, 4));
        std::vector<unsigned> order; for (unsigned i = 0; i < nr; i++) order.insert(order.begin() + op(i + 1), i); auto pts = gen_evpoints(m, 6); w.what = "inserting";
        w.run = [=](const std::string &) { std::vector<Slice> k = m.s; NumericDistributionFunction d; int it = cubic ? NumericDistributionFunction::INTERPOLATION_CUBIC : NumericDistributionFunction::INTERPOLATION_LINEAR;
            for (unsigned i : order) { Slice &s = k[i]; if (m.lg) d.InsertMomentumSpaceDistributionLog(s.np, s.nxi, m.r[i], s.p.data(), s.xi.data(), s.f.data(), it, false); else d.InsertMomentumSpaceDistribution(s.np, s.nxi, m.r[i], s.p.data(), s.xi.data(), s.f.data(), it); }
            Res r; r.v = evaluate(&d, pts); return r; }; break; }
    case 12: { unsigned n = 1 + op(9), m = 1 + op(9); std::vector<double> a(n * m); Rng g(op(65536)); for (auto &x : a) x = g.unit(); bool gray = op(2); w.what = "PNG image";
        w.run = [=](const std::string &pre) { std::string p = path(pre + "i.png"); ImageGenerator::gen(ImageGenerator::IMAGE_TYPE_PNG, p, a.data(), n, m, gray ? ImageGenerator::COLORMAP_GRAY : ImageGenerator::COLORMAP_GERIMAP); Res r; r.s = file_text(p); unlink(p.c_str()); return r; }; break; }
    case 13: { auto vs = std::make_shared<std::vector<Var>>(); std::vector<std::string> st; unsigned c = 0, n = 1 + op(5); GenOpt o; o.big = false; for (unsigned i = 0; i < n; i++) vs->push_back(gen_var(FMT_SDT, *vs, c, o, st)); std::vector<unsigned> how; for (unsigned i = 0; i < n; i++) how.push_back(op(1u << 16)); w.what = "SDT variables";
        w.run = [=](const std::string &pre) { std::string p = path(pre + "v.sdt"); Res r; { std::unique_ptr<SFile> s(SFile::Create(p, SFILE_MODE_WRITE)); for (auto &v : *vs) write_var(s.get(), v); s->Close(); } r.s = file_text(p);
            { std::unique_ptr<SFile> s(SFile::Create(p, SFILE_MODE_READ)); for (unsigned i = 0; i < vs->size(); i++) read_check(s.get(), FMT_SDT, (*vs)[i], how[i], "threads-interfere"); s->Close(); } unlink(p.c_str()); return r; }; break; }
    case 14: { double a = 0.1 * op(50); unsigned n = 2 + op(6); w.what = "vectors";
        w.run = [=](const std::string &) { Res r; Vector<3> x, y; Matrix<3, 3> A; for (int i = 0; i < 3; i++) { x[i] = a + i; y[i] = a * i - 1; for (int j = 0; j < 3; j++) A(i, j) = i == j ? 2 + a : 0.3 * (i - 2 * j); }
            for (unsigned i = 0; i < n; i++) { Vector<3> z = A * x + y * a, c; Vector<3>::Cross(x, y, c); r.v.push_back(z.Dot(c)); r.v.push_back(z.Norm()); x = (z - c) * 0.1; } return r; }; break; }
    default: { int a = (int)op(1000); w.what = "errors and timers";
        w.run = [=](const std::string &) { Res r; for (int i = 0; i < 5; i++) throws([&] { throw SOFTLibException("message %d of %s, %g", a + i, "a thread", a / 3.0); }, &r.s); Timer t; t.Stop(); r.s += t.GetMilliseconds() >= 0 ? "ok" : "negative"; return r; }; break; }
    }
    return w;
}
static std::string compare(const Res &g, const Res &w) {
    char b[200];
    if (g.v.size() != w.v.size()) return "number of values differs";
    for (size_t i = 0; i < g.v.size(); i++) if (!same_bits(g.v[i], w.v[i])) { snprintf(b, sizeof b, "value %zu is %.17g, alone it is %.17g", i, g.v[i], w.v[i]); return b; }
    if (g.s != w.s) return "text is '" + g.s.substr(0, 200) + "', alone it is '" + w.s.substr(0, 200) + "'";
    return "";
}
static void t05() {
    unsigned nt = 2 + op(3), nw = 1 + op(nt);
    bool included = false;
    std::vector<Work> work; std::vector<Res> ref;
    for (unsigned i = 0; i < nw; i++) { work.push_back(gen_work(included)); ref.push_back(work[i].run("alone")); }
    std::vector<unsigned> who; for (unsigned j = 0; j < nt; j++) who.push_back(j < nw ? j : op(nw));
    std::string names; for (auto i : who) names += " " + work[i].what;
    ev("T05 threads:%s", names.c_str());
    unsigned rounds = 1 + op(2);
    std::vector<std::function<void()>> f;
    for (unsigned j = 0; j < nt; j++) f.push_back([&, j] {
        for (unsigned q = 0; q < rounds; q++) {
            Res r = work[who[j]].run("t" + std::to_string(j));
            std::string d = compare(r, ref[who[j]]); checked(r.v.size() + 1);
            if (!d.empty()) violate("threads-interfere", "%s in one of %u threads: %s", work[who[j]].what.c_str(), nt, d.c_str());
        }
    });
    run_threads(f);
    for (unsigned i = 0; i < nw; i++) { std::string d = compare(work[i].run("after"), ref[i]); if (!d.empty()) violate("threads-interfere", "%s after the threads ended: %s", work[i].what.c_str(), d.c_str()); }
    nontrivial();
}
static Reg r("T05", t05, 300);
