// F03: equilibrium and distribution files that contradict themselves are refused.
#include "distfile.h"
#include "eqfile.h"
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/MagneticField/MagneticFieldLUKE.h>
#include <cmath>
#include <functional>
#include <hdf5.h>
#include <memory>
#include <sstream>
using namespace sim;

namespace {
enum Part { GRID, RADII, MATRIX, MULTI, SCALAR, AXIS, TEXT, CONTOUR, VERIFY };
// radii: radial grid that is only looked at as a whole; strict: its length has to fit another part
struct Item { std::string name; Part part; bool optional = false, fits = true, ordered = true, rowsfree = false, anyshape = false; };
struct Damage { std::string what; bool must = false; };
struct Val { std::vector<sfilesize_t> d; std::vector<double> v; };

void drop(const std::string &p, Fmt f, const std::string &name) {
    if (f != FMT_SDT) {
        hid_t h = H5Fopen(p.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
        if (h < 0 || H5Ldelete(h, name.c_str(), H5P_DEFAULT) < 0 || H5Fclose(h) < 0) { fprintf(stderr, "harness: cannot delete %s\n", name.c_str()); abort(); }
        return;
    }
    std::stringstream in(slurp(p)); std::string l, out;
    while (getline(in, l)) {
        std::stringstream ss(l); std::string t, n; size_t rows = 1; ss >> t >> n;
        if (t == "@matrix") ss >> rows; else if (t != "@string") rows = 0;
        bool keep = n != name;
        if (keep) out += l + "\n";
        for (size_t i = 0; i < rows && getline(in, l); i++) if (keep) out += l + "\n";
    }
    spit(p, out);
}
Val fetch(const std::string &p, Fmt f, const std::string &name) {
    std::unique_ptr<SFile> sf(SFile::Create(p, SFILE_MODE_READ, fmt_type[f]));
    Val r; sfilesize_t nd = 0, d[8];
    double *a;
    if (f == FMT_SDT) { double **m = sf->GetDoubles(name, d); nd = 2; a = m[0]; delete[] m; }
    else a = sf->GetMultiArray_linear(name, 8, nd, d);
    size_t n = 1; for (sfilesize_t i = 0; i < nd; i++) { r.d.push_back(d[i]); n *= d[i]; }
    r.v.assign(a, a + n); delete[] a; sf->Close();
    return r;
}
void store(const std::string &p, Fmt f, const std::string &name, const Val &x) {
    std::unique_ptr<SFile> sf(SFile::Create(p, SFILE_MODE_UPDATE, fmt_type[f]));
    std::vector<double> v = x.v; v.push_back(0);
    if (f == FMT_SDT) {
        sfilesize_t r = x.d.size() == 1 ? 1 : x.d[0], c = x.d.size() == 1 ? x.d[0] : x.d[1];
        std::vector<const double *> rows(r + 1); for (sfilesize_t i = 0; i < r; i++) rows[i] = v.data() + i * c;
        sf->WriteArray(name, (double **)rows.data(), r, c);
    } else sf->WriteMultiArray(name, v.data(), x.d.size(), x.d.data());
    sf->Close();
}
void store_text(const std::string &p, Fmt f, const std::string &name, const std::string &t) {
    std::unique_ptr<SFile> sf(SFile::Create(p, SFILE_MODE_UPDATE, fmt_type[f]));
    sf->WriteString(name, t); sf->Close();
}
Val cut2(const Val &x, long dr, long dc) {       // matrix with rows/columns removed or added
    long r = x.d[0], c = x.d[1]; Val y; y.d = {(sfilesize_t)(r + dr), (sfilesize_t)(c + dc)};
    for (long i = 0; i < r + dr; i++) for (long j = 0; j < c + dc; j++) y.v.push_back(x.v[std::min(i, r - 1) * c + std::min(j, c - 1)]);
    return y;
}
const double NaN = __builtin_nan("");
const char *words[] = {"", "a", "distribution/soft", "abcdefgh", "normalized", "1 2 3 4 5"};

// Damages one part of the file p; says what was done and whether a loader has to refuse it.
Damage damage(const std::string &p, Fmt f, const Item &it) {
    bool h5 = f != FMT_SDT;
    auto named = [&](const char *w) { return "'" + it.name + "' " + w; };
    if (maybe(100)) { drop(p, f, it.name); return {named("missing"), !it.optional}; }
    if (it.part != TEXT && maybe(60)) { drop(p, f, it.name); store_text(p, f, it.name, words[op(6)]); return {named("as text"), false}; }
    if (it.part == TEXT) {
        Val x; unsigned k = op(5), n = op(6);
        x.d = k == 0 ? std::vector<sfilesize_t>{n} : k == 1 ? std::vector<sfilesize_t>{n, 3} : k == 2 && h5 ? std::vector<sfilesize_t>{2, 2, 2} : std::vector<sfilesize_t>{1, 1};
        size_t s = 1; for (auto q : x.d) s *= q; for (size_t i = 0; i < s; i++) x.v.push_back(65 + i);
        drop(p, f, it.name); store(p, f, it.name, x); return {named("as numbers"), false};
    }
    Val x = fetch(p, f, it.name); size_t n = x.v.size(); Damage d;
    if (h5 && it.part != MULTI && maybe(60)) {
        if (x.d.size() == 1) x.d = {1, 1, n}; else x.d = {1, x.d[0], x.d[1]};
        drop(p, f, it.name); store(p, f, it.name, x); return {named("three-dimensional"), true};
    }
    switch (it.part) {
    case GRID: case RADII: {
        unsigned k = weighted({4, 3, 4, 3, 3, 3, 2});
        if (n < 2 && (k == 0 || k == 1 || k == 2 || k == 5)) k = 3;
        unsigned i = n > 1 ? op((uint32_t)n - 1) : 0;
        if (k == 0) { std::swap(x.v[i], x.v[i + 1]); d = {"out of order", it.ordered && !(it.part == RADII && n == 2)}; }      // (two radii may as well decrease)
        else if (k == 1) { x.v[i] = x.v[i + 1]; d = {"with a point twice", it.ordered}; }
        else if (k == 2) { x.v[op((uint32_t)n)] = NaN; d = {"with a point that is no number", it.ordered}; }
        else if (k == 3) { x.v.pop_back(); x.d = {n - 1}; d = {"lacking its last point", it.fits || n == 1}; }
        else if (k == 4) { x.v.push_back(x.v.back() + fabs(x.v.back()) + 1); x.d = {n + 1}; d = {"with a point too many", true}; }
        else if (k == 5) { x.v.insert(x.v.end(), x.v.begin(), x.v.begin() + n); x.d = {2, n}; d = {"as a matrix", true}; }
        else { x.v.clear(); x.d = {0}; d = {"empty", true}; }
        break; }
    case MATRIX: {
        unsigned k = op(7);
        if (x.d.size() == 1) x.d = {1, n};
        size_t r = x.d[0], c = x.d[1];
        if ((k == 0 && r < 2) || (k == 1 && c < 2)) k = 3;
        if (k == 0) { x = cut2(x, -1, 0); d = {"lacking a row", !it.rowsfree}; }
        else if (k == 1) { x = cut2(x, 0, -1); d = {"lacking a column", true}; }
        else if (k == 2) { x = cut2(x, 1, 0); d = {"with a row too many", !it.rowsfree}; }
        else if (k == 3) { x = cut2(x, 0, 1); d = {"with a column too many", true}; }
        else if (k == 4) { x.d = {1, n}; d = {"as one row", r > 1 && !it.anyshape}; }
        else if (k == 5) { x.d = {n, 1}; d = {"as one column", c > 1 && !it.anyshape}; }
        else { x.v.clear(); x.d = {0, c}; d = {"without rows", true}; }
        break; }
    case MULTI: {
        unsigned i = op((uint32_t)x.d.size()), k = op(5);
        unsigned j = (i + 1) % x.d.size();
        if (k == 4 && x.d[i] != x.d[j]) { std::swap(x.d[i], x.d[j]); d = {"with two dimensions exchanged", true}; }
        else if (k == 4) { x.d[j]++; d = {"too large", !(it.rowsfree && j == 0)}; }
        else if (k == 0 && x.d[i] > 1) { x.d[i]--; d = {"too small", !(it.rowsfree && i == 0)}; }
        else if (k <= 1) { x.d[i]++; d = {"too large", !(it.rowsfree && i == 0)}; }
        else if (k == 2) { x.d.insert(x.d.begin() + i, 1); d = {"of another rank", true}; }
        else { x.d[0] *= x.d[1]; x.d.erase(x.d.begin() + 1); d = {"of a lower rank", true}; }
        size_t s = 1; for (auto q : x.d) s *= q; x.v.resize(s, 1);
        break; }
    case SCALAR: {
        static const double bad[] = {0, -1, NaN, 1e300, -1e300};
        unsigned k = op(6);
        if (k == 5) { x.v.push_back(x.v[0]); x.d = {2}; d = {"as a list", true}; }
        else {
            x.v[0] = bad[k]; x.d = {1};
            // what the number is for decides which ones make no sense
            std::string s = it.name.substr(it.name.find_last_of('/') + 1);
            bool must = s == "Nxi" ? true : s == "delta" || s == "betath_ref" ? k < 3 || k == 4 : s == "nt" ? k < 2 : s == "Rp" || s == "Zp" ? k == 2 : false;
            char b[40]; snprintf(b, sizeof b, "is %g", bad[k]); d = {b, must};
        }
        break; }
    case AXIS: { unsigned k = op(3); if (k == 0) { x.v.push_back(0); x.d = {3}; } else if (k == 1) { x.v.pop_back(); x.d = {1}; } else { x.v.clear(); x.d = {0}; } d = {"of the wrong length", true}; break; }
    case CONTOUR: {
        unsigned k = op(5); bool rows = x.d[1] == 2; size_t m = n / 2;
        if (k == 0) { x = rows ? cut2(x, 0, 1) : cut2(x, 1, 0); d = {"with three coordinates", m != 2}; }
        else if (k == 1) { x = rows ? cut2(x, 0, -1) : cut2(x, -1, 0); d = {"with one coordinate", m != 2}; }
        else if (k == 2) { x.d = {n}; d = {"as a list", n != 2}; }
        else if (k == 3) { x.v.clear(); x.d = rows ? std::vector<sfilesize_t>{0, 2} : std::vector<sfilesize_t>{2, 0}; d = {"without points", false}; }
        else { x.v[op((uint32_t)n)] = NaN; d = {"with a coordinate that is no number", false}; }
        break; }
    case VERIFY: {
        unsigned k = op(4), i = op((uint32_t)n);
        if (k == 0) { x.v.resize(n + 1 + op(4), x.v.back()); x.d = {x.v.size()}; d = {"too long", true}; }
        else if (k == 1) { x.v[i] += 1 + fabs(x.v[i]); d = {"that disagrees", true}; }
        else if (k == 2) { x.v.insert(x.v.end(), x.v.begin(), x.v.begin() + n); x.d = {2, n}; d = {"as a matrix", n > 1}; }
        else { x.v.clear(); x.d = {0}; d = {"empty", false}; }
        break; }
    default: break;
    }
    drop(p, f, it.name); store(p, f, it.name, x);
    d.what = named(d.what.c_str());
    return d;
}

bool has(const std::string &p, Fmt f, const std::string &n) {
    std::unique_ptr<SFile> sf(SFile::Create(p, SFILE_MODE_READ, fmt_type[f])); bool h = sf->HasVariable(n); sf->Close(); return h;
}
// One or two parts of a copy of the file are damaged; the loader is tried under read faults.
// good: compares what the undamaged file gives; use: exercises what a damaged one gave
void attempt(const std::string &orig, const std::string &bad, Fmt f, std::vector<Item> items, const std::string &about,
             const std::function<void(const std::string &)> &load_and_use, const std::function<void()> &good) {
    std::string w, what; bool must = false;
    spit(bad, slurp(orig));
    unsigned n = maybe(200) ? 2 : 1;
    if (maybe(80)) {                            // several parts are empty, and so agree with one another
        n = 0;
        for (auto &it : items) if ((it.part == GRID || it.part == RADII || it.part == MATRIX || it.part == MULTI) && maybe(500)) {
            Val x = fetch(bad, f, it.name); if (it.part == MATRIX && x.d.size() == 1) x.d = {1, x.v.size()};
            unsigned k = it.part == MATRIX ? op(2) : it.part == MULTI ? op((uint32_t)x.d.size()) : 0;
            if (it.part == GRID || it.part == RADII) x.d = {0}; else x.d[k] = 0;
            x.v.clear(); drop(bad, f, it.name); store(bad, f, it.name, x);
            what += (what.empty() ? "'" : ", '") + it.name + "' empty"; must |= (it.part == GRID || it.part == RADII) && it.ordered; n = 3;
        }
        count("emptied_together");
    }
    for (unsigned i = 0; i < n && n < 3 && !items.empty(); i++) {
        unsigned k = op((uint32_t)items.size());
        Damage d = damage(bad, f, items[k]);
        // a second damage may hide the first (or mend it), so only a single one has to be refused
        must = n == 1 && d.must;
        what += (i ? ", " : "") + d.what; items.erase(items.begin() + k);
    }
    ev("F03 %s: %s%s", about.c_str(), what.c_str(), must ? " (to be refused)" : "");
    plan_faults(FM_READ);
    unsigned tries = 2 + op(2);
    faults_pause(); faults_fit(tries);
    for (unsigned i = 0; i < tries; i++) {
        if (i) faults_resume();
        bool t = throws([&] { load_and_use(bad); }, &w);
        faults_pause();
        ev("load: %s", t ? "exception" : "ok"); nontrivial(); checked(); count(t ? "refused" : "accepted");
        if (!t && must) violate("inconsistent-accepted", "%s with %s was loaded", about.c_str(), what.c_str());
        if (open_fds()) violate("file-left-open", "%s with %s: %s is still open after loading %s", about.c_str(), what.c_str(), open_fd_names().c_str(), t ? "failed" : "ended");
        if (maybe(400)) good();
    }
    good();
}

void damaged_equil() {
    Equil e = gen_equil(12); EqVariant v = gen_variant(); v.broken = 0;
    Fmt f = (Fmt)op(3);
    std::string p = path(std::string("eq.") + fmt_ext[f]), b = path((maybe(300) ? "50%s%s." : "bad.") + std::string(fmt_ext[f])), w;
    bool small = maybe(120);
    write_equil(p, f, e, v);
    std::unique_ptr<MagneticFieldNumeric2D> ref(make_field(e));
    double dr = (e.R.back() - e.R.front()) * 1e-6, dz = (e.Z.back() - e.Z.front()) * 1e-6;
    PointSet ps = gen_points(e.R.front() + dr, e.R.back() - dr, e.Z.front() + dz, e.Z.back() - dz, 4);
    Obs want = observe(ref.get(), ps);
    double far = e.R.back() * 3, up = e.Z.back() + 10 * (e.Z.back() - e.Z.front());
    auto use = [&](MagneticFieldNumeric2D *m) {
        faults_pause();
        observe(m, ps);
        static const double q[] = {0, 1e-9, 1, 1e6};
        for (double s : q) { m->Eval(far * s, 0, up * s); m->EvalDerivatives(-far * s, far, -up); if (m->HasMagneticFlux()) { m->EvalFlux(far * s, 0, up * s); m->EvalFluxDerivatives(0, far * s, -up * s); } }
        std::unique_ptr<MagneticFieldNumeric2D> c(m->Clone()); observe(c.get(), ps);
        faults_resume();
    };
    auto load = [&](const std::string &file) { std::unique_ptr<MagneticFieldNumeric2D> m(new MagneticFieldNumeric2D(file)); use(m.get()); };
    auto good = [&] {
        std::unique_ptr<MagneticFieldNumeric2D> m;
        if (throws([&] { m.reset(new MagneticFieldNumeric2D(p)); }, &w)) violate("spurious-failure", "%s: %s does not load: %s", fmt_name[f], e.describe().c_str(), w.c_str());
        std::string d = diff(observe(m.get(), ps), want);
        if (!d.empty()) violate("loaded-wrong", "%s: %s: %s", fmt_name[f], e.describe().c_str(), d.c_str());
        checked();
    };
    if (small) {
        // a grid with too few points to interpolate, and all that is given on it
        Equil s = e; bool inr = maybe(500); unsigned n = op(4);
        if (inr) s.nr = n; else s.nz = n;
        auto shrink = [&](std::vector<double> &a) { if (a.empty()) return; std::vector<double> t; for (unsigned j = 0; j < s.nz; j++) for (unsigned i = 0; i < s.nr; i++) t.push_back(a[i + j * e.nr]); a = t; };
        shrink(s.Br); shrink(s.Bphi); shrink(s.Bz); if (s.has_psi()) { shrink(s.Psi); }
        s.R.resize(s.nr); s.Z.resize(s.nz);
        auto h = [&](std::vector<double> &a) { a.reserve(64); };
        h(s.R); h(s.Z); h(s.Br); h(s.Bphi); h(s.Bz);
        bool t, zero = n == 0;
        if (!zero) {
            EqVariant q; write_equil(b, f, s, q);
            t = throws([&] { load(b); }, &w);
            ev("F03 %s, grid of %ux%u: %s", fmt_name[f], s.nr, s.nz, t ? "exception" : "ok"); nontrivial(); checked();
            if (!t) violate("inconsistent-accepted", "%s: an equilibrium on a grid of %ux%u points was loaded", fmt_name[f], s.nr, s.nz);
        }
        good();
        return;
    }
    std::vector<Item> items = {{"r", GRID}, {"z", GRID}, {"Br", MATRIX}, {"Bphi", MATRIX}, {"Bz", MATRIX}, {"maxis", AXIS}, {"name", TEXT}, {"desc", TEXT}};
    if (e.has_psi()) items.push_back({"Psi", MATRIX, true});
    bool wall = !e.rwall.empty(), sep = !e.rsep.empty();
    if (wall) items.push_back({"wall", CONTOUR, sep});
    if (sep) items.push_back({"separatrix", CONTOUR, wall});
    if (v.ver & 1) items.push_back({"verBr", VERIFY, true});
    if (v.ver & 2) items.push_back({"verBphi", VERIFY, true});
    if (v.ver & 4) items.push_back({"verBz", VERIFY, true});
    attempt(p, b, f, items, std::string(fmt_name[f]) + ": " + e.describe(), load, good);
}

void damaged_luke() {
    Fmt f = maybe(500) ? FMT_MAT : FMT_HDF5, wf = (Fmt)op(3);
    bool wall = maybe(500), inwall = wall && maybe(350);
    std::string p = path(std::string("EQUIL_x.") + fmt_ext[f]), b = path((maybe(300) ? "EQUIL_50%s%s." : "EQUIL_bad.") + std::string(fmt_ext[f])), wp = wall ? path(std::string("wall.") + fmt_ext[wf]) : "", wb = path(std::string("badwall.") + fmt_ext[wf]), w;
    Luke l = write_luke(p, f, wp, wf);
    double r0 = l.Rp + l.x.front(), r1 = l.Rp + l.x.back(), z0 = l.Zp + l.y.front(), z1 = l.Zp + l.y.back();
    PointSet ps = gen_points(r0, r1, z0, z1, 4);
    auto get = [&](const std::string &q, const std::string &wq) { return wall ? new MagneticFieldLUKE(q, wq) : new MagneticFieldLUKE(q); };
    auto load = [&](const std::string &file) {
        std::unique_ptr<MagneticFieldLUKE> m(inwall ? get(p, file) : get(file, wp));
        faults_pause();
        observe(m.get(), ps); std::unique_ptr<MagneticFieldNumeric2D> c(m->Clone()); observe(c.get(), ps);
        faults_resume();
    };
    auto good = [&] {
        std::unique_ptr<MagneticFieldLUKE> m;
        if (throws([&] { m.reset(get(p, wp)); }, &w)) violate("spurious-failure", "LUKE equilibrium does not load: %s", w.c_str());
        std::string d = diff_nodes(m.get(), l.e);
        if (!d.empty()) violate("loaded-wrong", "LUKE equilibrium: %s", d.c_str());
        checked();
    };
    std::string g = "equil/", q = "equil/eqdsk/";
    std::vector<Item> items = {{q + "x", GRID}, {q + "y", GRID}, {q + "xypsin", MATRIX}, {q + "psia", SCALAR}, {g + "Rp", SCALAR}, {g + "Zp", SCALAR}, {g + "psi_apRp", GRID}, {g + "theta", GRID}, {g + "ptBx", MATRIX}, {g + "ptBy", MATRIX}, {g + "ptBPHI", MATRIX}, {g + "ptx", MATRIX}, {g + "pty", MATRIX}, {g + "id", TEXT}};
    if (inwall) attempt(wp, wb, wf, {{"wall", CONTOUR}}, "LUKE wall", load, good);
    else attempt(p, b, f, items, "LUKE equilibrium", load, good);
}

void damaged_dist() {
    std::string what, w;
    std::unique_ptr<MagneticFieldAnalytical2D> an(gen_analytical(what));
    bool small = maybe(250);
    dist_small = small;
    DistFile df = gen_distfile("dist", an.get(), false);
    dist_small = false;
    LoadReq q = gen_request(df);
    bool leg = df.kind == D_CODE || df.kind == D_GOCODE, valid = request_valid(df, q), big = true;
    if (small && valid) {
        // enough points for the interpolation asked for?
        DistModel m = model_of(df, q);
        using C = CODEDistributionFunction;
        unsigned need = !leg ? q.cubic ? 4 : 2 : q.interp == C::INTERPOLATION_LINEAR ? 2 : q.interp == C::INTERPOLATION_AKIMA ? 5 : 3;
        for (auto &s : m.s) if (s.np < need || (!leg && s.nxi < need)) big = false;
        DistributionFunction *d = nullptr;
        bool t = throws([&] { d = load_dist(df, q); }, &w);
        ev("F03 %s, %s grid: %s", df.describe().c_str(), big ? "sufficient" : "too small a", t ? "exception" : "ok"); nontrivial(); checked();
        if (!t && !big) violate("inconsistent-accepted", "%s was loaded although its grid has fewer than %u points", df.describe().c_str(), need);
        if (t && big) violate("spurious-failure", "%s (%s) does not load: %s", df.describe().c_str(), q.cubic || q.interp ? "smooth" : "linear", w.c_str());
        if (d) {
            std::string e = against_model(d, m, gen_evpoints(m, 8));
            if (!e.empty()) violate("loaded-wrong", "%s: %s", df.describe().c_str(), e.c_str());
            delete d;
        }
        if (open_fds()) violate("file-left-open", "%s: %s is still open", df.describe().c_str(), open_fd_names().c_str());
        return;
    }
    if (small || !valid) { q = gen_request(df); if (small || !request_valid(df, q)) discard("no slice"); }
    DistFile bad = df; bad.file = path((maybe(300) ? "50%s%s." : "bad.") + std::string(fmt_ext[df.fmt]));
    auto opt = [&](std::vector<Item> &v, const char *n, Part p) { if (has(df.file, df.fmt, n)) v.push_back({n, p, true}); };
    std::vector<Item> items; bool whole = q.radindex < 0;
    auto code = [&](const std::string &g) {
        items.push_back({g + "y", GRID}); items.push_back({g + "delta", SCALAR}); items.push_back({g + "Nxi", SCALAR});
        opt(items, (g + "nref").c_str(), SCALAR); opt(items, (g + "Tref").c_str(), SCALAR);
        Item m{g + "f", MATRIX}; m.rowsfree = true; items.push_back(m);
    };
    unsigned nr = df.r.size(); int ti = q.time >= 0 ? q.time : (int)df.nt + q.time;
    switch (df.kind) {
    case D_SOFT: {
        Item r{"r", RADII}; r.fits = false; items.push_back(r); opt(items, "type", TEXT);
        unsigned k = op(nr); std::string g = "r" + std::to_string(k) + "/"; bool used = whole || (unsigned)q.radindex == k;
        Item a{g + "p", GRID}, b{g + "xi", GRID}; a.ordered = b.ordered = used;
        items.push_back(a); items.push_back(b); items.push_back({g + "f", MATRIX});
        break; }
    case D_DEPR: {
        Item r{"r", RADII}; r.ordered = whole; items.push_back(r);
        items.push_back({"p", GRID}); items.push_back({"xi", GRID}); Item m{"f", MATRIX}; m.anyshape = true; items.push_back(m); items.push_back({"punits", TEXT});
        opt(items, "fp0", VERIFY); opt(items, "fxi0", VERIFY); opt(items, "fr0", VERIFY);
        break; }
    case D_LUKE: { Item r{"xrhoG", RADII}; r.ordered = whole; items = {r, {"pn", GRID}, {"betath_ref", SCALAR}, {"mhu", GRID}, {"f", MULTI}}; break; }
    case D_CODE: code(df.group.empty() ? "" : df.group.back() == '/' ? df.group : df.group + "/"); break;
    case D_GOCODE: {
        Item r{"r", RADII}; r.fits = false; items.push_back(r); opt(items, "type", TEXT); items.push_back({"nt", SCALAR});
        code("t" + std::to_string(ti) + "/r" + std::to_string(op(nr)) + "/");
        break; }
    default: {
        std::string dn = !df.distname.empty() ? df.distname.substr(df.distname.find_last_of('/') + 1) : has(df.file, df.fmt, "eqsys/f_re") ? "f_re" : "f_hot", mg = dn == "f_re" ? "grid/runaway/" : "grid/hottail/";
        Item t{"grid/t", GRID}; t.ordered = t.fits = false;
        Item m{"eqsys/" + dn, MULTI}; m.rowsfree = true; m.optional = df.distname.empty();
        items = {m, {"grid/r", RADII}, {mg + "p1", GRID}, {mg + "p2", GRID}};
        break; }
    }
    if (df.descending) for (auto &i : items) if (i.part == RADII && nr < 3) i.ordered = false;
    DistModel m = model_of(df, q); std::vector<EvPt> pts = gen_evpoints(m, 8);
    auto load = [&](const std::string &) {
        std::unique_ptr<DistributionFunction> d(load_dist(bad, q));
        faults_pause();
        evaluate(d.get(), pts); { std::unique_ptr<DistributionFunction> c(d->MinClone()); evaluate(c.get(), pts); }
        faults_resume();
    };
    auto good = [&] {
        DistributionFunction *d = nullptr;
        if (throws([&] { d = load_dist(df, q); }, &w)) violate("spurious-failure", "%s does not load: %s", df.describe().c_str(), w.c_str());
        std::string e = against_model(d, m, pts);
        if (!e.empty()) violate("loaded-wrong", "%s: %s", df.describe().c_str(), e.c_str());
        delete d; checked();
    };
    attempt(df.file, bad.file, df.fmt, items, df.describe(), load, good);
}
void f03() {
    set_clock(1700000000ll * 1000000000);
    unsigned k = weighted({4, 2, 5});
    if (k == 0) damaged_equil(); else if (k == 1) damaged_luke(); else damaged_dist();
}
Reg r1("F03", f03, 400);
}
