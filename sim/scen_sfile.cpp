// Data files: S01 (saved or reported), S02 (reads under faults), S03 (torn
// files), S04 (read histories), S05 (MAT header).
#include "sfmodel.h"
#include <hdf5.h>
#include <cmath>
#include <ctime>
#include <memory>

using namespace sim;

static void verify_all(const std::string &p, Fmt f, const std::vector<Var> &vars, const char *cls) {
    faults_pause();
    SFile *sf = nullptr; std::string w;
    if (throws([&] { sf = SFile::Create(p, SFILE_MODE_READ, fmt_type[f]); }, &w))
        violate(cls, "%s file that was closed without error does not open again: %s", fmt_name[f], w.c_str());
    for (auto &v : vars) if (v.acked)
        for (unsigned h = 0; h < accessors(f, v); h++)
            if (throws([&] { read_check(sf, f, v, h, cls); }, &w))
                violate(cls, "%s: %s was written without error but reading it fails: %s", fmt_name[f], v.describe().c_str(), w.c_str());
    if (throws([&] { sf->Close(); }, &w)) violate(cls, "closing after verification failed: %s", w.c_str());
    delete sf;
    faults_resume();
}

// a file name by which the library can tell the format
static std::string named(const char *stem, Fmt f) {
    static const char *alt[3] = {"out", "hdf5", "mat"};
    std::string s = maybe(100) ? std::string(stem) + (maybe(500) ? ".mat" : ".v1.0") : stem;      // (only the last dot counts)
    return path(s + "." + (maybe(250) ? alt[f] : fmt_ext[f]));
}
static void unknown_format(sfile_mode m) {
    static const char *n[] = {"data.xyz", "data", "data.", "data.h5x", "data.mat.txt", ".data", "h5"};
    std::string p = path(n[op(7)]); SFile *sf = nullptr;
    if (!throws([&] { sf = SFile::Create(p, m); })) violate("format-guessed", "a file named '%s' is opened although its name tells no format", p.c_str());
    if (exists(p)) violate("format-guessed", "a file whose format is not known is created");
    checked(); count("unknown_format");
}

// ------------------------------------------------------------------ S01
static void s01() {
    Fmt f = (Fmt)op(3);
    std::string p = named("data", f);
    if (maybe(60)) unknown_format(maybe(300) ? SFILE_MODE_READ : maybe(300) ? SFILE_MODE_UPDATE : SFILE_MODE_WRITE);
    unsigned nsess = 1 + weighted({5, 3, 2}), counter = 0;
    std::vector<Var> vars; std::vector<std::string> structs;
    GenOpt o; o.big = maybe(300);
    plan_faults(FM_WRITE | FM_READ);
    set_clock(1700000000ll * 1000000000);
    SFile *sf = nullptr;
    ev("S01 %s sessions=%u", fmt_name[f], nsess);
    for (unsigned s = 0; s < nsess; s++) {
        sfile_mode m = s ? SFILE_MODE_UPDATE : SFILE_MODE_WRITE;
        std::string w;
        bool reuse = sf && maybe(300);
        bool bare = maybe(300), byname = maybe(400);
        bool t = throws([&] {
            if (reuse) sf->Open(p, m);
            else { delete sf; sf = nullptr; if (bare) { sf = make_object(f); sf->Open(p, m); } else sf = byname ? SFile::Create(p, m) : SFile::Create(p, m, fmt_type[f]); }
        }, &w);
        ev("session %u open: %s", s, t ? "exception" : "ok");
        if (t) {
            if (!hard_faults) violate("spurious-failure", "opening %s session %u failed without any fault: %s", fmt_name[f], s, w.c_str());
            count("open_failed");
            delete sf;
            // an update that could not be started must not have harmed what was saved
            if (s) { nontrivial(); verify_all(p, f, vars, "update-open-destroys"); }
            return;
        }
        unsigned n = 1 + op(6);
        std::string multi;
        for (unsigned i = 0; i < n; i++) {
            if (f == FMT_SDT && maybe(60)) {
                // more dimensions than the format has: told at once (or, should it ever be supported, kept)
                sfilesize_t d[] = {2, 1 + op(3), 2}; double a[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; std::vector<int64_t> z(12); std::vector<uint32_t> u(12); unsigned k = op(3);
                std::string nm = "multi" + std::to_string(counter++);
                bool wt = throws([&] { if (k == 0) sf->WriteMultiArray(nm, a, 3, d); else if (k == 1) sf->WriteMultiInt64Array(nm, z.data(), 3, d); else sf->WriteMultiUInt32Array(nm, u.data(), 3, d); }, &w);
                ev("write %s: %s", nm.c_str(), wt ? "exception" : "ok"); checked(); count("too_many_dimensions");
                if (!wt && multi.empty()) multi = nm;
            }
            Var v = gen_var(f, vars, counter, o, structs);
            uint64_t h0 = hard_faults;
            bool wt = throws([&] { write_var(sf, v); }, &w);
            ev("write %s: %s", v.describe().c_str(), wt ? "exception" : "ok");
            if (wt && !hard_faults) violate("spurious-failure", "%s: writing %s failed without any fault: %s", fmt_name[f], v.describe().c_str(), w.c_str());
            if (wt) count("write_failed"); else if (hard_faults > h0) count("write_ok_despite_fault");
            v.acked = !wt;
            vars.push_back(v);
        }
        bool ct = throws([&] { sf->Close(); }, &w);
        ev("close: %s", ct ? "exception" : "ok");
        if (ct) {
            if (!hard_faults) violate("spurious-failure", "closing %s failed without any fault: %s", fmt_name[f], w.c_str());
            count("close_failed");
            nontrivial();
            delete sf;
            return;
        }
        nontrivial();
        if (hard_faults) count("closed_ok_after_hard_fault");
        verify_all(p, f, vars, "saved-data-lost");
        if (!multi.empty()) {
            faults_pause(); double *a = nullptr; sfilesize_t nd = 0, d[8];
            bool rt = throws([&] { std::unique_ptr<SFile> q(SFile::Create(p, SFILE_MODE_READ, fmt_type[f])); a = q->GetMultiArray_linear(multi, 8, nd, d); q->Close(); });
            if (rt || !a || nd != 3) violate("saved-data-lost", "%s: a three-dimensional array was written without an error but is not there", fmt_name[f]);
            faults_resume();
        }
        if (f == FMT_SDT && maybe(200)) {                           // as other programs write it, without newline at the end
            std::string t = slurp(p); size_t cut = t.find_last_not_of("\n ");
            if (cut != std::string::npos && t.compare(t.rfind('\n', cut) + 1, 1, "@")) { spit(p, t.substr(0, cut + 1)); ev("no newline at the end"); count("no_final_newline"); verify_all(p, f, vars, "saved-data-lost"); }
        }
    }
    delete sf;
    if (maybe(150)) {
        // a file opened for reading is not changed, and trying to is reported
        no_faults();
        std::string before = slurp(p), w; uint64_t had = hard_faults;
        Var v = gen_var(f, vars, counter, o, structs);
        std::unique_ptr<SFile> q;
        if (throws([&] { q.reset(SFile::Create(p, SFILE_MODE_READ, fmt_type[f])); }, &w)) { if (!had) violate("spurious-failure", "%s: a saved file does not open: %s", fmt_name[f], w.c_str()); return; }
        bool t = throws([&] { write_var(q.get(), v); }), ct = throws([&] { q->Close(); });
        ev("write %s while reading: %s, close: %s", v.describe().c_str(), t ? "exception" : "ok", ct ? "exception" : "ok"); checked(); count("write_while_reading");
        if (slurp(p) != before) violate("read-only-changed", "%s: a file opened for reading was changed by writing %s", fmt_name[f], v.describe().c_str());
        if (!t && !ct && !(f == FMT_SDT && v.kind == V_STRUCT)) violate("saved-data-lost", "%s: writing %s to a file opened for reading reported no error", fmt_name[f], v.describe().c_str());
    }
}

static Reg r01("S01", s01, 800);

// ------------------------------------------------------------------ S02
static void s02() {
    Fmt f = (Fmt)op(3);
    std::string p = named("data", f);
    set_clock(1700000000ll * 1000000000);
    GenOpt o; o.big = maybe(400);
    auto vars = build_file(p, f, 1 + op(7), o);
    plan_faults(FM_READ);
    ev("S02 %s vars=%zu", fmt_name[f], vars.size());
    unsigned rounds = 1 + op(3);
    verify_all(p, f, vars, "wrong-data");
    faults_fit(rounds);
    for (unsigned rd = 0; rd < rounds; rd++) {
        SFile *sf = nullptr; std::string w;
        uint64_t h0 = hard_faults;
        bool t = throws([&] { sf = maybe(500) ? SFile::Create(p, SFILE_MODE_READ) : SFile::Create(p, SFILE_MODE_READ, fmt_type[f]); }, &w);
        ev("open: %s", t ? "exception" : "ok");
        if (t) {
            if (hard_faults == h0) violate("transparent-fault-visible", "opening %s failed although no read failed for good: %s", fmt_name[f], w.c_str());
            count("open_failed");
            nontrivial();
            continue;
        }
        unsigned n = 1 + op(12);
        for (unsigned i = 0; i < n; i++) {
            if (maybe(120)) {
                bool r = false;
                std::string nm = maybe(500) ? "no_such_variable" : "missing/group/x";
                bool qt = throws([&] { r = sf->HasVariable(nm); }, &w);
                ev("has(%s): %s", nm.c_str(), qt ? "exception" : r ? "yes" : "no");
                checked();
                if (!qt && r) violate("phantom-variable", "%s: a variable that does not exist is reported as present", fmt_name[f]);
                if (qt && hard_faults == h0) violate("transparent-fault-visible", "%s: HasVariable failed although no read failed for good: %s", fmt_name[f], w.c_str());
                continue;
            }
            const Var &v = vars[op((uint32_t)vars.size())];
            if (!accessors(f, v)) continue;
            unsigned how = op(accessors(f, v));
            bool qt = throws([&] { read_check(sf, f, v, how, "wrong-data-under-fault"); }, &w);
            ev("read %s via %u: %s", v.describe().c_str(), how, qt ? "exception" : "ok");
            nontrivial();
            if (qt) {
                count("read_failed");
                if (hard_faults == h0) violate("transparent-fault-visible", "%s: reading %s failed although no read failed for good: %s", fmt_name[f], v.describe().c_str(), w.c_str());
            } else if (hard_faults > h0) count("read_ok_after_hard_fault");
        }
        throws([&] { sf->Close(); });
        delete sf;
    }
}
static Reg r02("S02", s02, 850);

// ------------------------------------------------------------------ S03
// In a text file nothing tells a number that was cut within its digits at the
// very end of the file from a shorter number, so that number is exempt.
static bool cut_inside_token(const std::string &full, size_t cut) {
    return cut > 0 && cut < full.size() && !isspace((unsigned char)full[cut]) && !isspace((unsigned char)full[cut - 1]);
}
// A text file whose bytes were changed: no crash, no hang, and what comes
// before the damage is as it was.
static void s03_damaged() {
    std::string p = path("data.sdt"), w; GenOpt o; o.big = false;
    plan_faults(0);
    std::vector<Var> vars = build_file(p, FMT_SDT, 1 + op(6), o);
    std::string full = slurp(p), t = full; size_t first = t.size();
    unsigned n = 1 + op(maybe(200) ? 12 : 3);
    for (unsigned i = 0; i < n && !t.empty(); i++) {
        size_t at = op((uint32_t)t.size());
        if (maybe(500)) { size_t h = t.find('@', at); if (h != t.npos) at = h + op((uint32_t)std::min<size_t>(t.size() - h, 40)); }     // near a header
        static const char sp[] = "0123456789 -+.eE\n\t@#mx\0\xff";
        switch (op(5)) {
        case 0: t[at] = sp[op(sizeof sp - 1)]; break;
        case 1: t.insert(at, 1, sp[op(sizeof sp - 1)]); break;
        case 2: t.erase(at, 1 + op(maybe(300) ? 60 : 2)); break;
        case 3: { static const char *in[] = {"99999999999", "18446744073709551615", " -1 ", "4294967296", " 0", "\n", "\n\n", "@matrix x 3 3\n", "@matrix m 99999999999 0\n", "@string s 7\n", "nan", "inf", "1e999", "0x10", "@", "@matrix", "@matrix q", "@string q -1\n"}; std::string x = in[op(18)]; t.insert(at, x); } break;
        default: { size_t l = op((uint32_t)std::min<size_t>(t.size() - at, 80) + 1); std::string x = t.substr(at, l); size_t to = op((uint32_t)t.size() + 1); t.insert(to, x); at = std::min(at, to); }
        }
        first = std::min(first, at);
    }
    count("fault:text_damaged");
    std::string q = path("torn.sdt"); spit(q, t);
    ev("S03 SDT %zu bytes damaged from byte %zu on", full.size(), first); mix(t.data(), t.size());
    nontrivial();
    arm_steps(4000000 + 3000 * (uint64_t)(full.size() + t.size()));
    SFile *r = make_object(FMT_SDT);
    bool th = throws([&] { r->Open(q, SFILE_MODE_READ); }, &w);
    ev("open: %s", th ? "exception" : "ok"); count(th ? "damaged_open_rejected" : "damaged_open_accepted");
    if (!th) {
        for (auto &v : vars) {
            std::string nm = v.owner.empty() ? v.name : v.owner + "_" + v.name;
            if (v.kind == V_STRUCT) continue;
            size_t h = full.find((v.kind == V_STRING || v.kind == V_ATTR_STRING ? "@string " : "@matrix ") + nm + " ");
            if (h == full.npos) continue;
            size_t e = full.find("\n@", h); if (e == full.npos) e = full.size();
            for (unsigned a = 0; a < accessors(FMT_SDT, v); a++) {
                if (e <= first) { if (throws([&] { read_check(r, FMT_SDT, v, a, "torn-data-returned"); }, &w)) violate("intact-variable-lost", "SDT: %s, before the damage, is not read: %s", v.describe().c_str(), w.c_str()); count("before_damage_exact"); continue; }
                // anything, but within memory and soon
                sfilesize_t d[2];
                throws([&] { r->GetString(nm); });
                throws([&] { double **x = r->GetDoubles(nm, d); double z = 0; for (sfilesize_t i = 0; i < d[0]; i++) for (sfilesize_t j = 0; j < d[1]; j++) z += x[i][j]; mix((uint64_t)std::isnan(z)); delete[] x[0]; delete[] x; });
                throws([&] { double *x = r->GetList(nm, d); double z = 0; for (sfilesize_t j = 0; j < d[0]; j++) z += x[j]; mix((uint64_t)std::isnan(z)); delete[] x; });
                throws([&] { r->GetScalar(nm); });
                throws([&] { int64_t *x = r->GetIntList(nm, d); delete[] x; });
            }
        }
        throws([&] { r->Close(); });
    }
    if (throws([&] { r->Open(p, SFILE_MODE_READ); }, &w)) violate("object-unusable", "an SDT object cannot open an intact file after a damaged one: %s", w.c_str());
    for (auto &v : vars) for (unsigned h = 0; h < accessors(FMT_SDT, v); h++)
        if (throws([&] { read_check(r, FMT_SDT, v, h, "object-unusable"); }, &w)) violate("object-unusable", "SDT: %s", w.c_str());
    r->Close(); delete r;
    disarm_steps();
}
static void s03() {
    if (maybe(150)) { set_clock(1700000000ll * 1000000000); return s03_damaged(); }
    Fmt f = (Fmt)op(3);
    std::string p = path(std::string("data.") + fmt_ext[f]), q = path(std::string("torn.") + fmt_ext[f]);
    set_clock(1700000000ll * 1000000000);
    plan_faults(0);
    GenOpt o; o.big = maybe(200);
    std::vector<Var> vars; std::vector<std::string> structs; unsigned c = 0;
    bool killed = maybe(400);
    if (killed) crash_after(op(maybe(500) ? 12 : 80), f == FMT_SDT ? op(1u << 16) : 0);
    SFile *sf = SFile::Create(p, SFILE_MODE_WRITE, fmt_type[f]);
    unsigned n = 1 + op(6);
    for (unsigned i = 0; i < n; i++) {
        Var v = gen_var(f, vars, c, o, structs);
        write_var(sf, v); v.acked = true; vars.push_back(v);
    }
    sf->Close();
    delete sf;
    std::string full = slurp(p), torn;
    size_t cut = full.size();
    if (killed && crash_taken()) {
        torn = slurp(p + ".crash");
        cut = torn.size();
        count("fault:writer_killed");
    } else {
        cut = maybe(300) ? full.size() - op((uint32_t)std::min<size_t>(full.size(), 64) + 1) : op((uint32_t)full.size() + 1);
        torn = full.substr(0, cut);
        count("fault:truncated");
    }
    bool exempt = f == FMT_SDT && cut_inside_token(full, cut) && torn == full.substr(0, cut);
    bool killed_h5 = killed && crash_taken() && f != FMT_SDT;
    spit(q, torn);
    ev("S03 %s %zu of %zu bytes%s", fmt_name[f], torn.size(), full.size(), exempt ? " (last number cut)" : "");
    nontrivial();
    arm_steps(4000000 + 3000 * (uint64_t)full.size());
    SFile *r = make_object(f); std::string w;
    if (maybe(300)) { r->Open(p, SFILE_MODE_READ); if (maybe(500)) r->Close(); }     // an object that had another file open
    bool t = throws([&] { r->Open(q, SFILE_MODE_READ); }, &w);
    ev("open: %s", t ? "exception" : "ok");
    count(t ? "torn_open_rejected" : "torn_open_accepted");
    if (t && torn == full) violate("intact-file-rejected", "%s: the complete file does not open: %s", fmt_name[f], w.c_str());
    if (!t) {
        for (size_t i = 0; i < vars.size(); i++) {
            const Var &v = vars[i];
            for (unsigned h = 0; h < accessors(f, v); h++) {
                bool has = false;
                if (throws([&] { has = v.owner.empty() ? r->HasVariable(v.name) : true; }) || !has) { count("torn_variable_absent"); if (torn == full) violate("intact-file-rejected", "%s absent", v.describe().c_str()); break; }
                if (exempt) { // only exercise it
                    bool last = true;
                    for (size_t j = i + 1; j < vars.size(); j++) { bool hj = false; throws([&] { hj = vars[j].kind != V_STRUCT && r->HasVariable(vars[j].owner.empty() ? vars[j].name : vars[j].owner + "_" + vars[j].name); }); if (hj) last = false; }
                    if (last) {
                        count("torn_exempt");
                        if (v.kind == V_STRING || v.kind == V_ATTR_STRING || v.kind == V_ATTR_SCALAR) break;
                        // the text left must denote the number returned
                        sfilesize_t d[2]; double **x = nullptr;
                        if (throws([&] { x = r->GetDoubles(v.name, d); })) break;
                        size_t k = d[0] * d[1];
                        if (k && k == v.n()) {
                            std::string tok = torn.substr(torn.find_last_of(" \n") + 1); char *e; double y = strtod(tok.c_str(), &e); checked();
                            if (*e || !(x[0][k - 1] == y || (std::isnan(y) && std::isnan(x[0][k - 1])))) violate("torn-data-returned", "SDT: last number of %s is cut to '%s' and returned as %.17g", v.describe().c_str(), tok.c_str(), x[0][k - 1]);
                            for (size_t i = 0; i + 1 < k; i++) { double want = v.et == E_F64 ? v.f[i] : v.et == E_U64 ? (double)(uint64_t)v.i[i] : (double)v.i[i]; if (x[0][i] != want && !(std::isnan(want) && std::isnan(x[0][i]))) violate("torn-data-returned", "SDT: element %zu of %s is %.17g, written %.17g", i, v.describe().c_str(), x[0][i], want); }
                        }
                        delete[] x[0]; delete[] x;
                        break;
                    }
                }
                bool qt;
                if (killed_h5) { // libhdf5 gives no guarantee about the values after its writer was killed
                    qt = throws([&] { sfilesize_t d[8], nd; if (v.kind == V_STRING) r->GetString(v.name); else if (v.kind < V_MULTI) { double **p = r->GetDoubles(v.name, d); delete[] p[0]; delete[] p; } else if (v.kind == V_MULTI) delete[] r->GetMultiArray_linear(v.name, 8, nd, d); });
                    count("killed_writer_reads");
                    continue;
                }
                qt = throws([&] { read_check(r, f, v, h, "torn-data-returned"); }, &w);
                count(qt ? "torn_read_rejected" : "torn_read_exact");
                if (qt && torn == full) violate("intact-file-rejected", "%s: %s", v.describe().c_str(), w.c_str());
            }
        }
        throws([&] { r->Close(); });
    }
    // the object must still be usable
    if (maybe(500)) {
        if (throws([&] { r->Open(p, SFILE_MODE_READ); }, &w)) violate("object-unusable", "%s object cannot open an intact file after a torn one: %s", fmt_name[f], w.c_str());
        for (auto &v : vars) for (unsigned h = 0; h < accessors(f, v); h++)
            if (throws([&] { read_check(r, f, v, h, "object-unusable"); }, &w)) violate("object-unusable", "%s: %s", v.describe().c_str(), w.c_str());
        r->Close();
    }
    delete r;
    disarm_steps();
}
static Reg r03("S03", s03, 0);

// ------------------------------------------------------------------ S04
// A read that must fail: unknown name, or a shape/type the variable has not.
static void bad_read(SFile *sf, Fmt f, const std::vector<Var> &vars) {
    sfilesize_t d[8], nd; std::string w;
    const Var &v = vars[op((uint32_t)vars.size())];
    bool t;
    switch (op(6)) {
    case 0: t = throws([&] { sf->GetDoubles("no_such_variable", d); }); if (!t) violate("phantom-variable", "%s: GetDoubles of a missing variable did not fail", fmt_name[f]); break;
    case 1: t = throws([&] { sf->GetString("no_such_variable"); }); if (!t) violate("phantom-variable", "%s: GetString of a missing variable did not fail", fmt_name[f]); break;
    case 2: t = throws([&] { sf->GetAttributeScalar(v.name, "no_such_attribute"); }); if (!t) violate("phantom-variable", "%s: missing attribute was returned", fmt_name[f]); break;
    case 3:
        if (v.dims.size() == 2 && v.dims[0] > 1 && v.dims[1] > 1 && v.kind != V_ATTR_SCALAR) {
            t = throws([&] { double *p = sf->GetList(v.name, d); delete[] p; });
            if (!t && v.et == E_F64) violate("wrong-shape", "%s: matrix %s returned as a list", fmt_name[f], v.describe().c_str());
        } break;
    case 4: if (v.n() > 1 && v.kind <= V_IMAGE && v.kind != V_STRING) { t = throws([&] { sf->GetScalar(v.name); }); if (!t) violate("wrong-shape", "%s: %s returned as a scalar", fmt_name[f], v.describe().c_str()); } break;
    default: if (v.dims.size() >= 3) {
            t = throws([&] { double **p = sf->GetDoubles(v.name, d); delete[] p[0]; delete[] p; });
            if (!t) violate("wrong-shape", "%s: %s returned as a matrix", fmt_name[f], v.describe().c_str());
            t = throws([&] { double *p = sf->GetDoubles1D(v.name, d); delete[] p; });
            if (!t) violate("wrong-shape", "%s: %s returned as a vector", fmt_name[f], v.describe().c_str());
        } else throws([&] { double *p = sf->GetMultiArray_linear("no_such_variable", 8, nd, d); delete[] p; });
    }
}
static void s04() {
    Fmt f = (Fmt)op(3);
    set_clock(1700000000ll * 1000000000);
    GenOpt o; o.big = maybe(200);
    std::string p[2] = {path(std::string("a.") + fmt_ext[f]), path(std::string("b.") + fmt_ext[f])};
    std::vector<Var> vars[2] = {build_file(p[0], f, 2 + op(7), o), build_file(p[1], f, 1 + op(5), o)};
    plan_faults(FM_READ);
    std::string w;
    SFile *sf = nullptr;
    unsigned cur = 0;
    bool writemode = f != FMT_SDT && maybe(200);   // HDF5/MAT can also be read while open for update
    uint64_t opened_at = 0;
    auto open = [&](unsigned i) {
        cur = i;
        for (int k = 0;; k++) {
            uint64_t h0 = hard_faults;
            bool t = throws([&] { if (!sf) sf = make_object(f); sf->Open(p[i], writemode ? SFILE_MODE_UPDATE : SFILE_MODE_READ); }, &w);
            if (!t) { opened_at = h0; return; }
            if (hard_faults == h0) violate("spurious-failure", "%s: open failed without a fault: %s", fmt_name[f], w.c_str());
            if (k > 2) faults_pause();
        }
    };
    open(0);
    unsigned n = 3 + op(20);
    ev("S04 %s ops=%u", fmt_name[f], n);
    for (unsigned i = 0; i < n; i++) {
        uint64_t h0 = hard_faults;
        switch (weighted({12, 3, 1, 1})) {
        case 0: {
            const Var &v = vars[cur][op((uint32_t)vars[cur].size())];
            if (!accessors(f, v)) break;
            unsigned how = op(accessors(f, v)), times = 1 + op(3);
            for (unsigned k = 0; k < times; k++) {
                h0 = hard_faults;
                bool t = throws([&] { read_check(sf, f, v, how, "read-not-repeatable"); }, &w);
                ev("read %s via %u: %s", v.describe().c_str(), how, t ? "exception" : "ok");
                nontrivial();
                // (libhdf5 may refuse to go on with a file object that met a disk error; it must then be opened again)
                if (t && (f == FMT_SDT ? hard_faults == h0 : hard_faults == opened_at)) violate("read-not-repeatable", "%s: reading %s fails without a fault: %s", fmt_name[f], v.describe().c_str(), w.c_str());
            }
        } break;
        case 1: ev("bad read"); bad_read(sf, f, vars[cur]); count("failing_reads"); break;
        case 2: {
            bool t = maybe(300) ? false : throws([&] { sf->Close(); }, &w);      // (opening another file closes the first)
            if (t && hard_faults == h0) violate("spurious-failure", "close failed without a fault: %s", w.c_str());
            open(op(2));
            ev("reopened on %u", cur);
            count("reopened");
            // nothing of another file shows through
            for (auto &v : vars[1 - cur]) {
                bool here = false;
                if (!v.owner.empty() || v.kind == V_STRUCT) continue;
                for (auto &x : vars[cur]) if (x.name == v.name || (!x.owner.empty() && x.owner + "_" + x.name == v.name)) here = true;
                bool has = false;
                if (!here && !throws([&] { has = sf->HasVariable(v.name); }) && has) violate("stale-variable", "%s: %s of the file opened before is still visible", fmt_name[f], v.describe().c_str());
            }
        } break;
        default: { delete sf; sf = nullptr; open(op(2)); ev("fresh object on %u", cur); }
        }
    }
    throws([&] { sf->Close(); });
    delete sf;
}
static Reg r04("S04", s04, 300);

// ------------------------------------------------------------------ S05
// the attributes MATLAB goes by when it loads a variable
static std::string h5text(hid_t obj, const char *name) {
    if (H5Aexists(obj, name) <= 0) return "(none)";
    hid_t a = H5Aopen(obj, name, H5P_DEFAULT), t = H5Aget_type(a);
    std::string r = "(not text)";
    if (H5Tget_class(t) == H5T_STRING && H5Tis_variable_str(t) <= 0) { r.assign(H5Tget_size(t), 0); if (H5Aread(a, t, &r[0]) < 0) r = "(unreadable)"; r = r.c_str(); }
    H5Tclose(t); H5Aclose(a); return r;
}
static void matlab_classes(const std::string &p, const std::vector<Var> &vars) {
    static const char *num[] = {"double", "int32", "int64", "uint32", "uint64"};
    hid_t f = H5Fopen(p.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) violate("bad-mat-file", "the file is not an HDF5 file");
    for (auto &v : vars) {
        std::string name = v.owner.empty() ? v.name : v.owner + "_" + v.name;
        bool text = v.kind == V_STRING || v.kind == V_ATTR_STRING;
        std::string want = v.kind == V_STRUCT ? "struct" : text ? "char" : num[v.et];
        hid_t o = H5Oopen(f, name.c_str(), H5P_DEFAULT);
        if (o < 0) { count("class_unknown_name"); continue; }
        std::string got = h5text(o, "MATLAB_class"); int32_t dec = -1;
        if (text && H5Aexists(o, "MATLAB_int_decode") > 0) { hid_t a = H5Aopen(o, "MATLAB_int_decode", H5P_DEFAULT); H5Aread(a, H5T_NATIVE_INT32, &dec); H5Aclose(a); }
        H5Oclose(o); checked();
        if (got == "(none)" && v.kind != V_STRUCT && !text) continue;      // a number's class goes without saying
        if (got != want) { H5Fclose(f); violate("bad-mat-class", "%s has the MATLAB class '%s', should be '%s'", v.describe().c_str(), got.c_str(), want.c_str()); }
        if (text && dec != 2) { H5Fclose(f); violate("bad-mat-class", "%s is not marked as 16-bit text (MATLAB_int_decode is %d)", v.describe().c_str(), dec); }
        count("class_checked");
    }
    H5Fclose(f);
}
static void s05() {
    static const char *tz[] = {"UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+1345>-13:45", "<-11>11", "IST-5:30"};
    const char *z = tz[op(6)];
    setenv("TZ", z, 1); tzset();
    // any instant of the years 1970..9999, with month boundaries over-represented
    int year = 1970 + (int)(maybe(500) ? op(80) : op(290)), mon = (int)op(12), day = (int)(maybe(300) ? (op(2) ? 1 : 28 + op(4)) : 1 + op(31));
    int sec = (int)(maybe(300) ? (op(2) ? 0 : 86399) : op(86400));
    struct tm b = {}; b.tm_year = year - 1900; b.tm_mon = mon; b.tm_mday = day; b.tm_sec = sec; b.tm_isdst = -1;
    time_t t0 = mktime(&b);
    if (t0 < 0) t0 = 0;
    set_clock((int64_t)t0 * 1000000000 + op(1000000000));
    clock_read_step = maybe(300) ? 400000000 : 0;      // the clock moves while the file is created
    plan_faults(FM_WRITE | FM_READ);
    std::string p = path("m.mat"), w;
    bool pre = maybe(300);
    if (pre) spit(p, std::string(op(3000), 'x'));
    SFile *sf = nullptr;
    bool t = throws([&] { sf = SFile::Create(p, SFILE_MODE_WRITE); }, &w);
    faults_pause();
    int64_t t1 = clock_ns / 1000000000;
    ev("S05 TZ=%s %04d-%02d-%02d +%ds: %s", z, year, mon + 1, day, sec, t ? "exception" : "ok");
    nontrivial();
    if (t) { if (!hard_faults) violate("spurious-failure", "creating a MAT file failed without a fault: %s", w.c_str()); count("create_failed"); return; }
    double x = 42.5;
    faults_resume();
    std::vector<Var> vars; std::vector<std::string> structs; unsigned counter = 0;
    bool t2 = throws([&] {
        sf->WriteScalar("x", x);
        GenOpt go; go.big = false;
        for (unsigned i = 0, n = maybe(500) ? op(6) : 0; i < n; i++) { Var v = gen_var(FMT_MAT, vars, counter, go, structs); write_var(sf, v); v.acked = true; vars.push_back(v); }
        sf->Close();
    }, &w);
    faults_pause();
    delete sf;
    if (t2) { if (!hard_faults) violate("spurious-failure", "writing a MAT file failed without a fault: %s", w.c_str()); return; }
    std::string h = slurp(p);
    if (h.size() < 512) violate("bad-mat-header", "file has %zu bytes", h.size());
    bool ok = false; std::string want;
    for (int64_t s = t0; s <= t1 && !ok; s++) {
        time_t tt = (time_t)s; struct tm lt; localtime_r(&tt, &lt);
        static const char *dn[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
        char d[64];
        snprintf(d, sizeof d, "Created on: %s %s %02d %02d:%02d:%02d %d ", dn[lt.tm_wday], mn[lt.tm_mon], lt.tm_mday, lt.tm_hour, lt.tm_min, lt.tm_sec, lt.tm_year + 1900);
        want = d;
        ok = h.substr(0, 116).find(want) != std::string::npos;
    }
    checked();
    std::string shown = h.substr(0, 116); for (auto &c : shown) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
    if (!ok) violate("bad-mat-header", "header '%s' does not say '%s'", shown.c_str(), want.c_str());
    if (h.compare(0, 20, "MATLAB 7.3 MAT-file,")) violate("bad-mat-header", "header starts '%.20s'", shown.c_str());
    for (int i = 0; i < 116; i++) if ((unsigned char)h[i] < 32 || (unsigned char)h[i] > 126) violate("bad-mat-header", "byte %d of the header text is %02x", i, (unsigned char)h[i]);
    static const unsigned char tail[12] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 'I', 'M'};
    if (memcmp(h.data() + 116, tail, 12)) violate("bad-mat-header", "version/endianness bytes wrong");
    if (memcmp(h.data() + 512, "\x89HDF\r\n\x1a\n", 8)) violate("bad-mat-header", "no HDF5 data after the 512-byte user block");
    double y = 0;
    if (throws([&] { SFile *r = SFile::Create(p, SFILE_MODE_READ); y = r->GetScalar("x"); r->Close(); delete r; }, &w)) violate("bad-mat-header", "file does not open again: %s", w.c_str());
    if (y != x) violate("bad-mat-header", "value read back is %g", y);
    matlab_classes(p, vars);
}
static Reg r05("S05", s05, 500);
