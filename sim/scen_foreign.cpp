// S07: HDF5 and MAT files written by other programs.
#include "sfmodel.h"
#include <cmath>
#include <hdf5.h>
#include <memory>
using namespace sim;

namespace {
typedef long double LD;      // holds every 64-bit integer and double exactly
enum Cls { C_SIGNED, C_UNSIGNED, C_FLOAT, C_FIXED, C_VLEN };
struct NType { hid_t t; Cls c; unsigned bits; bool native; const char *name; };
struct FVar {
    std::string name, attr;             // attr: an attribute of that name of the dataset `name`
    Cls c = C_FLOAT; unsigned bits = 64; bool native = true, null = false, pad = false, unwritten = false;
    std::string tname;
    std::vector<hsize_t> d;
    std::vector<LD> v; std::vector<std::string> s; size_t width = 0;
    bool text() const { return c == C_FIXED || c == C_VLEN; }
    bool u16() const { return c == C_UNSIGNED && bits == 16 && native; }
    size_t n() const { if (null) return 0; size_t k = 1; for (auto x : d) k *= x; return k; }
    std::string describe() const {
        std::string r = name + (attr.empty() ? "" : "@" + attr) + " (" + tname;
        if (null) return r + ", no value)";
        r += ", ";
        if (d.empty()) r += "scalar"; for (size_t i = 0; i < d.size(); i++) r += (i ? "x" : "") + std::to_string(d[i]);
        return r + ")";
    }
};
#define HCK(x) [&] { auto h_ = (x); if (h_ < 0) { fprintf(stderr, "harness: %s failed\n", #x); abort(); } return h_; }()

std::vector<NType> ntypes() {
    return {{H5T_IEEE_F64LE, C_FLOAT, 64, true, "f64le"}, {H5T_IEEE_F32LE, C_FLOAT, 32, true, "f32le"}, {H5T_STD_I32LE, C_SIGNED, 32, true, "i32le"}, {H5T_STD_I64LE, C_SIGNED, 64, true, "i64le"},
            {H5T_STD_U32LE, C_UNSIGNED, 32, true, "u32le"}, {H5T_STD_U64LE, C_UNSIGNED, 64, true, "u64le"}, {H5T_STD_I8LE, C_SIGNED, 8, true, "i8"}, {H5T_STD_U8LE, C_UNSIGNED, 8, true, "u8"},
            {H5T_STD_I16LE, C_SIGNED, 16, true, "i16le"}, {H5T_STD_U16LE, C_UNSIGNED, 16, true, "u16le"}, {H5T_IEEE_F64BE, C_FLOAT, 64, false, "f64be"}, {H5T_IEEE_F32BE, C_FLOAT, 32, false, "f32be"},
            {H5T_STD_I32BE, C_SIGNED, 32, false, "i32be"}, {H5T_STD_I64BE, C_SIGNED, 64, false, "i64be"}, {H5T_STD_U32BE, C_UNSIGNED, 32, false, "u32be"}, {H5T_STD_U16BE, C_UNSIGNED, 16, false, "u16be"}};
}
LD gen_value(Rng &r, const NType &t) {
    if (t.c == C_FLOAT) {
        static const double sp[] = {0, 1, -1, 0.5, 1e-300, 1e300, 3, 1e15};
        double x = r.below(3) ? (r.unit() - 0.5) * pow(10, (int)r.below(12) - 4) : r.below(2) ? floor(r.unit() * 1000) - 500 : sp[r.below(8)];
        if (t.bits == 32) { float f = (float)x; if (!std::isfinite(f)) f = 1; return f; }
        return x;
    }
    unsigned b = t.c == C_SIGNED ? t.bits - 1 : t.bits;
    if (!t.native && b > 52) b = 52;      // (byte-swapped 64-bit integers beyond 2^53 are rounded by libhdf5 its own way)
    uint64_t m = b == 64 ? ~0ull : (1ull << b) - 1, x = r.below(3) ? r.next() & m & (r.below(2) ? 0xff : ~0ull) : r.below(2) ? m : 0;
    if (t.c == C_UNSIGNED) return (LD)x;
    return r.below(2) ? (LD)(int64_t)x : -(LD)(int64_t)x - (r.below(2) ? 1 : 0);
}
std::string gen_word(unsigned lo, unsigned hi) { unsigned n = range(lo, hi); Rng r(op(1 << 16)); std::string s; for (unsigned i = 0; i < n; i++) s += (char)(33 + r.below(90)); return s; }

hid_t space_of(const FVar &v) {
    if (v.null) return HCK(H5Screate(H5S_NULL));
    if (v.d.empty()) return HCK(H5Screate(H5S_SCALAR));
    return HCK(H5Screate_simple((int)v.d.size(), v.d.data(), nullptr));
}
// Writes a variable (or attribute) as another program would.
void put(hid_t file, FVar &v, const NType *t, unsigned layout) {
    hid_t sp = space_of(v), ft, mt; size_t n = v.n();
    std::vector<char> buf; std::vector<const char *> ptr; const void *data;
    if (v.text()) {
        ft = HCK(H5Tcopy(H5T_C_S1));
        if (v.c == C_VLEN) {
            HCK(H5Tset_size(ft, H5T_VARIABLE)); if (v.pad) HCK(H5Tset_cset(ft, H5T_CSET_UTF8));
            for (auto &x : v.s) ptr.push_back(x.c_str()); ptr.push_back(""); data = ptr.data();
        } else {
            HCK(H5Tset_size(ft, v.width)); H5T_str_t p = v.pad ? H5T_STR_SPACEPAD : v.width > 1 && v.bits == 1 ? H5T_STR_NULLTERM : H5T_STR_NULLPAD;
            if (v.width == 1) p = H5T_STR_NULLTERM;    // as softlib's own
            HCK(H5Tset_strpad(ft, p));
            buf.assign(n * v.width + 1, v.pad ? ' ' : 0);
            for (size_t i = 0; i < n; i++) memcpy(&buf[i * v.width], v.s[i].data(), std::min(v.width, v.s[i].size()));
            data = buf.data();
        }
        mt = HCK(H5Tcopy(ft));
    } else {
        ft = HCK(H5Tcopy(t->t)); mt = HCK(H5Tcopy(t->c == C_FLOAT ? H5T_NATIVE_DOUBLE : t->c == C_SIGNED ? H5T_NATIVE_INT64 : H5T_NATIVE_UINT64));
        buf.resize(n * 8 + 8);
        for (size_t i = 0; i < n; i++) {
            if (t->c == C_FLOAT) { double x = (double)v.v[i]; memcpy(&buf[i * 8], &x, 8); }
            else if (t->c == C_SIGNED) { int64_t x = (int64_t)v.v[i]; memcpy(&buf[i * 8], &x, 8); }
            else { uint64_t x = (uint64_t)v.v[i]; memcpy(&buf[i * 8], &x, 8); }
        }
        data = buf.data();
    }
    if (!v.attr.empty()) {
        hid_t ds = HCK(H5Dopen2(file, v.name.c_str(), H5P_DEFAULT)), a = HCK(H5Acreate2(ds, v.attr.c_str(), ft, sp, H5P_DEFAULT, H5P_DEFAULT));
        if (!v.null && n && !v.unwritten) HCK(H5Awrite(a, mt, data));
        HCK(H5Aclose(a)); HCK(H5Dclose(ds));
    } else {
        hid_t pl = HCK(H5Pcreate(H5P_DATASET_CREATE)), lc = HCK(H5Pcreate(H5P_LINK_CREATE));
        HCK(H5Pset_create_intermediate_group(lc, 1));
        if (!v.d.empty() && n && v.c != C_VLEN) {
            if (layout == 1) HCK(H5Pset_layout(pl, H5D_COMPACT));
            if (layout >= 2) {
                std::vector<hsize_t> ch; for (auto x : v.d) ch.push_back(x > 1 ? (x + 1) / 2 : 1);
                HCK(H5Pset_chunk(pl, (int)ch.size(), ch.data()));
                if (layout >= 3) HCK(H5Pset_shuffle(pl));
                if (layout >= 4 && H5Zfilter_avail(H5Z_FILTER_DEFLATE) > 0) HCK(H5Pset_deflate(pl, 4));
                if (layout >= 5) HCK(H5Pset_fletcher32(pl));
            }
        }
        if (v.unwritten && !v.text()) {      // nothing was ever written: reads as the fill value
            HCK(H5Pset_fill_value(pl, mt, data));
            for (auto &x : v.v) x = v.v[0];
        }
        hid_t ds = HCK(H5Dcreate2(file, v.name.c_str(), ft, sp, lc, pl, H5P_DEFAULT));
        if (!v.null && n && !v.unwritten) HCK(H5Dwrite(ds, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, data));
        HCK(H5Dclose(ds)); HCK(H5Pclose(pl)); HCK(H5Pclose(lc));
    }
    HCK(H5Tclose(ft)); HCK(H5Tclose(mt)); HCK(H5Sclose(sp));
}

FVar gen(const std::vector<NType> &nt, const NType *&t, Fmt f, bool attr) {
    FVar v; t = nullptr;
    unsigned kind = weighted({6, 2, 2, f == FMT_MAT && !attr ? 3u : 0u});
    if (kind == 3) {                     // MATLAB text: characters as numbers
        t = &nt[9]; v.c = C_UNSIGNED; v.bits = 16; v.tname = "u16 text";
        unsigned k = op(6), n = op(12); 
        if (k == 0) v.d = {n}; else if (k == 1) v.d = {1, n}; else if (k == 2) v.d = {2 + op(4), 2 + op(4)}; else if (k == 3) v.d = {0, op(4)}; else v.d = {n, 1};
        Rng r(op(1 << 16)); for (size_t i = 0; i < v.n(); i++) v.v.push_back(32 + r.below(95));
        return v;
    }
    unsigned sh = weighted({3, 3, 4, attr ? 0u : 3u, 2, attr ? 0u : 2u, 1});
    if (sh == 0) v.d = {1 + op(8)}; else if (sh == 1) ; else if (sh == 2) v.d = {1 + op(5), 1 + op(5)};
    else if (sh == 3) v.d = {1, 1 + op(5)}; else if (sh == 4) v.d = {1}; else if (sh == 5) v.d = {1 + op(3), 1 + op(3), 1 + op(3)}; else v.null = true;
    if (attr && sh == 2) v.d = {1, 1};
    if (!attr && !v.null && !v.d.empty() && maybe(40)) v.d[op((uint32_t)v.d.size())] = 0;
    size_t n = v.n();
    if (kind == 0) {
        t = &nt[op((uint32_t)nt.size())]; v.c = t->c; v.bits = t->bits; v.native = t->native; v.tname = t->name;
        uint32_t s = op(1 << 16); Rng r(s); for (size_t i = 0; i < n; i++) v.v.push_back(gen_value(r, *t));
        v.unwritten = !attr && n && maybe(80);
    } else if (kind == 1) {
        v.c = C_FIXED; v.width = maybe(300) ? 1 : range(2, 12); v.pad = v.width > 1 && maybe(250); v.bits = v.width > 1 && maybe(500);
        v.tname = "fixed text of " + std::to_string(v.width);
        for (size_t i = 0; i < n; i++) v.s.push_back(gen_word(v.width == 1, (unsigned)v.width - (v.width > 1)));
    } else {
        v.c = C_VLEN; v.pad = maybe(400); v.tname = "variable-length text"; if (!v.null && v.d.size() > 1) { v.d = {v.d[0]}; n = v.n(); }
        for (size_t i = 0; i < n; i++) v.s.push_back(gen_word(0, 20));
    }
    if (v.text() && n) v.unwritten = maybe(60);
    return v;
}
const char *acc_name[] = {"GetDoubles", "GetDoubles1D", "GetList", "GetScalar", "GetMultiArray_linear", "GetInt32_2D", "GetInt64_2D", "GetUInt32_2D", "GetUInt64_2D", "GetInt32_1D", "GetInt64_1D", "GetUInt32_1D", "GetUInt64_1D",
                          "GetInt32", "GetInt64", "GetUInt32", "GetUInt64", "GetIntList", "GetIntArray", "GetInt", "GetString", "GetDataType", "HasVariable"};
constexpr unsigned NACC = 23;
enum Must { OK_, THROW, EITHER };
struct Ctx { const FVar &v; unsigned a; };
[[noreturn]] void wrong(const Ctx &c, const char *what) { violate("wrong-data", "%s of %s %s", acc_name[c.a], c.v.describe().c_str(), what); }
template<class T> void cmp(const Ctx &c, const T *d, size_t n) {
    if (n != c.v.n()) wrong(c, "gives another number of elements");
    for (size_t i = 0; i < n; i++) {
        LD x = c.v.v[i];
        if ((T)1.5 != 1.5) {     // an integer type
            LD lo = (LD)std::numeric_limits<T>::min(), hi = (LD)std::numeric_limits<T>::max();
            if (x < lo || x > hi || x != floorl(x)) continue;      // cannot be represented: whatever libhdf5 makes of it
        }
        if ((T)x != d[i]) { char b[160]; snprintf(b, sizeof b, "gives %.17Lg instead of %.17Lg as element %zu", (LD)d[i], x, i); wrong(c, b); }
    }
    checked(n ? n : 1);
}
void cmp_dims(const Ctx &c, const sfilesize_t *d) {
    const auto &q = c.v.d; sfilesize_t r = q.size() < 2 ? 1 : q[0], k = q.empty() ? 1 : q.size() == 1 ? q[0] : q[1];
    if (d[0] != r || d[1] != k) { char b[120]; snprintf(b, sizeof b, "gives %llux%llu elements", (unsigned long long)d[0], (unsigned long long)d[1]); wrong(c, b); }
}
template<class T> void two(const Ctx &c, T **m, const sfilesize_t *d) { cmp_dims(c, d); cmp(c, m[0], d[0] * d[1]); for (sfilesize_t i = 1; i < d[0]; i++) if (m[i] != m[0] + i * d[1]) wrong(c, "gives rows that do not follow each other"); delete[] m[0]; delete[] m; }
template<class T> void one(const Ctx &c, T *m, sfilesize_t n) { cmp(c, m, n); delete[] m; }
template<class T> void single(const Ctx &c, T x) { cmp(c, &x, 1); }

// What has to happen (given a healthy disk).
Must expect(Fmt f, const FVar &v, unsigned a) {
    bool num = !v.text(), scalar = v.n() == 1 && v.d.size() <= 2;
    if (a == 22) return OK_;
    if (a == 21) return OK_;
    if (a == 4 && !v.null && v.d.size()) return num ? OK_ : EITHER;     // (too many dimensions are told by a null pointer)
    if (a == 20) {
        if (v.null) return v.text() && f == FMT_HDF5 ? EITHER : THROW;
        if (v.u16() && f == FMT_MAT) return v.d.empty() || v.d.size() > 2 ? THROW : v.d.size() == 2 && v.d[0] > 1 && v.d[1] > 1 ? THROW : v.tname == "u16le" ? EITHER : OK_;
        if (num) return THROW;
        if (f == FMT_MAT && (v.d.empty() || v.d.size() > 2)) return EITHER;
        if (v.c == C_VLEN && v.n() != 1) return THROW;
        if (v.unwritten) return EITHER;
        if (v.c == C_VLEN) return OK_;
        return v.n() == 1 || (v.width == 1 && v.d.size() == 1 && v.n()) ? OK_ : EITHER;
    }
    if (!num || v.null) return v.n() == 0 && !v.null ? EITHER : THROW;
    if (a == 4) return OK_;
    bool two_d = a == 0 || (a >= 5 && a <= 8), one_d = a == 1 || (a >= 9 && a <= 12);
    if (two_d || one_d) return v.d.size() <= 2 ? OK_ : THROW;
    if (a == 3 || (a >= 13 && a <= 16)) return scalar ? OK_ : THROW;
    bool list = v.d.size() < 2 || (v.d.size() == 2 && (v.d[0] == 1 || v.d[1] == 1));
    if (a == 2) return list ? OK_ : THROW;
    // the generic integer accessors are only meant for the types softlib itself writes
    bool own = v.native && v.bits >= 32 && !(v.c == C_FLOAT && v.bits == 32);
    if (!own) return EITHER;
    if (a == 17) return v.d.size() > 2 ? THROW : EITHER;
    if (a == 18) return v.d.size() > 2 ? THROW : OK_;
    return scalar ? OK_ : THROW;
}
void read(SFile *sf, const FVar &v, unsigned a) {
    Ctx c{v, a}; sfilesize_t d[8] = {77, 77, 77, 77, 77, 77, 77, 77}, nd = 0; const std::string &n = v.name;
    switch (a) {
    case 0: { auto m = sf->GetDoubles(n, d); two(c, m, d); break; }
    case 1: { auto m = sf->GetDoubles1D(n, d); one(c, m, d[0]); break; }
    case 2: { auto m = sf->GetList(n, d); one(c, m, d[0]); break; }
    case 3: single(c, sf->GetScalar(n)); break;
    case 4: {
        sfilesize_t room = op(5);
        double *m = sf->GetMultiArray_linear(n, room, nd, d);
        if (nd != v.d.size()) wrong(c, "gives another number of dimensions");
        if ((m != nullptr) != (nd <= room)) wrong(c, m ? "gives more dimensions than there is room for" : "gives nothing although there is room");
        if (m) { for (size_t i = 0; i < nd; i++) if (d[i] != v.d[i]) wrong(c, "gives other dimensions"); one(c, m, v.n()); }
        break; }
    case 5: { auto m = sf->GetInt32_2D(n, d); two(c, m, d); break; }
    case 6: { auto m = sf->GetInt64_2D(n, d); two(c, m, d); break; }
    case 7: { auto m = sf->GetUInt32_2D(n, d); two(c, m, d); break; }
    case 8: { auto m = sf->GetUInt64_2D(n, d); two(c, m, d); break; }
    case 9: { auto m = sf->GetInt32_1D(n, d); one(c, m, d[0]); break; }
    case 10: { auto m = sf->GetInt64_1D(n, d); one(c, m, d[0]); break; }
    case 11: { auto m = sf->GetUInt32_1D(n, d); one(c, m, d[0]); break; }
    case 12: { auto m = sf->GetUInt64_1D(n, d); one(c, m, d[0]); break; }
    case 13: single(c, sf->GetInt32(n)); break;
    case 14: single(c, sf->GetInt64(n)); break;
    case 15: single(c, sf->GetUInt32(n)); break;
    case 16: single(c, sf->GetUInt64(n)); break;
    case 17: { auto m = sf->GetIntList(n, d); one(c, m, d[0]); break; }
    case 18: { auto m = sf->GetIntArray(n, d); cmp_dims(c, d); cmp(c, m[0], d[0] * d[1]); delete[] m[0]; delete[] m; break; }
    case 19: single(c, sf->GetInt(n)); break;
    case 20: break;
    case 21: {
        auto t = sf->GetDataType(n); SFile::sfile_data_type w = SFile::SFILE_DATA_UNDEFINED;
        if (v.native && v.c == C_FLOAT && v.bits == 64) w = SFile::SFILE_DATA_DOUBLE;
        if (v.native && v.c == C_SIGNED) w = v.bits == 32 ? SFile::SFILE_DATA_INT32 : v.bits == 64 ? SFile::SFILE_DATA_INT64 : w;
        if (v.native && v.c == C_UNSIGNED) w = v.bits == 32 ? SFile::SFILE_DATA_UINT32 : v.bits == 64 ? SFile::SFILE_DATA_UINT64 : w;
        if (w != SFile::SFILE_DATA_UNDEFINED && t != w) wrong(c, "gives another type");
        if (!v.text() && !v.u16() && t == SFile::SFILE_DATA_STRING) wrong(c, "takes numbers for text");
        if (v.text() && t != SFile::SFILE_DATA_STRING && t != SFile::SFILE_DATA_UNDEFINED) wrong(c, "takes text for numbers");
        checked(); break; }
    default: if (!sf->HasVariable(n)) wrong(c, "does not find it"); checked();
    }
}
void text_is(const FVar &v, const std::string &got, bool attr) {
    std::string want, g = got;
    if (v.text()) for (auto &x : v.s) want += x; else for (auto x : v.v) want += (char)(int)x;
    auto strip = [](std::string &x) { while (!x.empty() && x.back() == ' ') x.pop_back(); };
    if (v.pad && v.c == C_FIXED) { strip(g); strip(want); }
    if (g != want) violate("wrong-data", "%s of %s gives '%s' instead of '%s'", attr ? "GetAttributeString" : "GetString", v.describe().c_str(), got.substr(0, 60).c_str(), want.substr(0, 60).c_str());
    checked();
}
void s07() {
    Fmt f = maybe(500) ? FMT_MAT : FMT_HDF5;
    set_clock(1700000000ll * 1000000000);
    std::string p = path(std::string("foreign.") + fmt_ext[f]), w;
    auto nt = ntypes();
    std::vector<FVar> vars; 
    hid_t fc = HCK(H5Pcreate(H5P_FILE_CREATE)), fa = HCK(H5Pcreate(H5P_FILE_ACCESS));
    if (f == FMT_MAT || maybe(200)) HCK(H5Pset_userblock(fc, 512));
    bool latest = maybe(400); if (latest) HCK(H5Pset_libver_bounds(fa, H5F_LIBVER_LATEST, H5F_LIBVER_LATEST));
    hid_t h = HCK(H5Fcreate(p.c_str(), H5F_ACC_TRUNC, fc, fa));
    unsigned nv = 1 + op(6);
    for (unsigned i = 0; i < nv; i++) {
        const NType *t; bool attr = f == FMT_HDF5 && i && maybe(350);
        FVar v = gen(nt, t, f, attr);
        if (attr) { v.name = vars[op((uint32_t)vars.size())].name; v.attr = "a" + std::to_string(i); }
        else v.name = (maybe(250) ? "g/" : maybe(60) ? "g/h/" : "") + ("v" + std::to_string(i));
        put(h, v, t, op(6)); vars.push_back(v);
        note("has %s", v.describe().c_str());
    }
    // links: one that leads to a variable is as good as the variable, one that leads nowhere is none
    bool hard = maybe(500);
    std::string link = maybe(300) ? "link" : "", dangling = maybe(200) ? "dangling" : "", type = maybe(100) ? "atype" : "";
    FVar linked = vars[0]; linked.name = link;
    if (!link.empty()) { if (hard) HCK(H5Lcreate_hard(h, vars[0].name.c_str(), h, "link", H5P_DEFAULT, H5P_DEFAULT)); else HCK(H5Lcreate_soft(("/" + vars[0].name).c_str(), h, "link", H5P_DEFAULT, H5P_DEFAULT)); vars.push_back(linked); }
    if (!dangling.empty()) HCK(H5Lcreate_soft("/notthere", h, "dangling", H5P_DEFAULT, H5P_DEFAULT));
    if (!type.empty()) { hid_t t = HCK(H5Tcopy(H5T_NATIVE_DOUBLE)); HCK(H5Tcommit2(h, "atype", t, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT)); HCK(H5Tclose(t)); }
    HCK(H5Fclose(h)); HCK(H5Pclose(fc)); HCK(H5Pclose(fa));

    plan_faults(FM_READ);
    ev("S07 %s: %zu variables%s", fmt_name[f], vars.size(), latest ? ", latest format" : "");
    unsigned rounds = 1 + op(3);
    faults_pause();
    for (unsigned rd = 0; rd <= rounds; rd++) {
        if (rd == 1) { faults_fit(rounds); faults_resume(); }
        std::unique_ptr<SFile> sf; uint64_t h0 = hard_faults;
        bool t = throws([&] { sf.reset(SFile::Create(p, SFILE_MODE_READ, fmt_type[f])); }, &w);
        if (t) { if (hard_faults == h0) violate("spurious-failure", "a %s file does not open: %s", fmt_name[f], w.c_str()); ev("open: exception"); continue; }
        unsigned n = 2 + op(10);
        for (unsigned i = 0; i < n; i++) {
            if (maybe(100)) {
                static const char *no[] = {"g", "none", "dangling", "atype", "g/none", "v0/x", "/"};
                const char *q = no[op(7)]; bool has = false;
                t = throws([&] { has = sf->HasVariable(q); }, &w); checked();
                ev("has %s: %s", q, t ? "exception" : has ? "yes" : "no");
                if (!t && has) violate("phantom-variable", "%s: '%s' is said to be a variable", fmt_name[f], q);
                if (t && hard_faults == h0) violate("spurious-failure", "HasVariable('%s') failed: %s", q, w.c_str());
                bool r = throws([&] { sfilesize_t d[2]; double **m = sf->GetDoubles(q, d); delete[] m[0]; delete[] m; }, &w);
                if (!r) violate("phantom-variable", "%s: '%s', which is no variable, is read", fmt_name[f], q);
                continue;
            }
            const FVar &v = vars[op((uint32_t)vars.size())];
            Must must; std::string what;
            if (!v.attr.empty()) {
                bool txt = maybe(v.text() ? 700 : 250); what = (txt ? "GetAttributeString " : "GetAttributeScalar ") + v.describe();
                if (maybe(60)) { t = throws([&] { if (txt) sf->GetAttributeString(v.name, "none"); else sf->GetAttributeScalar("none", v.attr); }); ev("missing attribute: %d", t); checked(); if (!t) violate("phantom-variable", "an attribute that does not exist is read"); continue; }
                if (txt) must = v.unwritten && !(v.c == C_VLEN && v.n() != 1) ? EITHER : v.null ? v.text() && v.c == C_FIXED ? EITHER : THROW : !v.text() ? THROW : v.c == C_VLEN ? v.n() == 1 ? OK_ : THROW : v.n() == 1 || (v.width == 1 && v.d.size() == 1) ? OK_ : EITHER;
                else must = v.null || v.text() || v.n() != 1 ? THROW : OK_;
                t = throws([&] {
                    if (txt) { std::string s = sf->GetAttributeString(v.name, v.attr); if (must == OK_) text_is(v, s, true); }
                    else { double x = sf->GetAttributeScalar(v.name, v.attr); if (must == OK_ && x != (double)v.v[0]) violate("wrong-data", "%s gives %.17g instead of %.17Lg", what.c_str(), x, v.v[0]); checked(); }
                }, &w);
            } else {
                unsigned a = v.text() || v.u16() ? (maybe(500) ? 20 : op(NACC)) : op(NACC);
                must = expect(f, v, a); what = std::string(acc_name[a]) + " " + v.describe();
                t = throws([&] {
                    if (a == 20) { std::string s = sf->GetString(v.name); if (must == OK_) text_is(v, s, false); }
                    else if (must == THROW || (must == EITHER && v.text())) { sfilesize_t d[8]; 
                        // (only whether it is refused matters; with nothing stored there is nothing to compare)
                        FVar z = v; if (z.v.size() != z.n()) z.v.assign(z.n(), 0);
                        if (must == THROW) read(sf.get(), z, a); else { double **m = sf->GetDoubles(v.name, d); delete[] m[0]; delete[] m; } }
                    else read(sf.get(), v, a);
                }, &w);
            }
            ev("%s: %s", what.c_str(), t ? "exception" : "ok"); nontrivial(); count(t ? "refused" : "read");
            if (t && must == OK_ && hard_faults == h0) violate("spurious-failure", "%s: %s failed: %s", fmt_name[f], what.c_str(), w.c_str());
            if (!t && must == THROW) violate("misread", "%s: %s gave a value", fmt_name[f], what.c_str());
            if (hard_faults != h0) break;          // after a disk error the file is opened again
        }
        throws([&] { sf->Close(); });
    }
}
Reg r1("S07", s07, 500);
}
