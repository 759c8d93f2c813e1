#include "sfmodel.h"
#include <cmath>
#include <limits>
#include <softlib/SFile_HDF5.h>
#include <softlib/SFile_MAT.h>
#include <softlib/SFile_SDT.h>
#include <unistd.h>

namespace sim {

const char *fmt_ext[3] = {"sdt", "h5", "mat"};
const char *fmt_name[3] = {"SDT", "HDF5", "MAT"};
const sfile_type fmt_type[3] = {SFILE_TYPE_SDT, SFILE_TYPE_HDF5, SFILE_TYPE_MATLAB};
static const char *kname[] = {"list", "matrix", "scalar", "string", "image", "multi", "attr-scalar", "attr-string", "struct"};
static const char *ename[] = {"f64", "i32", "i64", "u32", "u64"};

std::string Var::describe() const {
    std::string r = std::string(kname[kind]) + " " + (owner.empty() ? "" : owner + "@") + name + " " + ename[et] + " [";
    for (auto d : dims) r += std::to_string(d) + " ";
    r += "]";
    if (kind == V_STRING || kind == V_ATTR_STRING) r += " len=" + std::to_string(s.size());
    return r;
}

static double gen_double(Rng &r, int style, bool special) {
    switch (style) {
    case 0: return (double)(int64_t)(r.below(20)) - 5;
    case 1: return r.unit() * 4 - 2;
    case 2: { double m = r.unit() * 2 - 1; int e = (int)r.below(600) - 300; return ldexp(m, e); }
    default:
        if (!special) return r.unit();
        switch (r.below(16)) {
        case 0: return 0.0; case 1: return -0.0;
        case 2: return std::numeric_limits<double>::infinity();
        case 3: return -std::numeric_limits<double>::infinity();
        case 4: return std::numeric_limits<double>::quiet_NaN();
        case 5: return std::numeric_limits<double>::denorm_min();
        case 6: return std::numeric_limits<double>::max();
        case 7: return -std::numeric_limits<double>::min();
        case 8: return 0.1; case 9: return 1.0 / 3.0; case 10: return 123456789.123456789;
        case 11: return 1 + std::numeric_limits<double>::epsilon();
        default: return r.unit() * 1e6;
        }
    }
}
static int64_t gen_int(Rng &r, EType e, int style, bool sdt) {
    uint64_t x = r.next();
    switch (style) {
    case 0: return (int64_t)(x % 20) - ((e == E_I32 || e == E_I64) ? 5 : 0);
    case 1: {
        switch (e) {
        case E_I32: return (int32_t)x; case E_U32: return (int64_t)(uint32_t)x;
        case E_I64: return sdt ? (int64_t)(x >> 12) * ((x & 1) ? 1 : -1) : (int64_t)x;
        default: return sdt ? (int64_t)(x >> 11) : (int64_t)x;
        }
    }
    default: {
        bool hi = x & 1;
        switch (e) {
        case E_I32: return hi ? INT32_MAX : INT32_MIN; case E_U32: return hi ? (int64_t)UINT32_MAX : 0;
        case E_I64: return sdt ? (hi ? (1ll << 53) : -(1ll << 53)) : (hi ? INT64_MAX : INT64_MIN);
        default: return sdt ? (hi ? (1ll << 53) : 0) : (hi ? (int64_t)UINT64_MAX : 0);
        }
    }
    }
}
static std::string gen_text(Rng &r, size_t n, int style) {
    std::string s;
    for (size_t i = 0; i < n; i++) switch (style) {
        case 0: s += (char)('a' + r.below(26)); break;
        case 1: s += (char)(32 + r.below(95)); break;
        case 2: s += (char)(1 + r.below(127)); break;
        default: s += (char)(1 + r.below(255)); break;
    }
    return s;
}

Var gen_var(Fmt f, const std::vector<Var> &have, unsigned &counter, const GenOpt &o, std::vector<std::string> &structs) {
    Var v;
    static const char *stem[] = {"v", "Br", "x_y", "param", "Long_Variable_Name_with_many_characters_"};
    v.name = std::string(stem[op(5)]) + std::to_string(counter++);
    uint32_t k = weighted({5, 4, 3, 4, 1, o.multi && f != FMT_SDT ? 2u : 0u, o.attrs ? 2u : 0u, o.attrs ? 2u : 0u, o.structs ? 2u : 0u});
    v.kind = (VKind)k;
    if (k == V_ATTR_SCALAR || k == V_ATTR_STRING) {
        std::vector<const Var *> c;
        for (auto &h : have) if (h.acked && h.kind <= V_MULTI) c.push_back(&h);
        if (c.empty()) v.kind = V_LIST;
        else v.owner = c[op((uint32_t)c.size())]->name;
    }
    if (v.owner.empty() && !structs.empty() && maybe(300)) v.name = structs[op((uint32_t)structs.size())] + "/" + v.name;
    if (v.kind == V_STRUCT) {
        structs.push_back(v.name);
        return v;
    }
    uint32_t seed = op(1u << 16);
    int style = (int)op(4);
    Rng r(seed * 77 + 3);
    auto size = [&](uint32_t big) -> sfilesize_t {
        switch (weighted({10, 5, o.big ? 2u : 0u})) { case 0: return 1 + op(4); case 1: return 1 + op(40); default: return 1 + op(big); }
    };
    switch (v.kind) {
    case V_LIST: v.et = (EType)weighted({5, 2, 2, 2, 2}); v.dims = {size(20000)}; break;
    case V_MAT: v.et = (EType)weighted({5, 2, 2, 2, 2}); v.dims = {size(150), size(150)}; break;
    case V_IMAGE: { auto n = size(100); v.dims = {n, n}; } break;
    case V_SCALAR: case V_ATTR_SCALAR: v.dims = {1}; break;
    case V_MULTI: { v.et = (EType)weighted({5, 2, 2, 2, 2}); uint32_t nd = 1 + op(4); for (uint32_t i = 0; i < nd; i++) v.dims.push_back(1 + op(6)); } break;
    default: {
        size_t n = size(v.kind == V_STRING ? 9000 : 400);
        if (o.empty && maybe(40)) n = 0;
        v.s = gen_text(r, n, style);
        return v;
    }
    }
    if (o.empty && v.kind == V_LIST && maybe(20)) v.dims = {0};
    if (o.empty && (v.kind == V_MAT || v.kind == V_MULTI) && maybe(20)) v.dims[op((uint32_t)v.dims.size())] = 0;
    size_t n = v.n();
    if (v.et == E_F64) for (size_t i = 0; i < n; i++) v.f.push_back(gen_double(r, style, o.special));
    else for (size_t i = 0; i < n; i++) v.i.push_back(gen_int(r, v.et, style % 3, f == FMT_SDT));
    return v;
}

template<class T> static std::vector<T> conv(const Var &v) { Granted granted; std::vector<T> r; for (auto x : v.i) r.push_back((T)x); if (r.empty()) r.reserve(1); return r; }
template<class T> static std::vector<const T *> rows(const std::vector<T> &d, const Var &v) { Granted granted;
    std::vector<const T *> p;
    for (sfilesize_t i = 0; i < (v.dims[0] ? v.dims[0] : 1); i++) p.push_back(d.data() + i * v.dims[1]);
    return p;
}

void write_var(SFile *sf, const Var &v) {
    switch (v.kind) {
    case V_STRUCT: sf->CreateStruct(v.name); return;
    case V_STRING: sf->WriteString(v.name, v.s); return;
    case V_ATTR_STRING: sf->WriteAttribute_string(v.owner, v.name, v.s); return;
    case V_ATTR_SCALAR: sf->WriteAttribute_scalar(v.owner, v.name, v.f[0]); return;
    case V_SCALAR: sf->WriteScalar(v.name, v.f[0]); return;
    case V_IMAGE: sf->WriteImage(v.name, rows(v.f, v).data(), v.dims[0]); return;
    default: break;
    }
#define WR(T, LISTF, ARRF, MULTIF, DATA) do { decltype(DATA) d; { Granted granted; d = DATA; } \
        if (v.kind == V_LIST) sf->LISTF(v.name, d.data(), v.dims[0]); \
        else if (v.kind == V_MAT) sf->ARRF(v.name, rows(d, v).data(), v.dims[0], v.dims[1]); \
        else sf->MULTIF(v.name, d.data(), v.dims.size(), v.dims.data()); } while (0)
    // the generic overloads and the explicitly typed names are equally public
    bool gen = (v.name.size() & 1) != 0;
    switch (v.et) {
    case E_F64: WR(double, WriteList, WriteArray, WriteMultiArray, v.f); break;
    case E_I32: if (gen) WR(int32_t, WriteList, WriteArray, WriteMultiInt32Array, conv<int32_t>(v)); else WR(int32_t, WriteInt32List, WriteInt32Array, WriteMultiInt32Array, conv<int32_t>(v)); break;
    case E_I64: if (gen) WR(int64_t, WriteList, WriteArray, WriteMultiInt64Array, conv<int64_t>(v)); else WR(int64_t, WriteInt64List, WriteInt64Array, WriteMultiInt64Array, conv<int64_t>(v)); break;
    case E_U32: if (gen) WR(uint32_t, WriteList, WriteArray, WriteMultiUInt32Array, conv<uint32_t>(v)); else WR(uint32_t, WriteUInt32List, WriteUInt32Array, WriteMultiUInt32Array, conv<uint32_t>(v)); break;
    case E_U64: if (gen) WR(uint64_t, WriteList, WriteArray, WriteMultiUInt64Array, conv<uint64_t>(v)); else WR(uint64_t, WriteUInt64List, WriteUInt64Array, WriteMultiUInt64Array, conv<uint64_t>(v)); break;
    }
}

SFile *make_object(Fmt f) {
    SFile *s;
    if (f == FMT_SDT) s = new SFile_SDT(); else if (f == FMT_HDF5) s = new SFile_HDF5(); else s = new SFile_MAT();
    s->filetype = fmt_type[f];
    return s;
}

std::vector<Var> build_file(const std::string &p, Fmt f, unsigned nvars, const GenOpt &o) {
    std::vector<Var> vs; std::vector<std::string> structs; unsigned c = 0;
    faults_pause();
    SFile *sf = SFile::Create(p, SFILE_MODE_WRITE, fmt_type[f]);
    for (unsigned i = 0; i < nvars; i++) {
        Var v = gen_var(f, vs, c, o, structs);
        write_var(sf, v);
        v.acked = true;
        note("  stored %s", v.describe().c_str());
        vs.push_back(v);
    }
    sf->Close();
    delete sf;
    faults_resume();
    return vs;
}

// ---- reading ------------------------------------------------------------
static bool same(double a, double b, Fmt f) {
    if (f == FMT_SDT && std::isnan(a) && std::isnan(b)) return true;
    uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
    return x == y;
}
static bool same(int32_t a, double b, Fmt) { return a == (int32_t)b; }

static void cmp_f(const char *cls, Fmt f, const Var &v, const char *acc, const double *d, size_t n) {
    checked(n);
    if (n != v.f.size()) violate(cls, "%s %s of %s: %zu elements returned, %zu stored", fmt_name[f], acc, v.describe().c_str(), n, v.f.size());
    for (size_t i = 0; i < n; i++)
        if (!same(d[i], v.f[i], f)) violate(cls, "%s %s of %s: element %zu is %.17g, stored %.17g", fmt_name[f], acc, v.describe().c_str(), i, d[i], v.f[i]);
}
template<class T> static void cmp_i(const char *cls, Fmt f, const Var &v, const char *acc, const T *d, size_t n) {
    checked(n);
    if (n != v.i.size()) violate(cls, "%s %s of %s: %zu elements returned, %zu stored", fmt_name[f], acc, v.describe().c_str(), n, v.i.size());
    for (size_t i = 0; i < n; i++)
        if (d[i] != (T)v.i[i]) violate(cls, "%s %s of %s: element %zu is %lld, stored %lld", fmt_name[f], acc, v.describe().c_str(), i, (long long)d[i], (long long)v.i[i]);
}
static void cmp_dims(const char *cls, Fmt f, const Var &v, const char *acc, const sfilesize_t *d) {
    sfilesize_t r = v.dims.size() == 1 ? 1 : v.dims[0], c = v.dims.size() == 1 ? v.dims[0] : v.dims[1];
    if (d[0] != r || d[1] != c) violate(cls, "%s %s of %s: shape %llu x %llu returned", fmt_name[f], acc, v.describe().c_str(), (unsigned long long)d[0], (unsigned long long)d[1]);
}

enum Acc { A_2D, A_1D, A_LIST, A_SCALAR, A_INTARR, A_INTLIST, A_INT, A_MULTI, A_MULTI_LIN, A_STR, A_ASCAL, A_ASTR, A_HAS, A_TYPE, A_INTSCALAR, A_X2, A_X1, A_XLIST, A_XSCALAR, A_N2, A_N1 };

static std::vector<Acc> accs(Fmt f, const Var &v) { Granted granted;
    std::vector<Acc> a;
    size_t nd = v.dims.size();
    switch (v.kind) {
    case V_STRUCT: return a;
    case V_STRING: return {A_STR, A_HAS, A_TYPE};
    case V_ATTR_STRING: return {A_ASTR};
    case V_ATTR_SCALAR: return {A_ASCAL};
    default: break;
    }
    bool vec = nd == 1 || (nd == 2 && (v.dims[0] == 1 || v.dims[1] == 1));
    if (nd <= 2) a.push_back(A_2D);
    if (nd == 1 || (nd == 2 && (vec || f != FMT_SDT))) a.push_back(A_1D);
    if (v.et == E_F64 && vec && v.n() > 0) a.push_back(A_LIST);
    if (nd <= 2 && v.n() == 1) a.push_back(v.et == E_F64 ? A_SCALAR : A_INTSCALAR);
    a.push_back(A_HAS); a.push_back(A_TYPE);
    if (v.et != E_F64 && nd <= 2) { a.push_back(A_INTARR); if (vec) a.push_back(A_INTLIST); if (v.n() == 1) a.push_back(A_INT); }
    if (v.et == E_F64 && f != FMT_SDT) { a.push_back(A_MULTI_LIN); a.push_back(A_MULTI); }
    // through accessors of another number type that can hold the values
    if (nd <= 2 && v.n() > 0) {
        bool fits = true, narrow = true;
        for (double x : v.f) { if (!(fabs(x) < 1e9) || x != floor(x) || (x == 0 && std::signbit(x))) fits = narrow = false; }
        for (size_t i = 0; i < v.i.size(); i++) { bool big = v.et == E_U64 && (uint64_t)v.i[i] > (1ull << 53); if (big || v.i[i] > (1ll << 53) || v.i[i] < -(1ll << 53)) fits = false; if (v.i[i] > INT32_MAX || v.i[i] < 0) narrow = false; }
        if (fits) { a.push_back(A_X2); if (vec) { a.push_back(A_X1); if (v.et != E_F64) a.push_back(A_XLIST); } if (v.n() == 1) a.push_back(A_XSCALAR); }
        if (fits && narrow) { a.push_back(A_N2); if (vec) a.push_back(A_N1); }
    }
    return a;
}
// the values as another number type
static Var as_type(const Var &v, EType t) {
    Var w = v; w.et = t; w.f.clear(); w.i.clear();
    for (double x : v.f) w.i.push_back((int64_t)x);
    for (int64_t x : v.i) if (t == E_F64) w.f.push_back((double)x); else w.i.push_back(x);
    return w;
}
unsigned accessors(Fmt f, const Var &v) { return (unsigned)accs(f, v).size(); }

template<class T> struct Get;
#define GETTER(T, F2, F1, FS) template<> struct Get<T> { \
    static T **g2(SFile *s, const std::string &n, sfilesize_t *d) { return s->F2(n, d); } \
    static T *g1(SFile *s, const std::string &n, sfilesize_t *d) { return s->F1(n, d); } \
    static T sc(SFile *s, const std::string &n) { return s->FS(n); } };
GETTER(int32_t, GetInt32_2D, GetInt32_1D, GetInt32)
GETTER(int64_t, GetInt64_2D, GetInt64_1D, GetInt64)
GETTER(uint32_t, GetUInt32_2D, GetUInt32_1D, GetUInt32)
GETTER(uint64_t, GetUInt64_2D, GetUInt64_1D, GetUInt64)

template<class T> static void rd_int(SFile *sf, Fmt f, const Var &v, Acc a, const char *cls) {
    sfilesize_t d[2] = {99991, 99992};
    if (a == A_2D) {
        T **p = Get<T>::g2(sf, v.name, d);
        cmp_dims(cls, f, v, "2-D integer read", d);
        if (d[0]) { cmp_i(cls, f, v, "2-D integer read", p[0], d[0] * d[1]);
            for (sfilesize_t i = 0; i < d[0]; i++) if (d[1] && p[i][0] != (T)v.i[i * d[1]]) violate(cls, "row pointer %llu wrong", (unsigned long long)i);
            for (size_t i = 0; i < d[0] * d[1]; i++) p[0][i] = (T)-1;
            delete[] p[0]; }
        delete[] p;
    } else if (a == A_1D) {
        T *p = Get<T>::g1(sf, v.name, d);
        cmp_i(cls, f, v, "1-D integer read", p, d[0]);
        for (size_t i = 0; i < d[0]; i++) p[i] = (T)-1;
        delete[] p;
    } else {
        T x = Get<T>::sc(sf, v.name);
        cmp_i(cls, f, v, "integer scalar read", &x, 1);
    }
}

void read_check(SFile *sf, Fmt f, const Var &v, unsigned how, const char *cls) {
    auto as = accs(f, v);
    if (as.empty()) return;
    Acc a = as[how % as.size()];
    sfilesize_t d[8] = {99991, 99992, 0, 0, 0, 0, 0, 0};
    switch (a) {
    case A_STR: case A_ASTR: {
        std::string s = a == A_STR ? sf->GetString(v.name) : sf->GetAttributeString(v.owner, v.name);
        checked();
        if (s != v.s) violate(cls, "%s read of %s: %zu characters returned, %zu stored; first difference at %zu", fmt_name[f], v.describe().c_str(), s.size(), v.s.size(),
            (size_t)(std::mismatch(s.begin(), s.begin() + (long)std::min(s.size(), v.s.size()), v.s.begin()).first - s.begin()));
    } break;
    case A_ASCAL: { double x = sf->GetAttributeScalar(v.owner, v.name); cmp_f(cls, f, v, "attribute read", &x, 1); } break;
    case A_HAS: checked(); if (!sf->HasVariable(v.name)) violate(cls, "%s: %s reported as absent", fmt_name[f], v.describe().c_str()); break;
    case A_TYPE: {
        static const SFile::sfile_data_type t[] = {SFile::SFILE_DATA_DOUBLE, SFile::SFILE_DATA_INT32, SFile::SFILE_DATA_INT64, SFile::SFILE_DATA_UINT32, SFile::SFILE_DATA_UINT64};
        SFile::sfile_data_type want = v.kind == V_STRING ? SFile::SFILE_DATA_STRING : t[v.et];
        SFile::sfile_data_type got = sf->GetDataType(v.name, want);
        checked();
        if (got != want) violate(cls, "%s: type of %s reported as %d", fmt_name[f], v.describe().c_str(), (int)got);
    } break;
    case A_SCALAR: { double x = sf->GetScalar(v.name); cmp_f(cls, f, v, "scalar read", &x, 1); } break;
    case A_LIST: { double *p = sf->GetList(v.name, d); cmp_f(cls, f, v, "list read", p, d[0]); for (size_t i = 0; i < d[0]; i++) p[i] = -777; delete[] p; } break;
    case A_INT: { int64_t x = sf->GetInt(v.name); checked(); if (x != v.i[0]) violate(cls, "%s GetInt of %s: %lld, stored %lld", fmt_name[f], v.describe().c_str(), (long long)x, (long long)v.i[0]); } break;
    case A_INTARR: { int64_t **p = sf->GetIntArray(v.name, d); cmp_dims(cls, f, v, "integer array read", d);
        if (d[0]) { cmp_i(cls, f, v, "integer array read", p[0], d[0] * d[1]); for (size_t i = 0; i < d[0] * d[1]; i++) p[0][i] = -1; delete[] p[0]; } delete[] p; } break;
    case A_INTLIST: { int64_t *p = sf->GetIntList(v.name, d); cmp_i(cls, f, v, "integer list read", p, d[0]); delete[] p; } break;
    case A_MULTI_LIN: case A_MULTI: {
        sfilesize_t nd = 0;
        size_t mnd = v.dims.size();
        if (a == A_MULTI_LIN) {
            if (mnd > 1) {
                double *q = sf->GetMultiArray_linear(v.name, mnd - 1, nd, d);
                if (q != nullptr) violate(cls, "%s: array with %zu dimensions returned to a caller with room for %zu", fmt_name[f], mnd, mnd - 1);
            }
            double *p = sf->GetMultiArray_linear(v.name, 8, nd, d);
            if (nd != mnd) violate(cls, "%s: %llu dimensions returned for %s", fmt_name[f], (unsigned long long)nd, v.describe().c_str());
            for (size_t i = 0; i < nd; i++) if (d[i] != v.dims[i]) violate(cls, "%s: dimension %zu of %s is %llu", fmt_name[f], i, v.describe().c_str(), (unsigned long long)d[i]);
            cmp_f(cls, f, v, "multi-dimensional read", p, v.n());
            for (size_t i = 0; i < v.n(); i++) p[i] = -777;
            delete[] p;
        } else {
            void *q = sf->GetMultiArray(v.name, 8, nd, d);
            if (nd != mnd) violate(cls, "%s: %llu dimensions returned for %s", fmt_name[f], (unsigned long long)nd, v.describe().c_str());
            if (!v.n()) break;                                      // nothing to dereference
            void *p = q;
            for (size_t i = 0; i + 1 < nd; i++) p = *(void **)p;
            cmp_f(cls, f, v, "multi-dimensional read", (double *)p, v.n());
            // every element through its own indices
            for (size_t e = 0; e < v.n(); e++) {
                size_t stride = v.n(), rest = e; void *w = q;
                for (size_t i = 0; i < nd; i++) { stride /= v.dims[i]; size_t x = rest / stride; rest %= stride; if (i + 1 < nd) w = ((void **)w)[x]; else if (!same(((double *)w)[x], v.f[e], f)) violate(cls, "%s multi-dimensional read of %s: element %zu reached through its indices is %.17g, stored %.17g", fmt_name[f], v.describe().c_str(), e, ((double *)w)[x], v.f[e]); }
            }
            for (size_t i = 0; i < v.n(); i++) ((double *)p)[i] = -777;
            p = q;
            for (size_t i = 0; i + 1 < nd; i++) { void *nx = *(void **)p; delete[] (double **)p; p = nx; }
            delete[] (double *)p;
        }
    } break;
    case A_X2: if (v.et == E_F64) { Var w = as_type(v, E_I64); int64_t **p = sf->GetIntArray(v.name, d); cmp_dims(cls, f, w, "integer array read", d); cmp_i(cls, f, w, "integer array read", p[0], d[0] * d[1]); delete[] p[0]; delete[] p; }
        else { Var w = as_type(v, E_F64); double **p = sf->GetDoubles(v.name, d); cmp_dims(cls, f, w, "2-D read", d); cmp_f(cls, f, w, "2-D read of integers", p[0], d[0] * d[1]); delete[] p[0]; delete[] p; } break;
    case A_X1: if (v.et == E_F64) { Var w = as_type(v, E_I64); int64_t *p = sf->GetIntList(v.name, d); cmp_i(cls, f, w, "integer list read", p, d[0]); delete[] p; }
        else { Var w = as_type(v, E_F64); double *p = sf->GetDoubles1D(v.name, d); cmp_f(cls, f, w, "1-D read of integers", p, d[0]); delete[] p; } break;
    case A_XLIST: { Var w = as_type(v, E_F64); double *p = sf->GetList(v.name, d); cmp_f(cls, f, w, "list read of integers", p, d[0]); delete[] p; } break;
    case A_XSCALAR: if (v.et == E_F64) { Var w = as_type(v, E_I64); int64_t x = sf->GetInt(v.name); cmp_i(cls, f, w, "integer read", &x, 1); }
        else { Var w = as_type(v, E_F64); double x = sf->GetScalar(v.name); cmp_f(cls, f, w, "scalar read of an integer", &x, 1); } break;
    case A_N2: case A_N1: {
        static const EType ts[] = {E_I32, E_I64, E_U32, E_U64}; EType t = ts[(v.n() + v.name.size() + how) % 4];
        bool neg = false; for (double x : v.f) neg |= x < 0;
        if (neg && (t == E_U32 || t == E_U64)) t = E_I64;
        Var w = as_type(v, t); Acc b = a == A_N2 ? A_2D : A_1D;
        switch (t) { case E_I32: rd_int<int32_t>(sf, f, w, b, cls); break; case E_I64: rd_int<int64_t>(sf, f, w, b, cls); break; case E_U32: rd_int<uint32_t>(sf, f, w, b, cls); break; default: rd_int<uint64_t>(sf, f, w, b, cls); }
    } break;
    default:
        if (v.et == E_F64) {
            if (a == A_2D) {
                double **p = sf->GetDoubles(v.name, d);
                cmp_dims(cls, f, v, "2-D read", d);
                if (d[0]) { cmp_f(cls, f, v, "2-D read", p[0], d[0] * d[1]);
                    for (sfilesize_t i = 0; i < d[0]; i++) if (d[1] && !same(p[i][0], v.f[i * d[1]], f)) violate(cls, "row pointer %llu wrong", (unsigned long long)i);
                    for (size_t i = 0; i < d[0] * d[1]; i++) p[0][i] = -777;
                    delete[] p[0]; }
                delete[] p;
            } else { double *p = sf->GetDoubles1D(v.name, d); cmp_f(cls, f, v, "1-D read", p, d[0]); for (size_t i = 0; i < d[0]; i++) p[i] = -777; delete[] p; }
        } else switch (v.et) {
            case E_I32: rd_int<int32_t>(sf, f, v, a, cls); break;
            case E_I64: rd_int<int64_t>(sf, f, v, a, cls); break;
            case E_U32: rd_int<uint32_t>(sf, f, v, a, cls); break;
            default: rd_int<uint64_t>(sf, f, v, a, cls); break;
        }
    }
}

} // namespace sim
