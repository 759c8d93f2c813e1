// Reference model of a data file: a map from names to values.
#pragma once
#include "sim.h"
#include <softlib/SFile.h>
#include <memory>

namespace sim {

enum VKind { V_LIST, V_MAT, V_SCALAR, V_STRING, V_IMAGE, V_MULTI, V_ATTR_SCALAR, V_ATTR_STRING, V_STRUCT };
enum EType { E_F64, E_I32, E_I64, E_U32, E_U64 };

struct Var {
    VKind kind = V_LIST;
    EType et = E_F64;
    std::string name, owner;            // owner: dataset an attribute belongs to
    std::vector<sfilesize_t> dims;      // 1 entry for lists, 2 for matrices, n for multi
    std::vector<double> f;
    std::vector<int64_t> i;             // u64 values stored as bit pattern
    std::string s;
    bool acked = false;
    size_t n() const { size_t r = 1; for (auto d : dims) r *= d; return r; }
    std::string describe() const;
};

enum Fmt { FMT_SDT, FMT_HDF5, FMT_MAT };
extern const char *fmt_ext[3];
extern const char *fmt_name[3];
extern const sfile_type fmt_type[3];

struct GenOpt { bool big = true, multi = true, attrs = true, structs = true, empty = true, special = true; };
// Generates variables with fresh names; `counter` numbers them; earlier
// variables of the file are candidates for owning attributes.
Var gen_var(Fmt f, const std::vector<Var> &have, unsigned &counter, const GenOpt &o, std::vector<std::string> &structs);

void write_var(SFile *sf, const Var &v);              // may throw
// Writes a complete file without faults (harness side); aborts on failure.
std::vector<Var> build_file(const std::string &p, Fmt f, unsigned nvars, const GenOpt &o);

// Reads v back through accessor number `how` (modulo the number of accessors
// that apply) and compares with the model. Throws what the API throws;
// a wrong result is a violation of class `cls`.
void read_check(SFile *sf, Fmt f, const Var &v, unsigned how, const char *cls);
unsigned accessors(Fmt f, const Var &v);
SFile *make_object(Fmt f);                            // bare object, not opened

} // namespace sim
