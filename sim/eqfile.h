// Equilibrium files written by the harness through the SFile interface.
#pragma once
#include "fields.h"
#include "sfmodel.h"
namespace sim {
struct EqVariant { bool transpose = false, wall_rows = false, sep_rows = false; unsigned ver = 0; int broken = 0; };
EqVariant gen_variant();
void write_equil(const std::string &p, Fmt f, const Equil &e, const EqVariant &v);
struct Luke { std::string id; double Rp, Zp, psia; std::vector<double> x, y, psi, theta, rsep, zsep, rwall, zwall; bool wall_rows; Equil e; /* what the file says, on the R/Z grid */ };
Luke write_luke(const std::string &p, Fmt f, const std::string &wallp, Fmt wf);   // wallp empty: no wall
void write_matrix(SFile *sf, const std::string &name, const double *a, sfilesize_t rows, sfilesize_t cols);
}
