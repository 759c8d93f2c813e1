// Magnetic fields: generation and comparison.
#pragma once
#include "sim.h"
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>

namespace sim {

// Contents of a numeric equilibrium, kept apart from any softlib object.
struct Equil {
    std::string name, desc;
    unsigned nr = 0, nz = 0;
    std::vector<double> R, Z, Br, Bphi, Bz, Psi;      // [i + j*nr]
    double axis[2];
    std::vector<double> rsep, zsep, rwall, zwall;
    bool has_psi() const { return !Psi.empty(); }
    std::string describe() const;
};
Equil gen_equil(unsigned maxgrid);
MagneticFieldNumeric2D *make_field(const Equil &e);
MagneticFieldAnalytical2D *gen_analytical(std::string &what, MagneticFieldAnalytical2D **twin = nullptr);

// Everything a user can observe of a field, at drawn points.
struct Pt { double x, y, z; bool inside; };
struct PointSet { std::vector<Pt> pts; std::vector<double> segs; };
PointSet gen_points(double r0, double r1, double z0, double z1, unsigned n);
struct Obs { std::vector<double> v; std::vector<std::string> label; std::string name, desc; };
Obs observe(MagneticField2D *mf, const PointSet &ps, bool labels = true);
// "" if bit-for-bit equal, else a description of the first difference
std::string diff(const Obs &got, const Obs &want);
// what the grid itself says, compared at the nodes within rounding
std::string diff_nodes(MagneticField2D *mf, const Equil &e);
bool same_bits(double a, double b);

} // namespace sim
