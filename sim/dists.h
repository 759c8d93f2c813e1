// Distribution functions: independent models, in-memory construction and files.
#pragma once
#include "fields.h"
#include <softlib/DistributionFunction/DistributionFunction.h>
#include <softlib/DistributionFunction/MomentumSpaceDistributionFunction.h>
#include <memory>
namespace sim {

// One momentum-space slice. Tabulated: f[k*np+j] at (p[j],xi[k]).
// Legendre: f[l*np+j] is the l-th coefficient at p[j].
struct Slice {
    bool legendre = false;
    unsigned np = 0, nxi = 0;                       // nxi: number of modes if legendre
    std::vector<double> p, xi, f;
    double fmax() const;
    double at_node(unsigned j, unsigned k) const;   // tabulated only
    // value by (bi)linear interpolation, in the logarithm if lg
    double eval(double p, double xi, bool lg) const;
};
Slice gen_slice(bool legendre, unsigned minp, unsigned minxi, bool positive = true);
std::vector<double> gen_increasing(Rng &r, unsigned n, double lo, double hi);

// A distribution on a radial grid: what a loaded object has to be.
struct DistModel {
    std::vector<double> r;                          // major radii (empty: no radial dependence)
    std::vector<Slice> s;
    bool lg = false, linear = true;                 // interpolation
    double eval(double rho, double p, double xi) const;
    double scale() const;
};
struct EvPt { double r, p, xi, drift; bool modelled; };
// points within the grids: nodes, and interior points
std::vector<EvPt> gen_evpoints(const DistModel &m, unsigned n);
std::vector<double> evaluate(DistributionFunction *d, const std::vector<EvPt> &pts);
// "" or description of the first disagreement
std::string against_model(DistributionFunction *d, const DistModel &m, const std::vector<EvPt> &pts);
std::string diff_values(const std::vector<double> &got, const std::vector<double> &want, const std::vector<EvPt> &pts);
}
