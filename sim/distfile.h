// Distribution-function files written by the harness, and how to load them.
#pragma once
#include "dists.h"
#include "sfmodel.h"
namespace sim {
enum DKind { D_SOFT, D_DEPR, D_LUKE, D_CODE, D_GOCODE, D_DREAM, D_NKIND };
extern const char *dkind_name[D_NKIND];
struct DistFile {
    DKind kind; Fmt fmt; std::string file;
    MagneticField2D *mf = nullptr;                  // may be null where the loader allows it
    unsigned nt = 1;                                // time slices (CODE, GO+CODE, DREAM)
    std::vector<std::vector<Slice>> t;              // [time][radius]
    std::vector<double> r;                          // major radii as evaluated
    double norm = 1;                                // CODE normalisation
    int broken = 0;                                 // the file must be rejected
    std::string broken_how, group, distname;
    bool positive = true, zeros = false, descending = false;
    std::string describe() const;
};
struct LoadReq { bool lg = false, cubic = false; int time = -1; int radindex = -1; int interp = 0; };
extern bool dist_small;                            // grids may have too few points to interpolate
DistFile gen_distfile(const char *stem, MagneticField2D *mf, bool may_break, bool sdt = false);   // writes it
LoadReq gen_request(const DistFile &f);
bool request_valid(const DistFile &f, const LoadReq &q);
DistModel model_of(const DistFile &f, const LoadReq &q);
DistributionFunction *load_dist(const DistFile &f, const LoadReq &q);           // throws what the loader throws
}
