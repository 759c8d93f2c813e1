// T03: clones of magnetic fields in threads.
#include "fields.h"
#include "simthreads.h"
#include <algorithm>
#include <cmath>
#include <memory>
using namespace sim;

// what GetDomainBounds has to say after a contour was set
static std::string diff_bounds(MagneticField2D *m, const std::vector<double> &r, const std::vector<double> &z) {
    double w[4] = {m->GetMagneticAxisR(), m->GetMagneticAxisR(), m->GetMagneticAxisZ(), m->GetMagneticAxisZ()}, b[4];
    for (double v : r) w[0] = std::min(w[0], v), w[1] = std::max(w[1], v);
    for (double v : z) w[2] = std::min(w[2], v), w[3] = std::max(w[3], v);
    m->GetDomainBounds(b[0], b[1], b[2], b[3]); checked();
    for (unsigned k = 0; k < 4; k++) if (!same_bits(b[k], w[k])) { char t[120]; snprintf(t, sizeof t, "bound %u of the domain is %.17g, should be %.17g", k, b[k], w[k]); return t; }
    if (m->GetNDomain() != r.size()) return "the domain has the wrong number of points";
    for (size_t i = 0; i < r.size(); i++) if (!same_bits(m->GetRDomain()[i], r[i]) || !same_bits(m->GetZDomain()[i], z[i])) return "the domain contour is not the one set";
    return "";
}

static void t03() {
    std::unique_ptr<MagneticField2D> orig, twin; std::string what;
    double r0, r1, z0, z1; MagneticFieldAnalytical2D *a = nullptr, *a2 = nullptr;
    unsigned kind = op(5);
    if (kind >= 3) {
        a = gen_analytical(what, &a2); orig.reset(a); twin.reset(a2);
        double Rm = a->GetRMajor(), rm = a->GetRMinor(), z = a->GetMagneticAxisZ();
        r0 = Rm - rm; r1 = Rm + rm; z0 = z - rm; z1 = z + rm;
        if (kind == 4) {                                            // sampled onto a grid
            unsigned n = 5 + op(5), m = 5 + op(5);
            MagneticField2D *p = a->ToNumeric2D(n, m), *q = a2->ToNumeric2D(n, m);
            if (maybe(500)) { orig.reset(p); twin.reset(q); } else { a->Clone(); orig.reset(p); twin.reset(q); }
            a = a2 = nullptr;
        }
    } else {
        Equil e = gen_equil(8); orig.reset(make_field(e)); twin.reset(make_field(e)); what = e.describe();
        r0 = e.R.front(); r1 = e.R.back(); z0 = e.Z.front(); z1 = e.Z.back();
    }
    std::vector<double> cr, cz;                                     // contours the user sets
    if (maybe(400)) {
        if (maybe(500)) { double b[4]; orig->GetDomainBounds(b[0], b[1], b[2], b[3]); orig->GetMaxRadius(); }   // asked before the contour changes
        unsigned n = 4 + op(6); double R = (r0 + r1) / 2, Z = (z0 + z1) / 2, w = (r1 - r0) * (0.2 + 0.05 * op(5));
        for (unsigned i = 0; i < n; i++) { cr.push_back(R + w * cos(2 * M_PI * i / n)); cz.push_back(Z + w * sin(2 * M_PI * i / n)); }
        bool sep = maybe(400);
        for (auto *m : {orig.get(), twin.get()}) { if (sep) m->SetSeparatrix(cr.data(), cz.data(), n); else m->SetDomain(cr.data(), cz.data(), n); }
        count("user_contour");
        std::string d = sep ? "" : diff_bounds(orig.get(), cr, cz);
        if (!d.empty()) violate("contour-not-taken", "%s: after setting the domain, %s", what.c_str(), d.c_str());
    }
    unsigned nt = 1 + op(4);
    PointSet common = gen_points(r0, r1, z0, z1, 2 + op(5));
    std::vector<PointSet> ps; std::vector<Obs> ref;
    for (unsigned j = 0; j < nt; j++) {
        PointSet p = common;
        if (maybe(600)) p = gen_points(r0, r1, z0, z1, 2 + op(5));
        ps.push_back(p); ref.push_back(observe(twin.get(), p, true));
    }
    Obs refc = observe(twin.get(), common, true);
    if (maybe(400)) { std::string d = diff(observe(orig.get(), common, false), refc); if (!d.empty()) violate("field-not-repeatable", "%s: the same field made twice differs: %s", what.c_str(), d.c_str()); }

    // who evaluates what
    std::vector<std::unique_ptr<MagneticField2D>> obj(nt);
    std::vector<int> how(nt);                                       // 0 clone made before, 1 clone of a clone, 2 cloned by the thread itself
    unsigned fate = op(6);                                          // of the original: 0 stays, 1 destroyed before, 2 destroyed by a thread, 3 changed before, 4 changed by a thread, 5 evaluated by a thread
    bool inside = maybe(400) && (fate == 0);
    for (unsigned j = 0; j < nt; j++) {
        how[j] = inside ? 2 : j && maybe(300) ? 1 : 0;
        if (how[j] == 0) obj[j].reset(orig->Clone());
        else if (how[j] == 1) obj[j].reset(obj[op(j)]->Clone());
    }
    std::vector<double> other = {r0, r1, (r0 + r1) / 2}, otherz = {z0, z0, z1};
    auto change = [&] {
        orig->SetDomain(other.data(), otherz.data(), 3);
        if (a) a->SetB0(a->GetB0() * 2 + 1);
        orig->name += "x"; orig->description = "changed";
        if (orig->GetNSeparatrix()) orig->SetSeparatrix(nullptr, nullptr, 0);
    };
    if (fate == 1) orig.reset();
    if (fate == 3) change();
    ev("T03 %s threads=%u fate=%u inside=%d", what.c_str(), nt, fate, inside);
    std::vector<Obs> got(nt); std::vector<int> keep(nt);
    unsigned rounds = 1 + op(2);
    for (unsigned j = 0; j < nt; j++) keep[j] = maybe(600);
    std::vector<std::function<void()>> f;
    for (unsigned j = 0; j < nt; j++) f.push_back([&, j] {
        if (how[j] == 2) obj[j].reset(orig->Clone());
        for (unsigned q = 0; q < rounds; q++) {
            got[j] = observe(obj[j].get(), ps[j], false);
            std::string d = diff(got[j], ref[j]); checked(got[j].v.size());
            if (!d.empty()) violate("clone-differs", "%s, thread %u of %u: %s", what.c_str(), j + 1, nt, d.c_str());
        }
        if (!keep[j]) obj[j].reset();
    });
    if (fate == 2) f.push_back([&] { orig.reset(); });
    if (fate == 4) f.push_back([&] { change(); });
    if (fate == 5) f.push_back([&] { std::string d = diff(observe(orig.get(), common, false), refc); if (!d.empty()) violate("original-disturbed", "%s while clones are in use: %s", what.c_str(), d.c_str()); });
    run_threads(f);
    nontrivial();
    for (unsigned j = 0; j < nt; j++) if (obj[j]) {
        std::string d = diff(observe(obj[j].get(), common, false), refc); checked();
        if (!d.empty()) violate("clone-differs", "%s after the threads ended: %s", what.c_str(), d.c_str());
        if (maybe(300)) obj[j].reset();
    }
    if (orig && (fate == 3 || fate == 4)) {
        std::string d = diff_bounds(orig.get(), other, otherz);
        if (!d.empty()) violate("original-disturbed", "%s: after changing the original, %s", what.c_str(), d.c_str());
    }
    if (orig && fate != 3 && fate != 4) {
        std::string d = diff(observe(orig.get(), common, false), refc);
        if (!d.empty()) violate("original-disturbed", "%s after clones were used: %s", what.c_str(), d.c_str());
    }
}
static Reg r("T03", t03, 300);
