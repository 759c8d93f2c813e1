// S06: files are released, and what failed succeeds once the disk is well again.
#include "activity.h"
#include "cfgmodel.h"
#include "distfile.h"
#include "eqfile.h"
#include "image.h"
#include "sfmodel.h"
#include <softlib/MagneticField/MagneticFieldLUKE.h>
#include <memory>
using namespace sim;

struct Gone { SFile *sf = nullptr; ~Gone() { delete sf; } };

static Activity act_write(unsigned k) {
    Fmt f = (Fmt)op(3); auto p = path("w" + std::to_string(k) + "." + fmt_ext[f]);
    auto vars = std::make_shared<std::vector<Var>>(); unsigned counter = 0, n = 1 + op(5); std::vector<std::string> structs;
    GenOpt o; o.big = maybe(250);
    for (unsigned i = 0; i < n; i++) vars->push_back(gen_var(f, *vars, counter, o, structs));
    bool bare = maybe(300), noclose = f != FMT_SDT && maybe(150);
    (void)noclose;
    Activity a; a.what = std::string("write ") + fmt_name[f];
    a.attempt = [=] {
        Gone g;
        if (bare) { g.sf = make_object(f); g.sf->Open(p, SFILE_MODE_WRITE); } else g.sf = SFile::Create(p, SFILE_MODE_WRITE, fmt_type[f]);
        for (auto &v : *vars) write_var(g.sf, v);
        g.sf->Close();
    };
    a.verify = [=] {
        Gone g; g.sf = SFile::Create(p, SFILE_MODE_READ, fmt_type[f]);
        for (auto &v : *vars) for (unsigned h = 0; h < accessors(f, v); h++) read_check(g.sf, f, v, h, "retry-wrong");
        g.sf->Close();
    };
    return a;
}
static Activity act_update(unsigned k) {
    Fmt f = (Fmt)op(3); auto p = path("u" + std::to_string(k) + "." + fmt_ext[f]), src = path("base" + std::to_string(k) + "." + fmt_ext[f]);
    GenOpt o; o.big = false; o.attrs = false; o.structs = false;
    auto vars = std::make_shared<std::vector<Var>>(build_file(src, f, 1 + op(3), o));
    Var v; v.kind = V_LIST; v.name = "added"; v.dims = {3}; v.f = {1, 2.5, -3};
    Activity a; a.what = std::string("update ") + fmt_name[f];
    a.attempt = [=] {
        spit(p, slurp(src));            // each attempt starts from the saved file
        Gone g; g.sf = SFile::Create(p, SFILE_MODE_UPDATE, fmt_type[f]);
        write_var(g.sf, v);
        g.sf->Close();
    };
    a.verify = [=] {
        Gone g; g.sf = SFile::Create(p, SFILE_MODE_READ, fmt_type[f]);
        for (auto &x : *vars) for (unsigned h = 0; h < accessors(f, x); h++) read_check(g.sf, f, x, h, "retry-wrong");
        for (unsigned h = 0; h < accessors(f, v); h++) read_check(g.sf, f, v, h, "retry-wrong");
        g.sf->Close();
    };
    return a;
}
static Activity act_read(unsigned k) {
    Fmt f = (Fmt)op(3); auto p = path("r" + std::to_string(k) + "." + fmt_ext[f]);
    GenOpt o; o.big = maybe(300);
    auto vars = std::make_shared<std::vector<Var>>(build_file(p, f, 1 + op(4), o));
    bool byext = maybe(500), close = maybe(700);
    Activity a; a.what = std::string("read ") + fmt_name[f];
    a.attempt = [=] {
        Gone g; g.sf = byext ? SFile::Create(p, SFILE_MODE_READ) : SFile::Create(p, SFILE_MODE_READ, fmt_type[f]);
        for (auto &v : *vars) for (unsigned h = 0; h < accessors(f, v); h++) read_check(g.sf, f, v, h, "retry-wrong");
        if (close) g.sf->Close();       // otherwise left to the destructor
    };
    a.verify = [] {};
    return a;
}
static Activity act_equil(unsigned k) {
    auto e = std::make_shared<Equil>(gen_equil(8));
    Fmt f = (Fmt)weighted({0, 1, 1}); auto p = path("e" + std::to_string(k) + "." + fmt_ext[f]);
    bool save = maybe(500);
    std::shared_ptr<MagneticFieldNumeric2D> ref(make_field(*e));
    if (!save) { f = (Fmt)op(3); p = path("e" + std::to_string(k) + "." + fmt_ext[f]); EqVariant v = gen_variant(); v.broken = 0; write_equil(p, f, *e, v); }
    double dr = (e->R.back() - e->R.front()) * 1e-6, dz = (e->Z.back() - e->Z.front()) * 1e-6;
    auto ps = std::make_shared<PointSet>(gen_points(e->R.front() + dr, e->R.back() - dr, e->Z.front() + dz, e->Z.back() - dz, 3));
    auto want = std::make_shared<Obs>(observe(ref.get(), *ps));
    auto check = [=] {
        std::unique_ptr<MagneticFieldNumeric2D> g(new MagneticFieldNumeric2D(p));
        std::string d = diff(observe(g.get(), *ps), *want); checked(want->v.size());
        if (!d.empty()) violate("retry-wrong", "%s: equilibrium %s: %s", fmt_name[f], e->describe().c_str(), d.c_str());
    };
    Activity a; a.what = std::string(save ? "save" : "load") + " equilibrium " + fmt_name[f];
    if (save) { a.attempt = [=] { ref->Save(p); }; a.verify = check; }
    else { a.attempt = check; a.verify = [] {}; }
    return a;
}
static Activity act_luke(unsigned k) {
    Fmt f = maybe(500) ? FMT_MAT : FMT_HDF5, wf = (Fmt)op(3); bool wall = maybe(600);
    auto p = path("EQUIL_" + std::to_string(k) + "." + fmt_ext[f]); auto wp = wall ? path("wall" + std::to_string(k) + "." + fmt_ext[wf]) : std::string();
    Luke l = write_luke(p, f, wp, wf);
    Activity a; a.what = "load LUKE equilibrium";
    a.attempt = [=] {
        std::unique_ptr<MagneticFieldLUKE> m(wall ? new MagneticFieldLUKE(p, wp) : new MagneticFieldLUKE(p));
        if (((MagneticField2D *)m.get())->GetName() != l.id || m->GetNDomain() != (wall ? l.rwall.size() : l.rsep.size()) || m->GetNSeparatrix() != l.rsep.size()) violate("retry-wrong", "LUKE equilibrium loads without its contours");
        checked();
    };
    a.verify = [] {};
    return a;
}
static Activity act_dist(unsigned k) {
    std::string w; std::shared_ptr<MagneticFieldAnalytical2D> an(gen_analytical(w));
    auto f = std::make_shared<DistFile>(gen_distfile(("d" + std::to_string(k)).c_str(), an.get(), maybe(300)));
    LoadReq q = gen_request(*f);
    bool valid = request_valid(*f, q) && !f->broken;
    auto m = std::make_shared<DistModel>(); auto pts = std::make_shared<std::vector<EvPt>>();
    if (valid) { *m = model_of(*f, q); *pts = gen_evpoints(*m, 5); }
    Activity a; a.what = "load " + f->describe();
    a.attempt = [=] {
        std::unique_ptr<DistributionFunction> d;
        if (!valid) { if (!throws([&] { d.reset(load_dist(*f, q)); })) violate("damaged-accepted", "%s was loaded", f->describe().c_str()); return; }
        d.reset(load_dist(*f, q));
        std::string e = against_model(d.get(), *m, *pts); (void)an;
        if (!e.empty()) violate("retry-wrong", "%s: %s", f->describe().c_str(), e.c_str());
    };
    a.verify = [] {};
    return a;
}
static Activity act_config(unsigned k) {
    auto t = std::make_shared<CText>(); CfgOpt o; o.big = maybe(100);
    gen_config(*t, o); cfg_spit(*t);
    auto fn = path("c" + std::to_string(k) + ".cfg"); spit(fn, t->text);
    Activity a; a.what = "load configuration";
    a.attempt = [=] {
        cfg_spit(*t);                   // names of included files recur
        ConfigurationScript c; cfg_register(c);
        c.FromFile(fn);
        if (c.HasError()) throw SOFTLibException("error flag");
        std::string d = cfg_diff(c.GetRootBlock(), t->root); checked();
        if (!d.empty()) violate("retry-wrong", "configuration differs: %s", d.c_str());
    };
    a.verify = [] {};
    return a;
}
static Activity act_image(unsigned k) {
    auto m = std::make_shared<Img>(gen_image(false, 350)); auto p = path("i" + std::to_string(k) + (m->png ? ".png" : ".ppm"));
    Activity a; a.what = m->png ? "write PNG" : "write PPM";
    a.attempt = [=] { save_image(*m, p); };
    a.verify = [=] { check_image(*m, p, "retry-wrong"); };
    return a;
}

Activity sim::gen_activity(unsigned i) {
    switch (op(8)) {
    case 0: return act_write(i);
    case 1: return act_read(i);
    case 2: return act_update(i);
    case 3: return act_equil(i);
    case 4: return act_luke(i);
    case 5: return act_dist(i);
    case 6: return act_config(i);
    default: return act_image(i);
    }
}

static void s06() {
    set_clock(1700000000ll * 1000000000);
    unsigned n = 1 + op(3);
    std::vector<Activity> acts;
    for (unsigned i = 0; i < n; i++)
        acts.push_back(gen_activity(i));
    if (open_fds()) violate("file-left-open", "files still open after preparing: %s", open_fd_names().c_str());
    plan_faults(FM_READ | FM_WRITE);
    faults_pause();
    unsigned tries = 1 + op(4);
    std::vector<bool> failed(n);
    for (unsigned i = 0; i < tries; i++) {
        Activity &a = acts[op(n)]; unsigned idx = (unsigned)(&a - acts.data());
        std::string w;
        if (maybe(600)) {               // another plan, its fault placed within the calls this operation makes
            plan_faults(FM_READ | FM_WRITE);
            faults_pause();
            if (throws(a.attempt, &w)) violate(failed[idx] ? "retry-fails" : "spurious-failure", "%s fails without a fault: %s", a.what.c_str(), w.c_str());
            faults_fit(1);
        }
        uint64_t h0 = hard_faults;
        faults_resume();
        bool t = throws(a.attempt, &w);
        faults_pause();
        ev("%s: %s", a.what.c_str(), t ? "exception" : "ok");
        checked(); nontrivial();
        if (open_fds()) violate("file-left-open", "%s that %s leaves a file open: %s", a.what.c_str(), t ? "failed" : "succeeded", open_fd_names().c_str());
        if (t && hard_faults == h0) violate(failed[idx] ? "retry-fails" : "spurious-failure", "%s fails without a fault%s: %s", a.what.c_str(), failed[idx] ? " after an earlier attempt failed" : "", w.c_str());
        if (t) { failed[idx] = true; count("attempt_failed"); } else { count("attempt_ok"); if (throws(a.verify, &w)) violate("retry-wrong", "%s: the result cannot be read back: %s", a.what.c_str(), w.c_str()); }
    }
    // the disk is well again
    for (unsigned i = 0; i < n; i++) {
        std::string w;
        if (throws(acts[i].attempt, &w)) violate("retry-fails", "%s fails after the faults stopped: %s", acts[i].what.c_str(), w.c_str());
        if (throws(acts[i].verify, &w)) violate("retry-wrong", "%s: the result of the retry cannot be read back: %s", acts[i].what.c_str(), w.c_str());
        if (open_fds()) violate("file-left-open", "%s (retry) leaves a file open: %s", acts[i].what.c_str(), open_fd_names().c_str());
        ev("retry %s: ok", acts[i].what.c_str());
        if (failed[i]) count("retry_after_failure_ok");
        checked();
    }
}
static Reg r("S06", s06, 900);
