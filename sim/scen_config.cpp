// Configurations: C01 (complete or reported), C02 (damaged text).
#include "cfgmodel.h"

using namespace sim;

static const char *how_name[] = {"file", "stdin", "string"};

static void load(ConfigurationScript &c, unsigned how, const std::string &text, const std::string &fn) {
    if (how == 0) c.FromFile(fn);
    else if (how == 1) c.FromStdin();
    else c.FromString(text);
}

static void c01() {
    unsigned loads = 1 + op(3);
    plan_faults(FM_READ);
    std::unique_ptr<ConfigurationScript> kept;     // an object used before
    faults_pause();
    for (unsigned l = 0; l < loads; l++) {
        CText t; CfgOpt o; o.big = maybe(150);
        gen_config(t, o);
        if (maybe(200)) cfg_pad(t);
        cfg_spit(t);
        unsigned how = op(3);
        std::string fn = path("main" + std::to_string(l) + ".cfg");
        if (how == 0) spit(fn, t.text);
        if (how == 1) {
            long fail = -1; uint32_t mode = 0;
            if (faulty()) {
                mode = draw(FAULT, 4);
                if (draw(FAULT, 2)) fail = draw(FAULT, 4) == 0 ? (long)t.text.size() : (long)draw(FAULT, (uint32_t)t.text.size() + 1);
            }
            set_stdin(t.text, fail, maybe(300), mode);
        }
        if (!(kept && how != 0 && !kept->HasError() && maybe(500))) { kept.reset(new ConfigurationScript()); cfg_register(*kept); } else count("object_used_again");
        ConfigurationScript &c = *kept;
        uint64_t h0 = hard_faults;
        ev("C01 load from %s: %zu bytes, %zu included files", how_name[how], t.text.size(), t.files.size());
        std::string w;
        faults_resume();
        bool th = throws([&] { load(c, how, t.text, fn); }, &w);
        faults_pause();
        bool err = th || c.HasError();
        ev("load: %s", th ? "exception" : err ? "error flag" : "ok");
        nontrivial(); checked();
        if (err) {
            count("load_reported_failure");
            if (hard_faults == h0) violate("spurious-failure", "loading a complete configuration from %s reported an error although nothing failed: %s", how_name[how], th ? w.c_str() : "(error flag)");
        } else {
            count(hard_faults > h0 ? "load_ok_after_hard_fault" : "load_ok");
            std::string d = cfg_diff(c.GetRootBlock(), t.root);
            CBlock ref;
            if (cfg_parse(t.text, t.files, ref) != 0) violate("harness", "reference parser rejects a generated text");
            if (!d.empty()) violate("partial-configuration", "configuration loaded from %s without error differs from its text: %s", how_name[how], d.c_str());
        }
    }
}
static Reg r1("C01", c01, 800);

static std::string damage(const std::string &s) {
    std::string t = s;
    unsigned kind = op(5);
    if (kind <= 1) {                               // cut off
        t = t.substr(0, maybe(300) ? t.size() - op((uint32_t)std::min<size_t>(t.size(), 24) + 1) : op((uint32_t)t.size() + 1));
        count("fault:text_cut");
    }
    if (kind >= 1) {
        unsigned n = 1 + op(maybe(200) ? 20 : 3);
        static const char special[] = "\"#<>{}();=, \n\t\0\r\xff/ab1";
        for (unsigned i = 0; i < n && !t.empty(); i++) {
            size_t p = op((uint32_t)t.size());
            char c = special[op(sizeof special - 1)];
            switch (op(4)) {
            case 0: t[p] = c; break;
            case 1: t.insert(p, 1, c); break;
            case 2: t.erase(p, 1); break;
            default: { size_t l = op((uint32_t)std::min<size_t>(t.size() - p, 40) + 1); std::string x = t.substr(p, l); if (maybe(500)) t.erase(p, l); else t.insert(op((uint32_t)t.size() + 1), x); }
            }
        }
        count("fault:text_damaged");
    } else if (maybe(150)) { static const char *tail[] = {"\";", "\"}", "<;", "<}", "\"", "\"=", "\" ", "{", "}", "("}; t += tail[op(10)]; }
    return t;
}

static void c02() {
    CText t; CfgOpt o; o.big = maybe(100);
    gen_config(t, o);
    plan_faults(0);
    unsigned how = op(3);
    std::string fn = path("main.cfg");
    unsigned extra = op(8);
    bool main_dmg = t.files.empty() || maybe(650);
    std::string text = t.text;
    if (main_dmg) text = damage(text);
    for (auto &f : t.files) if (maybe(300)) { f.second = damage(f.second); main_dmg = true; }
    if (extra == 0) {                              // a file that includes itself, directly or in a circle
        std::string a = path("loop.cfg"), b = path("loop2.cfg");
        bool circle = maybe(500);
        size_t p = op((uint32_t)text.size() + 1);
        text.insert(p, "<" + a + ">");
        spit(a, "x=1; <" + (circle ? b : a) + ">" + (maybe(300) ? "<" + a + ">" : "") + " y=2;");
        spit(b, "<" + a + ">");
        count("fault:include_cycle");
    } else if (extra == 1) {                       // included file missing
        text.insert(op((uint32_t)text.size() + 1), "<" + path("nowhere.cfg") + ">");
        count("fault:include_missing");
    }
    cfg_spit(t);
    auto files = t.files;
    if (extra == 0) { files.push_back({path("loop.cfg"), slurp(path("loop.cfg"))}); files.push_back({path("loop2.cfg"), slurp(path("loop2.cfg"))}); }
    if (how == 0) spit(fn, text);
    long fail = -1; uint32_t mode = 0;
    if (how == 1) {
        mode = op(4);
        if (maybe(500)) fail = (long)op((uint32_t)text.size() + 1);
        set_stdin(text, fail, maybe(500), mode);
    }
    uint64_t len = text.size();
    for (auto &f : t.files) len += f.second.size();
    ev("C02 load from %s: %zu bytes damaged to %zu, fail_at=%ld", how_name[how], t.text.size(), text.size(), fail);
    mix(text.data(), text.size());
    // an included file may be included again through duplicated text
    arm_steps(2000000 + 4000 * len + 4 * len * len);
    ConfigurationScript c;
    cfg_register(c);
    bool th = throws([&] { load(c, how, text, fn); });
    disarm_steps();
    nontrivial(); checked();
    bool err = th || c.HasError();
    if (th) count("damaged_exception"); else if (err) count("damaged_error_flag"); else count("damaged_accepted");
    ev("load: %s", th ? "exception" : err ? "error flag" : "ok");
    if (c.GetRootBlock()) { size_t n = cfg_walk(c.GetRootBlock()); ev("settings: %zu", n); }
    if (how == 1 && fail >= 0 && !err && hard_faults) violate("lost-input-accepted", "standard input failed after %ld of %zu bytes but loading reported no error", fail, text.size());
    if (!(how == 1 && fail >= 0)) {
        CBlock want;
        int ref = cfg_parse(text, files, want);
        if (ref == 1 && !err) violate("damage-accepted", "a text that is not a configuration (cut off within a statement, a value or a block, or malformed) was loaded from %s without an error", how_name[how]);
        if (ref == 0) {
            if (err) violate("spurious-failure", "a damaged text that still is a configuration was refused");
            std::string d = cfg_diff(c.GetRootBlock(), want);
            if (!d.empty()) violate("wrong-configuration", "the configuration loaded from %s differs from its text: %s", how_name[how], d.c_str());
        }
        checked(); count(ref == 0 ? "reference_accepts" : ref == 1 ? "reference_rejects" : "reference_undecided");
    }
    // the object stays usable: what it holds can be copied, and another one loads fine
    {
        ConfigurationScript d(c); cfg_walk(d.GetRootBlock());
        if (d.HasError() != c.HasError()) violate("error-forgotten", "a copy of a configuration that has an error has none, or the other way round");
    }
    ConfigurationScript e; cfg_register(e);
    std::string w;
    for (auto &f : t.files) remove_file(f.first);
    if (throws([&] { e.FromString("a=1; @Alpha b { c=2; }"); }, &w) || e.HasError()) violate("next-load-fails", "after a damaged configuration, a good one does not load: %s", w.c_str());
    checked();
}
static Reg r2("C02", c02, 0);
