// C03: configurations that were copied or merged are independent of each other.
#include "cfgmodel.h"
#include <algorithm>
#include <memory>
using namespace sim;

static std::unique_ptr<CBlock> copy_model(const CBlock &b) {
    std::unique_ptr<CBlock> c(new CBlock());
    c->type = b.type; c->name = b.name; c->stype = b.stype; c->settings = b.settings;
    for (auto &s : b.subs) c->subs.push_back(copy_model(*s));
    return c;
}
static void merge_model(CBlock &a, const CBlock &b, bool add, std::vector<std::string> &unknown) {
    for (auto &s : b.settings) {
        bool hit = false;
        for (auto &t : a.settings) if (t.first == s.first) { t.second = s.second; hit = true; }
        if (!hit) { if (add) a.settings.push_back(s); else unknown.push_back(s.first); }
    }
    for (auto &s : b.subs) {
        CBlock *t = nullptr;
        for (auto &x : a.subs) if (x->type == s->type && x->name == s->name) t = x.get();
        if (t) merge_model(*t, *s, add, unknown);
        else if (add) a.subs.push_back(copy_model(*s));
        else unknown.push_back(s->name);
    }
}
struct Tree { std::unique_ptr<ConfigurationScript> script; std::unique_ptr<ConfigBlock> block; std::unique_ptr<CBlock> model; ConfigBlock *root() { return script ? script->GetRootBlock() : block.get(); } };

static void lookup(ConfigBlock *b, const CBlock &m) {
    for (auto &s : m.settings) {
        Setting *x = b->GetSetting(s.first); checked();
        if (!b->HasSetting(s.first) || !x || x->GetNumberOfValues() != s.second.size()) violate("setting-lost", "setting '%s' is not found by its name", s.first.c_str());
        for (unsigned i = 0; i < s.second.size(); i++) if (x->GetString(i) != s.second[i]) violate("setting-lost", "setting '%s' found by name has another value", s.first.c_str());
        if (s.second.size() && (*b)[s.first] != s.second[0]) violate("setting-lost", "setting '%s' has another value by operator[]", s.first.c_str());
    }
    for (const char *none : {"no such setting", "", "A"}) {
        bool known = false; for (auto &s : m.settings) known |= s.first == none;
        if (known) continue;
        if (b->HasSetting(none) || b->GetSetting(none)) violate("setting-invented", "a setting that does not exist is found");
        if (!throws([&] { (*b)[none]; })) violate("setting-invented", "operator[] returns a setting that does not exist");
    }
    for (size_t ty = 0; ty < 6; ty++) {
        std::vector<const CBlock *> want; for (auto &s : m.subs) if (s->type == ty) want.push_back(s.get());
        auto got = b->GetAllSubBlocksOfType(ty);
        if (b->HasSubBlocks(ty) != !want.empty() || got.size() != want.size()) violate("block-lost", "the blocks of a type are not all found");
        for (size_t i = 0; i < got.size(); i++) if (got[i]->GetName() != want[i]->name) violate("block-lost", "the blocks of a type are not those added");
        if (b->GetConfigBlock(ty, "no such block") || b->HasSubBlock(ty, "no such block")) violate("block-invented", "a block that does not exist is found");
    }
    if (b->HasSubBlocks() != !m.subs.empty()) violate("block-lost", "HasSubBlocks is wrong");
    checked();
    if (b->HasUntouchedSettings() || !b->GetUntouchedSettings().empty()) violate("touch-lost", "settings are reported as unused although all were used");
    for (auto &s : m.subs) {
        ConfigBlock *c = b->GetConfigBlock(s->type, s->name);
        if (!c || !b->HasSubBlock(s->type, s->name) || !b->HasSubBlocks(s->type)) violate("block-lost", "block '%s' is not found by its name", s->name.c_str());
        lookup(c, *s);
    }
}

// a setting nobody has asked for is reported as such
static void untouched(ConfigBlock *b, const CBlock &m) {
    checked();
    std::vector<std::string> want, got; for (auto &s : m.settings) want.push_back(s.first);
    for (auto s : b->GetUntouchedSettings()) got.push_back(s->GetName());
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    if (got != want || b->HasUntouchedSettings() != !want.empty()) violate("touch-invented", "%zu of %zu settings are reported as unused right after loading", got.size(), want.size());
    if (!want.empty()) {
        std::string n = want[op((uint32_t)want.size())];
        b->GetSetting(n); got.clear();
        for (auto s : b->GetUntouchedSettings()) got.push_back(s->GetName());
        if (std::count(got.begin(), got.end(), n) || got.size() + 1 != want.size() || b->HasUntouchedSettings() != !got.empty()) violate("touch-lost", "after one of %zu settings was used, %zu are reported as unused", want.size(), got.size());
    }
    for (auto c : b->GetAllSubBlocks()) for (auto &s : m.subs) if (s->type == c->GetType() && s->name == c->GetName()) untouched(c, *s);
}

// picks a block of the tree, and the model of it
static std::pair<ConfigBlock *, CBlock *> pick(Tree &t) {
    ConfigBlock *b = t.root(); CBlock *m = t.model.get();
    while (!m->subs.empty() && maybe(450)) { size_t i = op((uint32_t)m->subs.size()); b = b->GetAllSubBlocks().at(i); m = m->subs[i].get(); }
    return {b, m};
}
static void change(Tree &t) {
    auto x = pick(t); ConfigBlock *b = x.first; CBlock *m = x.second;
    static const char *names[] = {"a", "b", "new", "q", "Tolerance"};
    std::string n = names[op(5)], v = "v" + std::to_string(op(50));
    switch (op(5)) {
    case 0: case 1: {                              // set or replace
        std::vector<std::string> val(1 + op(3), v);
        b->AddSetting(new SettingScript(n, val));
        bool hit = false; for (auto &s : m->settings) if (s.first == n) { s.second = val; hit = true; }
        if (!hit) m->settings.push_back({n, val});
        ev("set %s", n.c_str());
    } break;
    case 2: {                                      // append to one
        if (m->settings.empty()) return;
        size_t i = op((uint32_t)m->settings.size());
        ((SettingScript *)b->GetSetting(m->settings[i].first))->AppendValue(v); m->settings[i].second.push_back(v);
        ev("append");
    } break;
    case 3: {                                      // add a block, or return the one there is
        size_t ty = 1 + op(4); std::string st = maybe(500) ? "" : "kind";
        CBlock *c = nullptr; for (auto &s : m->subs) if (s->type == ty && s->name == n) c = s.get();
        if (!c) { m->subs.emplace_back(new CBlock()); c = m->subs.back().get(); c->type = ty; c->name = n; c->stype = st.empty() ? n : st; }
        ConfigBlock *r = b->AddSubBlock(ty, n, st);
        if (!r || r->GetName() != n || r->GetType() != ty || r->GetParent() != b) violate("block-lost", "the block added is not the one returned");
        r->AddSetting(new SettingScript("in", v));
        bool hit = false; for (auto &s : c->settings) if (s.first == "in") { s.second = {v}; hit = true; }
        if (!hit) c->settings.push_back({"in", {v}});
        ev("add block");
    } break;
    default: {                                     // overwrite one with another
        if (m->settings.size() < 2) return;
        size_t i = op((uint32_t)m->settings.size()), j = op((uint32_t)m->settings.size());
        b->GetSetting(m->settings[i].first)->OverwriteValues(b->GetSetting(m->settings[j].first)); m->settings[i].second = m->settings[j].second;
        ev("overwrite");
    }
    }
    count("changed");
}

static void c03() {
    std::vector<Tree> trees;
    unsigned n = 2 + op(14);
    for (unsigned k = 0; k < n; k++) {
        unsigned what = trees.size() < 2 ? 0 : op(12);
        if (what < 2 && trees.size() < 6) {
            CText t; CfgOpt o; o.includes = false; gen_config(t, o);
            Tree x; x.script.reset(new ConfigurationScript()); cfg_register(*x.script); x.script->FromString(t.text, "text");
            if (x.script->HasError()) violate("spurious-failure", "a well-formed text sets the error flag");
            untouched(x.script->GetRootBlock(), t.root);
            if (maybe(100)) x.script->SetErrorFlag();
            x.model = copy_model(t.root);
            trees.push_back(std::move(x)); ev("load");
        } else if (what < 5 && trees.size() < 6) {
            Tree &s = trees[op((uint32_t)trees.size())]; Tree x; x.model = copy_model(*s.model);
            ConfigBlock *from = s.root();
            if (maybe(300)) { auto q = pick(s); from = q.first; x.model = copy_model(*q.second); }
            bool whole = s.script && from == s.root() && maybe(400), viabase = maybe(500); uint64_t f0 = oom_fired; std::string w;
            bool oom = faulty() && maybe(250);
            uint32_t nth = draw(FAULT, 60), len = 1 + draw(FAULT, 3);
            bool t = throws([&] { if (oom) oom_plan(nth, len); if (whole) { if (viabase) x.script.reset(new ConfigurationScript((const Configuration &)*s.script)); else x.script.reset(new ConfigurationScript(*s.script)); } else x.block.reset(new ConfigBlock(from)); }, &w);
            oom_off();
            if (t && oom_fired == f0) violate("spurious-failure", "copying fails: %s", w.c_str());
            ev("copy %s", t ? "fails" : "ok");
            if (!t) {
                if (whole && (x.script->GetBlockTypes() != s.script->GetBlockTypes() || x.script->HasError() != s.script->HasError() || x.script->GetFilename() != s.script->GetFilename())) violate("copy-differs", "a copied configuration has other block types, error state or file name");
                trees.push_back(std::move(x));
            }
        } else if (what < 8) {
            unsigned a = op((uint32_t)trees.size()), b = maybe(80) ? a : (a + 1 + op((uint32_t)trees.size() - 1)) % trees.size();
            Tree &A = trees[a], &B = trees[b]; bool add = maybe(600), whole = A.script && B.script && maybe(500);
            auto qa = std::make_pair(A.root(), A.model.get()), qb = std::make_pair(B.root(), B.model.get());
            if (!whole && a != b && maybe(300)) { qa = pick(A); qb = pick(B); }
            std::vector<std::string> want, got; bool isnull = true; uint64_t f0 = oom_fired; std::string w;
            bool oom = faulty() && maybe(250);
            uint32_t nth = draw(FAULT, 60), len = 1 + draw(FAULT, 3);
            bool t = throws([&] {
                if (oom) oom_plan(nth, len);
                std::unique_ptr<std::vector<std::string>> u(whole ? A.script->Merge(*B.script, add) : qa.first->Merge(qb.first, add));
                oom_off();
                if (u) { isnull = false; got = *u; }
            }, &w);
            oom_off();
            ev("merge %u into %u %s: %s", b, a, add ? "with new" : "known only", t ? "exception" : "ok");
            if (t) {
                if (oom_fired == f0) violate("spurious-failure", "merging fails: %s", w.c_str());
                trees.erase(trees.begin() + a);            // half merged, but can be destroyed
            } else {
                merge_model(*qa.second, *qb.second, add, want);
                std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
                if (got != want || isnull != want.empty()) violate("unknown-wrong", "merging reports %zu unknown names instead of %zu", got.size(), want.size());
                count(add ? "merged_with_new" : "merged_known");
            }
        } else if (what == 8) {
            unsigned a = op((uint32_t)trees.size());
            trees.erase(trees.begin() + a); ev("destroy %u", a); count("destroyed");
        } else if (what == 9) {
            Tree &A = trees[op((uint32_t)trees.size())]; lookup(A.root(), *A.model);
        } else change(trees[op((uint32_t)trees.size())]);
        for (auto &x : trees) { std::string d = cfg_diff(x.root(), *x.model, "<root>", k + 1 == n); if (!d.empty()) violate("configuration-disturbed", "%s", d.c_str()); }
        nontrivial();
    }
    while (!trees.empty()) {
        trees.erase(trees.begin() + op((uint32_t)trees.size()));
        for (auto &x : trees) { std::string d = cfg_diff(x.root(), *x.model, "<root>", false); if (!d.empty()) violate("configuration-disturbed", "after others were destroyed: %s", d.c_str()); }
    }
}
static Reg r("C03", c03, 500);
