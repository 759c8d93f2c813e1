#include "cfgmodel.h"
#include <cerrno>
#include <unistd.h>

namespace sim {

const char *cfg_types[4] = {"@Alpha", "@Beta", "Gamma", "@long_type-name"};

void cfg_register(ConfigurationScript &c) { for (auto t : cfg_types) c.RegisterBlockType(t); }

static std::string gen_name() {
    static const char *pool[] = {"a", "b", "name", "max-steps", "p.x", "Tolerance", "x_1", "theta", "very_long_setting_name_for_the_buffer", "q", "i0", "n"};
    std::string s = pool[op(12)];
    if (maybe(300)) s += std::to_string(op(40));
    return s;
}
static std::string gen_value(bool &quoted) {
    quoted = maybe(350);
    if (!quoted) switch (op(5)) {
        case 0: {                                  // integers of all sizes
            if (maybe(150)) {                      // about the limits of the integer types, and beyond
                static const char *lim[] = {"2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "9223372036854775809",
                    "18446744073709551615", "18446744073709551616", "184467440737095516150", "340282366920938463463374607431768211456", "4294967297", "0", "00000000000000000000007"};
                return (maybe(400) ? "-" : "") + std::string(lim[op(15)]);
            }
            uint64_t m = (uint64_t)op(1u << 31) << 31 | op(1u << 31); m >>= op(62);
            return (maybe(300) ? "-" : maybe(30) ? "+" : "") + std::to_string(m);
        }
        case 1: { char b[60]; snprintf(b, sizeof b, "%.*g", 1 + (int)op(17), (double)op(1u << 30) / 977.0 * (op(2) ? 1e-9 : 1)); return b; }
        case 2: { static const char *b[] = {"yes", "no", "Yes", "YES", "No", "NO", "true", "false", "True", "TRUE", "False", "FALSE"}; return b[op(maybe(500) ? 2 : 12)]; }
        case 3: return "word" + std::to_string(op(9));
        default: { static const char *b[] = {"1e999", "-1e400", "1e-999", "4e-320", "1.7976931348623157e308", "+.5", "-0", "1.", "1e5"}; return maybe(200) ? b[op(9)] : "-1.5e-3"; }
    }
    static const char alpha[] = "abc XYZ\t;{}()=<>#,.-_/0123\n+*?!'";
    std::string s;
    size_t n = op(maybe(80) ? 1500 : 24);
    uint64_t seed = op(1u << 30);
    Rng r(seed);
    for (size_t i = 0; i < n; i++) s += alpha[r.below(sizeof alpha - 1)];
    return s;
}

struct Gen {
    CText &t; const CfgOpt &o; unsigned depth = 0; unsigned budget;
    Gen(CText &t_, const CfgOpt &o_) : t(t_), o(o_) { budget = 3 + op(o.big ? 120 : 25); }

    std::string ws() {                            // whitespace, comments or nothing but never joins tokens wrongly
        switch (op(8)) {
        case 0: case 1: case 2: return " ";
        case 3: return "\n";
        case 4: return "\t ";
        case 5: return "  \n\n ";
        case 6: return " # comment; a=1 { \" <x>\n";
        default: return maybe(100) ? " #\n" + std::string(op(maybe(150) ? 9000 : 700), ' ') : " #\n";
        }
    }
    std::string ows() { return maybe(500) ? "" : ws(); }

    std::string setting(CBlock *b) {
        std::string n = gen_name(), s;
        if (maybe(30)) { if (maybe(500)) n = "=" + n + " {<"; s = "\"" + n + "\""; } else s = n;
        s += ows() + "=";
        std::vector<std::string> v;
        unsigned k = maybe(250) ? 1 + op(o.big ? 60 : 6) : 1;
        for (unsigned i = 0; i < k; i++) {
            bool q; std::string x = gen_value(q);
            s += i ? (maybe(500) ? "," + ows() : ws()) : ows();
            s += q ? "\"" + x + "\"" : x;
            v.push_back(x);
        }
        s += ows() + ";";
        for (auto &p : b->settings) if (p.first == n) { p.second = v; return s; }
        b->settings.push_back({n, v});
        return s;
    }
    std::string block(CBlock *b) {
        size_t ty = 1 + op(4);
        std::string n = gen_name();
        bool qn = maybe(60);
        if (qn && maybe(500)) n += " of " + gen_name() + "; {}";
        std::string st = maybe(250) ? gen_name() : "";
        std::string s = cfg_types[ty - 1] + (qn ? ows() + "\"" + n + "\"" : ws() + n);
        if (!st.empty()) s += ows() + "(" + ows() + st + ows() + ")";
        s += ows() + "{";
        CBlock *c = nullptr;
        for (auto &x : b->subs) if (x->type == ty && x->name == n) c = x.get();
        if (!c) {
            b->subs.emplace_back(new CBlock());
            c = b->subs.back().get();
            c->type = ty; c->name = n; c->stype = st.empty() ? n : st;
        }
        depth++;
        s += statements(c, op(6)) + ows() + "}";
        depth--;
        return s;
    }
    std::string statements(CBlock *b, unsigned n) {
        std::string s = ows();
        for (unsigned i = 0; i < n && budget; i++) {
            budget--;
            unsigned w = op(10);
            if (w < 2 && depth < 5) s += block(b);
            else if (w == 2 && o.includes && t.files.size() < o.maxfiles) {
                size_t id = t.files.size();
                std::string fn = path("inc" + std::to_string(id) + ".cfg");
                t.files.push_back({fn, ""});
                std::string c = statements(b, maybe(100) ? 0 : 1 + op(6));
                if (maybe(200)) c += maybe(500) ? " # trailing comment" : "#";
                t.files[id].second = c;
                s += "<" + fn + ">";
            } else s += setting(b);
            s += ows();
        }
        return s;
    }
};

void gen_config(CText &t, const CfgOpt &o) {
    Gen g(t, o);
    t.text = g.ows() + g.setting(&t.root) + g.ows();
    t.text += g.statements(&t.root, 1 + op(o.big ? 40 : 10));
    if (o.includes && maybe(25)) {                // very many includes, one after the other
        std::string fn = path("often.cfg");
        t.files.push_back({fn, "often=1;" + std::string(op(2), '\n')});
        unsigned k = 90 + op(40);
        for (unsigned i = 0; i < k; i++) t.text += "<" + fn + ">";
        bool hit = false; for (auto &p : t.root.settings) hit |= p.first == "often";
        if (!hit) t.root.settings.push_back({"often", {"1"}});
    }
    switch (op(6)) { case 0: t.text += "# end"; break; case 1: t.text += "#"; break; case 2: t.text += "\n"; break; default: break; }
}
void cfg_pad(CText &t) {
    static const size_t unit[] = {1000, 1024, 4096, 8192, 500, 8191};
    size_t u = unit[op(6)], want = (t.text.size() / u + 1) * u + op(3) - 1;
    if (want > t.text.size()) t.text.insert(0, std::string(want - t.text.size(), ' '));
}
void cfg_spit(const CText &t) { for (auto &f : t.files) spit(f.first, f.second); }

// What a setting is when read as a boolean or a number. Only texts whose
// meaning is beyond doubt are judged.
static std::string typed_diff(const Setting *s, const std::vector<std::string> &v) {
    static const char *yes[] = {"yes", "Yes", "YES", "true", "True", "TRUE"}, *no[] = {"no", "No", "NO", "false", "False", "FALSE"};
    bool numbers = true, plain = true; std::vector<double> num;
    for (unsigned i = 0; i < v.size(); i++) {
        const std::string &x = v[i];
        int b = -1; for (auto y : yes) if (x == y) b = 1; for (auto y : no) if (x == y) b = 0;
        if (s->IsBool(i) != (b >= 0)) return "value '" + x + "' is " + (b < 0 ? "" : "not ") + "taken for a boolean";
        if (b >= 0 && s->GetBool(i) != (b == 1)) return "value '" + x + "' read as a boolean is wrong";
        if (b < 0) { bool t = throws([&] { s->GetBool(i); }); if (!t) return "value '" + x + "' is read as a boolean"; }
        // integers: [+-]digits
        size_t k = x.size() && (x[0] == '-' || x[0] == '+'); bool neg = k && x[0] == '-', digits = x.size() > k;
        unsigned __int128 m = 0; const unsigned __int128 one = 1;
        for (size_t j = k; j < x.size() && digits; j++) if (x[j] >= '0' && x[j] <= '9') { if (m < one << 100) m = m * 10 + (x[j] - '0'); } else digits = false;
        if (digits) {
            bool f32 = m < one << 31 || (neg && m == one << 31), f64 = m < one << 63 || (neg && m == one << 63), u32 = m < one << 32 && !(neg && m), u64 = m < one << 64 && !(neg && m);
            bool minus0 = neg && !m;               // "-0": whether that is unsigned is open
            int64_t z = neg ? (int64_t)(0 - (uint64_t)m) : (int64_t)m;
            if (s->IsInteger32(i) != f32) return "integer " + x + (f32 ? " is said not to fit 32 bits" : " is said to fit 32 bits");
            if (s->IsInteger64(i) != f64 || s->IsInteger(i) != f64) return "integer " + x + (f64 ? " is said not to fit 64 bits" : " is said to fit 64 bits");
            if (!minus0 && s->IsUnsignedInteger32(i) != u32) return "integer " + x + " is " + (u32 ? "not " : "") + "taken for an unsigned integer of 32 bits";
            if (!minus0 && s->IsUnsignedInteger64(i) != u64) return "integer " + x + " is " + (u64 ? "not " : "") + "taken for an unsigned integer of 64 bits";
            if (f32 ? s->GetInteger32(i) != (int32_t)z : !throws([&] { s->GetInteger32(i); })) return "integer " + x + " is read as another integer of 32 bits";
            if (f64 ? s->GetInteger64(i) != z || s->GetInteger(i) != z : !throws([&] { s->GetInteger64(i); }) || !throws([&] { s->GetInteger(i); })) return "integer " + x + " is read as another integer of 64 bits";
            if (!minus0 && (u32 ? s->GetUnsignedInteger32(i) != (uint32_t)m : !throws([&] { s->GetUnsignedInteger32(i); }))) return "integer " + x + " is read as another unsigned integer of 32 bits";
            if (!minus0 && (u64 ? s->GetUnsignedInteger64(i) != (uint64_t)m : !throws([&] { s->GetUnsignedInteger64(i); }))) return "integer " + x + " is read as another unsigned integer of 64 bits";
        }
        char *e = nullptr; double d = x.empty() || !strchr("+-.0123456789", x[0]) || x.find_first_not_of("+-.0123456789eE") != x.npos ? 0 : (errno = 0, strtod(x.c_str(), &e));
        bool range = e && errno == ERANGE;
        bool number = e && e == x.c_str() + x.size();
        if (number) {
            num.push_back(d);
            if (range) {                           // beyond the range of numbers: taken or refused, but by all alike
                if (s->IsScalar(i) == throws([&] { s->GetScalar(i); }) || s->IsNumericVector() == throws([&] { s->GetNumericVector(); })) return "number " + x + " is said to be " + (s->IsScalar(i) ? "" : "no ") + "number, but reading it says otherwise";
                return "";
            }
            if (!s->IsScalar(i) || s->GetScalar(i) != d) return "number " + x + " is read as something else";
            if (!digits && x.find_first_of(".eE") != x.npos && (s->IsInteger(i) || s->IsInteger32(i) || s->IsUnsignedInteger64(i) || s->IsUnsignedInteger32(i))) return "number " + x + " is taken for an integer";
        } else {
            numbers = false;
            if (x.compare(0, 4, "word") && b < 0) { plain = false; continue; }
            if (s->IsScalar(i) || s->IsInteger(i) || s->IsInteger32(i) || s->IsInteger64(i) || s->IsUnsignedInteger32(i) || s->IsUnsignedInteger64(i)) return "word '" + x + "' is taken for a number";
            if (!throws([&] { s->GetScalar(i); }) || !throws([&] { s->GetInteger(i); }) || !throws([&] { s->GetNumericVector(); })) return "word '" + x + "' is read as a number";
        }
    }
    if (v.size() != 1) { if (s->IsBool() || s->IsInteger() || s->IsInteger32() || s->IsInteger64() || s->IsUnsignedInteger32() || s->IsUnsignedInteger64() || s->IsScalar()) return "several values are taken for one"; }
    else if (s->IsBool() != s->IsBool(0) || s->IsInteger() != s->IsInteger(0) || s->IsInteger32() != s->IsInteger32(0) || s->IsInteger64() != s->IsInteger64(0) || s->IsUnsignedInteger32() != s->IsUnsignedInteger32(0) || s->IsUnsignedInteger64() != s->IsUnsignedInteger64(0)) return "the only value is not taken for the value";
    if (v.size() && numbers) {
        if (!s->IsNumericVector() || !s->IsNumericVector((unsigned)v.size()) || s->IsNumericVector((unsigned)v.size() + 1) || s->GetNumericVector() != num) return "the numbers are not read as a vector of numbers";
    } else if (plain && v.size() && s->IsNumericVector()) return "words are taken for a vector of numbers";
    return "";
}
std::string cfg_diff(ConfigBlock *got, const CBlock &want, const std::string &where, bool typed) {
    auto set = got->GetAllSettings();
    checked();
    if (set.size() != want.settings.size()) return where + ": " + std::to_string(set.size()) + " settings instead of " + std::to_string(want.settings.size());
    for (size_t i = 0; i < set.size(); i++) {
        if (set[i]->GetName() != want.settings[i].first) return where + ": setting '" + set[i]->GetName() + "' instead of '" + want.settings[i].first + "'";
        auto v = set[i]->GetTextVector();
        checked();
        if (set[i]->GetNumberOfValues() != v.size() || !set[i]->HasName(want.settings[i].first)) return where + ": setting '" + set[i]->GetName() + "' miscounts its values or has another name";
        if (v == want.settings[i].second) { std::string d; if (typed) { try { d = typed_diff(set[i], v); } catch (std::bad_alloc &) { throw; } catch (std::exception &e) { d = std::string("reading it fails: ") + e.what(); } } if (!d.empty()) return where + ": setting '" + set[i]->GetName() + "': " + d; }
        else return where + ": setting '" + set[i]->GetName() + "' has other values (" + std::to_string(v.size()) + " of " + std::to_string(want.settings[i].second.size()) + ")";
    }
    auto sub = got->GetAllSubBlocks();
    if (sub.size() != want.subs.size()) return where + ": " + std::to_string(sub.size()) + " blocks instead of " + std::to_string(want.subs.size());
    for (size_t i = 0; i < sub.size(); i++) {
        auto &w = *want.subs[i];
        if (sub[i]->GetType() != w.type || sub[i]->GetName() != w.name) return where + ": block '" + sub[i]->GetName() + "' instead of '" + w.name + "'";
        if (sub[i]->GetSecondaryType() != w.stype) return where + ": block '" + w.name + "' has another secondary type";
        if (sub[i]->GetParent() != got) return where + ": block '" + w.name + "' has another parent";
        std::string d = cfg_diff(sub[i], w, where + "/" + w.name, typed);
        if (!d.empty()) return d;
    }
    return "";
}
size_t cfg_walk(ConfigBlock *b, int depth) {
    size_t n = 0;
    for (auto s : b->GetAllSettings()) { n++; mix(s->GetName().data(), s->GetName().size()); for (auto &v : s->GetTextVector()) mix(v.data(), v.size()); }
    for (auto c : b->GetAllSubBlocks()) { mix(c->GetType()); mix(c->GetName().data(), c->GetName().size()); n += cfg_walk(c, depth + 1); }
    return n;
}


namespace {
struct Tok { std::string s; bool word; bool quoted; };
struct Weird {};
struct Bad {};
void lex(const std::string &t, const std::vector<std::pair<std::string, std::string>> &files, std::vector<Tok> &out, unsigned depth) {
    if (depth > 40) throw Weird();
    std::string w;
    auto flush = [&] { if (!w.empty()) { out.push_back({w, true, false}); w.clear(); } };
    for (size_t i = 0; i < t.size(); i++) {
        char c = t[i];
        if (c == 0 || c == '>') throw Weird();
        if (c == '#') {
            flush();
            while (i < t.size() && t[i] != '\n') { if (t[i] == 0) throw Weird(); i++; }
        } else if (c == ' ' || c == '\t' || c == '\n' || c == ',') flush();
        else if (c == '"') {
            flush();
            size_t e = t.find('"', i + 1);
            if (e == std::string::npos) { if (t.find('\0', i) != std::string::npos) throw Weird(); throw Bad(); }
            std::string q = t.substr(i + 1, e - i - 1);
            if (q.find('\0') != std::string::npos) throw Weird();
            out.push_back({q, true, true});
            i = e;
        } else if (c == '<') {
            flush();
            if (!out.empty() && out.back().word) throw Weird();         // in the middle of a statement
            if (!out.empty() && (out.back().s == "=" || out.back().s == "(")) throw Weird();
            size_t e = t.find('>', i + 1);
            if (t.find('\0', i) < e) throw Weird();
            if (e == std::string::npos) throw Bad();
            std::string n = t.substr(i + 1, e - i - 1);
            if (n.find_first_of(" \t\n#<") != std::string::npos) throw Weird();
            const std::string *f = nullptr;
            for (auto &x : files) if (x.first == n) f = &x.second;
            if (!f) { if (n.empty() || n == "." || n.find('/') == std::string::npos || access(n.c_str(), F_OK) == 0) throw Weird(); throw Bad(); }
            size_t n0 = out.size();
            lex(*f, files, out, depth + 1);
            if (out.size() > n0 && out.back().word) throw Weird();      // continues after the include
            if (out.size() > n0 && out.back().s == "=") throw Weird();
            i = e;
        } else if (strchr("=(){};", c)) { flush(); out.push_back({std::string(1, c), false, false}); }
        else w += c;
    }
    flush();
}
bool is_type(const std::string &s, size_t &ty) { for (size_t i = 0; i < 4; i++) if (s == cfg_types[i]) { ty = i + 1; return true; } return s == "/root" ? (ty = 0, true) : false; }
size_t block(const std::vector<Tok> &k, size_t i, CBlock &b, bool top) {
    auto is = [&](size_t j, const char *s) { return j < k.size() && !k[j].word && k[j].s == s; };
    auto word = [&](size_t j) { return j < k.size() && k[j].word; };
    for (;;) {
        if (i >= k.size()) { if (top) return i; throw Bad(); }
        if (!top && is(i, "}")) return i + 1;
        if (!word(i)) throw Bad();
        size_t ty;
        if (is_type(k[i].s, ty)) {
            if (!word(i + 1)) throw Bad();
            std::string n = k[i + 1].s, st; i += 2;
            if (is(i, "(")) {
                size_t dummy;
                if (!word(i + 1) || is_type(k[i + 1].s, dummy)) throw Bad();
                st = k[i + 1].s; if (!is(i + 2, ")")) throw Bad();
                i += 3;
            }
            if (!is(i, "{")) throw Bad();
            CBlock *c = nullptr;
            for (auto &x : b.subs) if (x->type == ty && x->name == n) c = x.get();
            if (!c) {
                b.subs.emplace_back(new CBlock()); c = b.subs.back().get();
                c->type = ty; c->name = n; c->stype = st.empty() ? n : st;
            }
            i = block(k, i + 1, *c, false);
        } else {
            std::string n = k[i].s; std::vector<std::string> v;
            if (!is(i + 1, "=")) throw Bad();
            i += 2;
            while (word(i)) v.push_back(k[i++].s);
            if (v.empty() || !is(i, ";")) throw Bad();
            i++;
            bool hit = false;
            for (auto &p : b.settings) if (p.first == n) { p.second = v; hit = true; }
            if (!hit) b.settings.push_back({n, v});
        }
    }
}
}
int cfg_parse(const std::string &text, const std::vector<std::pair<std::string, std::string>> &files, CBlock &root) {
    std::vector<Tok> k;
    try { lex(text, files, k, 0); if (k.empty()) return 1; block(k, 0, root, true); }
    catch (Weird &) { return 2; }
    catch (Bad &) { return 1; }
    return 0;
}

} // namespace sim
