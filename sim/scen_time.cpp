// T02: timers and the times on progress lines, under a simulated clock.
#include "capture.h"
#include "sim.h"
#include <softlib/ProgressTracker.h>
#include <softlib/Timer.h>
#include <cmath>
#include <memory>
using namespace sim;

typedef long long ll;
struct TModel { ll acc = 0, since = 0; bool running = true; ll at(ll now) const { return acc + (running ? now - since : 0); } };

static ll gen_dt() {
    static const ll unit[] = {1, 1000, 1000000, 1000000000ll, 60000000000ll, 3600000000000ll, 86400000000000ll};
    switch (op(5)) {
    case 0: return maybe(100) ? 31536000000000000ll * (1 + (ll)op(6)) + op(1000000000) : 0;   // years
    case 1: return (ll)op(2000);                                   // nanoseconds
    case 2: return unit[op(7)] * (1 + (ll)op(3)) - (ll)op(3);      // around a boundary
    case 3: return unit[op(7)] * (ll)op(100);
    default: return ((ll)op(1u << 20) << 20) + op(1u << 20);       // up to 12 days in all parts
    }
}
static bool parse_parts(const std::string &s, const std::vector<std::pair<std::string, ll>> &units, ll &sum, std::vector<ll> &cnt) {
    sum = 0; cnt.assign(units.size(), -1); size_t i = 0; int last = -1;
    while (i < s.size()) {
        if (!isdigit((unsigned char)s[i])) return false;
        ll v = 0; while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0');
        while (i < s.size() && s[i] == ' ') i++;
        size_t b = i; while (i < s.size() && isalpha((unsigned char)s[i])) i++;
        std::string u = s.substr(b, i - b); int k = -1;
        for (size_t j = 0; j < units.size(); j++) if (units[j].first == u) k = (int)j;
        if (k <= last) return false;                              // unknown, repeated or out of order
        last = k; cnt[k] = v; sum += v * units[k].second;
        while (i < s.size() && (s[i] == ',' || s[i] == ' ')) i++;
    }
    return last >= 0;
}

static void check_timer(Timer &t, const TModel &m, ll now, bool backwards) {
    ll ns = m.at(now), us = ns / 1000;
    checked();
    double g = t.GetMicroseconds(), h = t.GetMilliseconds();
    if (g != (double)us) violate("elapsed-wrong", "elapsed time is %.0f microseconds, should be %lld (%s)", g, us, m.running ? "running" : "stopped");
    if (h != (double)(us / 1000)) violate("elapsed-wrong", "elapsed time is %.0f milliseconds, should be %lld", h, us / 1000);
    Timer::time s = t.GetTimeStruct();
    if (Timer::GetMicroseconds(s) != (double)us || Timer::GetMilliseconds(s) != (double)(us / 1000)) violate("elapsed-wrong", "elapsed time by its parts is %.0f microseconds, should be %lld", Timer::GetMicroseconds(s), us);
    ll d = s.days.count(), H = s.hours.count(), M = s.minutes.count(), S = s.seconds.count(), ms = s.milliseconds.count(), u = s.microseconds.count();
    ll sum = ((((d * 24 + H) * 60 + M) * 60 + S) * 1000 + ms) * 1000 + u;
    if (sum != us) violate("parts-do-not-add-up", "%lld d %lld h %lld min %lld s %lld ms %lld us is %lld microseconds instead of %lld", d, H, M, S, ms, u, sum, us);
    if (s.tp.count() != us || s.total_sec.count() != us / 1000000) violate("elapsed-wrong", "totals are %lld us / %lld s, should be %lld / %lld", (ll)s.tp.count(), (ll)s.total_sec.count(), us, us / 1000000);
    if (!backwards && ns >= 0) {
        if (d < 0 || H < 0 || H > 23 || M < 0 || M > 59 || S < 0 || S > 59 || ms < 0 || ms > 999 || u < 0 || u > 999) violate("part-out-of-range", "%lld d %lld h %lld min %lld s %lld ms %lld us", d, H, M, S, ms, u);
        static const std::vector<std::pair<std::string, ll>> un = {{"days", 86400000000ll}, {"hours", 3600000000ll}, {"minutes", 60000000ll}, {"seconds", 1000000}, {"milliseconds", 1000}, {"microseconds", 1}};
        std::string x = maybe(500) ? t.ToString() : Timer::ToString(s); ll got; std::vector<ll> c;
        if (!parse_parts(x, un, got, c) || got != us) violate("string-wrong", "'%s' does not say %lld microseconds", x.c_str(), us);
        for (int k = 1; k < 6; k++) if (c[k] >= (k == 1 ? 24 : k < 4 ? 60 : 1000)) violate("string-wrong", "'%s': a part is out of range", x.c_str());
    }
}

static void timers() {
    set_clock((ll)op(2000000000u) * 1000000000 + op(1000000000u));
    clock_read_step = 0;
    std::vector<std::unique_ptr<Timer>> t; std::vector<TModel> m;
    ll now = clock_ns; bool back = false;
    unsigned n = 1 + op(30);
    t.emplace_back(new Timer()); m.emplace_back(); m.back().since = now;
    for (unsigned i = 0; i < n; i++) {
        unsigned k = op((uint32_t)t.size());
        switch (op(9)) {
        case 0: t[k]->Stop(); if (m[k].running) { m[k].acc += now - m[k].since; m[k].running = false; } ev("stop %u", k); break;
        case 1: t[k]->Continue(); if (!m[k].running) { m[k].running = true; m[k].since = now; } ev("continue %u", k); break;
        case 2: t[k]->Reset(); m[k] = TModel(); m[k].since = now; ev("reset %u", k); break;
        case 3: if (t.size() < 4) { bool cp = maybe(300); if (cp) { t.emplace_back(new Timer(*t[k])); m.push_back(m[k]); } else { t.emplace_back(new Timer()); m.emplace_back(); m.back().since = now; } ev("%s timer", cp ? "copy" : "new"); } break;
        case 4: case 5: case 6: case 7: {
            ll dt = gen_dt();
            // the clock may be set back while nothing is being timed
            bool any = false; for (auto &x : m) any |= x.running;
            if (!any && maybe(200)) { dt = -dt; count("fault:clock_set_back_while_stopped"); }
            else if (dt > 3600000000000ll) count("fault:clock_jump_forward");
            advance(dt); now += dt; ev("clock %+lld ns", dt); break; }
        default: break;
        }
        for (size_t j = 0; j < t.size(); j++) if (maybe(600)) check_timer(*t[j], m[j], now, back);
    }
    for (size_t j = 0; j < t.size(); j++) check_timer(*t[j], m[j], now, back);
    nontrivial();
}

static std::string strip(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27) { while (i < s.size() && s[i] != 'm') i++; continue; } o += s[i]; } return o; }
static const std::vector<std::pair<std::string, ll>> PU = {{"d", 86400000}, {"h", 3600000}, {"m", 60000}, {"s", 1000}, {"ms", 1}};
// does the string say `ms` milliseconds, to the resolution it shows?
static bool says(const std::string &s, ll ms) {
    ll got; std::vector<ll> c;
    if (!parse_parts(s, PU, got, c)) return false;
    if (c[2] > 59 || c[3] > 59 || c[4] > 999) return false;
    ll res = c[4] >= 0 ? 1 : c[3] >= 0 ? 1000 : c[2] >= 0 ? 60000 : 3600000;
    if (res > 1 && ms < 10000) return false;                     // short times are given in milliseconds
    if (res > 1000) return false;
    return got == ms / res * res;
}
static void lines() {
    set_clock((ll)op(2000000000u) * 1000000000 + op(1000000000u));
    clock_read_step = 0;
    ll n = 1 + op(60), np = 1 + op((uint32_t)n); bool col = maybe(400), est = maybe(400);
    std::vector<std::pair<ll, ll>> when;                          // (total, since last line), nanoseconds
    ll t0 = clock_ns, last = clock_ns;
    Capture cap;
    {
        Dirty<ProgressTracker> mem(op(3)); ProgressTracker &p = mem.make(n, np, ProgressTracker::PROGRESS_LINES, col, est);
        for (ll i = 1; i <= n; i++) {
            ll dt = gen_dt() % 400000000000000ll; advance(dt);
            size_t before = cap.size();
            p.PrintProgress(i);
            if (cap.size() != before) { when.push_back({clock_ns - t0, clock_ns - last}); last = clock_ns; }
        }
    }
    std::vector<std::string> L = cap.lines();
    ev("lines n=%lld nprint=%lld colours=%d estimate=%d", n, np, col, est);
    nontrivial();
    if (L.size() != (size_t)np) violate("wrong-number-of-lines", "%zu progress lines for %lld steps, %lld requested", L.size(), n, np);
    if (L.size() != when.size()) violate("wrong-number-of-lines", "%zu lines printed by %zu reports", L.size(), when.size());
    for (size_t i = 0; i < L.size(); i++) {
        std::string s = strip(L[i]);
        char a[64], b[64], c[64], d[64]; ll x, y;
        int k = est ? sscanf(s.c_str(), "PROGRESS (%lld/%lld) :: %60s / %60s passed, %60s remaining (%60[^ ] total)", &x, &y, a, b, c, d) : sscanf(s.c_str(), "PROGRESS (%lld/%lld) :: %60s / %60s passed", &x, &y, a, b);
        checked();
        if (!col && L[i].find('\x1b') != std::string::npos) violate("line-incomplete", "progress line '%s' has colour codes although no colours were asked for", s.c_str());
        if (k != (est ? 6 : 4)) violate("line-incomplete", "progress line '%s' is not complete", s.c_str());
        if (x != (ll)i + 1 || y != np) violate("line-number", "line %zu of %lld says %lld/%lld", i + 1, np, x, y);
        if (!says(a, when[i].first / 1000000)) violate("line-time-wrong", "'%s': the total time passed is %lld ms", s.c_str(), when[i].first / 1000000);
        if (!says(b, when[i].second / 1000000)) violate("line-time-wrong", "'%s': the time since the previous line is %lld ms", s.c_str(), when[i].second / 1000000);
    }
}
static void t02() { if (maybe(400)) lines(); else timers(); }
static Reg r("T02", t02, 0);
