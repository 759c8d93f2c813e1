// T01: threads reporting progress to one tracker.
#include "capture.h"
#include "simthreads.h"
#include <softlib/ProgressTracker.h>
#include <algorithm>
#include <set>
using namespace sim;
typedef long long ll;

static std::string strip(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27) { while (i < s.size() && s[i] != 'm') i++; continue; } o += s[i]; } return o; }

struct Rep { ll i; uint64_t begin, end; };

// Numbers of lines that reports taking effect one at a time, in an order that
// agrees with when each call began and returned, can print. Line k is due at
// the latest when a report reaches hi(k), at the earliest at lo(k).
static std::set<ll> possible(const std::vector<std::vector<Rep>> &t, ll n, ll np) {
    auto lo = [&](ll k) { return (k * n + np - 1) / np; };
    auto hi = [&](ll k) { ll d = n / np, m = n % np; return k * d + std::min(k, m); };
    typedef std::pair<std::vector<unsigned>, ll> St;                 // reports done per thread, lines printed
    std::set<St> now; now.insert({std::vector<unsigned>(t.size(), 0), 0});
    std::set<ll> fin;
    size_t total = 0; for (auto &x : t) total += x.size();
    for (size_t step = 0; step < total; step++) {
        std::set<St> nx;
        for (auto &s : now) {
            uint64_t firstend = ~0ull;                               // nothing that began after this may come first
            for (size_t j = 0; j < t.size(); j++) if (s.first[j] < t[j].size()) firstend = std::min(firstend, t[j][s.first[j]].end);
            for (size_t j = 0; j < t.size(); j++) if (s.first[j] < t[j].size()) {
                const Rep &r = t[j][s.first[j]];
                if (r.begin > firstend) continue;
                St q = s; q.first[j]++;
                ll k = q.second + 1;
                if (k > np) { nx.insert(q); continue; }
                if (r.i < hi(k)) nx.insert(q);
                if (r.i >= lo(k)) { q.second++; nx.insert(q); }
            }
        }
        now.swap(nx);
    }
    for (auto &s : now) fin.insert(s.second);
    return fin;
}

static void t01() {
    set_clock(1700000000ll * 1000000000 + op(1000000000)); clock_read_step = op(3) ? 1000000 : 0;
    unsigned nt = 1 + op(4); bool model = maybe(700);
    ll n = model ? 1 + op(16) : 1 + op(120), np = maybe(200) ? n + op(20) : 1 + op((uint32_t)n);
    // few of very many steps are reported
    ll scale = np <= n && maybe(120) ? 1 + (ll)op(2000000000u) * (1 + op(100)) : 1, reports = n; n *= scale;
    bool col = maybe(300), est = maybe(400), inorder = maybe(250);
    unsigned how = op(3); bool over = !inorder && maybe(200);       // some steps reported again, or beyond the last
    ev("T01 steps=%lld lines=%lld threads=%u how=%u inorder=%d", n, np, nt, how, inorder);
    Capture cap;
    std::vector<std::vector<Rep>> reps(nt);
    uint64_t tick = 0; ll maxbegun = 0, counter = 0;
    {
        Dirty<ProgressTracker> mem(op(3)); ProgressTracker &p = mem.make(n, np, ProgressTracker::PROGRESS_LINES, col, est);
        ll turn = 1;
        auto report = [&](unsigned j, ll i) {
            if (inorder) while (turn != i) pass();                // threads take turns
            i *= scale;
            maxbegun = std::max(maxbegun, i);
            Rep r; r.i = i; r.begin = ++tick;
            p.PrintProgress(i);
            r.end = ++tick; reps[j].push_back(r);
            turn++;
            ll lines = (ll)cap.lines().size();
            if (lines > np) violate("too-many-lines", "%lld progress lines printed, %lld requested", lines, np);
            if (lines && std::min(maxbegun, n) * np < lines * n) violate("line-too-early", "line %lld of %lld is printed when no more than %lld of %lld steps are reported", lines, np, maxbegun, n);
        };
        std::vector<std::function<void()>> f;
        for (unsigned j = 0; j < nt; j++) f.push_back([&, j] {
            if (inorder) { for (ll i = 1 + j; i <= reports; i += nt) report(j, i); return; }
            switch (how) {
            case 0: for (;;) { ll i = ++counter; if (i > reports) break; preempt(); report(j, i); } break;      // handed out one by one
            case 1: for (ll i = 1 + j; i <= reports; i += nt) report(j, i); break;
            default: for (ll i = 1 + j * reports / nt; i <= (j + 1) * reports / nt; i++) report(j, i); break;         // blocks
            }
        });
        if (over) for (unsigned j = 0; j < nt; j++) { auto g = f[j]; unsigned k = 1 + op(4); ll at = reports + (maybe(500) ? 0 : op(3)); f[j] = [&, g, k, at, j] { g(); for (unsigned q = 0; q < k; q++) report(j, at); }; }
        run_threads(f);
    }
    std::vector<std::string> L = cap.lines();
    nontrivial();
    if ((nt == 1 && !over) || inorder) {
        ll want = std::min(n, np);
        if ((ll)L.size() != want) violate("wrong-number-of-lines", "%zu progress lines for %lld steps reported in order, %lld requested", L.size(), n, np);
    }
    for (size_t i = 0; i < L.size(); i++) {
        std::string s = strip(L[i]); char a[64], b[64], c[64], d[64]; ll x, y; char tail[64] = "";
        int k = est ? sscanf(s.c_str(), "PROGRESS (%lld/%lld) :: %60s / %60s passed, %60s remaining (%60[^ ] total)%60s", &x, &y, a, b, c, d, tail) : sscanf(s.c_str(), "PROGRESS (%lld/%lld) :: %60s / %60s passed%60s", &x, &y, a, b, tail);
        checked();
        if (k != (est ? 6 : 4)) violate("line-incomplete", "progress line '%s' is not complete", s.c_str());
        if (x != (ll)i + 1 || y != np) violate("line-number", "line %zu of %lld says %lld/%lld", i + 1, np, x, y);
    }
    if ((ll)L.size() > np) violate("too-many-lines", "%zu progress lines printed, %lld requested", L.size(), np);
    if (model) {
        std::set<ll> ok = possible(reps, n, np); checked();
        if (!ok.count((ll)L.size())) violate("lines-not-linearizable", "%zu lines for %lld steps and %lld lines requested: no order of the reports prints that many", L.size(), n, np);
        count("linearizability_checked");
    }
}
static Reg r("T01", t01, 300);
