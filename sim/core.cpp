#include "sim.h"
#include <cstdarg>
#include <new>
#include <stdexcept>
#include <unistd.h>
#ifdef SIM_HDF5
#include <H5Cpp.h>
#endif

namespace sim {

Shm *shm;
bool tracing = false;
static bool replay = false;
static std::vector<uint32_t> rep[NSTREAM];
static uint32_t reppos[NSTREAM];
static Rng prng[NSTREAM];

void core_start_generate(uint64_t seed) {
    replay = false;
    for (int i = 0; i < NSTREAM; i++) {
        Rng r(seed * 0x9E3779B97F4A7C15ull + 77 * (i + 1));
        r.next();
        prng[i] = Rng(r.next());
    }
}
void core_start_replay(const std::vector<uint32_t> *c) {
    replay = true;
    for (int i = 0; i < NSTREAM; i++) { rep[i] = c[i]; reppos[i] = 0; }
}

uint32_t draw(Stream st, uint32_t bound) {
    uint32_t v;
    if (bound <= 1) return 0;
    if (replay) {
        v = reppos[st] < rep[st].size() ? rep[st][reppos[st]] : 0;
        reppos[st]++;
        if (v >= bound) v = v % bound;
    } else
        v = (uint32_t)prng[st].below(bound);
    if (shm->nch[st] < CHCAP) shm->ch[st][shm->nch[st]++] = v;
    else { snprintf(shm->cls, sizeof shm->cls, "harness-choice-overflow"); _exit(11); }
    return v;
}
bool chance(Stream st, uint32_t permille) {
    return draw(st, 1000) >= 1000 - permille;
}
uint32_t weighted(std::initializer_list<uint32_t> w) {
    uint32_t tot = 0, i = 0;
    for (auto x : w) tot += x;
    uint32_t v = draw(OPS, tot);
    for (auto x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}
bool faulty() { return shm->faultcfg; }

static void vtrace(bool hashed, const char *fmt, va_list ap) {
    if (!hashed && !tracing) return;
    char b[1200];
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    if (n < 0) return;
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    if (hashed) mix(b, n);
    if (tracing && shm->ntrace + n + 2 < sizeof shm->trace) {
        memcpy(shm->trace + shm->ntrace, b, n);
        shm->ntrace += n;
        shm->trace[shm->ntrace++] = '\n';
        shm->trace[shm->ntrace] = 0;
    }
}
void ev(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vtrace(true, fmt, ap); va_end(ap); }
void note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vtrace(false, fmt, ap); va_end(ap); }
void mix(uint64_t v) { mix(&v, sizeof v); }
void mix(const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    uint64_t h = shm->hash;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    h ^= h >> 29;
    shm->hash = h;
}
void count(const char *name, uint64_t n) {
    for (auto &c : shm->ctr) {
        if (!c.name[0]) { snprintf(c.name, sizeof c.name, "%s", name); c.n = n; return; }
        if (!strcmp(c.name, name)) { c.n += n; return; }
    }
}
void nontrivial() { shm->nontrivial = 1; }
void checked(uint64_t n) { shm->evals += n; }
void violate(const char *cls, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    va_end(ap);
    snprintf(shm->cls, sizeof shm->cls, "%s", cls);
    note("VIOLATION %s: %s", cls, shm->msg);
    _exit(10);
}
void discard(const char *why) {
    std::string s = std::string("discard:") + why;
    count(s.c_str());
    shm->finished = 1;
    _exit(0);
}

volatile uint64_t steps;
uint64_t step_budget;
void arm_steps(uint64_t b) { step_budget = steps + b; }
void disarm_steps() { step_budget = 0; }

static std::vector<Scenario> &scen() { static std::vector<Scenario> v; return v; }
void register_scenario(const Scenario &s) { scen().push_back(s); }
const Scenario *find_scenario(const std::string &id) {
    for (auto &s : scen()) if (id == s.id) return &s;
    return nullptr;
}

bool throws(const std::function<void()> &f, std::string *what) {
    try { f(); return false; }
    catch (const std::exception &e) { oom_off(); if (what) *what = e.what(); return true; }
#ifdef SIM_HDF5
    catch (const H5::Exception &e) { oom_off(); if (what) *what = "HDF5: " + e.getDetailMsg(); return true; }
#endif
    catch (...) { oom_off(); if (what) *what = "(non-standard exception)"; return true; }
}

} // namespace sim

// Instrumented code calls this at every basic block (-fsanitize-coverage=trace-pc):
// a deterministic step counter, used for bounded progress.
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
    sim::steps = sim::steps + 1;
    if (sim::step_budget && sim::steps > sim::step_budget) {
        sim::step_budget = 0;
        sim::violate("no-progress", "step budget exhausted: the operation did not finish");
    }
}
