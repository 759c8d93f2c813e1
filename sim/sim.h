// Deterministic simulation core: one integer decides everything.
//
// Every choice of a run (operations, arguments, faults, thread schedule, clock)
// is a draw from one of three choice streams.  When searching, the streams are
// filled by a PRNG seeded from (VERIF_SEED, property, run index) and recorded;
// when replaying or minimising they are read back, and an exhausted stream
// yields 0, which always means "the simplest thing" (no fault, same thread).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

enum Stream { OPS = 0, FAULT = 1, SCHED = 2, NSTREAM = 3 };

constexpr uint32_t CHCAP = 1u << 18;

struct Counter { char name[56]; uint64_t n; };

struct Shm {                       // survives the death of a run's process
    int finished;                  // run reached its end
    char cls[96];                  // violation class ("" = none)
    char msg[3000];
    char crash[600];               // sanitizer report
    uint64_t hash;                 // hash over the event log
    uint64_t steps;                // instrumented basic blocks executed while armed
    uint64_t iocalls;
    uint64_t simns;                // simulated time covered
    uint64_t evals;                // oracle evaluations in the run
    int nontrivial;
    int faultcfg;                  // this run had fault injection enabled
    uint32_t nch[NSTREAM];
    uint32_t ch[NSTREAM][CHCAP];
    Counter ctr[400];
    uint32_t ntrace;
    char trace[1 << 18];
};
extern Shm *shm;

struct Rng {                       // splitmix64: payload data, PRNG for choices
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (double)(next() >> 11) * 0x1p-53; }
};

// --- choices -------------------------------------------------------------
uint32_t draw(Stream st, uint32_t bound);          // [0,bound)
inline uint32_t op(uint32_t bound) { return draw(OPS, bound); }
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(OPS, hi - lo + 1); }
bool chance(Stream st, uint32_t permille);         // draw 0 => false
inline bool maybe(uint32_t permille) { return chance(OPS, permille); }
uint32_t weighted(std::initializer_list<uint32_t> w); // index; draw 0 => 0
bool faulty();                                     // is this run's configuration fault-injecting?

// --- event log, statistics, verdicts ------------------------------------
extern bool tracing;
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // logged and hashed
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // logged only
void mix(uint64_t v);
void mix(const void *p, size_t n);
void count(const char *name, uint64_t n = 1);
inline void probe(const char *name) { count(name); }
void nontrivial();
void checked(uint64_t n = 1);                      // oracle evaluations
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char *why);        // run is outside the property's scope

// --- step budget (bounded progress) -------------------------------------
extern volatile uint64_t steps;
extern uint64_t step_budget;                       // 0 = unlimited
void arm_steps(uint64_t budget);
void disarm_steps();

// --- simulated disk ------------------------------------------------------
enum FaultKind {
    F_READ_EIO, F_READ_SHORT, F_READ_EINTR,
    F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_WRITE_EINTR, F_WRITE_TORN,
    F_OPEN_FAIL, F_CLOSE_EIO, F_TRUNC_FAIL, F_STAT_FAIL, F_SEEK_FAIL, F_NKIND
};
extern const char *fault_name[F_NKIND];
constexpr uint32_t FM(FaultKind k) { return 1u << k; }
constexpr uint32_t FM_TRANSPARENT_R = FM(F_READ_SHORT) | FM(F_READ_EINTR);
constexpr uint32_t FM_HARD_R = FM(F_READ_EIO) | FM(F_OPEN_FAIL) | FM(F_STAT_FAIL);
constexpr uint32_t FM_READ = FM_TRANSPARENT_R | FM_HARD_R;
constexpr uint32_t FM_TRANSPARENT_W = FM(F_WRITE_SHORT) | FM(F_WRITE_EINTR);
constexpr uint32_t FM_HARD_W = FM(F_WRITE_EIO) | FM(F_WRITE_ENOSPC) | FM(F_WRITE_TORN) | FM(F_OPEN_FAIL) | FM(F_CLOSE_EIO) | FM(F_TRUNC_FAIL);
constexpr uint32_t FM_WRITE = FM_TRANSPARENT_W | FM_HARD_W;
// Draws a fault plan for this run from the FAULT stream: which kinds (a random
// subset of `kinds`), when (rate / one at call k / everything from call k on).
void plan_faults(uint32_t kinds);
void no_faults();
void faults_pause();
void faults_resume();
void faults_fit(unsigned rounds);   // moves the planned fault within `rounds` repetitions of the calls seen while paused
extern uint64_t hard_faults;       // hard faults fired so far
extern uint64_t soft_faults;       // transparent ones
extern uint64_t io_calls;
std::string path(const std::string &name);         // path on the simulated disk
bool exists(const std::string &p);
std::string slurp(const std::string &p);           // raw access, no faults
void spit(const std::string &p, const std::string &data);
void remove_file(const std::string &p);
int open_fds();                                    // simulated files currently open
std::string open_fd_names();
// Crash snapshot: when the n-th mutating disk call (counted from now) happens,
// the file's content at that instant, plus the first `torn` bytes of the call
// itself, is preserved as <name>.crash; the run itself continues.
void crash_after(uint64_t n, uint32_t torn);
void crash_cancel();
extern uint64_t mutations;         // mutating disk calls so far
bool crash_taken();

// --- simulated clock -----------------------------------------------------
extern bool clock_armed;
extern int64_t clock_ns;           // since the epoch
extern int64_t clock_read_step;    // added at each reading
void set_clock(int64_t ns);
void advance(int64_t ns);

// --- simulated standard input -------------------------------------------
// Installs text as standard input, delivered in drawn chunks; fail_at>=0 makes
// the stream fail (EIO) after that many bytes. buffered: as with
// sync_with_stdio(false).
void set_stdin(const std::string &text, long fail_at, bool buffered, uint32_t chunk_mode);

// --- simulated memory ----------------------------------------------------
void oom_plan(uint64_t nth, uint32_t len);  // fail `len` allocations starting at the nth from now
void oom_off();
void oom_resume();                  // continues the plan that oom_off() interrupted
extern uint64_t alloc_calls, oom_fired;
extern thread_local bool oom_on;
struct Granted { bool was = oom_on; Granted() { oom_on = false; } ~Granted() { oom_on = was; } };   // the simulator's own requests are granted

// --- scenarios -----------------------------------------------------------
struct Scenario {
    const char *id;
    void (*run)();
    uint32_t fault_permille;       // share of runs with fault injection
    uint64_t step_limit;           // whole-run progress budget
};
const Scenario *find_scenario(const std::string &id);
void register_scenario(const Scenario &);
struct Reg { Reg(const char *id, void (*f)(), uint32_t fp, uint64_t sl = 400000000ull) { register_scenario({id, f, fp, sl}); } };

// Runs f; returns true if it threw (any type); `what` gets the text.
bool throws(const std::function<void()> &f, std::string *what = nullptr);


// An object made in memory that was used before.
template<typename T> struct Dirty {
    alignas(T) unsigned char raw[sizeof(T)]; T *p = nullptr;
    explicit Dirty(uint32_t how) { memset(raw, how == 0 ? 0 : how == 1 ? 0xbe : 0xff, sizeof raw); asm volatile("" : : "r"(raw) : "memory"); }
    Dirty(const Dirty &) = delete;
    template<typename... A> T &make(A &&...a) { p = new (raw) T(std::forward<A>(a)...); return *p; }
    ~Dirty() { if (p) p->~T(); }
};
} // namespace sim
