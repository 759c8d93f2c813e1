#include "simthreads.h"
#include <cstdlib>
#include <dlfcn.h>
#include <gsl/gsl_interp.h>
#include <gsl/gsl_spline2d.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <execinfo.h>
#include <cxxabi.h>
#include <cerrno>

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

namespace sim {

std::string disk_root;
uint64_t io_calls, oom_fired, alloc_calls;
thread_local bool oom_on; void oom_off() {}
std::string path(const std::string &n) { return disk_root + "/" + n; }
void spit(const std::string &p, const std::string &d) { FILE *f = fopen(p.c_str(), "w"); if (!f) return; fwrite(d.data(), 1, d.size(), f); fclose(f); }
void faults_pause() {} void faults_resume() {}
bool clock_armed; int64_t clock_ns; int64_t clock_read_step;
void set_clock(int64_t ns) { clock_armed = true; clock_ns = ns; }
void advance(int64_t ns) { clock_ns += ns; shm->simns += ns; }

constexpr int MAXT = 24;
enum State { RUNNABLE, BLOCKED, DONE };
struct VC { uint32_t c[MAXT] = {0}; void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thr { sem_t sem; VC vc; State st = RUNNABLE; uintptr_t lo = 0, hi = 0; uint64_t stalled = 0; const std::function<void()> *fn = nullptr; pthread_t pt; };
struct Lock { int owner = 0; int depth = 0; int readers = 0; VC vc; };
struct Rec { uint8_t tid, mask, write; uint32_t clk; const void *pc; };
struct Cell { uint8_t n = 0; Rec r[6]; };

static Thr thr[MAXT];
static int nthr = 1, cur = 0, live = 0;
static bool armed = false;            // a scenario is running
static bool active = false;           // simulated threads exist
static int insim = 0;                 // inside the simulator
static long gap = 0;
static uint32_t mean = 1;
static uint64_t yields, decisions;

struct InSim { InSim() { insim++; } ~InSim() { insim--; } };
typedef std::unordered_map<uintptr_t, Cell> Shadow;
static Shadow &shadow() { static Shadow s; return s; }
static std::map<uintptr_t, uintptr_t> &freed() { static std::map<uintptr_t, uintptr_t> s; return s; }
static std::unordered_map<const void *, Lock> &locks() { static std::unordered_map<const void *, Lock> s; return s; }
static std::unordered_map<const void *, VC> &syncs() { static std::unordered_map<const void *, VC> s; return s; }

int self() { return active ? cur : 0; }

static std::string where(const void *pc) {
    Dl_info di;
    if (pc && dladdr(pc, &di) && di.dli_sname) {
        int st; char *d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        std::string s = d && !st ? d : di.dli_sname;
        return s;
    }
    return "?";
}

// --- scheduling ---
static long next_gap() {
    uint32_t v = draw(SCHED, 64);
    if (!v) return 500000;                    // a thread that waits in a loop still lets others run
    if (mean <= 30) return 1 + v % (2 * mean);
    return 1 + (long)(draw(SCHED, 2 * mean));
}
static int pick(bool others) {
    int c[MAXT], n = 0;
    decisions++;
    for (int pass = 0; pass < 2 && !n; pass++)
        for (int i = 1; i < nthr; i++) if (thr[i].st == RUNNABLE && !(others && i == cur) && (pass || thr[i].stalled <= decisions)) c[n++] = i;
    if (!n) return 0;
    return c[draw(SCHED, (uint32_t)n)];
}
static void hand_over(int t) {
    int me = cur;
    ev("  switch T%d->T%d at access %llu", me, t, (unsigned long long)yields);
    count("context_switches");
    cur = t;
    if (clock_armed) clock_ns += 1000;
    sem_post(&thr[t].sem);
    if (thr[me].st != DONE || me == 0) while (sem_wait(&thr[me].sem)) {}
}
static void yield_now() {
    InSim g;
    gap = next_gap();
    if (faulty() && draw(FAULT, 12) == 11) { thr[cur].stalled = decisions + 1 + draw(FAULT, 40); ev("  FAULT T%d stalled", cur); count("fault:thread_stalled"); }
    int t = pick(true);
    if (t && t != cur) { count("fault:preemption"); hand_over(t); }
}
static inline void yield() {
    if (!active || insim || cur == 0) return;
    yields++;
    if (yields > 60000000) { insim++; violate("no-progress", "the threads did not finish"); }
    if (--gap <= 0) yield_now();
}
void preempt() { yield(); }
void pass() { if (!active || !cur) return; yields++; InSim g; int t = pick(true); if (t && t != cur) hand_over(t); }
static void block_here(const void *) {
    InSim g;
    thr[cur].st = BLOCKED;
    int t = pick(true);
    if (!t) violate("deadlock", "all threads wait for each other");
    hand_over(t);
}
static void wake_all() { for (int i = 1; i < nthr; i++) if (thr[i].st == BLOCKED) thr[i].st = RUNNABLE; }

static void lock_acquire(const void *key, bool recursive) {
    yield();
    for (;;) {
        insim++; Lock &l = locks()[key]; insim--;
        if (!l.owner || (recursive && l.owner == cur)) { l.owner = cur; l.depth++; thr[cur].vc.join(l.vc); return; }
        if (l.owner == cur) { insim++; violate("deadlock", "a thread waits for a lock it holds"); }
        count("lock_contended");
        block_here(key);
    }
}
static bool lock_try(const void *key) {
    yield();
    insim++; Lock &l = locks()[key]; insim--;
    if (l.owner) return false;
    l.owner = cur; l.depth++; thr[cur].vc.join(l.vc); return true;
}
static void lock_release(const void *key) {
    insim++; Lock &l = locks()[key]; insim--;
    if (--l.depth > 0) return;
    l.depth = 0; l.owner = 0; l.vc.join(thr[cur].vc); thr[cur].vc.c[cur]++;
    wake_all();
    yield();
}
static void sync_both(const void *key) {      // an atomic operation
    InSim g;
    VC &v = syncs()[key];
    thr[cur].vc.join(v); v.join(thr[cur].vc); thr[cur].vc.c[cur]++;
}

// --- memory ---
static inline bool own_stack(uintptr_t a) { return a >= thr[cur].lo && a < thr[cur].hi; }
static void check_freed(uintptr_t a, size_t n, const void *pc, bool w) {
    auto &f = freed();
    auto i = f.upper_bound(a + n - 1);
    if (i == f.begin()) return;
    --i;
    if (i->second > a) violate("memory-error:use-after-free", "%s of %zu bytes of freed memory in %s", w ? "write" : "read", n, where(pc).c_str());
}
static void race_cell(uintptr_t cellno, uint8_t mask, bool w, const void *pc, bool insert) {
    auto &s = shadow();
    auto it = s.find(cellno);
    if (it == s.end()) { if (!insert) return; it = s.emplace(cellno, Cell()).first; }
    Cell &c = it->second; const VC &v = thr[cur].vc;
    int keep = 0;
    for (int i = 0; i < c.n; i++) {
        Rec &r = c.r[i];
        bool over = r.mask & mask, before = r.clk <= v.c[r.tid];
        if (over && (w || r.write) && r.tid != cur && !before)
            violate("data-race", "T%d %s in %s and T%d %s in %s the same memory without synchronisation", (int)r.tid, r.write ? "writes" : "reads", where(r.pc).c_str(), cur, w ? "writes" : "reads", where(pc).c_str());
        bool drop = (before || r.tid == cur) && !(r.mask & ~mask) && (w || !r.write);
        if (!drop) c.r[keep++] = r;
    }
    c.n = (uint8_t)keep;
    if (!insert) return;
    if (c.n == 6) { memmove(c.r, c.r + 1, sizeof(Rec) * 5); c.n = 5; }
    c.r[c.n++] = Rec{(uint8_t)cur, mask, (uint8_t)w, v.c[cur], pc};
}
static void range(const void *p, size_t n, bool w, const void *pc, bool insert = true) {
    uintptr_t a = (uintptr_t)p, e = a + n;
    for (uintptr_t c = a >> 3; c <= (e - 1) >> 3; c++) {
        uintptr_t lo = c << 3;
        unsigned b0 = a > lo ? (unsigned)(a - lo) : 0, b1 = e < lo + 8 ? (unsigned)(e - lo) : 8;
        race_cell(c, (uint8_t)(((1u << (b1 - b0)) - 1) << b0), w, pc, insert);
    }
}
static inline void access(const void *p, size_t n, bool w, const void *pc) {
    if (!armed || insim || !n) return;
    uintptr_t a = (uintptr_t)p;
    if (own_stack(a)) return;
    insim++; check_freed(a, n, pc, w); insim--;
    if (!active || cur == 0) return;
    yield();
    insim++; range(p, n, w, pc); insim--;
    sim::steps = sim::steps + 1;
}

static void *thread_main(void *arg) {
    Thr *t = (Thr *)arg;
    while (sem_wait(&t->sem)) {}
    { pthread_attr_t at; void *lo; size_t sz; insim++; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); insim--; t->lo = (uintptr_t)lo; t->hi = t->lo + sz; }
    insim = 0;
    try { (*t->fn)(); }
    catch (const std::exception &e) { insim++; violate("unexpected-exception", "a thread ends with an exception: %s", e.what()); }
    catch (...) { insim++; violate("unexpected-exception", "a thread ends with an exception"); }
    insim = 1;
    t->st = DONE; live--;
    thr[0].vc.join(t->vc);
    int n = live ? pick(true) : 0;
    if (live && !n) violate("deadlock", "all remaining threads wait for each other");
    hand_over(n);
    return nullptr;
}
void run_threads(const std::vector<std::function<void()>> &f) {
    static bool first = true;
    InSim g;
    static const uint32_t means[] = {1, 2, 4, 10, 30, 100, 1000, 10000};
    mean = means[draw(SCHED, 8)];
    if (nthr + (int)f.size() > MAXT) violate("harness", "too many threads");
    (void)first;
    int b = nthr;
    thr[0].vc.c[0]++;
    for (size_t i = 0; i < f.size(); i++) {
        Thr &t = thr[nthr]; sem_init(&t.sem, 0, 0);
        t.st = RUNNABLE; t.stalled = 0; t.fn = &f[i]; t.vc = thr[0].vc; t.vc.c[nthr]++; nthr++;
    }
    thr[0].vc.c[0]++;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 << 10);
    for (int i = b; i < nthr; i++) if (pthread_create(&thr[i].pt, &at, thread_main, &thr[i])) violate("harness", "cannot create threads");
    pthread_attr_destroy(&at);
    sem_init(&thr[0].sem, 0, 0);
    for (int i = 1; i < b; i++) thr[i].st = DONE;
    live = (int)f.size(); active = true; gap = next_gap();
    ev("threads: %zu, mean distance of preemptions %u", f.size(), mean);
    hand_over(pick(false));
    active = false; cur = 0;
    for (int i = b; i < nthr; i++) pthread_join(thr[i].pt, nullptr);
}
static struct Arm { Arm() { pthread_attr_t at; void *lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); thr[0].lo = (uintptr_t)lo; thr[0].hi = thr[0].lo + sz; } } arm_;
void sched_arm() { armed = true; }

} // namespace sim
using namespace sim;

extern "C" {
#define RA __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define ACC(n) \
void __tsan_read##n(void *p) { access(p, n, false, RA); } \
void __tsan_write##n(void *p) { access(p, n, true, RA); } \
void __tsan_unaligned_read##n(void *p) { access(p, n, false, RA); } \
void __tsan_unaligned_write##n(void *p) { access(p, n, true, RA); } \
void __tsan_volatile_read##n(void *p) { access(p, n, false, RA); } \
void __tsan_volatile_write##n(void *p) { access(p, n, true, RA); } \
void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, RA); } \
void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, RA); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, RA); }
void __tsan_vptr_update(void **p, void *) { access(p, sizeof(void *), true, RA); }
void __tsan_vptr_read(void **p) { access(p, sizeof(void *), false, RA); }

#define ATOM(sz, T) \
static inline void at_##sz(volatile void *p) { if (armed && active && cur && !insim) { yield(); sync_both((const void *)p); } } \
T __tsan_atomic##sz##_load(const volatile T *p, int) { at_##sz((volatile void *)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##sz##_store(volatile T *p, T v, int) { at_##sz(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##sz##_exchange(volatile T *p, T v, int) { at_##sz(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##sz##_fetch_add(volatile T *p, T v, int) { at_##sz(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##sz##_fetch_sub(volatile T *p, T v, int) { at_##sz(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##sz##_fetch_and(volatile T *p, T v, int) { at_##sz(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##sz##_fetch_or(volatile T *p, T v, int) { at_##sz(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##sz##_fetch_xor(volatile T *p, T v, int) { at_##sz(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##sz##_fetch_nand(volatile T *p, T v, int) { at_##sz(p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##sz##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { at_##sz(p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##sz##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { at_##sz(p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##sz##_compare_exchange_val(volatile T *p, T e, T v, int, int) { at_##sz(p); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { yield(); }
void __tsan_atomic_signal_fence(int) {}

// --- critical sections and locks ---
static int k_critical, k_atomic;
#define SIMTHREAD (armed && active && cur && !insim)
void GOMP_critical_start(void) { if (SIMTHREAD) lock_acquire(&k_critical, false); }
void GOMP_critical_end(void) { if (SIMTHREAD) lock_release(&k_critical); }
void GOMP_critical_name_start(void **p) { if (SIMTHREAD) lock_acquire(p, false); }
void GOMP_critical_name_end(void **p) { if (SIMTHREAD) lock_release(p); }
void GOMP_atomic_start(void) { if (SIMTHREAD) lock_acquire(&k_atomic, false); }
void GOMP_atomic_end(void) { if (SIMTHREAD) lock_release(&k_atomic); }
void omp_init_lock(void *) {} void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { if (SIMTHREAD) lock_acquire(p, false); }
void omp_unset_lock(void *p) { if (SIMTHREAD) lock_release(p); }
int omp_test_lock(void *p) { return SIMTHREAD ? lock_try(p) : 1; }
void omp_init_nest_lock(void *) {} void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *p) { if (SIMTHREAD) lock_acquire(p, true); }
void omp_unset_nest_lock(void *p) { if (SIMTHREAD) lock_release(p); }
int omp_get_thread_num(void) { return active && cur ? cur - 1 : 0; }
int omp_get_max_threads(void) { return 8; }
int omp_in_parallel(void) { return active && cur; }

#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
int pthread_mutex_lock(pthread_mutex_t *m) { if (SIMTHREAD) { lock_acquire(m, m->__data.__kind & 1); return 0; } REAL(pthread_mutex_lock); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (SIMTHREAD) { lock_release(m); return 0; } REAL(pthread_mutex_unlock); return real(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (SIMTHREAD) return lock_try(m) ? 0 : EBUSY; REAL(pthread_mutex_trylock); return real(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (SIMTHREAD) { lock_acquire(m, false); return 0; } REAL(pthread_rwlock_rdlock); return real(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (SIMTHREAD) { lock_acquire(m, false); return 0; } REAL(pthread_rwlock_wrlock); return real(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (SIMTHREAD) { lock_release(m); return 0; } REAL(pthread_rwlock_unlock); return real(m); }
int pthread_spin_lock(pthread_spinlock_t *m) { if (SIMTHREAD) { lock_acquire((const void *)m, false); return 0; } REAL(pthread_spin_lock); return real(m); }
int pthread_spin_unlock(pthread_spinlock_t *m) { if (SIMTHREAD) { lock_release((const void *)m); return 0; } REAL(pthread_spin_unlock); return real(m); }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!SIMTHREAD) { REAL(pthread_once); return real(o, f); }
    lock_acquire(o, false);
    int done = *(volatile int *)o & 2;
    if (!done) { f(); *(volatile int *)o = 2; }
    lock_release(o); return 0;
}
// initialisation of function-local statics
int sim_guard_acquire(void *g) __asm__("__cxa_guard_acquire"); void sim_guard_release(void *g) __asm__("__cxa_guard_release"); void sim_guard_abort(void *g) __asm__("__cxa_guard_abort");
int sim_guard_acquire(void *g) {
    char *c = (char *)g;
    if (SIMTHREAD) { lock_acquire(g, false); if (c[0]) { lock_release(g); return 0; } return 1; }
    return !c[0];
}
void sim_guard_release(void *g) { *(char *)g = 1; if (SIMTHREAD) { sync_both(g); lock_release(g); } }
void sim_guard_abort(void *g) { if (SIMTHREAD) lock_release(g); }

// --- heap: freed memory is not reused, so that its use is noticed ---
static void on_free(void *p, const void *pc) {
    insim++;
    uintptr_t a = (uintptr_t)p; size_t n = malloc_usable_size(p);
    auto i = freed().upper_bound(a);
    if (i != freed().begin()) { auto j = i; --j; if (j->second > a) violate("memory-error:double-free", "memory is freed twice in %s", where(pc).c_str()); }
    if (active && cur && n) sim::range(p, n, true, pc, false);
    freed()[a] = a + (n ? n : 1);
    insim--;
}
void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (p && armed && !insim && n < (64u << 20)) { insim++; memset(p, 0xbe, malloc_usable_size(p)); insim--; }
    return p;
}
void *calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void free(void *p) { if (!p) return; if (!armed || insim) { __libc_free(p); return; } on_free(p, RA); }
void *realloc(void *p, size_t n) {
    if (!armed || insim) return __libc_realloc(p, n);
    void *q = malloc(n);
    if (!q) return q;
    if (p) { size_t o = malloc_usable_size(p); insim++; memcpy(q, p, o < n ? o : n); insim--; on_free(p, RA); }
    return q;
}

// --- memory functions and GSL, as called by the library ---
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false, RA); access(d, n, true, RA); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false, RA); access(d, n, true, RA); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true, RA); return __real_memset(d, c, n); }

// every lookup may move the accelerator's cache
static void acc(const gsl_interp_accel *a, const void *pc) { if (a) access(a, sizeof *a, true, pc); }
static void spl2(const gsl_spline2d *s, const void *pc) {
    access(s, sizeof *s, false, pc);
    access(s->xarr, 8 * s->interp_object.xsize, false, pc); access(s->yarr, 8 * s->interp_object.ysize, false, pc);
    access(s->zarr, 8, false, pc); access(s->zarr + s->interp_object.xsize * s->interp_object.ysize - 1, 8, false, pc);
    if (s->interp_object.state) access(s->interp_object.state, 8, false, pc);
}
static void int1(const gsl_interp *i, const double *x, const double *y, const void *pc) {
    access(i, sizeof *i, false, pc); access(x, 8 * i->size, false, pc); access(y, 8 * i->size, false, pc);
    if (i->state) access(i->state, 8, false, pc);
}
#define S2(name) \
double __real_##name(const gsl_spline2d *, const double, const double, gsl_interp_accel *, gsl_interp_accel *); \
double __wrap_##name(const gsl_spline2d *s, const double x, const double y, gsl_interp_accel *a, gsl_interp_accel *b) { spl2(s, RA); acc(a, RA); acc(b, RA); return __real_##name(s, x, y, a, b); } \
int __real_##name##_e(const gsl_spline2d *, const double, const double, gsl_interp_accel *, gsl_interp_accel *, double *); \
int __wrap_##name##_e(const gsl_spline2d *s, const double x, const double y, gsl_interp_accel *a, gsl_interp_accel *b, double *z) { spl2(s, RA); acc(a, RA); acc(b, RA); return __real_##name##_e(s, x, y, a, b, z); }
S2(gsl_spline2d_eval) S2(gsl_spline2d_eval_deriv_x) S2(gsl_spline2d_eval_deriv_y) S2(gsl_spline2d_eval_deriv_xx) S2(gsl_spline2d_eval_deriv_yy) S2(gsl_spline2d_eval_deriv_xy)
#define I1(name) \
double __real_##name(const gsl_interp *, const double *, const double *, double, gsl_interp_accel *); \
double __wrap_##name(const gsl_interp *i, const double *x, const double *y, double v, gsl_interp_accel *a) { int1(i, x, y, RA); acc(a, RA); return __real_##name(i, x, y, v, a); } \
int __real_##name##_e(const gsl_interp *, const double *, const double *, double, gsl_interp_accel *, double *); \
int __wrap_##name##_e(const gsl_interp *i, const double *x, const double *y, double v, gsl_interp_accel *a, double *z) { int1(i, x, y, RA); acc(a, RA); return __real_##name##_e(i, x, y, v, a, z); }
I1(gsl_interp_eval) I1(gsl_interp_eval_deriv) I1(gsl_interp_eval_deriv2)
int __real_gsl_spline2d_init(gsl_spline2d *, const double *, const double *, const double *, size_t, size_t);
int __wrap_gsl_spline2d_init(gsl_spline2d *s, const double *x, const double *y, const double *z, size_t a, size_t b) { access(x, 8 * a, false, RA); access(y, 8 * b, false, RA); access(z, 8 * a * b, false, RA); access(s, sizeof *s, true, RA); access(s->xarr, 8 * a, true, RA); access(s->zarr, 8 * a * b, true, RA); return __real_gsl_spline2d_init(s, x, y, z, a, b); }
int __real_gsl_interp_init(gsl_interp *, const double *, const double *, size_t);
int __wrap_gsl_interp_init(gsl_interp *i, const double *x, const double *y, size_t n) { access(x, 8 * n, false, RA); access(y, 8 * n, false, RA); access(i, sizeof *i, true, RA); return __real_gsl_interp_init(i, x, y, n); }
size_t __real_gsl_interp_accel_find(gsl_interp_accel *, const double *, size_t, double);
size_t __wrap_gsl_interp_accel_find(gsl_interp_accel *a, const double *x, size_t n, double v) { acc(a, RA); access(x, 8 * n, false, RA); return __real_gsl_interp_accel_find(a, x, n, v); }

// --- clock ---
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (clock_armed && armed) {
        if (!insim) { yield(); clock_ns += clock_read_step; }
        ts->tv_sec = clock_ns / 1000000000; ts->tv_nsec = clock_ns % 1000000000;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
}
