#undef _FILE_OFFSET_BITS   // the entry points are defined under both names below
// The seams: disk, clock, standard input and allocator of the process under
// simulation.  Functions defined here replace the libc entry points for the
// whole process (libstdc++ and libhdf5 call them through the dynamic linker);
// stdio of softlib itself arrives through --wrap.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <execinfo.h>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <ext/stdio_sync_filebuf.h>
#include <malloc.h>
#include <new>
#include <streambuf>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NOSAN __attribute__((no_sanitize("address")))

namespace sim {

const char *fault_name[F_NKIND] = {
    "read_eio", "read_short", "read_eintr", "write_eio", "write_enospc", "write_short",
    "write_eintr", "write_torn", "open_fail", "close_eio", "truncate_fail", "stat_fail", "seek_fail"
};

std::string disk_root;             // set by the driver, per run

struct Wr { off_t off; size_t len; off_t end; std::string old; };   // where, how much, length and content of the file before
struct Fd { bool on, writable; char path[200]; std::vector<Wr> wr; };
static Fd fds[1024];

uint64_t hard_faults, soft_faults, io_calls, mutations;

static struct {
    bool armed, paused; uint64_t idle;
    int mode;                      // 0 none, 1 rate, 2 single, 3 from
    uint32_t kinds, permille;
    uint64_t k, seen;
    bool diskfull;
} plan;

static uint64_t crash_at; static uint32_t crash_torn; static bool crash_on, crash_done;

enum OpClass { C_READ, C_WRITE, C_OPENR, C_OPENW, C_CLOSE, C_TRUNC, C_STAT, C_SEEK };
static const char *cname[] = {"read", "write", "open-r", "open-w", "close", "ftruncate", "fstat", "lseek"};
static const uint32_t cmask[] = {
    FM(F_READ_EIO) | FM(F_READ_SHORT) | FM(F_READ_EINTR),
    FM(F_WRITE_EIO) | FM(F_WRITE_ENOSPC) | FM(F_WRITE_SHORT) | FM(F_WRITE_EINTR) | FM(F_WRITE_TORN),
    FM(F_OPEN_FAIL), FM(F_OPEN_FAIL), FM(F_CLOSE_EIO), FM(F_TRUNC_FAIL), FM(F_STAT_FAIL), FM(F_SEEK_FAIL)
};

void plan_faults(uint32_t kinds) {
    plan = {};
    plan.armed = true;
    if (!faulty()) return;
    // swarm: a random non-empty subset of the kinds
    uint32_t all = kinds;
    uint32_t shape = draw(FAULT, 6);
    if (shape == 0) plan.kinds = all;
    else if (shape <= 2) {
        plan.kinds = 0;
        for (int k = 0; k < F_NKIND; k++) if (all & (1u << k)) if (draw(FAULT, 2)) plan.kinds |= 1u << k;
        if (!plan.kinds) plan.kinds = all;
    } else {                       // one kind
        int n = __builtin_popcount(all), pick = (int)draw(FAULT, n);
        for (int k = 0; k < F_NKIND; k++) if (all & (1u << k)) if (pick-- == 0) plan.kinds = 1u << k;
    }
    // where: calls that move data are many, the others few
    static const uint32_t many[6] = {2, 5, 10, 25, 60, 250}, few[6] = {1, 2, 3, 4, 6, 12};
    const uint32_t *scale = plan.kinds & (cmask[0] | cmask[1]) ? many : few;
    switch (draw(FAULT, 4)) {
    case 0: case 1: plan.mode = 2; plan.k = draw(FAULT, scale[draw(FAULT, 6)]); break;
    case 2: plan.mode = 1; { static const uint32_t r[5] = {5, 20, 60, 150, 300}; plan.permille = r[draw(FAULT, 5)]; } break;
    default: plan.mode = 3; plan.k = draw(FAULT, scale[draw(FAULT, 6)]); break;
    }
    static const char *mn[] = {"none", "rate", "single", "from"};
    note("fault plan: mode=%s kinds=%x k=%llu permille=%u", mn[plan.mode], plan.kinds, (unsigned long long)plan.k, plan.permille);
}
void no_faults() { plan = {}; }
void faults_pause() { plan.paused = true; }
void faults_fit(unsigned rounds) { if (plan.mode >= 2 && plan.idle) plan.k %= plan.idle * rounds; }
void faults_resume() { plan.paused = false; }

// Decides the fate of one disk call: -1 = no fault, else the kind.
static int decide(OpClass c, uint64_t len, const char *path) {
    if (plan.armed && plan.paused && plan.mode && cmask[c] & plan.kinds) plan.idle++;
    if (!plan.armed || plan.paused) return -1;
    io_calls++;
    if (clock_armed) clock_ns += 1000;
    shm->simns += 1000;
    int kind = -1;
    if (plan.mode) {
        uint32_t m = cmask[c] & plan.kinds;
        if (c == C_WRITE && plan.diskfull) kind = F_WRITE_ENOSPC;
        else if (m) {
            bool fire = false;
            uint64_t i = plan.seen++;
            if (plan.mode == 1) fire = chance(FAULT, plan.permille);
            else if (plan.mode == 2) fire = (i == plan.k);
            else { m &= ~(FM_TRANSPARENT_R | FM_TRANSPARENT_W); fire = m && i >= plan.k; }
            if (fire) {
                int n = __builtin_popcount(m), pick = n > 1 ? (int)draw(FAULT, n) : 0;
                for (int k = 0; k < F_NKIND; k++) if (m & (1u << k)) if (pick-- == 0) { kind = k; break; }
            }
        }
    }
    if (kind >= 0) {
        if ((1u << kind) & (FM_TRANSPARENT_R | FM_TRANSPARENT_W)) soft_faults++;
        else hard_faults++;
        if (kind == F_WRITE_ENOSPC) plan.diskfull = true;
        count((std::string("fault:") + fault_name[kind]).c_str());
    }
    const char *b = strrchr(path, '/');
    ev("  io %s %s len=%llu%s%s", cname[c], b ? b + 1 : path, (unsigned long long)len, kind >= 0 ? " FAULT " : "", kind >= 0 ? fault_name[kind] : "");
    return kind;
}

static bool on_disk(const char *p) {
    return !disk_root.empty() && p && p[0] == '.' && p[1] == '/';
}
static Fd *fdi(int fd) { return fd >= 0 && fd < 1024 && fds[fd].on ? &fds[fd] : nullptr; }

std::string path(const std::string &n) { return disk_root + "/" + n; }
int open_fds() { int n = 0; for (auto &f : fds) n += f.on; return n; }
std::string open_fd_names() {
    std::string s;
    for (auto &f : fds) if (f.on) { const char *b = strrchr(f.path, '/'); if (!s.empty()) s += ","; s += b ? b + 1 : f.path; }
    return s;
}

thread_local bool oom_on = false;

// raw access for the harness
static std::string raw_slurp(const char *p, bool &ok) { Granted granted;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_CLOEXEC, 0);
    ok = fd >= 0;
    std::string s;
    if (fd < 0) return s;
    char b[65536]; long n;
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
    syscall(SYS_close, fd);
    return s;
}
bool exists(const std::string &p) { struct stat st; return syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, 0) == 0; }
std::string slurp(const std::string &p) { bool ok; return raw_slurp(p.c_str(), ok); }
void spit(const std::string &p, const std::string &d) { Granted granted;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0) { fprintf(stderr, "harness: cannot write %s\n", p.c_str()); _exit(12); }
    size_t o = 0;
    while (o < d.size()) { long n = syscall(SYS_write, fd, d.data() + o, d.size() - o); if (n <= 0) _exit(12); o += n; }
    syscall(SYS_close, fd);
}
void remove_file(const std::string &p) { syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), 0); }

// crash snapshots
void crash_after(uint64_t n, uint32_t torn) { crash_on = true; crash_done = false; crash_at = mutations + n; crash_torn = torn; }
void crash_cancel() { crash_on = false; }
bool crash_taken() { return crash_done; }
static void mutation(int fd, const char *path, const void *buf, size_t len, off_t off) { Granted granted;
    if (!plan.armed || plan.paused) return;
    uint64_t i = mutations++;
    if (!crash_on || crash_done || i != crash_at) return;
    crash_done = true;
    bool ok;
    std::string s = raw_slurp(path, ok);
    size_t t = buf ? (size_t)crash_torn % (len + 1) : 0;
    if (t) {
        if (off < 0) off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
        if (s.size() < off + t) s.resize(off + t, 0);
        memcpy(&s[off], buf, t);
    }
    spit(std::string(path) + ".crash", s);
    count("crash_snapshots");
    if (t && t < len) count("crash_snapshots_torn");
    ev("  CRASH snapshot of %s at mutation %llu: %zu bytes (%zu torn)", strrchr(path, '/') + 1, (unsigned long long)i, s.size(), t);
}

static long sim_read(int fd, void *buf, size_t n, off_t off, bool positioned) { Granted granted;
    Fd *f = fdi(fd);
    if (f && n) {
        int k = decide(C_READ, n, f->path);
        if (k == F_READ_EIO) { errno = EIO; return -1; }
        if (k == F_READ_EINTR) { errno = EINTR; return -1; }
        if (k == F_READ_SHORT && n > 1) n = 1 + draw(FAULT, (uint32_t)(n - 1 > 4096 ? 4096 : n - 1));
    }
    long r = positioned ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
    return r;
}
static long sim_write(int fd, const void *buf, size_t n, off_t off, bool positioned) { Granted granted;
    Fd *f = fdi(fd);
    if (f && n) {
        int k = decide(C_WRITE, n, f->path);
        if (k == F_WRITE_EIO) { errno = EIO; return -1; }
        if (k == F_WRITE_EINTR) { errno = EINTR; return -1; }
        if (k == F_WRITE_ENOSPC) { errno = ENOSPC; return -1; }
        if (k == F_WRITE_SHORT && n > 1) n = 1 + draw(FAULT, (uint32_t)(n - 1 > 4096 ? 4096 : n - 1));
        if (k == F_WRITE_TORN) {
            size_t t = draw(FAULT, (uint32_t)(n > 4096 ? 4096 : n));
            if (t) { if (positioned) syscall(SYS_pwrite64, fd, buf, t, off); else syscall(SYS_write, fd, buf, t); }
            errno = EIO; return -1;
        }
        mutation(fd, f->path, buf, n, positioned ? off : -1);
        Wr w{positioned ? off : (off_t)syscall(SYS_lseek, fd, 0, SEEK_CUR), 0, 0, ""};
        int rd = (int)syscall(SYS_openat, AT_FDCWD, f->path, O_RDONLY | O_CLOEXEC, 0);
        if (rd >= 0) {
            struct stat st; syscall(SYS_newfstatat, rd, "", &st, AT_EMPTY_PATH);
            w.end = st.st_size;
            if (syscall(SYS_fcntl, fd, F_GETFL, 0) & O_APPEND) w.off = w.end;
            if (w.off < w.end) {
                w.old.resize(std::min((size_t)(w.end - w.off), n));
                long g = syscall(SYS_pread64, rd, &w.old[0], w.old.size(), w.off);
                w.old.resize(g > 0 ? (size_t)g : 0);
            }
            syscall(SYS_close, rd);
        }
        long r = positioned ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
        if (r > 0) { w.len = (size_t)r; f->wr.push_back(std::move(w)); }
        return r;
    }
    return positioned ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
}
// Writes the system had put off and could not do in the end: at a failing
// close what was written last through the descriptor may be missing.
static void lose_writes(Fd *f) {
    if (f->wr.empty() || !draw(FAULT, 3)) return;
    size_t i = draw(FAULT, (uint32_t)f->wr.size());
    int fd = (int)syscall(SYS_openat, AT_FDCWD, f->path, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) return;
    for (size_t k = f->wr.size(); k-- > i;) {   // undone last first: what was there before reappears
        Wr &w = f->wr[k];
        struct stat st; syscall(SYS_newfstatat, fd, "", &st, AT_EMPTY_PATH);
        off_t b = w.off + (off_t)w.len, end = st.st_size;
        size_t n = std::min(w.old.size(), w.len);
        if (n) syscall(SYS_pwrite64, fd, w.old.data(), n, w.off);
        if (b >= end && w.end < end) syscall(SYS_ftruncate, fd, std::max(w.end, w.off));
        else if (n < w.len && w.off + (off_t)n < end) {
            std::string z(std::min(w.len - n, (size_t)(end - w.off) - n), 0);
            syscall(SYS_pwrite64, fd, z.data(), z.size(), w.off + (off_t)n);
        }
    }
    syscall(SYS_close, fd);
    count("fault:delayed_write_lost");
    ev("  delayed writes to %s lost: %zu of %zu", strrchr(f->path, '/') + 1, f->wr.size() - i, f->wr.size());
}
static int sim_close(int fd, bool inject) { Granted granted;
    Fd *f = fdi(fd);
    if (!f) return (int)syscall(SYS_close, fd);
    int k = -1;
    if (inject && f->writable) k = decide(C_CLOSE, 0, f->path);
    f->on = false;
    int r = (int)syscall(SYS_close, fd);
    if (k == F_CLOSE_EIO) { lose_writes(f); errno = EIO; return -1; }
    return r;
}
static int sim_open(int dirfd, const char *p, int flags, mode_t mode) { Granted granted;
    bool d = on_disk(p);
    bool w = (flags & O_ACCMODE) != O_RDONLY;
    if (d) {
        int k = decide(w ? C_OPENW : C_OPENR, 0, p);
        if (k == F_OPEN_FAIL) { static const int e[] = {EACCES, EMFILE, EIO}; errno = e[draw(FAULT, 3)]; return -1; }
        if (flags & O_TRUNC) mutation(-1, p, nullptr, 0, 0);
    }
    int fd = (int)syscall(SYS_openat, dirfd, p, flags, mode);
    if (d && fd >= 0 && fd < 1024) {
        fds[fd].on = true; fds[fd].writable = w; fds[fd].wr.clear();
        snprintf(fds[fd].path, sizeof fds[fd].path, "%s", p);
    }
    return fd;
}

// ---- stdio streams ------------------------------------------------------
struct Sf { FILE *fp; int fd; bool cookie; };
static Sf sfs[64];
static Sf *sf_find(FILE *f) { for (auto &s : sfs) if (s.fp == f) return &s; return nullptr; }
static void sf_add(FILE *f, int fd, bool cookie) { for (auto &s : sfs) if (!s.fp) { s = {f, fd, cookie}; return; } }

template<class T> static T real(const char *n) { return (T)dlsym(RTLD_NEXT, n); }

static int mode_flags(const char *m) {
    int fl = 0;
    bool plus = strchr(m, '+');
    switch (m[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    }
    if (strchr(m, 'x')) fl |= O_EXCL;
    return fl | O_CLOEXEC;
}
// For libstdc++ file buffers: a genuine FILE on a descriptor opened through
// the seam; libstdc++ itself then calls read/write/lseek on the descriptor.
static FILE *open_plain(const char *p, const char *m) {
    int fd = sim_open(AT_FDCWD, p, mode_flags(m), 0666);
    if (fd < 0) return nullptr;
    FILE *f = fdopen(fd, m);
    if (f) sf_add(f, fd, false);
    return f;
}
// For softlib's own stdio (and libpng's): stdio buffers live in libc, so the
// stream is a cookie whose read/write/seek/close go through the seam.
static ssize_t ck_read(void *c, char *b, size_t n) { ssize_t r; int t = 0; do r = sim_read((int)(intptr_t)c, b, n, 0, false); while (r < 0 && errno == EINTR && ++t < 1000); return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t o = 0;   // as libc: loops over short writes, reports hard errors
    int t = 0;
    while (o < n) {
        ssize_t r = sim_write((int)(intptr_t)c, b + o, n - o, 0, false);
        if (r < 0) { if (errno == EINTR && ++t < 1000) continue; return o ? (ssize_t)o : 0; }
        o += r;
    }
    return (ssize_t)o;
}
static int ck_seek(void *c, off64_t *o, int w) { off_t r = (off_t)syscall(SYS_lseek, (int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return sim_close((int)(intptr_t)c, true); }
static FILE *open_cookie(const char *p, const char *m) {
    int fd = sim_open(AT_FDCWD, p, mode_flags(m), 0666);
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(intptr_t)fd, m, io);
    if (f) sf_add(f, fd, true);
    return f;
}

// ---- clock --------------------------------------------------------------
bool clock_armed; int64_t clock_ns; int64_t clock_read_step;
void set_clock(int64_t ns) { clock_armed = true; clock_ns = ns; }
void advance(int64_t ns) { clock_ns += ns; shm->simns += ns; }

// ---- standard input -----------------------------------------------------
static struct { std::string text; size_t pos; long fail_at; uint32_t mode; bool failed; } in_;
static long stdin_pull(char *b, size_t n) {
    // chunk modes: 0 = as asked, 1 = byte-wise, 2 = random pieces, 3 = lines
    io_calls++;
    shm->simns += 1000000;
    size_t left = in_.text.size() - in_.pos;
    if (in_.fail_at >= 0 && (long)in_.pos + (long)left > in_.fail_at) left = (long)in_.pos < in_.fail_at ? in_.fail_at - in_.pos : 0;
    if (in_.fail_at >= 0 && (long)in_.pos >= in_.fail_at) {
        in_.failed = true; hard_faults++;
        if (steps) {}
        if (hard_faults > 100000) violate("no-progress", "standard input keeps failing and the reader keeps retrying");
        if (hard_faults < 4) { count("fault:stdin_eio"); ev("  io stdin FAULT eio at byte %zu", in_.pos); }
        errno = EIO; return -1;
    }
    size_t want = n < left ? n : left;
    if (want && in_.mode == 1) want = 1;
    else if (want && in_.mode == 2) want = 1 + draw(FAULT, (uint32_t)(want > 64 ? 64 : want));
    else if (want && in_.mode == 3) { size_t e = in_.text.find('\n', in_.pos); if (e != std::string::npos && e + 1 - in_.pos < want) want = e + 1 - in_.pos; }
    memcpy(b, in_.text.data() + in_.pos, want);
    in_.pos += want;
    mix(want);
    if (in_.mode && want) count("fault:stdin_chunked");
    return (long)want;
}
static ssize_t in_ck(void *, char *b, size_t n) { return stdin_pull(b, n); }
struct InBuf : std::streambuf {
    char b[512];
    int_type underflow() override {
        long n = stdin_pull(b, sizeof b);
        if (n < 0) throw std::runtime_error("basic_filebuf::underflow error reading the file: Input/output error");
        if (n == 0) return traits_type::eof();
        setg(b, b, b + n);
        return traits_type::to_int_type(b[0]);
    }
};
void set_stdin(const std::string &t, long fail_at, bool buffered, uint32_t mode) { Granted granted;
    in_ = {t, 0, fail_at, mode, false};
    cookie_io_functions_t io = {in_ck, nullptr, nullptr, nullptr};
    FILE *f = fopencookie(nullptr, "r", io);
    stdin = f;
    if (buffered) std::cin.rdbuf(new InBuf());
    else std::cin.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(f));
    std::cin.clear();
}

// ---- memory -------------------------------------------------------------
uint64_t alloc_calls, oom_fired;
static uint64_t oom_nth; static uint32_t oom_len;
void oom_plan(uint64_t nth, uint32_t len) { void *f[2]; backtrace(f, 2); alloc_calls = 0; oom_nth = nth; oom_len = len; oom_on = true; }
void oom_off() { oom_on = false; }
void oom_resume() { oom_on = true; }
// Is the request made by a third-party library on softlib's behalf (HDF5, GSL,
// libpng)? What those do when memory runs out is not softlib's.
static bool third_party(void *caller) {
    void *f[64]; int n = backtrace(f, 64), i = 0;
    while (i < n && f[i] != caller) i++;
    for (; i < n; i++) {
        Dl_info d;
        if (!dladdr(f[i], &d) || !d.dli_fname) continue;
        const char *b = strrchr(d.dli_fname, '/'); b = b ? b + 1 : d.dli_fname;
        if (!strncmp(b, "libhdf5", 7) || !strncmp(b, "libgsl", 6) || !strncmp(b, "libpng", 6)) return true;
        if (strncmp(b, "lib", 3)) return false;    // softlib, or the scenario itself
    }
    return false;
}
static bool oom_now(void *caller) {
    if (!oom_on) return false;
    uint64_t i = alloc_calls++;
    if (i >= oom_nth && i < oom_nth + oom_len) {
        oom_on = false;
        if (third_party(caller)) { oom_nth++; oom_on = true; count("oom_moved_past_third_party"); return false; } oom_fired++; count("fault:oom"); ev("  FAULT allocation #%llu fails", (unsigned long long)i);
        oom_on = true;
        return true;
    }
    return false;
}
bool alloc_refused(size_t n, void *caller) {
    if (n > (size_t)512 << 20) return true;    // simulated memory size
    return oom_now(caller);
}

} // namespace sim

using namespace sim;

// ------------------------------------------------------------------------
extern "C" {
ssize_t read(int fd, void *b, size_t n) { return sim_read(fd, b, n, 0, false); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return sim_read(fd, b, n, 0, false); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return sim_read(fd, b, n, o, true); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return sim_read(fd, b, n, o, true); }
ssize_t write(int fd, const void *b, size_t n) { return sim_write(fd, b, n, 0, false); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return sim_write(fd, b, n, o, true); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return sim_write(fd, b, n, o, true); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!fdi(fd)) return syscall(SYS_writev, fd, v, c);
    Granted granted; std::string s;
    for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
    return sim_write(fd, s.data(), s.size(), 0, false);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!fdi(fd)) return syscall(SYS_readv, fd, v, c);
    return sim_read(fd, v[0].iov_base, v[0].iov_len, 0, false);
}
int close(int fd) { return sim_close(fd, true); }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return sim_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return sim_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return sim_open(d, p, fl, m); }
int ftruncate(int fd, off_t n) {
    if (Fd *f = fdi(fd)) {
        int k = decide(C_TRUNC, n, f->path);
        if (k == F_TRUNC_FAIL) { errno = ENOSPC; return -1; }
        mutation(fd, f->path, nullptr, 0, 0);
    }
    return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int fsync(int fd) {
    if (Fd *f = fdi(fd)) { int k = decide(C_CLOSE, 0, f->path); if (k == F_CLOSE_EIO) { errno = EIO; return -1; } }
    return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) { return fsync(fd); }
int fstat(int fd, struct stat *st) {
    if (Fd *f = fdi(fd)) if (decide(C_STAT, 0, f->path) == F_STAT_FAIL) { errno = EIO; return -1; }
    return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}

FILE *fopen(const char *p, const char *m) {
    if (on_disk(p)) return open_plain(p, m);
    static auto r = real<FILE *(*)(const char *, const char *)>("fopen");
    return r(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fclose(FILE *f) {
    static auto r = real<int (*)(FILE *)>("fclose");
    Sf *s = sf_find(f);
    if (!s) return r(f);
    Sf c = *s;
    s->fp = nullptr;
    if (c.cookie) return r(f);                 // flush and close go through the seam
    Fd *d = fdi(c.fd);
    int k = -1;
    if (d) { if (d->writable) k = decide(C_CLOSE, 0, d->path); d->on = false; }
    int x = r(f);
    if (k == F_CLOSE_EIO) { lose_writes(d); errno = EIO; return EOF; }
    return x;
}
FILE *__wrap_fopen(const char *p, const char *m) { return on_disk(p) ? open_cookie(p, m) : fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __real_fileno(FILE *f);
int __wrap_fileno(FILE *f) { Sf *s = sf_find(f); return s && s->cookie ? s->fd : __real_fileno(f); }

int clock_gettime(clockid_t c, struct timespec *ts) {
    if (clock_armed) {
        clock_ns += clock_read_step;
        ts->tv_sec = clock_ns / 1000000000; ts->tv_nsec = clock_ns % 1000000000;
        if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }

void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n) { if (alloc_refused(n, __builtin_return_address(0))) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { if (alloc_refused(n, __builtin_return_address(0))) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
void *__wrap_calloc(size_t a, size_t n) { if (alloc_refused(a * n, __builtin_return_address(0))) { errno = ENOMEM; return nullptr; } return __real_calloc(a, n); }
}

void *operator new(size_t n) {
    if (alloc_refused(n, __builtin_return_address(0))) throw std::bad_alloc();
    void *p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) {
    if (alloc_refused(n, __builtin_return_address(0))) throw std::bad_alloc();
    void *p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return alloc_refused(n, __builtin_return_address(0)) ? nullptr : __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return alloc_refused(n, __builtin_return_address(0)) ? nullptr : __real_malloc(n ? n : 1); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
