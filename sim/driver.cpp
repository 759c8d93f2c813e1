// Runs simulated executions, one forked process each, and replays/minimises.
//   sim search <prop> <seed> <first> <stride> <count> <out.json> [wall_s]
//   sim replay <file> [trace]
//   sim minimise <in> <out> <class>
#include <sys/personality.h>
#include "sim.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef SIM_HDF5
#include <H5Cpp.h>
#endif

namespace sim {
void core_start_generate(uint64_t seed);
void core_start_replay(const std::vector<uint32_t> *c);
extern std::string disk_root;
void sched_arm();
}
using namespace sim;

#ifdef SIM_ASAN
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=77:max_malloc_fill_size=67108864:malloc_fill_byte=255:alloc_dealloc_mismatch=0:"
           "handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:print_legend=0:detect_odr_violation=0:"
           "quarantine_size_mb=16:intercept_tls_get_addr=0";
}
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
static void asan_cb(const char *r) {
    const char *p = strstr(r, "AddressSanitizer: ");
    p = p ? p + 18 : r;
    size_t n = 0;
    while (p[n] && p[n] != '\n' && n < sizeof shm->crash - 1) { shm->crash[n] = p[n]; n++; }
    shm->crash[n] = 0;
    // first frames inside the library, for the reader of the report
    const char *q = r; int got = 0;
    while ((q = strstr(q, " in ")) && got < 3) {
        const char *e = strchr(q, '\n');
        size_t l = e ? (size_t)(e - q) : strlen(q);
        if (memmem(q, l, "/repo/", 6)) {
            size_t m = strlen(shm->crash);
            if (m + l + 4 < sizeof shm->crash) { memcpy(shm->crash + m, " |", 2); memcpy(shm->crash + m + 2, q, l); shm->crash[m + 2 + l] = 0; }
            got++;
        }
        q += 4;
    }
}
#endif

static std::string root;

static void rm_tree(const std::string &d, bool self) {
    DIR *dp = opendir(d.c_str());
    if (!dp) return;
    while (dirent *e = readdir(dp)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        if (unlink(p.c_str()) && (errno == EISDIR || errno == EPERM)) rm_tree(p, true);
    }
    closedir(dp);
    if (self) rmdir(d.c_str());
}

static uint64_t hash_id(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Outcome { std::string cls, msg; uint64_t hash; };

static Outcome execute(const Scenario *sc, uint64_t runseed, const std::vector<uint32_t> *choices, bool trace) {
    // header only; the big arrays are length-prefixed
    shm->finished = 0; shm->cls[0] = 0; shm->msg[0] = 0; shm->crash[0] = 0; shm->hash = 1469598103934665603ull;
    shm->steps = shm->iocalls = shm->simns = shm->evals = 0; shm->nontrivial = 0; shm->faultcfg = 0;
    for (auto &n : shm->nch) n = 0;
    memset(shm->ctr, 0, sizeof shm->ctr);
    shm->ntrace = 0; shm->trace[0] = 0;
    rm_tree(root, false);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGALRM, SIG_DFL);
        alarm(60);
        tracing = trace;
        if (chdir(root.c_str())) _exit(9);
        disk_root = ".";
        if (choices) core_start_replay(choices); else core_start_generate(runseed);
        shm->faultcfg = sc->fault_permille ? chance(FAULT, sc->fault_permille) : 0;
        note("configuration: %s", shm->faultcfg ? "fault-injecting" : "fault-free");
        arm_steps(sc->step_limit);
#ifdef SIM_SCHED
        sched_arm();
#endif
        try { sc->run(); }
        catch (const std::exception &e) { violate("unexpected-exception", "exception escaped: %s", e.what()); }
        catch (...) { violate("unexpected-exception", "non-standard exception escaped"); }
        disarm_steps();
        shm->steps = steps; shm->iocalls = io_calls;
        shm->finished = 1;
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.hash = shm->hash;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->finished) return o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { o.cls = shm->cls; o.msg = shm->msg; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        std::string k = shm->crash; size_t sp = k.find(' ');
        o.cls = "memory-error:" + k.substr(0, sp); o.msg = shm->crash; return o;
    }
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        o.cls = s == SIGALRM ? "no-progress:wall" : std::string("crash:signal-") + std::to_string(s);
        o.msg = std::string("process died: ") + strsignal(s); return o;
    }
    o.cls = "exit:" + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    o.msg = std::string("process ended unexpectedly ") + shm->cls;
    return o;
}

static void json_str(FILE *f, const std::string &s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void write_replay(const char *fn, const std::string &prop, const Outcome &o, const std::vector<uint32_t> *c, bool withtrace) {
    FILE *f = fopen(fn, "w");
    if (!f) { perror(fn); exit(3); }
    fprintf(f, "softlib-sim-replay 1\nproperty %s\nclass %s\nhash %016llx\n", prop.c_str(), o.cls.c_str(), (unsigned long long)o.hash);
    static const char *sn[] = {"ops", "fault", "sched"};
    for (int i = 0; i < NSTREAM; i++) {
        fprintf(f, "%s %zu", sn[i], c[i].size());
        for (auto v : c[i]) fprintf(f, " %u", v);
        fputc('\n', f);
    }
    std::string m = o.msg; for (auto &ch : m) if (ch == '\n') ch = ' ';
    fprintf(f, "message %s\n", m.c_str());
    if (withtrace) fprintf(f, "--- trace (informative; operations, faults and schedule of this execution) ---\n%s", shm->trace);
    fclose(f);
}
static bool read_replay(const char *fn, std::string &prop, Outcome &o, std::vector<uint32_t> *c) {
    FILE *f = fopen(fn, "r");
    if (!f) { perror(fn); return false; }
    char a[64], b[256]; unsigned long long h; int v;
    bool ok = fscanf(f, "%63s %d", a, &v) == 2 && v == 1;
    ok = ok && fscanf(f, "%63s %255s", a, b) == 2; if (ok) prop = b;
    ok = ok && fscanf(f, "%63s %255s", a, b) == 2; if (ok) o.cls = b;
    ok = ok && fscanf(f, "%63s %llx", a, &h) == 2; if (ok) o.hash = h;
    for (int i = 0; ok && i < NSTREAM; i++) {
        size_t n; ok = fscanf(f, "%63s %zu", a, &n) == 2;
        c[i].clear();
        for (size_t j = 0; ok && j < n; j++) { unsigned x; ok = fscanf(f, "%u", &x) == 1; c[i].push_back(x); }
    }
    fclose(f);
    return ok;
}
static void grab(std::vector<uint32_t> *c) { for (int i = 0; i < NSTREAM; i++) c[i].assign(shm->ch[i], shm->ch[i] + shm->nch[i]); }

static uint64_t run_seed(const std::string &prop, uint64_t seed, uint64_t idx) {
    Rng r(hash_id(prop) ^ (seed * 0xD1342543DE82EF95ull));
    r.next();
    return r.next() + idx * 0x2545F4914F6CDD1Dull;
}

int main(int argc, char **argv) {
    // fixed addresses: nothing in a run may depend on where memory happens to lie
    if (!getenv("VSIM_NOASLR")) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
            setenv("VSIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    setenv("TZ", "UTC", 1);
    setenv("HDF5_USE_FILE_LOCKING", "TRUE", 1);
    if (argc < 2) return 3;
    std::string cmd = argv[1];
    const char *base = getenv("VSIM_TMP"); if (!base) base = "/dev/shm";
    char buf[300]; snprintf(buf, sizeof buf, "%s/vsim-XXXXXX", base);
    if (!mkdtemp(buf)) { perror("mkdtemp"); return 3; }
    root = buf;
    struct Clean { ~Clean() { rm_tree(root, true); } } clean;
#ifdef SIM_ASAN
    __asan_set_error_report_callback(asan_cb);
#endif
#ifdef SIM_HDF5
    H5open(); H5::Exception::dontPrint();
    { volatile auto &t = H5::PredType::IEEE_F64LE; (void)t; }
#endif
    int so = dup(1);
    if (!getenv("VSIM_STDERR")) {
        int n = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
        fflush(stdout); dup2(n, 1); dup2(n, 2);
    }
    FILE *out = fdopen(so, "w");

    if (cmd == "search") {
        std::string prop = argv[2];
        uint64_t seed = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), n = strtoull(argv[6], 0, 10);
        const char *ofn = argv[7];
        double wall = argc > 8 ? atof(argv[8]) : 1e9;
        const Scenario *sc = find_scenario(prop);
        if (!sc) return 3;
        std::map<std::string, uint64_t> ctr;
        std::map<std::string, std::vector<uint64_t>> dist;
        uint64_t runs = 0, nt = 0, evals = 0, st = 0, ioc = 0, faultruns = 0, fired = 0; double simns = 0;
        std::string failf; uint64_t failidx = 0; Outcome fo;
        std::set<uint64_t> hashes, nthashes;
        std::vector<std::pair<uint64_t, uint64_t>> samplehash;
        std::vector<std::string> samples;
        auto t0 = std::chrono::steady_clock::now();
        for (uint64_t j = 0; j < n; j++) {
            uint64_t idx = first + j * stride;
            bool want = samples.size() < 2 && j >= 3;
            Outcome o = execute(sc, run_seed(prop, seed, idx), nullptr, want);
            runs++;
            bool anyf = false;
            for (auto &c : shm->ctr) { if (!c.name[0]) break; ctr[c.name] += c.n; if (!strncmp(c.name, "fault:", 6)) anyf = true; }
            evals += shm->evals; st += shm->steps; ioc += shm->iocalls; simns += (double)shm->simns;
            if (shm->faultcfg) faultruns++;
            if (anyf) fired++;
            hashes.insert(o.hash);
            if (shm->nontrivial) { nt++; nthashes.insert(o.hash); }
            if (j < 60) samplehash.push_back({idx, o.hash});
            if (want && shm->nontrivial && (shm->faultcfg || samples.empty())) samples.push_back(std::string(shm->trace, shm->ntrace > 3000 ? 3000 : shm->ntrace));
            if (!o.cls.empty()) {
                std::vector<uint32_t> c[NSTREAM]; grab(c);
                failf = std::string(ofn) + ".fail"; failidx = idx; fo = o;
                write_replay(failf.c_str(), prop, o, c, false);
                break;
            }
            if ((j & 15) == 0) {
                timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
                static double w0 = -1; double w = ts.tv_sec + ts.tv_nsec * 1e-9; if (w0 < 0) w0 = w;
                if (w - w0 > wall) { ctr["stopped_by_wall_guard"]++; break; }
            }
        }
        (void)t0;
        FILE *f = fopen(ofn, "w");
        fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"evals\":%llu,\"steps\":%llu,\"iocalls\":%llu,\"fault_runs\":%llu,\"fault_fired_runs\":%llu,\"sim_s\":%.6f,",
            (unsigned long long)runs, (unsigned long long)nt, (unsigned long long)evals, (unsigned long long)st, (unsigned long long)ioc, (unsigned long long)faultruns, (unsigned long long)fired, simns * 1e-9);
        fprintf(f, "\"counters\":{"); bool c1 = false;
        for (auto &k : ctr) { if (c1) fputc(',', f); c1 = true; json_str(f, k.first); fprintf(f, ":%llu", (unsigned long long)k.second); }
        fprintf(f, "},\"hashes\":["); c1 = false;
        for (auto h : nthashes) { if (c1) fputc(',', f); c1 = true; fprintf(f, "\"%llx\"", (unsigned long long)h); }
        fprintf(f, "],\"all_hashes\":%zu,\"samplehash\":[", hashes.size()); c1 = false;
        for (auto &p : samplehash) { if (c1) fputc(',', f); c1 = true; fprintf(f, "[%llu,\"%llx\"]", (unsigned long long)p.first, (unsigned long long)p.second); }
        fprintf(f, "],\"samples\":["); c1 = false;
        for (auto &s : samples) { if (c1) fputc(',', f); c1 = true; json_str(f, s); }
        fprintf(f, "],\"fail\":");
        if (failf.empty()) fprintf(f, "null}\n");
        else { fprintf(f, "{\"idx\":%llu,\"file\":", (unsigned long long)failidx); json_str(f, failf); fprintf(f, ",\"cls\":"); json_str(f, fo.cls); fprintf(f, ",\"msg\":"); json_str(f, fo.msg); fprintf(f, "}}\n"); }
        fclose(f);
        return 0;
    }
    if (cmd == "replay") {
        std::string prop; Outcome want; std::vector<uint32_t> c[NSTREAM];
        if (!read_replay(argv[2], prop, want, c)) return 3;
        const Scenario *sc = find_scenario(prop); if (!sc) return 3;
        Outcome o = execute(sc, 0, c, true);
        fprintf(out, "class=%s hash=%016llx expected_class=%s expected_hash=%016llx\n", o.cls.empty() ? "-" : o.cls.c_str(), (unsigned long long)o.hash, want.cls.c_str(), (unsigned long long)want.hash);
        if (argc > 3) fprintf(out, "%smessage: %s\n", shm->trace, o.msg.c_str());
        fclose(out);
        return o.cls.empty() ? 0 : 1;
    }
    if (cmd == "minimise") {
        std::string prop; Outcome want; std::vector<uint32_t> c[NSTREAM];
        if (!read_replay(argv[2], prop, want, c)) return 3;
        const Scenario *sc = find_scenario(prop); if (!sc) return 3;
        timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); double w0 = ts.tv_sec;
        auto late = [&]() { syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec - w0 > 25; };
        int execs = 0;
        auto fails = [&](std::vector<uint32_t> *t, std::vector<uint32_t> *used) {
            if (execs >= 1500 || late()) return false;
            execs++;
            Outcome o = execute(sc, 0, t, false);
            if (o.cls != want.cls) return false;
            grab(used);
            return true;
        };
        std::vector<uint32_t> t[NSTREAM], u[NSTREAM];
        for (int i = 0; i < NSTREAM; i++) t[i] = c[i];
        if (fails(t, u)) {
            auto weight = [](std::vector<uint32_t> *x) { double w = 0; for (int i = 0; i < NSTREAM; i++) { w += x[i].size() * 1e4; for (auto v : x[i]) w += v ? 10 + (v > 1000 ? 10 : v * 0.01) : 0; } return w; };
            auto strip = [](std::vector<uint32_t> *x) { for (int i = 0; i < NSTREAM; i++) while (!x[i].empty() && x[i].back() == 0) x[i].pop_back(); };
            for (int i = 0; i < NSTREAM; i++) c[i] = u[i];
            strip(c);
            bool prog = true;
            while (prog && execs < 1500 && !late()) {
                prog = false;
                for (int s = 2; s >= 0; s--) {
                    // cut the tail
                    for (size_t keep = 0; keep < c[s].size(); keep = keep * 2 + 1) {
                        for (int i = 0; i < NSTREAM; i++) t[i] = c[i];
                        t[s].resize(keep);
                        if (fails(t, u)) { strip(t); for (int i = 0; i < NSTREAM; i++) c[i] = t[i]; prog = true; break; }
                    }
                    // delete blocks
                    for (size_t len = c[s].size() / 2; len >= 1; len /= 2)
                        for (size_t p = 0; p + len <= c[s].size();) {
                            for (int i = 0; i < NSTREAM; i++) t[i] = c[i];
                            t[s].erase(t[s].begin() + p, t[s].begin() + p + len);
                            if (fails(t, u)) { strip(t); if (weight(t) < weight(c)) prog = true; for (int i = 0; i < NSTREAM; i++) c[i] = t[i]; }
                            else p += len;
                            if (execs >= 1500) break;
                        }
                    // lower values
                    for (size_t p = 0; p < c[s].size(); p++) {
                        if (!c[s][p]) continue;
                        for (uint32_t nv : {0u, 1u, c[s][p] / 2, c[s][p] - 1}) {
                            if (nv >= c[s][p]) continue;
                            for (int i = 0; i < NSTREAM; i++) t[i] = c[i];
                            t[s][p] = nv;
                            if (fails(t, u)) { c[s][p] = nv; prog = true; break; }
                        }
                        if (execs >= 1500) break;
                    }
                }
            }
        }
        Outcome o = execute(sc, 0, c, true);
        fprintf(out, "execs=%d class=%s ops=%zu fault=%zu sched=%zu msg=%s\n", execs, o.cls.c_str(), c[0].size(), c[1].size(), c[2].size(), o.msg.c_str());
        fclose(out);
        write_replay(argv[3], prop, o, c, true);
        return o.cls == want.cls ? 0 : 4;
    }
    return 3;
}
