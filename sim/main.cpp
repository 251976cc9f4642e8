/* Driver: search / replay / minimise. The parent process ("zygote") never runs
   simulated code; each run is a forked child with identical initial state. */
#include "scenario.h"
#include <cerrno>
#include <ctime>
#include <csignal>
#include <fcntl.h>
#include <linux/memfd.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdarg>

using namespace sim;

namespace sim {
Scenario *scenarios = nullptr;
Scenario::Scenario(const char *n, void (*s)(Ctx &), void (*r)(Ctx &))
    : name(n), setup(s), run(r), next(scenarios) { scenarios = this; }

const char *probe_name[64];
static int n_probe = 0;
struct PNames { char n[64][40]; uint32_t count; };
static PNames *pnames; // shared between parent and children
int name_probe(const char *name) {
    for (uint32_t i = 0; i < pnames->count; ++i)
        if (!strncmp(pnames->n[i], name, 39)) return (int) i;
    if (pnames->count >= 63) return 63;
    uint32_t i = pnames->count++;
    strncpy(pnames->n[i], name, 39);
    return (int) i;
}

void random_policy(Rng &r, bool bb, bool step) {
    Policy &p = S->pol;
    static const uint32_t sw[] = { 0, 5, 30, 100, 300, 600, 1000 };
    p.p_switch = sw[r.below(7)];
    static const uint32_t hp[] = { 0, 100, 500, 900, 1000 };
    p.p_help = hp[r.below(5)];
    p.weights = r.below(3) == 0;
    if (bb) {
        static const uint32_t bm[] = { 0, 0, 20, 60, 200, 1000, 5000, 30000 };
        p.bb_mean = bm[r.below(8)];
    }
    if (step && r.below(2)) {
        static const uint32_t sp[] = { 50, 200, 600 };
        p.p_step = sp[r.below(3)];
        static const uint32_t sm[] = { 5, 20, 80, 300 };
        p.step_mean = sm[r.below(4)];
    }
    static const uint32_t cores[] = { 1, 2, 2, 3, 4, 4, 5, 8 };
    S->cores = cores[r.below(8)];
}

void fs_set_root(const char *path) {
    snprintf(S->fs_root, sizeof(S->fs_root), "%s", path);
}
void interpose_init();
}

static int err_fd = -1;
static uint32_t run_timeout = 60;
static double now() {
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}

static void out(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void out(const char *fmt, ...) {
    static char buf[80000];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n > (int) sizeof(buf) - 1) n = sizeof(buf) - 1;
    char *p = buf;
    while (n > 0) {
        ssize_t w = syscall(SYS_write, 1, p, n);
        if (w <= 0) break;
        p += w; n -= (int) w;
    }
}

// Removes the contents of a directory without touching the heap
static void rm_contents(int dirfd) {
    static thread_local char dummy;
    (void) dummy;
    char buf[4096];
    while (true) {
        bool any = false;
        lseek(dirfd, 0, SEEK_SET);
        long n;
        while ((n = syscall(SYS_getdents64, dirfd, buf, sizeof(buf))) > 0) {
            for (long o = 0; o < n;) {
                struct D { uint64_t ino; int64_t off; uint16_t len; uint8_t type; char name[1]; };
                D *d = (D *) (buf + o);
                o += d->len;
                if (!strcmp(d->name, ".") || !strcmp(d->name, "..")) continue;
                if (syscall(SYS_unlinkat, dirfd, d->name, 0) == 0) { any = true; continue; }
                int fd = (int) syscall(SYS_openat, dirfd, d->name, O_RDONLY | O_DIRECTORY);
                if (fd >= 0) {
                    rm_contents(fd);
                    syscall(SYS_close, fd);
                    if (syscall(SYS_unlinkat, dirfd, d->name, AT_REMOVEDIR) == 0) any = true;
                }
            }
        }
        if (!any) break;
    }
}

static void clean_fs() {
    int fd = (int) syscall(SYS_openat, AT_FDCWD, "simfs", O_RDONLY | O_DIRECTORY);
    if (fd >= 0) { rm_contents(fd); syscall(SYS_close, fd); }
    syscall(SYS_mkdir, "simfs", 0755);
}

static uint8_t drop_mask[4096];
static bool flag_verbose = false, flag_deep = false;

static volatile pid_t run_pid = 0;

/// The driver was asked to stop: take the run's processes (a group of their own) along
static void on_term(int) {
    if (run_pid > 0) { kill(-run_pid, SIGKILL); kill(run_pid, SIGKILL); }
    _exit(3);
}

/// Executes one run in a child process; results are left in *S
static void run_one(const Scenario *sc, uint64_t seed, uint64_t salt, bool replay,
                    uint32_t n_replay) {
    shared_reset(seed, salt);
    S->replay = replay;
    S->n_replay = n_replay;
    memcpy(S->drop, drop_mask, sizeof(drop_mask));
    clean_fs();
    if (err_fd >= 0) { if (ftruncate(err_fd, 0)) {} lseek(err_fd, 0, SEEK_SET); }
    pid_t pid = (pid_t) syscall(SYS_fork);
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        signal(SIGTERM, SIG_DFL);
        if (!flag_verbose && err_fd >= 0) dup2(err_fd, 2);
        struct rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        if (replay) replay_prepare(n_replay);
        verbose = flag_verbose;
        Ctx ctx;
        ctx.rng = Rng(seed ^ 0x5EEDull);
        ctx.name = sc->name;
        ctx.deep = flag_deep;
        sc->setup(ctx);
        if (salt) { // vary scheduling between runs of the same workload
            Rng r(seed * 31 + salt);
            uint32_t c = S->cores;
            Policy pol = S->pol;
            random_policy(r, pol.bb_mean != 0 || true, pol.p_step != 0);
            memcpy(S->pol.fault_p, pol.fault_p, sizeof(pol.fault_p));
            S->pol.fault_max = pol.fault_max;
            S->cores = c;
        }
        start("main");
        pool_start(S->cores);
        try {
            sc->run(ctx);
        } catch (const std::exception &e) {
            violation("unexpected exception: %s", e.what());
        }
        finish_ok();
    }
    setpgid(pid, pid);
    run_pid = pid;
    signal(SIGTERM, on_term);
    // wait with a timeout
    double t0 = now();
    int status = 0;
    uint32_t spins = 0;
    while (true) {
        pid_t r = (pid_t) syscall(SYS_wait4, pid, &status, spins < 2 ? 0 : WNOHANG, nullptr);
        if (r == pid) break;
        if (r < 0 && errno == EINTR) { // SIGALRM
            if (now() - t0 > run_timeout) {
                kill(-pid, SIGKILL); kill(pid, SIGKILL);
                syscall(SYS_wait4, pid, &status, 0, nullptr);
                if (S->outcome == RES_NONE) {
                    S->outcome = RES_VIOLATION;
                    snprintf(S->message, sizeof(S->message),
                             "no progress: run did not finish within %u seconds (thread %s)",
                             run_timeout, S->th[S->current].name);
                }
                return;
            }
            continue;
        }
    }
    kill(-pid, SIGKILL); // stray processes of the run
    run_pid = 0;
    if (S->outcome == RES_NONE) {
        S->outcome = RES_CRASH;
        if (WIFSIGNALED(status))
            snprintf(S->message, sizeof(S->message), "process died with signal %d in thread %s",
                     WTERMSIG(status), S->th[S->current].name);
        else
            snprintf(S->message, sizeof(S->message), "process exited unexpectedly (status %d)",
                     WEXITSTATUS(status));
    }
    // Attach diagnostics of jitc_fail() & co.
    if (S->outcome == RES_CRASH && err_fd >= 0) {
        char buf[1500];
        ssize_t n = pread(err_fd, buf, sizeof(buf) - 1, 0);
        if (n > 0) {
            buf[n] = 0;
            for (char *c = buf; *c; ++c) if (*c == '\n') { *c = ' '; }
            size_t l = strlen(S->message);
            snprintf(S->message + l, sizeof(S->message) - l, " [%s]", buf);
        }
    }
}

static void on_alarm(int) {}

static void json_str(char *dst, size_t size, const char *s) {
    size_t p = 0;
    for (; *s && p + 8 < size; ++s) {
        unsigned char c = (unsigned char) *s;
        if (c == '"' || c == '\\') { dst[p++] = '\\'; dst[p++] = (char) c; }
        else if (c < 32) { dst[p++] = ' '; }
        else if (c < 127) dst[p++] = (char) c;
        else dst[p++] = '?';
    }
    dst[p] = 0;
}

static const Scenario *find(const char *name) {
    for (Scenario *s = scenarios; s; s = s->next)
        if (!strcmp(s->name, name)) return s;
    out("unknown scenario %s\n", name);
    _exit(2);
}

/// Category of a failure: the message without its numbers
static void signature(char *dst, size_t size) {
    size_t p = 0;
    p += (size_t) snprintf(dst, size, "%u:", S->outcome == RES_OK || S->outcome == RES_SKIP ? 0 : 1);
    bool num = false;
    for (const char *s = S->message; *s && p + 2 < size && p < 72; ++s) {
        char c = *s;
        if (c == '(' || c == '[') break;
        bool d = (c >= '0' && c <= '9');
        if (d) { if (!num) dst[p++] = '#'; num = true; continue; }
        num = false;
        dst[p++] = c;
    }
    dst[p] = 0;
}

static void write_replay(const char *path, const Scenario *sc, uint64_t seed, uint64_t salt,
                         const Dev *devs, uint32_t n) {
    int fd = (int) syscall(SYS_openat, AT_FDCWD, path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) return;
    char buf[12000], msg[4000];
    json_str(msg, sizeof(msg), S->message);
    int k = snprintf(buf, sizeof(buf),
                     "scenario %s\nseed %llu\nsalt %llu\ndeep %d\nhash %016llx\noutcome %u\n"
                     "message %s\nops %u of %u\ndrop", sc->name, (unsigned long long) seed,
                     (unsigned long long) salt, (int) flag_deep,
                     (unsigned long long) S->run_hash, S->outcome, msg, S->ops_used, S->ops_total);
    syscall(SYS_write, fd, buf, k);
    for (uint32_t i = 0; i < sizeof(drop_mask); ++i)
        if (drop_mask[i]) { k = snprintf(buf, 20, " %u", i); syscall(SYS_write, fd, buf, k); }
    k = snprintf(buf, 64, "\ndecisions %u\n", n);
    syscall(SYS_write, fd, buf, k);
    static const char *cn[] = { "?", "sync", "preempt", "step", "choice", "fault" };
    for (uint32_t i = 0; i < n; ++i) {
        const Dev &d = devs[i];
        k = snprintf(buf, 128, "dev %u %u %u %u   # %s", d.tid, d.cls, d.idx, d.val,
                     cn[d.cls < 6 ? d.cls : 0]);
        if (d.cls == C_FAULT)
            k += snprintf(buf + k, 64, " %s", fault_name[(d.val >> 24) < F_COUNT ? d.val >> 24 : 0]);
        buf[k++] = '\n';
        syscall(SYS_write, fd, buf, k);
    }
    const char *tr = "\ntrace (final part)\n";
    syscall(SYS_write, fd, tr, strlen(tr));
    syscall(SYS_write, fd, S->trace_tail, S->trace_len);
    syscall(SYS_close, fd);
}

// Minimal line reader (no heap)
static char *file_data = nullptr;
static size_t file_size = 0;
static void load_file(const char *path) {
    int fd = (int) syscall(SYS_openat, AT_FDCWD, path, O_RDONLY);
    if (fd < 0) { out("cannot open %s\n", path); _exit(2); }
    file_data = (char *) syscall(SYS_mmap, 0x320000000000ull, 64u << 20, PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    ssize_t n;
    while ((n = syscall(SYS_read, fd, file_data + file_size, (64u << 20) - 1 - file_size)) > 0)
        file_size += (size_t) n;
    syscall(SYS_close, fd);
}

struct Rec { char scenario[64]; uint64_t seed, salt, hash; uint32_t outcome, n; };
static Rec load_replay(const char *path) {
    Rec r; memset(&r, 0, sizeof(r));
    load_file(path);
    char *p = file_data, *end = file_data + file_size;
    memset(drop_mask, 0, sizeof(drop_mask));
    while (p < end) {
        char *nl = (char *) memchr(p, '\n', (size_t) (end - p));
        if (!nl) nl = end;
        *nl = 0;
        if (!strncmp(p, "scenario ", 9)) snprintf(r.scenario, sizeof(r.scenario), "%s", p + 9);
        else if (!strncmp(p, "seed ", 5)) r.seed = strtoull(p + 5, nullptr, 10);
        else if (!strncmp(p, "salt ", 5)) r.salt = strtoull(p + 5, nullptr, 10);
        else if (!strncmp(p, "deep ", 5)) flag_deep = atoi(p + 5);
        else if (!strncmp(p, "hash ", 5)) r.hash = strtoull(p + 5, nullptr, 16);
        else if (!strncmp(p, "outcome ", 8)) r.outcome = (uint32_t) atoi(p + 8);
        else if (!strncmp(p, "drop", 4)) {
            char *q = p + 4;
            while (*q) {
                char *e; unsigned long v = strtoul(q, &e, 10);
                if (e == q) break;
                if (v < sizeof(drop_mask)) drop_mask[v] = 1;
                q = e;
            }
        } else if (!strncmp(p, "dev ", 4) && r.n < MAX_DEVS) {
            char *q = p + 4; unsigned long v[4];
            for (int i = 0; i < 4; ++i) v[i] = strtoul(q, &q, 10);
            Dev &d = replay_devs[r.n++];
            d.tid = (uint16_t) v[0]; d.cls = (uint8_t) v[1]; d.pad = 0;
            d.idx = (uint32_t) v[2]; d.val = (uint32_t) v[3];
        } else if (!strncmp(p, "trace (", 7)) break;
        p = nl + 1;
    }
    return r;
}

static uint64_t *hset = nullptr; // distinct schedule hashes
static uint32_t hset_n = 0;
static constexpr uint32_t HSET = 1u << 20;
static void hset_add(uint64_t h) {
    if (!h) h = 1;
    if (hset_n > HSET / 2) return;
    uint32_t i = (uint32_t) (h % HSET);
    while (hset[i]) { if (hset[i] == h) return; i = (i + 1) % HSET; }
    hset[i] = h; hset_n++;
}

static int cmd_search(const Scenario *sc, uint64_t seed0, uint64_t stride, double tlimit,
                      uint64_t max_runs, const char *outdir, uint32_t max_fail, uint32_t det_every) {
    double t0 = now();
    uint64_t runs = 0, ok = 0, skip = 0, bad = 0, nondet = 0, det = 0, switches = 0, steps = 0,
             jit_steps = 0, units = 0, bbs = 0, devs = 0, ops = 0, thr = 0, procs = 0;
    double simtime = 0;
    uint64_t faults[F_COUNT] = {}, probes[64] = {}, runs_with_fault = 0, overflow = 0;
    char path[512], sig[128], msg[9000];
    for (uint64_t i = 0; i < max_runs && now() - t0 < tlimit; ++i) {
        uint64_t seed = seed0 + i * stride;
        run_one(sc, seed, 0, false, 0);
        runs++;
        switches += S->switches; steps += S->steps; jit_steps += S->jit_steps;
        units += S->units; bbs += S->bb_total; devs += S->n_dev; ops += S->ops_used;
        thr += S->n_threads; procs += S->n_procs + 1;
        simtime += (double) (S->now_ns - 1700000000ll * 1000000000ll) * 1e-9;
        runs_with_fault += S->fault_total != 0;
        overflow += S->dev_overflow;
        for (int k = 0; k < F_COUNT; ++k) faults[k] += S->fault_count[k];
        for (int k = 0; k < 64; ++k) probes[k] += S->probe[k];
        if (S->switches) hset_add(S->sched_hash ^ S->run_hash);
        if (S->outcome == RES_OK || S->outcome == RES_SKIP) {
            if (S->outcome == RES_OK) ok++; else skip++;
            if (det_every && i % det_every == 0) {
                uint64_t h = S->run_hash; uint32_t o = S->outcome;
                run_one(sc, seed, 0, false, 0);
                det++;
                if (S->run_hash != h || S->outcome != o) {
                    nondet++;
                    out("NONDET scenario=%s seed=%llu %016llx %016llx\n", sc->name,
                        (unsigned long long) seed, (unsigned long long) h,
                        (unsigned long long) S->run_hash);
                }
            }
        } else {
            bad++;
            signature(sig, sizeof(sig));
            json_str(msg, sizeof(msg), S->message);
            snprintf(path, sizeof(path), "%s/%s-%llu.raw", outdir, sc->name,
                     (unsigned long long) seed);
            write_replay(path, sc, seed, 0, S->dev, S->n_dev);
            out("FAIL {\"scenario\":\"%s\",\"seed\":%llu,\"file\":\"%s\",\"message\":\"%s\"}\n",
                sc->name, (unsigned long long) seed, path, msg);
            if (bad >= max_fail) break;
        }
    }
    snprintf(path, sizeof(path), "%s/hash-%s-%llu", outdir, sc->name, (unsigned long long) seed0);
    int hfd = (int) syscall(SYS_openat, AT_FDCWD, path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    for (uint32_t i = 0; i < HSET; ++i)
        if (hset[i]) syscall(SYS_write, hfd, &hset[i], 8);
    syscall(SYS_close, hfd);
    out("SUMMARY {\"scenario\":\"%s\",\"runs\":%llu,\"ok\":%llu,\"skip\":%llu,\"bad\":%llu,"
        "\"nondet\":%llu,\"det_checked\":%llu,\"switches\":%llu,\"steps\":%llu,\"jit_steps\":%llu,"
        "\"units\":%llu,\"basic_blocks\":%llu,\"decisions\":%llu,\"ops\":%llu,\"threads\":%llu,"
        "\"processes\":%llu,\"sim_seconds\":%.6f,\"real_seconds\":%.3f,\"distinct\":%u,"
        "\"runs_with_fault\":%llu,\"overflow\":%llu,\"faults\":{",
        sc->name, (unsigned long long) runs, (unsigned long long) ok, (unsigned long long) skip,
        (unsigned long long) bad, (unsigned long long) nondet, (unsigned long long) det,
        (unsigned long long) switches, (unsigned long long) steps, (unsigned long long) jit_steps,
        (unsigned long long) units, (unsigned long long) bbs, (unsigned long long) devs,
        (unsigned long long) ops, (unsigned long long) thr, (unsigned long long) procs, simtime,
        now() - t0, hset_n, (unsigned long long) runs_with_fault, (unsigned long long) overflow);
    bool first = true;
    for (int k = 1; k < F_COUNT; ++k)
        if (faults[k]) { out("%s\"%s\":%llu", first ? "" : ",", fault_name[k], (unsigned long long) faults[k]); first = false; }
    out("},\"probes\":{");
    first = true;
    for (uint32_t k = 0; k < pnames->count; ++k)
        { out("%s\"%s\":%llu", first ? "" : ",", pnames->n[k], (unsigned long long) probes[k]); first = false; }
    out("}}\n");
    return 0;
}

static int cmd_replay(const char *path) {
    Rec r = load_replay(path);
    const Scenario *sc = find(r.scenario);
    run_one(sc, r.seed, r.salt, true, r.n);
    char msg[9000];
    json_str(msg, sizeof(msg), S->message);
    bool same = S->run_hash == r.hash && S->outcome == r.outcome;
    out("REPLAY {\"outcome\":%u,\"hash\":\"%016llx\",\"exact\":%s,\"message\":\"%s\"}\n", S->outcome,
        (unsigned long long) S->run_hash, same ? "true" : "false", msg);
    return S->outcome == RES_OK || S->outcome == RES_SKIP ? 0 : 1;
}

static int cmd_minimize(const char *in, const char *outp, double tlimit) {
    Rec r = load_replay(in);
    const Scenario *sc = find(r.scenario);
    double t0 = now();
    Dev *best = (Dev *) syscall(SYS_mmap, 0x330000000000ull, sizeof(Dev) * MAX_DEVS,
                                PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    uint32_t n = r.n;
    memcpy(best, replay_devs, n * sizeof(Dev));
    char ref[128], sig[128];
    uint32_t tries = 0;
    run_one(sc, r.seed, r.salt, true, n);
    signature(ref, sizeof(ref));
    if (S->outcome == RES_OK || S->outcome == RES_SKIP) { out("MINIMIZE not reproducible\n"); return 3; }

    auto fails = [&](const Dev *d, uint32_t k) {
        memcpy(replay_devs, d, k * sizeof(Dev));
        tries++;
        run_one(sc, r.seed, r.salt, true, k);
        signature(sig, sizeof(sig));
        return !strcmp(sig, ref);
    };
    auto fails_random = [&](uint64_t salt) { // a fresh schedule; keeps its decisions
        tries++;
        run_one(sc, r.seed, salt, false, 0);
        signature(sig, sizeof(sig));
        return !strcmp(sig, ref);
    };
    // ---- stage 1: operations of the workload
    uint32_t total = S->ops_total < 4096 ? S->ops_total : 4096;
    static uint8_t saved[4096];
    for (uint32_t chunk = total / 2; chunk >= 1 && now() - t0 < tlimit * 0.5; chunk /= 2) {
        for (uint32_t s = 0; s < total && now() - t0 < tlimit * 0.5; s += chunk) {
            memcpy(saved, drop_mask, sizeof(saved));
            bool any = false;
            for (uint32_t k = s; k < s + chunk && k < total; ++k)
                if (!drop_mask[k]) { drop_mask[k] = 1; any = true; }
            if (!any) continue;
            bool good = fails(best, n);
            if (good) { n = S->n_dev; memcpy(best, S->dev, n * sizeof(Dev)); }
            for (uint64_t t = 1; t <= 4 && !good; ++t)
                if (fails_random(tries * 16 + t)) {
                    // decisions of that run; from now on it is replayed
                    n = S->n_dev;
                    memcpy(best, S->dev, n * sizeof(Dev));
                    good = fails(best, n);
                }
            if (!good) memcpy(drop_mask, saved, sizeof(saved));
        }
        if (chunk == 1) break;
    }
    // ---- stage 2: decisions (ddmin)
    static Dev *tmp = (Dev *) syscall(SYS_mmap, 0x340000000000ull, sizeof(Dev) * MAX_DEVS,
                                      PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    if (n && fails(best, 0)) n = 0;
    uint32_t gran = 2;
    while (n >= 1 && now() - t0 < tlimit) {
        uint32_t size = (n + gran - 1) / gran;
        bool reduced = false;
        for (uint32_t s = 0; s < n && now() - t0 < tlimit; s += size) {
            uint32_t k = 0;
            for (uint32_t i = 0; i < n; ++i)
                if (i < s || i >= s + size) tmp[k++] = best[i];
            if (fails(tmp, k)) {
                memcpy(best, tmp, k * sizeof(Dev));
                n = k;
                reduced = true;
                gran = gran > 2 ? gran - 1 : 2;
                break;
            }
        }
        if (!reduced) {
            if (size <= 1) break;
            gran = gran * 2 < n ? gran * 2 : n;
        }
    }
    // final execution yields the hash
    bool good = fails(best, n);
    write_replay(outp, sc, r.seed, r.salt, best, n);
    char msg[9000];
    json_str(msg, sizeof(msg), S->message);
    out("MINIMIZE {\"ok\":%s,\"tries\":%u,\"ops\":%u,\"decisions\":%u,\"message\":\"%s\"}\n",
        good ? "true" : "false", tries, S->ops_used, n, msg);
    return 0;
}

int main(int argc, char **argv) {
    // Disable address space randomisation: addresses are an input of the run
    if (!getenv("DRSIM_NOASLR")) {
        int per = personality(0xffffffff);
        if (per >= 0 && !(per & ADDR_NO_RANDOMIZE)) {
            if (personality((unsigned long) per | ADDR_NO_RANDOMIZE) >= 0) {
                // a fixed, minimal environment
                const char *tmp = getenv("DRSIM_TMP");
                static char b[600];
                snprintf(b, sizeof(b), "DRSIM_TMP=%s", tmp ? tmp : ".");
                static char l[32]; const char *lg = getenv("DRSIM_LOG"); snprintf(l, sizeof(l), "DRSIM_LOG=%s", lg ? lg : "");
                static char kn[600]; const char *ks = getenv("DRSIM_KNOWN"); snprintf(kn, sizeof(kn), "DRSIM_KNOWN=%s", ks ? ks : ",");
                char *env[] = { (char *) "DRSIM_NOASLR=1", b, (char *) "PATH=/usr/bin:/bin", kn, lg ? l : nullptr, nullptr };
                execve("/proc/self/exe", argv, env);
            }
        }
    }
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_MMAP_THRESHOLD, 1 << 22);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    mallopt(M_PERTURB, 0x5A);
    pnames = (PNames *) syscall(SYS_mmap, 0, sizeof(PNames), PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    hset = (uint64_t *) syscall(SYS_mmap, 0, HSET * 8, PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    shared_init();
    shared_reset(0);
    interpose_init();
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, nullptr);
    struct itimerval { struct timeval a, b; } it = { { 1, 0 }, { 1, 0 } };
    syscall(SYS_setitimer, 0, &it, nullptr);
    err_fd = (int) syscall(SYS_memfd_create, "err", 0u);

    // flags first
    int a = 1;
    for (; a < argc && argv[a][0] == '-'; ++a) {
        if (!strcmp(argv[a], "-v")) flag_verbose = true;
        else if (!strcmp(argv[a], "-d")) flag_deep = true;
        else if (!strcmp(argv[a], "-t")) run_timeout = (uint32_t) atoi(argv[++a]);
    }
    const char *cmd = a < argc ? argv[a++] : "list";
    static char cwd[512];
    if (syscall(SYS_getcwd, cwd, sizeof(cwd)) < 0) return 2;
    static char p1[1024], p2[1024];
    auto absolute = [&](char *dst, const char *p) -> const char * {
        if (p[0] == '/') snprintf(dst, 1024, "%s", p);
        else snprintf(dst, 1024, "%s/%s", cwd, p);
        return dst;
    };
    // enter the scratch directory
    const char *tmp = getenv("DRSIM_TMP");
    if (tmp && chdir(tmp)) { out("cannot enter %s\n", tmp); return 2; }

    if (!strcmp(cmd, "list")) {
        for (Scenario *s = scenarios; s; s = s->next) out("%s\n", s->name);
        return 0;
    } else if (!strcmp(cmd, "run") && argc - a >= 2) {
        const Scenario *sc = find(argv[a]);
        uint64_t seed = strtoull(argv[a + 1], nullptr, 10);
        for (int k = a + 2; k < argc; ++k) { // dropped operations
            unsigned lo, hi;
            if (sscanf(argv[k], "%u-%u", &lo, &hi) == 2) for (; lo <= hi && lo < 4096; ++lo) drop_mask[lo] = 1;
        }
        double t = now();
        run_one(sc, seed, 0, false, 0);
        out("outcome=%u hash=%016llx steps=%llu switches=%llu bb=%llu jit=%llu units=%llu devs=%u ops=%u faults=%u thr=%u t=%.1fms\n%s\n",
            S->outcome, (unsigned long long) S->run_hash, (unsigned long long) S->steps,
            (unsigned long long) S->switches, (unsigned long long) S->bb_total,
            (unsigned long long) S->jit_steps, (unsigned long long) S->units, S->n_dev,
            S->ops_used, S->fault_total, S->n_threads, (now() - t) * 1e3, S->message);
        return S->outcome == RES_OK || S->outcome == RES_SKIP ? 0 : 1;
    } else if (!strcmp(cmd, "search") && argc - a >= 6) {
        return cmd_search(find(argv[a]), strtoull(argv[a + 1], nullptr, 10),
                          strtoull(argv[a + 2], nullptr, 10), atof(argv[a + 3]),
                          strtoull(argv[a + 4], nullptr, 10), absolute(p1, argv[a + 5]),
                          argc - a > 6 ? (uint32_t) atoi(argv[a + 6]) : 8,
                          argc - a > 7 ? (uint32_t) atoi(argv[a + 7]) : 0);
    } else if (!strcmp(cmd, "replay") && argc - a >= 1) {
        return cmd_replay(absolute(p1, argv[a]));
    } else if (!strcmp(cmd, "minimize") && argc - a >= 2) {
        return cmd_minimize(absolute(p1, argv[a]), absolute(p2, argv[a + 1]),
                            argc - a > 2 ? atof(argv[a + 2]) : 60);
    }
    out("usage: drsim [-v] [-d] list | run SCEN SEED | search SCEN SEED0 STRIDE SECONDS MAXRUNS OUTDIR [MAXFAIL] [DETEVERY] | replay FILE | minimize IN OUT [SECONDS]\n");
    return 2;
}
