#include "sim.h"
#include <csignal>
#include <cstdarg>
#include <execinfo.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <algorithm>

namespace sim {

const char *fault_name[F_COUNT] = {
    "none", "alloc_fail", "open_fail", "write_fail", "short_write", "read_fail",
    "short_read", "close_fail", "link_fail", "unlink_fail", "stat_fail",
    "chmod_fail", "utime_fail", "mkdir_fail", "readdir_fail", "crash", "clock_jump",
    "thread_fail", "torn_file", "bit_rot", "callback_raise", "mprotect_fail",
    "cuda_fail", "stall" };

Shared *S = nullptr;
__thread int self = -1;
int my_proc = 0;
bool verbose = false;

// ---------------------------------------------------------------- replay map
Dev *replay_devs = nullptr;               // sorted by (tid, cls, idx)
static uint32_t replay_n = 0;

static uint64_t dkey(uint32_t tid, uint32_t cls, uint32_t idx) {
    return ((uint64_t) tid << 40) | ((uint64_t) cls << 32) | idx;
}
static uint64_t dkey(const Dev &d) { return dkey(d.tid, d.cls, d.idx); }

void replay_prepare(uint32_t n) {
    replay_n = n;
    std::sort(replay_devs, replay_devs + n,
              [](const Dev &a, const Dev &b) { return dkey(a) < dkey(b); });
}

/// First deviation with key >= k
static uint32_t replay_lower(uint64_t k) {
    uint32_t lo = 0, hi = replay_n;
    while (lo < hi) {
        uint32_t m = (lo + hi) / 2;
        if (dkey(replay_devs[m]) < k) lo = m + 1; else hi = m;
    }
    return lo;
}

static bool replay_get(uint32_t cls, uint32_t idx, uint32_t &val) {
    uint64_t k = dkey((uint32_t) self, cls, idx);
    uint32_t i = replay_lower(k);
    if (i >= replay_n || dkey(replay_devs[i]) != k) return false;
    val = replay_devs[i].val;
    return true;
}

/// Position of the next deviation of this thread/class after 'idx'
static uint64_t replay_after(uint32_t cls, uint64_t idx) {
    uint32_t i = replay_lower(dkey((uint32_t) self, cls, (uint32_t) idx + 1));
    if (i >= replay_n || replay_devs[i].tid != self || replay_devs[i].cls != cls)
        return ~0ull;
    return replay_devs[i].idx;
}

bool keep_op() {
    uint32_t i = S->ops_total++;
    if (i < sizeof(S->drop) && S->drop[i]) return false;
    S->ops_used++;
    return true;
}

static void log_dev(uint32_t cls, uint32_t idx, uint32_t val) {
    if (S->n_dev < MAX_DEVS) {
        Dev &d = S->dev[S->n_dev++];
        d.tid = (uint16_t) self; d.cls = (uint8_t) cls; d.pad = 0;
        d.idx = idx; d.val = val;
    } else {
        S->dev_overflow = 1;
    }
}

// ---------------------------------------------------------------- rng / hash
static uint64_t rnd() {
    uint64_t z = (S->rng_sched += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint32_t rbelow(uint32_t n) { return n ? (uint32_t) (rnd() % n) : 0; }

static void mix(uint64_t &h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
}
void note(uint64_t v) { if (S && S->active) mix(S->run_hash, v); }

void tracef(const char *fmt, ...) {
    if (!S) return;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n > (int) sizeof(buf) - 2) n = sizeof(buf) - 2;
    char line[600];
    n = snprintf(line, sizeof(line), "[%llu %s] %s\n", (unsigned long long) S->steps,
                 self >= 0 ? S->th[self].name : "-", buf);
    if (verbose) { ssize_t r = write(2, line, (size_t) n); (void) r; }
    if (S->trace_len + n > sizeof(S->trace_tail)) {
        // keep the second half
        uint32_t half = sizeof(S->trace_tail) / 2;
        memmove(S->trace_tail, S->trace_tail + S->trace_len - half, half);
        S->trace_len = half;
    }
    memcpy(S->trace_tail + S->trace_len, line, (size_t) n);
    S->trace_len += (uint32_t) n;
}

void probe(uint32_t i) { if (S && i < 64) S->probe[i]++; }

// ---------------------------------------------------------------- futex token
static void fwait(std::atomic<uint32_t> &w) {
    while (true) {
        uint32_t v = w.load(std::memory_order_acquire);
        if (v == 1) { w.store(0, std::memory_order_relaxed); return; }
        syscall(SYS_futex, (uint32_t *) &w, FUTEX_WAIT, v, nullptr, nullptr, 0);
    }
}
static void fwake(std::atomic<uint32_t> &w) {
    w.store(1, std::memory_order_release);
    syscall(SYS_futex, (uint32_t *) &w, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}

void shared_init() {
    replay_devs = (Dev *) mmap((void *) 0x310000000000ull, sizeof(Dev) * MAX_DEVS,
                               PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    S = (Shared *) mmap((void *) 0x300000000000ull, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); exit(2); }
}

void shared_reset(uint64_t seed, uint64_t salt) {
    memset((void *) S, 0, offsetof(Shared, dev));
    size_t tail = offsetof(Shared, drop);
    memset((char *) S + tail, 0, sizeof(Shared) - tail);
    S->seed = seed;
    S->sched_salt = salt;
    S->rng_sched = (seed + salt * 0x51ED270B27B4F3CFull) * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull;
    S->step_limit = 400000;
    S->fair_limit = 150000;
    S->bb_limit = 400000000ull;
    S->cores = 4;
    S->now_ns = 1700000000ll * 1000000000ll;
    S->faults_enabled = 1;
}

// ---------------------------------------------------------------- basic blocks
static __thread int64_t bb_left = 1 << 20;
static __thread int64_t bb_period = 1 << 20;
static __thread int no_preempt = 0;

static int64_t next_bb_period() {
    const int64_t MAXP = 1 << 20;
    if (self < 0) return MAXP;
    Thread &t = S->th[self];
    if (S->replay) {
        uint64_t nx = replay_after(C_BB, t.n_bb);
        if (nx == ~0ull) return MAXP;
        int64_t d = (int64_t) (nx - t.n_bb);
        return d > MAXP ? MAXP : d;
    }
    if (!S->pol.bb_mean || S->steps > S->fair_limit) return MAXP;
    // Approximately geometric distribution
    double u = (double) ((rnd() >> 11) + 1) * 0x1.0p-53;
    int64_t d = 1 + (int64_t) (-__builtin_log(u) * S->pol.bb_mean);
    return d > MAXP ? MAXP : d;
}

static void bb_account() { // sync n_bb with the countdown
    if (self < 0) return;
    int64_t used = bb_period - bb_left;
    S->th[self].n_bb += (uint64_t) used;
    S->bb_total += (uint64_t) used;
    bb_period = bb_left = next_bb_period();
}

static void switch_to(uint32_t target);
static uint32_t runnable(uint32_t *out);

static __attribute__((noinline)) void bb_slow() {
    if (self < 0 || !S || !S->active || no_preempt) {
        bb_left = bb_period = 1 << 20;
        return;
    }
    Thread &t = S->th[self];
    t.n_bb += (uint64_t) bb_period;
    S->bb_total += (uint64_t) bb_period;
    if (S->bb_total > S->bb_limit)
        violation("no progress: basic block budget exhausted (livelock)");

    uint32_t idx = (uint32_t) t.n_bb, target = (uint32_t) self;
    bb_left = bb_period = 1 << 20; // protects against recursion
    if (S->replay) {
        uint32_t v;
        if (replay_get(C_BB, idx, v) && v < S->n_threads &&
            (S->th[v].state == ST_READY || S->th[v].state == ST_SPIN))
            target = v;
    } else if (S->pol.bb_mean && bb_period) {
        uint32_t list[MAX_THREADS], n = runnable(list);
        if (n > 1) target = list[rbelow(n)];
    }
    if (target != (uint32_t) self) {
        log_dev(C_BB, idx, target);
        S->steps++;
        t.state = ST_READY;
        switch_to(target);
    }
    bb_period = bb_left = next_bb_period();
}

} // namespace sim

extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
    if (__builtin_expect(--sim::bb_left <= 0, 0))
        sim::bb_slow();
}

namespace sim {

// ---------------------------------------------------------------- scheduling

/// List of threads that could run
static uint32_t runnable(uint32_t *out) {
    uint32_t n = 0;
    for (uint32_t i = 0; i < S->n_threads; ++i) {
        Thread &t = S->th[i];
        if (t.state == ST_READY || (t.state == ST_SPIN && t.spin_epoch != S->epoch))
            out[n++] = i;
    }
    return n;
}

extern void pool_dump();
static void describe_threads(char *buf, size_t size) {
    size_t p = 0;
    pool_dump();
    for (uint32_t i = 0; i < S->n_threads; ++i)
        tracef("thread %s state=%u chan=%llx", S->th[i].name, S->th[i].state, (unsigned long long) S->th[i].chan);
    for (uint32_t i = 0; i < S->n_threads && p + 100 < size; ++i) {
        Thread &t = S->th[i];
        static const char *nm[] = { "free", "ready", "blocked", "spinning", "done" };
        p += (size_t) snprintf(buf + p, size - p, "%s%s:%s", i ? ", " : "", t.name, nm[t.state]);
    }
}

static void switch_to(uint32_t target) {
    if (target == (uint32_t) self) { S->run_len++; return; }
    bool tf = false;
    bb_account();
    uint32_t me = (uint32_t) self;
    S->switches++;
    S->run_len = 0;
    mix(S->sched_hash, ((uint64_t) target << 32) | (S->th[me].n_sync & 0xffffff));
    mix(S->run_hash, ((uint64_t) me << 48) | ((uint64_t) target << 40) | S->th[me].n_sync);
    mix(S->run_hash, S->th[me].n_bb);
    S->current = target;
    (void) tf;
    fwake(S->th[target].go);
    fwait(S->th[me].go);
    bb_period = bb_left = next_bb_period();
}

/// Pick the next thread. 'must' indicates that the current one cannot continue
static void schedule(bool must) {
    if (self < 0 || !S->active)
        return;
    Thread &me = S->th[self];
    uint32_t idx = ++me.n_sync;
    S->steps++;
    if ((S->steps & 15) == 0)
        S->now_ns += 1000; // the clock advances slowly by itself
    bool fair = S->steps > S->fair_limit;
    if (S->steps > S->step_limit) {
        char b[2000]; describe_threads(b, sizeof(b));
        violation("no progress: step budget exhausted although the scheduler was fair "
                  "for %llu steps (%s)", (unsigned long long) (S->step_limit - S->fair_limit), b);
    }

    uint32_t list[MAX_THREADS], n = runnable(list);
    bool me_ok = !must && me.state == ST_READY;

    if (n == 0) {
        // Only spinning threads remain: let them poll again, but not forever
        uint32_t k = 0;
        for (uint32_t i = 0; i < S->n_threads; ++i)
            if (S->th[i].state == ST_SPIN) list[k++] = i;
        n = k;
        if (n == 0 || ++S->stuck > 20000) {
            char b[2000]; describe_threads(b, sizeof(b));
            violation("deadlock: no thread can make progress (%s)", b);
        }
        S->epoch++;
    }

    // Default decision: keep going, otherwise round robin
    uint32_t def = (uint32_t) self;
    uint32_t quantum = fair ? 20 : 3000;
    if (!me_ok || S->run_len > quantum) {
        def = list[0];
        for (uint32_t i = 0; i < n; ++i)
            if (list[i] > (uint32_t) self) { def = list[i]; break; }
    }

    uint32_t target = def;
    if (S->replay) {
        uint32_t v;
        if (replay_get(C_SYNC, idx, v)) {
            for (uint32_t i = 0; i < n; ++i)
                if (list[i] == v) target = v;
        }
    } else if (!fair && n > 1 && (!me_ok || rbelow(1000) < S->pol.p_switch)) {
        if (S->pol.weights) {
            if (rbelow(400) == 0)
                for (uint32_t i = 0; i < S->n_threads; ++i)
                    S->th[i].weight = rbelow(3) == 0 ? 1 : (rbelow(2) ? 30 : 300);
            uint32_t tot = 0;
            for (uint32_t i = 0; i < n; ++i) tot += S->th[list[i]].weight + 1;
            uint32_t r = rbelow(tot);
            for (uint32_t i = 0; i < n; ++i) {
                uint32_t w = S->th[list[i]].weight + 1;
                if (r < w) { target = list[i]; break; }
                r -= w;
            }
        } else {
            target = list[rbelow(n)];
        }
    }
    if (target != def)
        log_dev(C_SYNC, idx, target);
    if (target != (uint32_t) self) {
        switch_to(target);
    } else
        S->run_len++;
    S->th[self].state = ST_READY;
}

void sync_point() { if (self >= 0 && S->active && !no_preempt) schedule(false); }

void progress() { if (S && S->active) { S->epoch++; S->stuck = 0; } }

void pause() {
    if (self < 0 || !S->active) return;
    Thread &me = S->th[self];
    me.state = ST_SPIN;
    me.spin_epoch = S->epoch;
    schedule(true);
    S->th[self].state = ST_READY;
}

void block(uint64_t chan) {
    Thread &me = S->th[self];
    me.state = ST_BLOCKED;
    me.chan = ((uint64_t) (my_proc + 1) << 48) ^ chan;
    schedule(true);
    S->th[self].state = ST_READY;
}

void wake(uint64_t chan) {
    if (!S->active) return;
    chan ^= (uint64_t) (my_proc + 1) << 48;
    for (uint32_t i = 0; i < S->n_threads; ++i)
        if (S->th[i].state == ST_BLOCKED && S->th[i].chan == chan)
            S->th[i].state = ST_READY;
    progress();
}

uint32_t choose(uint32_t n, uint32_t p) {
    if (self < 0 || !S->active || n <= 1) return 0;
    uint32_t idx = ++S->th[self].n_choice, v = 0;
    if (S->replay) {
        if (!replay_get(C_CHOICE, idx, v)) v = 0;
        if (v >= n) v = 0;
    } else if (p >= 1000 || rbelow(1000) < p) {
        v = p >= 1000 ? rbelow(n) : 1 + rbelow(n - 1);
    }
    if (v) log_dev(C_CHOICE, idx, v);
    mix(S->run_hash, 0xC0000000ull + v);
    return v;
}

__thread int faults_off = 0;
__thread uint32_t alloc_fail_left = 0, alloc_fail_at = 0, alloc_fail_more = 0;
bool fault(Fault f, uint32_t *param) {
    if (self < 0 || !S->active || faults_off) return false;
    uint32_t idx = ++S->th[self].n_fault, v = 0;
    if (S->replay) {
        if (!replay_get(C_FAULT, idx, v)) v = 0;
        if (v && (v >> 24) != f) v = 0;
    } else if (S->faults_enabled && S->pol.fault_p[f] && S->fault_total < S->pol.fault_max &&
               rbelow(1000) < S->pol.fault_p[f]) {
        v = ((uint32_t) f << 24) | (uint32_t) (rnd() & 0xffffff);
    }
    if (!v) return false;
    log_dev(C_FAULT, idx, v);
    S->fault_count[f]++;
    S->fault_total++;
    mix(S->run_hash, v);
    tracef("fault injected: %s (param=%u)", fault_name[f], v & 0xffffff);
    if (param) *param = v & 0xffffff;
    return true;
}

// ---------------------------------------------------------------- threads

struct Start { std::function<void()> f; int tid; };
static pthread_key_t exit_key;
static pthread_once_t exit_once = PTHREAD_ONCE_INIT;
extern "C" int sim_real_pthread_create(pthread_t *, const pthread_attr_t *,
                                       void *(*)(void *), void *);

static void leave() {
    // Thread is done: mark it, then pass on the token without waiting
    Thread &me = S->th[self];
    bb_account();
    me.state = ST_DONE;
    for (uint32_t i = 0; i < S->n_threads; ++i)
        if (S->th[i].state == ST_BLOCKED && S->th[i].chan == 0xABCD0000ull + (uint32_t) self)
            S->th[i].state = ST_READY;
    progress();
    S->steps++;
    uint32_t list[MAX_THREADS], n = runnable(list);
    if (n == 0) {
        for (uint32_t i = 0; i < S->n_threads; ++i)
            if (S->th[i].state == ST_SPIN) list[n++] = i;
    }
    if (n == 0) {
        char b[2000]; describe_threads(b, sizeof(b));
        violation("deadlock: no thread can make progress (%s)", b);
    }
    uint32_t idx = ++me.n_sync, target = list[0];
    if (S->replay) {
        uint32_t v;
        if (replay_get(C_SYNC, idx, v))
            for (uint32_t i = 0; i < n; ++i)
                if (list[i] == v) target = v;
    } else {
        target = list[rbelow(n)];
    }
    if (target != list[0])
        log_dev(C_SYNC, idx, target);
    mix(S->sched_hash, target);
    S->run_len = 0;
    S->current = target;
    self = -1;
    fwake(S->th[target].go);
}

static void exit_dtor(void *) {
    if (self < 0) return;
    leave();
    // Never let the OS thread exit: its teardown would run concurrently
    std::atomic<uint32_t> forever{0};
    while (true)
        syscall(SYS_futex, (uint32_t *) &forever, FUTEX_WAIT, 0, nullptr, nullptr, 0);
}

static void *thread_main(void *p) {
    Start *s = (Start *) p;
    pthread_once(&exit_once, [] { pthread_key_create(&exit_key, exit_dtor); });
    pthread_setspecific(exit_key, (void *) 1);
    self = s->tid;
    fwait(S->th[self].go);
    bb_period = bb_left = next_bb_period();
    auto f = std::move(s->f);
    delete s;
    try {
        f();
    } catch (const std::exception &e) {
        violation("uncaught exception in thread %s: %s", S->th[self].name, e.what());
    }
    f = nullptr;
    return nullptr; // thread_local destructors run next, exit_dtor() last
}

static int new_slot(const char *name) {
    uint32_t tid = S->n_threads;
    if (tid >= MAX_THREADS) skip("too many threads");
    S->n_threads++;
    Thread &t = S->th[tid];
    memset((void *) &t, 0, sizeof(t));
    snprintf(t.name, sizeof(t.name), "%s", name);
    t.state = ST_READY;
    t.proc = (uint32_t) my_proc;
    t.weight = 10;
    t.pid = (int) syscall(SYS_getpid);
    return (int) tid;
}

int spawn(const char *name, std::function<void()> f, int) {
    int tid = new_slot(name);
    Start *s = new Start{ std::move(f), tid };
    pthread_t th;
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 4 << 20);
    pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);
    if (sim_real_pthread_create(&th, &attr, thread_main, s)) {
        fprintf(stderr, "sim: pthread_create failed\n"); _exit(2);
    }
    pthread_attr_destroy(&attr);
    tracef("thread %s created", name);
    sync_point();
    return tid;
}

bool finished(int tid) { return S->th[tid].state == ST_DONE; }

void join(int tid) {
    while (S->th[tid].state != ST_DONE) {
        Thread &me = S->th[self];
        me.state = ST_BLOCKED;
        me.chan = 0xABCD0000ull + (uint32_t) tid;
        schedule(true);
        S->th[self].state = ST_READY;
    }
}

int spawn_process(const char *name, std::function<void()> f) {
    int tid = new_slot(name);
    int proc = (int) ++S->n_procs;
    S->th[tid].proc = (uint32_t) proc;
    pid_t pid = (pid_t) syscall(SYS_fork);
    if (pid == 0) {
        my_proc = proc;
        S->th[tid].pid = (int) syscall(SYS_getpid);
        // the TID cache in glibc is not needed here
        self = tid;
        fwait(S->th[self].go);
        bb_period = bb_left = next_bb_period();
        pool_reset_child();
        try { f(); } catch (const std::exception &e) {
            violation("uncaught exception in process %s: %s", S->th[self].name, e.what());
        }
        // terminate all remaining threads of this process
        crash_self();
    }
    tracef("process %s created", name);
    sync_point();
    return tid;
}

void crash_self() {
    for (uint32_t i = 0; i < S->n_threads; ++i)
        if (S->th[i].proc == (uint32_t) my_proc && (int) i != self && S->th[i].state != ST_DONE) {
            S->th[i].state = ST_DONE;
            for (uint32_t j = 0; j < S->n_threads; ++j)
                if (S->th[j].state == ST_BLOCKED && S->th[j].chan == 0xABCD0000ull + i)
                    S->th[j].state = ST_READY;
        }
    leave();
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

// ---------------------------------------------------------------- results

static void kill_procs() {
    for (uint32_t i = 0; i < S->n_threads; ++i)
        if (S->th[i].proc != 0 && S->th[i].pid > 0 && S->th[i].proc != (uint32_t) my_proc &&
            S->th[i].state != ST_DONE)
            kill(S->th[i].pid, SIGKILL);
}

static void end_run(uint32_t outcome) {
    S->outcome = outcome;
    bb_account();
    S->active = 0;
    kill_procs();
    if (my_proc != 0) {
        // the root process must end as well
        if (S->th[0].pid > 0) kill(S->th[0].pid, SIGKILL);
    }
    syscall(SYS_exit_group, outcome == RES_OK || outcome == RES_SKIP ? 0 : 3);
    __builtin_unreachable();
}

static void print_bt() {
    void *bt[40];
    int n = backtrace(bt, 40);
    backtrace_symbols_fd(bt, n, 2);
}

void violation(const char *fmt, ...) {
    if (S->outcome == RES_NONE) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(S->message, sizeof(S->message), fmt, ap);
        va_end(ap);
        mix(S->run_hash, 0xBAD);
        tracef("VIOLATION %s", S->message);
    }
    if (verbose) print_bt();
    end_run(RES_VIOLATION);
    __builtin_unreachable();
}

void known_finding(const char *id, const char *what) {
    // real environment: comma-separated identifiers, set by 'check'
    static const char *l = getenv("DRSIM_KNOWN");
    char pat[80];
    snprintf(pat, sizeof(pat), ",%s,", id);
    if (l && strstr(l, pat)) return;
    violation("%s", what);
}

void finish_ok() { end_run(RES_OK); __builtin_unreachable(); }
void skip(const char *why) {
    snprintf(S->message, sizeof(S->message), "%s", why);
    end_run(RES_SKIP);
    __builtin_unreachable();
}

static void on_crash(int sig, siginfo_t *si, void *) {
    if (S && S->outcome == RES_NONE) {
        const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" :
                        sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" :
                        sig == SIGBUS ? "SIGBUS" : "signal";
        (void) si;
        snprintf(S->message, sizeof(S->message), "process died with %s in thread %s", n,
                 self >= 0 ? S->th[self].name : "?");
        S->outcome = RES_CRASH;
    }
    if (verbose) print_bt();
    kill_procs();
    if (my_proc != 0 && S->th[0].pid > 0) kill(S->th[0].pid, SIGKILL);
    syscall(SYS_exit_group, 3);
}

// ---------------------------------------------------------------- single-step
static __thread int stepping = 0;
static __thread uint32_t step_until = 0, step_budget = 0;

static __thread uint64_t trap_count = 0;
extern bool is_jit_code(uintptr_t pc);

static void on_trap(int, siginfo_t *, void *uc_) {
    ucontext_t *uc = (ucontext_t *) uc_;
    if (!stepping || self < 0 || !S->active) {
        uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
        return;
    }
    if (++trap_count > 2000000) { // safety net, deterministic as well
        stepping = 0;
        uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
        return;
    }
    // Only instructions of JIT-compiled code count
    if (!is_jit_code((uintptr_t) uc->uc_mcontext.gregs[REG_RIP]))
        return;
    Thread &t = S->th[self];
    uint32_t idx = ++t.n_step;
    S->jit_steps++;
    if (step_budget-- == 0) {
        stepping = 0;
        uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
        return;
    }
    if (idx < step_until)
        return;
    uint32_t target = (uint32_t) self;
    if (S->replay) {
        uint32_t v;
        if (replay_get(C_STEP, idx, v) && v < S->n_threads &&
            (S->th[v].state == ST_READY || S->th[v].state == ST_SPIN))
            target = v;
        uint64_t nx = replay_after(C_STEP, idx);
        step_until = nx == ~0ull ? 0xffffffffu : (uint32_t) nx;
    } else {
        uint32_t list[MAX_THREADS], n = runnable(list);
        if (n > 1) target = list[rbelow(n)];
        step_until = idx + 1 + rbelow(2 * S->pol.step_mean);
    }
    if (target != (uint32_t) self) {
        log_dev(C_STEP, idx, target);
        S->steps++;
        t.state = ST_READY;
        switch_to(target);
    }
}

__attribute__((noinline)) static void set_tf() {
    __asm__ volatile("lea -128(%%rsp), %%rsp\n pushfq\n orq $0x100, (%%rsp)\n popfq\n"
                     "lea 128(%%rsp), %%rsp\n" ::: "memory", "cc");
}
__attribute__((noinline)) static void clear_tf() {
    __asm__ volatile("lea -128(%%rsp), %%rsp\n pushfq\n andq $~0x100, (%%rsp)\n popfq\n"
                     "lea 128(%%rsp), %%rsp\n" ::: "memory", "cc");
}

void step_begin() {
    if (self < 0 || !S->active || stepping) return;
    // The decision whether or not to single-step is an ordinary choice
    bool on;
    uint32_t idx = ++S->th[self].n_choice, v = 0;
    if (S->replay) on = replay_get(C_CHOICE, idx, v) && v;
    else on = S->pol.p_step && rbelow(1000) < S->pol.p_step && S->steps <= S->fair_limit;
    if (!on) return;
    log_dev(C_CHOICE, idx, 1);
    step_budget = 6000;
    uint32_t cur = S->th[self].n_step;
    if (S->replay) {
        uint64_t nx = replay_after(C_STEP, cur);
        step_until = nx == ~0ull ? 0xffffffffu : (uint32_t) nx;
    } else {
        step_until = cur + 1 + rbelow(2 * S->pol.step_mean);
    }
    trap_count = 0;
    stepping = 1;
    set_tf();
}

void step_end() {
    if (!stepping) return;
    stepping = 0;
    clear_tf();
}

void start(const char *name) {
    my_proc = 0;
    S->n_threads = 0;
    int tid = new_slot(name);
    self = tid;
    void *bt0[4];
    backtrace(bt0, 4); // loads the unwinder, which allocates memory
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART;
    sigaction(SIGTRAP, &sa, nullptr);
    sa.sa_sigaction = on_crash;
    static char *stk = (char *) malloc(1 << 16);
    stack_t ss; ss.ss_sp = stk; ss.ss_size = 1 << 16; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS })
        sigaction(s, &sa, nullptr);
    S->active = 1;
    bb_period = bb_left = next_bb_period();
}

} // namespace sim

// ---------------------------------------------------------------- lock.h seam
/// Invoked while the caller is about to release a lock of the library
void (*sim_unlock_hook)(void *) = nullptr;
static sim::Rng adversary_rng(1);
void sim_adversary_seed(uint64_t s) { adversary_rng = sim::Rng(s); }
uint64_t sim_adversary_rand() { return adversary_rng.next(); }
extern "C" {
void __tsan_mutex_create(void *, unsigned) {}
void __tsan_mutex_destroy(void *, unsigned) {}
void __tsan_mutex_pre_lock(void *, unsigned) { sim::sync_point(); }
void __tsan_mutex_post_lock(void *, unsigned, int) {}
int __tsan_mutex_pre_unlock(void *m, unsigned) { if (sim_unlock_hook) sim_unlock_hook(m); return 0; }
void __tsan_mutex_post_unlock(void *, unsigned) { sim::progress(); sim::sync_point(); }
void sim_spin_pause(void) { sim::pause(); }
}
