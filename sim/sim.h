/* Deterministic simulator: scheduler, decision log, fault injection. */
#pragma once
#include <atomic>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim {

/// Decision classes. A decision is identified by (thread, class, local index)
enum Cls : uint8_t {
    C_SYNC   = 1, ///< which thread runs after a synchronisation point
    C_BB     = 2, ///< preemption at a basic block of the library
    C_STEP   = 3, ///< preemption at an instruction of a JIT-compiled kernel
    C_CHOICE = 4, ///< other scheduling choices (which task, help or sleep, ..)
    C_FAULT  = 5  ///< fault injection
};

enum Fault : uint32_t {
    F_NONE = 0,
    F_ALLOC,       ///< posix_memalign() / anonymous mmap() fails
    F_OPEN,        ///< opening a file fails (EACCES/EIO/EMFILE/ENOSPC)
    F_WRITE,       ///< write fails with ENOSPC / EIO
    F_SHORT_WRITE, ///< write persists only a prefix, then fails
    F_READ,        ///< read fails with EIO
    F_SHORT_READ,  ///< read returns fewer bytes than requested
    F_CLOSE,       ///< close()/fclose() reports a deferred error
    F_LINK,        ///< link()/rename() fails
    F_UNLINK,      ///< unlink() fails
    F_STAT,        ///< stat() fails
    F_CHMOD,       ///< chmod() fails
    F_UTIME,       ///< utimensat() fails
    F_MKDIR,       ///< mkdir() fails
    F_READDIR,     ///< directory listing fails
    F_CRASH,       ///< simulated process dies at this point
    F_CLOCK,       ///< clock jumps
    F_THREAD,      ///< pthread_create() fails
    F_TORN,        ///< unsynced file content torn by a machine crash
    F_BITROT,      ///< stored file content corrupted
    F_CALLBACK,    ///< user callback raises
    F_MPROTECT,
    F_CUDA,        ///< CUDA driver call fails (stub driver)
    F_STALL,       ///< a thread is descheduled for a long time
    F_COUNT
};
extern const char *fault_name[F_COUNT];

struct Dev { uint16_t tid; uint8_t cls; uint8_t pad; uint32_t idx; uint32_t val; };

constexpr uint32_t MAX_THREADS = 96;
constexpr uint32_t MAX_DEVS = 1u << 19;
constexpr uint32_t MAX_SAMPLES = 16;

enum State : uint32_t { ST_FREE, ST_READY, ST_BLOCKED, ST_SPIN, ST_DONE };

struct Thread {
    std::atomic<uint32_t> go;
    uint32_t state;
    uint64_t chan;
    uint32_t proc;
    uint32_t weight;
    uint32_t spin_epoch;
    uint32_t n_sync, n_choice, n_fault, n_step;
    uint64_t n_bb;
    uint64_t stall_until;
    int pid;
    char name[24];
};

struct Policy {
    uint32_t p_switch = 200;      ///< per mille, at synchronisation points
    uint32_t bb_mean = 0;         ///< mean basic blocks between preemptions (0: off)
    uint32_t p_step = 0;          ///< per mille: single-step a kernel work unit
    uint32_t step_mean = 60;      ///< mean instructions between preemptions
    uint32_t p_help = 500;        ///< per mille: a waiting thread helps
    uint32_t weights = 0;         ///< 0: uniform, 1: skewed + re-drawn
    uint32_t p_stall = 0;         ///< per mille: stall a thread at a sync point
    uint32_t fault_p[F_COUNT] = {}; ///< per mille, per opportunity
    uint32_t fault_max = 0;       ///< maximal number of faults in this run
};

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed ^ 0x6A09E667F3BCC909ull) {
        // scramble, so that the streams of related seeds do not overlap
        s = next() ^ (seed << 32 | seed >> 32);
        s = next();
    }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t) (next() % n) : 0; }
    uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); }
    bool chance(uint32_t permille) { return below(1000) < permille; }
};

enum Outcome : uint32_t { RES_NONE, RES_OK, RES_VIOLATION, RES_CRASH, RES_SKIP };

struct Shared {
    // ---- configuration
    uint64_t seed;
    uint32_t replay;
    Policy pol;
    uint32_t cores;
    uint64_t step_limit, fair_limit, bb_limit;

    // ---- scheduler
    uint32_t active;
    uint32_t current;
    uint32_t n_threads, n_procs;
    uint32_t epoch, run_len, stuck;
    uint64_t steps, switches;
    uint64_t rng_sched, sched_hash, run_hash;
    uint64_t bb_total, jit_steps, units;
    Thread th[MAX_THREADS];

    // ---- clock
    int64_t now_ns, wall_offset_ns;

    // ---- faults
    uint32_t faults_enabled;
    uint32_t fault_count[F_COUNT], fault_total;
    uint32_t probe[64];            ///< reachability counters

    // ---- decision log
    uint32_t n_dev, dev_overflow;
    Dev dev[MAX_DEVS];

    // ---- workload minimisation: operations to leave out
    uint8_t drop[4096];
    uint32_t ops_total, ops_used;
    uint64_t sched_salt;
    uint32_t n_replay;

    // ---- filesystem
    char fs_root[256];

    // ---- result
    uint32_t outcome;
    char message[8192];
    char trace_tail[65536];
    uint32_t trace_len;
    char stat[256];
    // process-shared scratch area for scenarios
    uint64_t user[4096];
};

extern Shared *S;
extern __thread int self;     ///< simulated thread id or -1
extern int my_proc;           ///< simulated process id
extern int my_pid_base;

/// Replay support: deviations to be applied (not on the heap, so that the heap
/// layout of a replay equals that of the original run)
extern Dev *replay_devs;
void replay_prepare(uint32_t n);

/// Generated operations are skipped when the minimiser removed them
bool keep_op();

void shared_init();
void shared_reset(uint64_t seed, uint64_t salt = 0);

/// Begin the simulation; the calling thread becomes thread 0
void start(const char *name);

/// Create a new simulated thread (runs once scheduled). Returns its id
int spawn(const char *name, std::function<void()> f, int tid_hint = -1);
void join(int tid);
bool finished(int tid);

/// Fork a simulated process. Returns its thread id (the child never returns)
int spawn_process(const char *name, std::function<void()> f);
/// Terminate the current simulated process at once (process crash)
[[noreturn]] void crash_self();

void sync_point();            ///< another thread may run now
void pause();                 ///< the thread waits for progress by others
void block(uint64_t chan);    ///< sleep until the channel is woken
void wake(uint64_t chan);
void progress();              ///< something changed that spinners wait for

uint32_t choose(uint32_t n, uint32_t p_nonzero = 1000);
bool fault(Fault f, uint32_t *param = nullptr);
extern __thread int faults_off; ///< nonzero: no faults in operations of this thread
extern __thread uint32_t alloc_fail_at, alloc_fail_more; ///< the allocation with this number fails, and that many after it
extern __thread uint32_t alloc_fail_left; ///< that many further allocations fail as well
uint32_t fault_param(uint32_t n);

void step_begin();            ///< single-step the code that follows (maybe)
void step_end();

[[noreturn]] void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/// A violation, unless this defect is listed in known_findings.txt
void known_finding(const char *id, const char *what);
[[noreturn]] void finish_ok();
[[noreturn]] void skip(const char *why);
void note(uint64_t v);        ///< mixes 'v' into the run hash
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(uint32_t i);       ///< counts a reached situation
extern bool verbose;

#define SIM_CHECK(cond, ...)                                                   \
    do { if (__builtin_expect(!(cond), 0)) sim::violation(__VA_ARGS__); } while (0)

// pool.cpp
void pool_start(uint32_t cores);
void pool_check_idle(const char *where);
uint64_t pool_live_tasks();
void pool_reset_child();

// interpose.cpp
void interpose_init();
extern uint32_t compile_count; ///< modules handed to the LLVM compiler (this process)
/// Called before each file system operation of the library
extern void (*fs_hook)(const char *op, const char *path);
bool in_sim();
extern bool alloc_faults_here;
/// Memory that the library obtained from the system (allocation cache)
extern size_t sys_live, sys_peak;
extern size_t sys_refused, sys_live_refused; ///< refused requests, memory held at that time
size_t sys_size(void *p);                    ///< size of a block that the library holds, or zero
}
