/* Sweeps of the kernel cache directory: budget, order, interval (P13) */
#include "progs.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <map>
using namespace eng;
namespace {
constexpr const char *D = "simfs/c";
constexpr int64_t Sec = 1000000000ll, Hour = 3600 * Sec;
constexpr uint32_t MaxProc = 24;
struct Shm {
    uint64_t budget;                    ///< 0: unlimited
    uint32_t n_list;                    ///< sweeps that looked at the directory
    uint32_t list_proc[MaxProc];
    int64_t list_time[MaxProc];
    uint64_t list_op[MaxProc];
    uint64_t proc_total[64];            ///< size of the entries when the process listed them
    uint32_t proc_listed[64];
    uint64_t proc_first_op[64], proc_end_op[64];
    uint32_t proc_entries[64];
    uint64_t ops;
    uint32_t jumps, crashes, removed;
    uint32_t evict_faults;              ///< faults that excuse a deviation from the order
    uint32_t writer;                    ///< other programs changed the directory
    uint32_t double_sweep;
};
Shm *shm() { return (Shm *) S->user; }
static_assert(sizeof(Shm) <= sizeof(Shared::user), "");

struct File { int64_t size, mtime; bool entry; };
typedef std::map<std::string, File> Dir;
bool is_entry(const std::string &n) { return n.size() > 4 && n.compare(n.size() - 4, 4, ".bin") == 0; }
Dir scan() {
    Dir d;
    for (auto &n : raw_list(D)) {
        std::string p = std::string(D) + "/" + n;
        if (!raw_regular(p.c_str())) { d[n] = File{ 0, 0, false }; continue; }
        d[n] = File{ raw_size(p.c_str()), raw_mtime(p.c_str()), is_entry(n) };
    }
    return d;
}
uint64_t total(const Dir &d) {
    uint64_t t = 0;
    for (auto &f : d) if (f.second.entry) t += (uint64_t) f.second.size;
    return t;
}
/// The directory as of the last operation, shared through a real file
void save(const Dir &d) {
    std::string s;
    for (auto &f : d) {
        char b[300];
        snprintf(b, sizeof(b), "%s %lld %lld %d\n", f.first.c_str(), (long long) f.second.size,
                 (long long) f.second.mtime, (int) f.second.entry);
        s += b;
    }
    raw_spit("simfs/state", s);
}
Dir restore() {
    Dir d;
    std::string s = raw_slurp("simfs/state");
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        char name[256]; long long a, b; int c;
        if (sscanf(s.c_str() + p, "%255s %lld %lld %d", name, &a, &b, &c) == 4)
            d[name] = File{ a, b, c != 0 };
        p = e + 1;
    }
    return d;
}
bool stamp_name(const std::string &n) { return n.find("sweep") != std::string::npos; }

/// Checks what changed since the previous operation
void observe(const char *op) {
    Shm &s = *shm();
    Dir was = restore(), now = scan();
    for (auto &f : was) {
        if (now.count(f.first)) {
            const File &g = now[f.first];
            if (!stamp_name(f.first))
                SIM_CHECK(g.size == f.second.size, "the sweep changed the file %s", f.first.c_str());
            continue;
        }
        if (stamp_name(f.first)) continue;
        s.removed++;
        SIM_CHECK(f.second.entry, "the file %s is not a cache entry, but was deleted", f.first.c_str());
        SIM_CHECK(s.budget != 0, "a cache entry was deleted although there is no size limit");
        uint64_t t = total(was);
        bool over = false;
        for (uint32_t p = 0; p < 64; ++p) over |= s.proc_listed[p] && s.proc_total[p] > s.budget;
        SIM_CHECK(over, "a cache entry was deleted although the directory is within its budget");
        SIM_CHECK(s.writer || (s.double_sweep && s.evict_faults) || t > s.budget / 4 * 3, "deleted another cache entry when only %llu bytes remained (budget %llu)",
                  (unsigned long long) t, (unsigned long long) s.budget);
        if (!s.evict_faults && !s.writer)
            for (auto &o : now)
                SIM_CHECK(!o.second.entry || o.second.mtime >= f.second.mtime,
                          "deleted the entry %s, although %s was used less recently", f.first.c_str(), o.first.c_str());
        tracef("evicted %s, %llu bytes remain", f.first.c_str(), (unsigned long long) total(now));
    }
    save(now);
    (void) op;
}

void hook(const char *op, const char *) {
    Shm &s = *shm();
    s.ops++;
    if (!s.proc_first_op[my_proc]) s.proc_first_op[my_proc] = s.ops;
    observe(op);
    if (!strcmp(op, "listing")) {
        Dir d = scan();
        s.proc_listed[my_proc] = 1;
        s.proc_total[my_proc] = total(d);
        uint32_t k = s.n_list;
        for (uint32_t i = 0; i < k; ++i) {
            int64_t dt = wall_ns() - s.list_time[i];
            if (dt >= 59 * 60 * Sec || dt < 0) continue;
            bool race = s.proc_first_op[my_proc] < s.list_op[i];
            for (uint32_t q = 1; q < 64; ++q)
                if (q != (uint32_t) my_proc && q != s.list_proc[i] && s.proc_first_op[q] && s.proc_first_op[q] < s.list_op[i] &&
                    (!s.proc_end_op[q] || s.proc_end_op[q] > s.proc_first_op[my_proc]))
                    race = true;
            if (race || s.jumps || s.crashes || s.evict_faults) {
                s.double_sweep |= 2;
                if (!race) continue;
                SIM_PROBE("processes that start simultaneously both sweep");
                s.double_sweep |= 1;
                continue;
            }
            violation("a sweep begins %lld seconds after another one", (long long) (dt / Sec));
        }
        if (k < MaxProc) {
            s.list_proc[k] = (uint32_t) my_proc;
            s.list_time[k] = wall_ns();
            s.list_op[k] = s.ops;
            s.n_list++;
        }
        tracef("sweep: %llu bytes, budget %llu", (unsigned long long) total(d), (unsigned long long) s.budget);
    }
    if (S->fault_total) s.evict_faults = 0;
    for (uint32_t f = 1; f < F_COUNT; ++f)
        if (f != F_CRASH && f != F_CLOCK) s.evict_faults += S->fault_count[f];
    s.crashes += S->fault_count[F_CRASH];
    s.jumps += S->fault_count[F_CLOCK];
}

/// One process that initialises the library
void process(bool wait) {
    fs_set_root("simfs");
    log_capture();
    try { jit_init(1u << (uint32_t) JitBackend::CUDA); }
    catch (const std::exception &e) { violation("jit_init() failed: %s", e.what()); }
    if (wait) {
        for (int guard = 0; guard < 100000; ++guard) {
            bool busy = false;
            for (uint32_t i = 0; i < S->n_threads; ++i)
                busy |= S->th[i].proc == (uint32_t) my_proc && (int) i != self && S->th[i].state != ST_DONE;
            if (!busy) break;
            sim::pause();
        }
    }
    observe("end");
    shm()->proc_end_op[my_proc] = ++shm()->ops;
}

void setup(Ctx &c) {
    random_policy(c.rng, true, false);
    Rng &r = c.rng;
    Policy &p = S->pol;
    if (r.below(2)) {
        p.fault_max = r.range(1, 6);
        static const Fault all[] = { F_OPEN, F_CLOSE, F_UNLINK, F_STAT, F_UTIME, F_MKDIR, F_READDIR, F_CLOCK, F_THREAD, F_CRASH };
        for (uint32_t n = r.range(1, 3); n; --n) {
            static const uint32_t pr[] = { 20, 80, 300 };
            p.fault_p[all[r.below(10)]] = pr[r.below(3)];
        }
    }
}

void run(Ctx &ctx) {
    Rng &r = ctx.rng;
    Shm &s = *shm();
    memset((void *) &s, 0, sizeof(s));
    fs_set_root("simfs");
    raw_mkdir(D);
    setenv("DRJIT_CACHE_DIR", D, 1);
    // Budget
    uint64_t unit = 0;
    char env[64];
    switch (r.below(8)) {
        case 0: s.budget = 0; snprintf(env, sizeof(env), "0"); break;
        case 1: s.budget = 1ull << 30; { static const char *bad[] = { "", "abc", "-5", "10x", "10kb", "99999999999999999999" }; snprintf(env, sizeof(env), "%s", bad[r.below(6)]); } break;
        case 2: s.budget = (uint64_t) r.range(1, 3) << 20; snprintf(env, sizeof(env), "%llu%c", (unsigned long long) s.budget >> 20, "mM"[r.below(2)]); break;
        case 3: s.budget = 1ull << 30; snprintf(env, sizeof(env), "1%c", "gG"[r.below(2)]); break;
        case 4: s.budget = r.range(100, 5000); snprintf(env, sizeof(env), "%llu", (unsigned long long) s.budget); break;
        default: s.budget = (uint64_t) r.range(1, 200) << 10; snprintf(env, sizeof(env), "%llu%c", (unsigned long long) s.budget >> 10, "kK"[r.below(2)]); break;
    }
    setenv("DRJIT_CACHE_MAXSIZE", env, 1);
    unit = s.budget ? s.budget : 100000;
    uint32_t serial = 0;
    auto add = [&](Rng &q) {
        char n[128];
        uint32_t kind = q.below(12);
        const char *suffix = kind < 9 ? ".llvm.v6.bin" : kind == 9 ? ".llvm.v5.bin" : kind == 10 ? ".cuda.v6.bin" : ".metal.v6.bin";
        snprintf(n, sizeof(n), "%s/%016llx%016llx%s", D, (unsigned long long) q.next(), (unsigned long long) ++serial, suffix);
        static const uint32_t fr[] = { 40, 20, 10, 5, 3, 1 };
        uint64_t size = unit / fr[q.below(6)] / (1 + q.below(8)) + q.below(50);
        int fd = (int) syscall(SYS_openat, AT_FDCWD, n, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (ftruncate(fd, (off_t) size)) {}
        syscall(SYS_close, fd);
        static const int64_t age[] = { 0, 10, 3600, 86400, 86400 * 20, 86400 * 400 };
        int64_t a = age[q.below(6)];
        raw_set_mtime(n, wall_ns() - (a + (q.below(3) ? (int64_t) q.below(7200) : 0)) * Sec - serial); // no two alike
    };
    auto foreign = [&](const char *n, int64_t size) {
        std::string p = std::string(D) + "/" + n;
        int fd = (int) syscall(SYS_openat, AT_FDCWD, p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (ftruncate(fd, size)) {}
        syscall(SYS_close, fd);
        raw_set_mtime(p.c_str(), wall_ns() - 86400ll * 1000 * Sec);
    };
    uint32_t n_files = r.below(4) ? r.range(0, 25) : r.range(0, 4);
    for (uint32_t i = 0; i < n_files; ++i) { Rng q(r.next()); if (keep_op()) add(q); }
    if (r.below(2)) {
        foreign("notes.txt", (int64_t) unit);
        foreign("0123456789abcdef0123456789abcdef.llvm.v6.bin.123.tmp", (int64_t) unit / 2);
        foreign("bin", 100);
        foreign(".bin", 100);
        foreign("kernel.trn", 100);
        raw_mkdir((std::string(D) + "/dir.bin").c_str());
    }
    if (r.below(2)) { // an earlier stamp
        std::string st = std::string(D) + "/sweep.stamp";
        raw_spit(st.c_str(), "");
        static const int64_t age[] = { 7200, 86400, -86400, 3700 };
        raw_set_mtime(st.c_str(), wall_ns() - age[r.below(4)] * Sec);
    }
    save(scan());

    uint32_t rounds = r.range(1, 4);
    uint32_t np = 0;
    for (uint32_t q = 0; q < rounds; ++q) {
        if (q) switch (r.below(5)) {
            case 0: S->wall_offset_ns += (int64_t) r.range(1, 50) * 60 * Sec; break;
            case 1: S->wall_offset_ns += (int64_t) r.range(61, 600) * 60 * Sec; break;
            case 2: S->wall_offset_ns -= (int64_t) r.range(1, 3000) * 60 * Sec; s.jumps++; break;
            default: break;
        }
        if (q && r.below(2)) {
            for (uint32_t n = r.range(1, 8); n; --n) { Rng z(r.next()); if (keep_op()) add(z); }
            save(scan());
        }
        uint32_t n = r.below(2) ? 1 : r.range(2, 4);
        std::vector<int> t;
        for (uint32_t i = 0; i < n && np < 16; ++i, ++np) {
            bool wait = r.below(4) != 0;
            t.push_back(spawn_process("proc", [wait] { fs_hook = hook; process(wait); }));
        }
        if (r.below(6) == 0) { // other programs use the directory meanwhile
            s.writer++;
            for (uint32_t k = r.range(1, 6); k; --k) {
                for (uint32_t w = r.below(20); w; --w) sync_point();
                Rng z(r.next());
                Dir before = scan();
                if (z.below(2) || before.empty()) add(z);
                else {
                    auto it = before.begin();
                    std::advance(it, z.below((uint32_t) before.size()));
                    std::string p = std::string(D) + "/" + it->first;
                    if (it->second.entry) {
                        if (z.below(2)) raw_unlink(p.c_str());
                        else raw_set_mtime(p.c_str(), wall_ns());
                    }
                }
                save(scan());
            }
        }
        for (int x : t) join(x);
        observe("round");
    }
    // Later sweeps still work
    S->faults_enabled = 0;
    // the stamp may stem from a clock that was ahead; wait long enough from either view
    for (bool again = true; again;) {
        S->wall_offset_ns += 3 * Hour;
        again = false;
        for (auto &f : scan())
            again |= !f.second.entry && f.second.mtime <= wall_ns() && f.second.mtime > wall_ns() - 2 * Hour;
    }
    uint64_t before = total(scan());
    s.jumps++;
    join(spawn_process("proc", [] { fs_hook = hook; process(true); }));
    observe("final");
    uint64_t after = total(scan());
    if (s.budget) SIM_CHECK(after <= s.budget, "after all faults: a sweep did not take place, the cache holds %llu bytes, its limit is %llu",
                            (unsigned long long) after, (unsigned long long) s.budget);
    if (s.budget == 0 || before <= s.budget) SIM_CHECK(after == before, "after all faults: entries vanished from a directory within its budget");
    // ... but not right away
    uint32_t k = s.n_list;
    s.jumps = s.crashes = 0;
    join(spawn_process("proc", [] { fs_hook = hook; process(true); }));
    SIM_CHECK(s.n_list == k, "two processes in succession both swept the directory");
    note(s.removed); note(s.n_list);
    if (s.double_sweep & 1)
        known_finding("double-sweep", "processes that examine the stamp at the same time sweep more than once per interval");
}
Scenario sc_sweep("sweep", setup, run);
}
