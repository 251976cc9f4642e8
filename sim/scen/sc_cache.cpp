/* The on-disk kernel cache: several simulated processes, crashes at any file
   system operation, lost data, damaged entries and I/O errors (P10, P11, P12) */
#include "progs.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace eng;
namespace {
constexpr uint32_t MaxProg = 5;
struct Shm {                         ///< shared by all processes of a run
    uint32_t n_prog, n_snap, fs_ops, crash_at, down, final_phase;
    char name[MaxProg][128];
    uint64_t good_hash[MaxProg];
    uint64_t bad[MaxProg][24];
    uint32_t n_bad[MaxProg];
    uint32_t seen[MaxProg];          ///< an intact entry was visible
    uint32_t snap_prog[4];
    uint32_t evals;
    uint32_t stat_hit, stat_soft, stat_hard, stat_damage;
};
Shm *shm() { return (Shm *) S->user; }
static_assert(sizeof(Shm) <= sizeof(Shared::user), "");
const char *DIR_ = "simfs/c";
bool kc = false; ///< in-memory cache: one process with several threads, no faults
Prog progs[MaxProg];
std::string P(const char *dir, const char *name) { return std::string(dir) + "/" + name; }
uint64_t hash_s(const std::string &s) {
    uint64_t h = 1469598103934665603ull ^ s.size();
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h | 1;
}

/// The state of an entry: 0 missing, 1 intact, 2 known to be damaged, 3 incomplete, 4 not a file
int entry_state(uint32_t k, std::string *content = nullptr) {
    Shm &s = *shm();
    std::string p = P(DIR_, s.name[k]);
    if (!raw_exists(p.c_str())) return 0;
    if (!raw_regular(p.c_str())) return 4;
    bool ok;
    std::string c = raw_slurp(p.c_str(), &ok);
    if (content) *content = c;
    uint64_t h = hash_s(c);
    if (h == s.good_hash[k]) return 1;
    for (uint32_t i = 0; i < s.n_bad[k]; ++i)
        if (s.bad[k][i] == h) return 2;
    return 3;
}

/// Runs before every file system operation of the library
void hook(const char *op, const char *) {
    Shm &s = *shm();
    if (!s.n_prog || s.final_phase) return;
    if (S->fs_root[0] == 0 || strcmp(getenv("DRJIT_CACHE_DIR") ? getenv("DRJIT_CACHE_DIR") : "", DIR_)) return;
    s.fs_ops++;
    for (uint32_t k = 0; k < s.n_prog; ++k) {
        std::string c;
        int st = entry_state(k, &c);
        if (st == 1) s.seen[k] = 1;
        if (st == 0 && s.seen[k] && s.n_bad[k] == 0)
            violation("the intact cache entry %s of program %u was deleted (before %s)", s.name[k], k, op);
        if (st == 3 && s.n_snap < 4) {
            // Not what was stored when the run began: must be usable nonetheless
            char d[32];
            snprintf(d, sizeof(d), "simfs/s%u", s.n_snap);
            raw_mkdir(d);
            raw_spit(P(d, s.name[k]).c_str(), c);
            s.snap_prog[s.n_snap++] = k;
            tracef("entry %u is visible with %zu bytes (before %s)", k, c.size(), op);
            SIM_PROBE("cache entry with other contents seen");
        }
    }
    if (s.crash_at && s.fs_ops >= s.crash_at) {
        if (!s.down) { tracef("the machine crashes"); S->fault_count[F_TORN]++; }
        s.down = 1;
    }
    if (s.down && my_proc != 0) crash_self();
}

void proc_init(uint32_t width) {
    fs_set_root("simfs");
    log_capture();
    jit_init(1u << (uint32_t) B);
    SIM_CHECK(jit_has_backend(B), "LLVM backend failed to initialise: %s", warn_text);
    std::string cpu = jit_llvm_target_cpu();
    const char *f = jit_llvm_target_features();
    std::string feat = f ? f : "";
    jit_llvm_set_target(cpu.c_str(), f ? feat.c_str() : nullptr, width);
    uint32_t bs = 1;
    while (bs < width) bs *= 2;
    jit_llvm_set_block_size(bs * 2);
    prog_register();
}

struct Stats { size_t l, s, h; };
Stats stats() { Stats x; jit_launch_stats(&x.l, &x.s, &x.h); return x; }

void eval(uint32_t k, const char *where) {
    try {
        uint32_t idx = prog_trace(progs[k]);
        prog_check(progs[k], idx, where);
        jit_var_dec_ref(idx);
    } catch (const std::exception &e) {
        violation("%s: evaluation failed: %s", where, e.what());
    }
    shm()->evals++;
}

/// Operations that fail: the error reaches the caller, and nothing else changes
void misuse(Rng &r) {
    Ref a(jit_var_counter(B, r.range(2, 9))), b(jit_var_counter(B, r.range(10, 20)));
    bool thrown = false;
    try {
        uint32_t x = 0;
        switch (r.below(4)) {
            case 0: x = jit_var_add(a, b); break;
            case 1: { Ref m(jit_var_lt(a, a)); x = jit_var_select(m, a, b); break; }
            case 2: { Ref f(jit_var_f32(B, 1.f)); x = jit_var_add(a, f); break; }
            default: { x = jit_var_sqrt(a); break; }
        }
        jit_var_dec_ref(x);
    } catch (const std::exception &e) {
        thrown = true;
        SIM_CHECK(strlen(e.what()) > 10, "error without a message: \"%s\"", e.what());
        for (const char *c = e.what(); *c; ++c)
            SIM_CHECK((unsigned char) *c >= 32 || *c == '\n', "damaged error message \"%s\"", e.what());
    }
    if (!thrown) return;
    SIM_PROBE("rejected operation");
}
/// Textual output shares buffers with the code generator
void inspect(Rng &r) {
    Ref a(jit_var_counter(B, r.range(2, 9)));
    switch (r.below(3)) {
        case 0: SIM_CHECK(strlen(jit_var_whos()) > 10, "empty output of jit_var_whos()"); break;
        case 1: SIM_CHECK(strstr(jit_var_graphviz(), "digraph"), "wrong output of jit_var_graphviz()"); break;
        default: { Ref b(jit_var_add(a, a)), c(jit_var_mul(b, a)); break; }
    }
}

/// Body of a simulated process. 'exclusive': nobody else uses the directory
void process(uint64_t seed, uint32_t n_ops, uint32_t n_threads, bool exclusive, uint32_t width, bool wait_end) {
    Shm &s = *shm();
    Rng r(seed);
    uint32_t faults0 = S->fault_total;
    proc_init(width);
    std::vector<uint32_t> mine;
    for (uint32_t k = 0; k < s.n_prog; ++k)
        if (progs[k].width == width) mine.push_back(k);
    if (mine.empty()) return;
    if (n_threads == 1) {
        bool loaded[MaxProg] = {};
        for (uint32_t i = 0; i < n_ops; ++i) {
            Rng q(seed + (i + 1) * 7919);
            bool keep = keep_op();
            uint32_t what = q.below(10), k = mine[q.below((uint32_t) mine.size())];
            if (!keep) continue;
            if (what == 0) {
                jit_flush_kernel_cache();
                memset(loaded, 0, sizeof(loaded));
                continue;
            }
            int before = entry_state(k);
            uint32_t c0 = compile_count;
            Stats a = stats();
            bool first = !loaded[k];
            eval(k, "cache");
            loaded[k] = true;
            Stats b = stats();
            uint32_t hard = (uint32_t) (b.h - a.h), soft = (uint32_t) (b.s - a.s), comp = compile_count - c0;
            tracef("program %u: entry state %d, %s", k, before, hard ? "compiled" : soft ? "loaded" : "cached");
            SIM_CHECK(b.l == a.l + 1, "%zu kernel launches were reported for one evaluation", b.l - a.l);
            SIM_CHECK(comp == hard, "%u kernels were compiled but %u hard misses reported", comp, hard);
            SIM_CHECK(hard + soft == (first ? 1u : 0u), "%s use of a program: %u hard and %u soft misses reported",
                      first ? "first" : "repeated", hard, soft);
            s.stat_hit += !first; s.stat_soft += soft; s.stat_hard += hard;
            if (!first || s.down) continue;
            bool clean = S->fault_total == faults0 && warn_count == 0;
            if (exclusive && clean) {
                if (before == 1) {
                    SIM_CHECK(soft == 1, "an intact cache entry was not used");
                } else if (before == 0 || before == 2) {
                    SIM_CHECK(hard == 1, "a %s cache entry was used", before ? "damaged" : "missing");
                    int after = entry_state(k);
                    SIM_CHECK(after == 1 || after == 3, "the compiled kernel was not stored (state %d)", after);
                }
            }
            if (exclusive && before == 2 && !s.final_phase) SIM_CHECK(soft == 0, "a damaged cache entry was used");
        }
    } else {
        std::vector<int> t;
        Stats a = stats();
        uint32_t c0 = compile_count;
        uint32_t *done = new uint32_t(0), *flushed = new uint32_t(0);
        for (uint32_t j = 0; j < n_threads; ++j) {
            uint64_t sd = r.next();
            t.push_back(spawn("client", [=] {
                for (uint32_t i = 0; i < n_ops; ++i) {
                    Rng q(sd + (i + 1) * 7919);
                    bool keep = keep_op();
                    uint32_t what = q.below(8), k = mine[q.below((uint32_t) mine.size())];
                    if (!keep) continue;
                    if (what == 6) { misuse(q); continue; }
                    if (what == 7) { inspect(q); continue; }
                    if (what == 0) { jit_flush_kernel_cache(); ++*flushed; continue; }
                    eval(k, "cache");
                    ++*done;
                }
            }));
        }
        for (int x : t) join(x);
        Stats b = stats();
        SIM_CHECK(b.l - a.l == *done, "%u evaluations but %zu kernel launches reported", *done, b.l - a.l);
        SIM_CHECK(b.h - a.h == compile_count - c0, "%u kernels compiled but %zu hard misses reported", compile_count - c0, b.h - a.h);
        SIM_CHECK(b.h - a.h + b.s - a.s <= (size_t) mine.size() * (*flushed + 1),
                  "%zu misses for %zu programs and %u flushes", b.h - a.h + b.s - a.s, mine.size(), *flushed);
        if (*flushed == 0 && *done)
            SIM_CHECK(b.h - a.h + b.s - a.s >= 1, "no miss was reported");
    }
    if (wait_end) { // orderly end
        warn_count = 0;
        for (uint32_t i = 1; i <= 2; ++i) jit_registry_remove(jit_registry_ptr("LLVM", prog_domain, i));
        jit_shutdown(0);
        SIM_CHECK(warn_count == 0, "shutdown reported: %s", warn_text);
    }
}

int launch(std::function<void()> f, uint32_t pid) {
    return spawn_process("proc", [f, pid] {
        sim_pid_override = (int) pid;
        fs_hook = hook;
        f();
    });
}

void mark_bad(uint32_t k, const std::string &before) {
    Shm &s = *shm();
    std::string c;
    int st = entry_state(k, &c);
    if (st != 0 && st != 4 && c == before) return;
    if (st == 0) { s.n_bad[k] = std::max(s.n_bad[k], 1u); return; } // vanished
    if (st == 4) { s.n_bad[k] = std::max(s.n_bad[k], 1u); return; }
    uint64_t h = hash_s(c);
    if (h == s.good_hash[k]) return;
    if (s.n_bad[k] < 24) s.bad[k][s.n_bad[k]++] = h;
}

/// Damages one stored file
void damage(Rng &r, const std::string &path, const std::vector<std::string> &good, bool torn) {
    bool ok;
    std::string c = raw_slurp(path.c_str(), &ok);
    if (!ok) return;
    switch (torn ? r.below(4) : r.below(9)) {
        case 0: c.resize(r.below((uint32_t) c.size() + 1)); break;
        case 1: { size_t k = r.below((uint32_t) c.size() + 1); std::fill(c.begin() + (long) k, c.end(), 0); break; }
        case 2: c.clear(); break;
        case 3: raw_unlink(path.c_str()); return;
        case 4: if (!c.empty()) { size_t i = r.below((uint32_t) c.size()); c[i] = (char) (c[i] ^ (1 << r.below(8))); } break;
        case 5: if (!c.empty()) { size_t i = r.below(std::min(33u, (uint32_t) c.size())); c[i] = (char) (c[i] ^ (1 << r.below(8))); } break;
        case 6: for (uint32_t i = r.range(1, 200); i; --i) c += (char) r.next(); break;
        case 7: c = good[r.below((uint32_t) good.size())]; break;
        case 8:
            raw_unlink(path.c_str());
            if (r.below(2)) { raw_mkdir(path.c_str()); }
            else { syscall(SYS_symlinkat, "/nonexistent/target", AT_FDCWD, path.c_str()); }
            return;
    }
    // an independent file: other links to the old one keep their content
    if (!torn) raw_unlink(path.c_str());
    raw_spit(path.c_str(), c);
}

void setup(Ctx &c) {
    random_policy(c.rng, true, false);
    Policy &p = S->pol;
    if (p.bb_mean && p.bb_mean < 200) p.bb_mean = 200;
    S->cores = std::min(S->cores, 3u);
    Rng &r = c.rng;
    if (r.below(4)) {
        p.fault_max = r.range(1, 8);
        static const Fault all[] = { F_OPEN, F_WRITE, F_SHORT_WRITE, F_READ, F_SHORT_READ, F_CLOSE, F_LINK,
                                     F_UNLINK, F_STAT, F_CHMOD, F_UTIME, F_MKDIR, F_READDIR, F_CLOCK, F_THREAD };
        uint32_t n = r.range(0, 5);
        for (uint32_t i = 0; i < n; ++i) {
            static const uint32_t pr[] = { 10, 50, 150, 400 };
            p.fault_p[all[r.below(15)]] = pr[r.below(4)];
        }
        if (r.below(2)) p.fault_p[F_CRASH] = r.range(5, 60);
        if (r.below(3) == 0) p.fault_p[F_SHORT_READ] = 600;
    }
}

void run(Ctx &ctx) {
    Rng &r = ctx.rng;
    Shm &s = *shm();
    memset((void *) &s, 0, sizeof(s));
    fs_set_root("simfs");
    raw_mkdir("simfs/c");
    raw_mkdir("simfs/cal");
    uint32_t widths[2] = { 8, r.below(3) ? 8u : 4u };
    uint32_t n_prog = r.range(1, 4);
    for (uint32_t k = 0; k < n_prog; ++k) {
        progs[k] = rnd_prog(r, r.below(3) == 0);
        progs[k].width = widths[r.below(2)];
    }
    // Calibration: what does a stored entry look like?
    bool fe = S->faults_enabled;
    S->faults_enabled = 0;
    setenv("DRJIT_CACHE_DIR", "simfs/cal", 1);
    std::vector<std::string> good;
    for (uint32_t wi = 0; wi < (widths[0] == widths[1] ? 1u : 2u); ++wi) {
        uint32_t w = widths[wi];
        join(launch([=] {
            proc_init(w);
            for (uint32_t k = 0; k < n_prog; ++k) {
                if (progs[k].width != w) continue;
                auto l0 = raw_list("simfs/cal");
                eval(k, "calibration");
                for (auto &n : raw_list("simfs/cal"))
                    if (std::find(l0.begin(), l0.end(), n) == l0.end() && n.size() > 4 && n.substr(n.size() - 4) == ".bin") {
                        Shm &s = *shm();
                        SIM_CHECK(!s.name[k][0], "two cache entries were created for one kernel");
                        snprintf(s.name[k], sizeof(s.name[k]), "%s", n.c_str());
                        s.good_hash[k] = hash_s(raw_slurp(P("simfs/cal", n.c_str()).c_str()));
                    }
                SIM_CHECK(shm()->name[k][0], "a compiled kernel was not stored");
            }
        }, 0));
    }
    for (uint32_t k = 0; k < n_prog; ++k) good.push_back(raw_slurp(P("simfs/cal", s.name[k]).c_str()));
    S->faults_enabled = fe;
    setenv("DRJIT_CACHE_DIR", DIR_, 1);
    unsetenv("DRJIT_CACHE_MAXSIZE");

    // Files that belong to nobody in this run
    std::vector<std::pair<std::string, std::string>> other;
    auto foreign = [&](const char *n, const std::string &c) {
        raw_spit(P(DIR_, n).c_str(), c);
        other.emplace_back(P(DIR_, n), c);
    };
    if (r.below(2)) {
        foreign("0123456789abcdef0123456789abcdef.llvm.v6.bin", good[0]);
        foreign("readme.txt", "hello");
        foreign("0123456789abcdef0123456789abcdef.llvm.v5.bin", "old");
        foreign("x.bin", "");
    }
    for (uint32_t k = 0; k < n_prog; ++k)
        if (r.below(3) == 0) raw_spit(P(DIR_, s.name[k]).c_str(), good[k]);
    s.n_prog = n_prog;

    bool one_pid = r.below(4) == 0;
    uint32_t rounds = kc ? 1 : r.range(1, 3);
    uint32_t pid = 4711;
    for (uint32_t q = 0; q < rounds; ++q) {
        // What happened in between
        if (r.below(2)) S->wall_offset_ns += (int64_t) r.range(1, 60) * 3600 * 1000000000ll;
        for (uint32_t k = 0; k < n_prog; ++k) {
            bool dmg = !kc && r.below(3) == 0;
            Rng dr(r.next());
            if (dmg && entry_state(k) != 0) {
                std::string was = raw_slurp(P(DIR_, s.name[k]).c_str());
                damage(dr, P(DIR_, s.name[k]), good, false);
                S->fault_count[F_BITROT]++;
                s.stat_damage++;
                mark_bad(k, was);
            }
        }
        uint32_t n_proc = kc || r.below(3) ? 1 : r.range(2, 3);
        s.crash_at = !kc && r.below(5) == 0 ? s.fs_ops + r.range(5, 80) : 0;
        s.down = 0;
        std::vector<int> t;
        for (uint32_t i = 0; i < n_proc; ++i) {
            uint64_t sd = r.next();
            uint32_t n_ops = r.range(1, 5), n_thr = r.below(4) ? 1 : r.range(2, 3);
            uint32_t w = widths[r.below(2)];
            bool end = kc || r.below(2);
            if (kc) { n_ops = r.range(2, 9); n_thr = r.range(1, 4); }
            bool excl = n_proc == 1;
            t.push_back(launch([=] { process(sd, n_ops, n_thr, excl, w, end); }, one_pid ? 4711 : pid + i));
        }
        if (r.below(3)) pid += n_proc; // otherwise, the identifiers are used again
        for (int x : t) join(x);
        if (s.down) {
            std::vector<std::string> was;
            for (uint32_t k = 0; k < n_prog; ++k) was.push_back(raw_slurp(P(DIR_, s.name[k]).c_str()));
            for (auto &n : raw_list(DIR_)) {
                Rng dr(r.next());
                if (dr.below(2)) continue;
                std::string p = P(DIR_, n.c_str());
                bool ours_ = false;
                for (auto &o : other) ours_ |= o.first == p;
                if (ours_) continue; // was stored long ago
                damage(dr, p, good, true);
            }
            for (uint32_t k = 0; k < n_prog; ++k) mark_bad(k, was[k]);
            SIM_PROBE("machine crash with lost data");
        }
        s.crash_at = 0; s.down = 0;
        for (auto &o : other)
            SIM_CHECK(raw_slurp(o.first.c_str()) == o.second && raw_exists(o.first.c_str()),
                      "the unrelated file %s was altered or deleted", o.first.c_str());
    }
    // Once the faults stop: everything works, and is found by the next process
    S->faults_enabled = 0;
    s.final_phase = 1;
    for (uint32_t i = 0; i < s.n_snap; ++i) {
        char d[32];
        snprintf(d, sizeof(d), "simfs/s%u", i);
        uint32_t k = s.snap_prog[i];
        setenv("DRJIT_CACHE_DIR", d, 1);
        join(launch([=] {
            proc_init(progs[k].width);
            eval(k, "snapshot");
            Stats b = stats();
            SIM_CHECK(b.s == 1, "an incomplete cache entry was visible");
        }, 4711));
    }
    setenv("DRJIT_CACHE_DIR", DIR_, 1);
    for (int pass = 0; pass < 2; ++pass) {
        if (pass == 1) S->wall_offset_ns += (int64_t) r.range(0, 200) * 3600 * 1000000000ll;
        for (uint32_t wi = 0; wi < (widths[0] == widths[1] ? 1u : 2u); ++wi) {
            uint32_t w = widths[wi];
            join(launch([=] {
                Shm &s = *shm();
                proc_init(w);
                for (uint32_t k = 0; k < s.n_prog; ++k) {
                    if (progs[k].width != w) continue;
                    int st = entry_state(k);
                    std::string path = P(DIR_, s.name[k]);
                    int64_t age = st == 1 ? wall_ns() - raw_mtime(path.c_str()) : 0, hour = 3600 * 1000000000ll;
                    Stats a = stats();
                    eval(k, "after all faults");
                    if (age > 48 * hour && entry_state(k) == 1)
                        SIM_CHECK(wall_ns() - raw_mtime(path.c_str()) < hour, "the use of a cache entry after %lld hours was not recorded: the sweep would evict it first",
                                  (long long) (age / hour));
                    Stats b = stats();
                    if (st == 1) SIM_CHECK(b.s == a.s + 1, "after all faults: an intact cache entry was not used");
                    if (st == 2) SIM_CHECK(b.h == a.h + 1, "after all faults: a damaged cache entry was used");
                    if (st != 4 && pass == 1)
                        SIM_CHECK(b.s == a.s + 1, "after all faults: a stored kernel was not found (state %d)", st);
                }
            }, 4711));
        }
    }
    for (auto &o : other)
        SIM_CHECK(raw_slurp(o.first.c_str()) == o.second && raw_exists(o.first.c_str()),
                  "the unrelated file %s was altered or deleted", o.first.c_str());
    note(s.evals);
}
void setup_k(Ctx &c) {
    random_policy(c.rng, true, false);
    S->cores = std::min(S->cores, 4u);
    kc = true;
}
Scenario sc_cache("cache", setup, run);
Scenario sc_kcache("kcache", setup_k, run);
}
