/* Memory allocation: refused requests, accounting, flushes, migration (P06) */
#include "engine.h"
#include <algorithm>
#include <stdexcept>
using namespace eng;
namespace {
struct Block {
    uint8_t *p;
    size_t n;          ///< requested size
    size_t sys;        ///< size obtained from the system
    JitBackend b;
    bool shared;
    uint32_t pat;      ///< contents (0: undefined)
};
struct MW {
    // live blocks of all clients: current size per backend, maximum since the last reset
    size_t live[2] = { 0, 0 }, peak[2] = { 0, 0 };
    uint32_t clients;
    bool clear_ok;
} *W;
int bi(JitBackend b) { return b == JitBackend::LLVM; }
void account(const Block &b, bool add) {
    int i = bi(b.b);
    if (add) { W->live[i] += b.n; W->peak[i] = std::max(W->peak[i], W->live[i]); }
    else W->live[i] -= b.n;
}
struct Cl {
    int id;
    std::vector<Block> bl;
    size_t own_sys() const { size_t q = 0; for (auto &x : bl) q += x.sys; return q; }
    void check_owned(const char *when) {
        for (auto &x : bl)
            SIM_CHECK(sys_size(x.p) == x.sys, "%s: a block of %zu bytes in use was returned to the system", when, x.n);
    }
    void fill(Block &b, Rng &r) {
        b.pat = (uint32_t) r.next() | 1;
        size_t w = b.n / 4;
        if (b.b == JitBackend::None || (b.shared && b.pat % 3)) {
            // shared allocations can be written right away
            for (size_t i = 0; i < w; ++i) ((uint32_t *) b.p)[i] = b.pat;
        } else if (w) {
            jit_memset_async(B, b.p, (uint32_t) w, 4, &b.pat);
        }
    }
    void check(Block &b, Rng &r, const char *when) {
        if (!b.pat) return;
        size_t w = b.n / 4;
        jit_sync_thread();
        (void) r;
        for (size_t i = 0; i < w; ++i)
            SIM_CHECK(((uint32_t *) b.p)[i] == b.pat, "%s: entry %zu of a block in use (%zu bytes, backend %d) is 0x%x instead of 0x%x", when, i, b.n, bi(b.b),
                      ((uint32_t *) b.p)[i], b.pat);
    }
    bool fresh(void *p) {
        for (auto &x : bl)
            if ((uint8_t *) p < x.p + x.n && x.p < (uint8_t *) p + 1) return false;
        return true;
    }
};
void wm_check(Cl &c, const char *when) {
    faults_off++;
    for (int i = 0; i < 2; ++i) {
        size_t peak = W->peak[i], wm = jit_malloc_watermark(i ? JitBackend::LLVM : JitBackend::None);
        // 'peak' only counts blocks while they were certainly in use
        SIM_CHECK(wm >= peak, "%s: the watermark (%zu) is below the memory that was in use (%zu, backend %d)", when, wm, peak, i);
        // (also counts blocks that moved from one kind to the other)
        SIM_CHECK(wm <= sys_peak, "%s: the watermark (%zu) exceeds all memory ever obtained (%zu, backend %d)", when, wm, sys_peak, i);
    }
    faults_off--;
    (void) c;
}
void client(int id, uint64_t seed, uint32_t n_ops) {
    jit_init(1u << (uint32_t) B);
    Cl c;
    c.id = id;
    bool single = W->clients == 1;
    for (uint32_t k = 0; k < n_ops; ++k) {
        Rng r(seed + k * 7919);
        if (!keep_op()) continue;
        static const uint32_t w[] = { 0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6 };
        uint32_t op = w[r.below(13)];
        size_t ref0 = sys_refused;
        size_t wm0[2] = { jit_malloc_watermark(JitBackend::None), jit_malloc_watermark(JitBackend::LLVM) };
        switch (op) {
            case 0: {
                Block b{};
                static const size_t sz[] = { 1, 60, 64, 65, 500, 4096, 5000, 100000 };
                b.n = r.below(40) == 0 ? (size_t) 1 << (21 + r.below(2)) : r.below(3) ? sz[r.below(8)] : r.range(1, 3000);
                if (b.n >= (1u << 21)) b.n -= r.below(3) * 1000;
                b.b = r.below(2) ? JitBackend::LLVM : JitBackend::None;
                b.shared = r.below(4) == 0;
                tracef("client %d: malloc(%zu, %d, shared=%d)", id, b.n, bi(b.b), (int) b.shared);
                void *p = nullptr;
                try {
                    p = jit_malloc(b.b, b.n, b.shared);
                } catch (const std::exception &e) {
                    SIM_CHECK(strstr(e.what(), "out of memory"), "unexpected error: %s", e.what());
                    tracef("client %d: out of memory", id);
                    if (single) {
                        SIM_CHECK(sys_refused - ref0 >= 2, "a request for %zu bytes failed after %zu refusals", b.n, sys_refused - ref0);
                        SIM_CHECK(sys_live_refused == c.own_sys(), "a request for %zu bytes failed while the library kept %zd bytes of unused memory", b.n,
                                  (ssize_t) (sys_live_refused - c.own_sys()));
                        for (int i = 0; i < 2; ++i) {
                            size_t wm = jit_malloc_watermark(i ? JitBackend::LLVM : JitBackend::None);
                            SIM_CHECK(wm == wm0[i], "a refused request of %zu bytes changed the watermark from %zu to %zu", b.n, wm0[i], wm);
                        }
                    }
                    c.check_owned("failed request");
                    for (auto &x : c.bl) c.check(x, r, "failed request");
                    break;
                }
                SIM_CHECK(p && ((uintptr_t) p & 63) == 0, "jit_malloc(%zu) returned %p", b.n, p);
                b.p = (uint8_t *) p;
                b.sys = sys_size(p);
                SIM_CHECK(b.sys >= b.n, "jit_malloc(%zu) returned a block of %zu bytes", b.n, b.sys);
                SIM_CHECK(c.fresh(p), "jit_malloc(%zu) returned memory that is in use", b.n);
                SIM_CHECK(jit_malloc_device(p) == -1, "jit_malloc_device(): wrong result");
                account(b, true);
                c.bl.push_back(b);
                c.fill(c.bl.back(), r);
                break;
            }
            case 1: {
                if (c.bl.empty()) break;
                size_t i = r.below((uint32_t) c.bl.size());
                Block b = c.bl[i];
                if (r.below(2)) c.check(b, r, "before jit_free()");
                // the release of host memory takes effect at once
                if (b.b == JitBackend::None) jit_sync_thread();
                tracef("client %d: free(%zu, %d)", id, b.n, bi(b.b));
                account(b, false);
                c.bl.erase(c.bl.begin() + (ptrdiff_t) i);
                jit_free(b.p);
                break;
            }
            case 2: {
                tracef("client %d: flush", id);
                jit_flush_malloc_cache();
                c.check_owned("jit_flush_malloc_cache()");
                if (single)
                    SIM_CHECK(sys_live == c.own_sys(), "jit_flush_malloc_cache() kept %zd bytes of unused memory", (ssize_t) (sys_live - c.own_sys()));
                break;
            }
            case 3: {
                if (!W->clear_ok) break;
                tracef("client %d: clear statistics", id);
                jit_malloc_clear_statistics();
                W->peak[0] = W->live[0]; W->peak[1] = W->live[1];
                sys_peak = sys_live;
                size_t sum = jit_malloc_watermark(JitBackend::None) + jit_malloc_watermark(JitBackend::LLVM);
                SIM_CHECK(sum == sys_live, "watermarks after jit_malloc_clear_statistics(): %zu, current use: %zu", sum, sys_live);
                break;
            }
            case 4: case 5: { // migrate
                if (c.bl.empty()) break;
                size_t i = r.below((uint32_t) c.bl.size());
                Block b = c.bl[i];
                JitBackend to = r.below(2) ? JitBackend::LLVM : JitBackend::None;
                bool move = op == 4;
                tracef("client %d: migrate(%zu, %d -> %d, move=%d)", id, b.n, bi(b.b), bi(to), (int) move);
                void *p = nullptr;
                if (move) account(b, false);
                try {
                    p = jit_malloc_migrate(b.p, to, move);
                } catch (const std::exception &e) {
                    SIM_CHECK(strstr(e.what(), "out of memory"), "unexpected error: %s", e.what());
                    tracef("client %d: out of memory", id);
                    if (move) account(b, true);
                    for (auto &x : c.bl) c.check(x, r, "failed migration");
                    break;
                }
                jit_sync_thread();
                Block q = b;
                q.p = (uint8_t *) p;
                // where a copy lives is up to the library
                q.b = to;
                q.shared = p == b.p ? b.shared : false;
                q.sys = sys_size(p);
                SIM_CHECK(q.sys >= b.n, "jit_malloc_migrate() returned a block of %zu instead of %zu bytes", q.sys, b.n);
                if (move) c.bl.erase(c.bl.begin() + (ptrdiff_t) i);
                else SIM_CHECK(c.fresh(p), "jit_malloc_migrate() returned memory that is in use");
                if (p != b.p) q.b = bi(b.b) || bi(to) ? JitBackend::LLVM : JitBackend::None;
                account(q, true);
                c.bl.push_back(q);
                c.check(q, r, "jit_malloc_migrate()");
                break;
            }
            default:
                if (c.bl.empty()) break;
                c.check(c.bl[r.below((uint32_t) c.bl.size())], r, "later");
        }
        wm_check(c, "after an operation");
        if (single && sys_refused == ref0 + 1 && op == 0) SIM_PROBE("request succeeded after the cache was flushed");
    }
    faults_off++;
    Rng r(seed ^ 0x5555);
    while (!c.bl.empty()) {
        Block b = c.bl.back();
        if (r.below(2)) c.check(b, r, "end");
        c.bl.pop_back();
        if (b.b == JitBackend::None) jit_sync_thread();
        account(b, false);
        jit_free(b.p);
    }
    jit_sync_thread();
}
void setup(Ctx &c) {
    random_policy(c.rng, true, false);
    Rng &r = c.rng;
    if (r.below(4)) {
        static const uint32_t pr[] = { 20, 60, 150, 300, 700 };
        S->pol.fault_p[F_ALLOC] = pr[r.below(5)];
        S->pol.fault_max = r.range(1, 20);
    }
}
void run(Ctx &ctx) {
    Rng &r = ctx.rng;
    W = new MW();
    W->clients = r.below(2) ? 1 : r.range(2, 4);
    W->clear_ok = W->clients == 1;
    lib_init(r, 0);
    faults_off++;
    jit_init(1u << (uint32_t) B);
    jit_flush_malloc_cache();
    faults_off--;
    sys_peak = sys_live;
    SIM_CHECK(sys_live == 0, "the library holds %zu bytes before its first use", sys_live);
    std::vector<int> tids;
    for (uint32_t i = 0; i < W->clients; ++i) {
        uint64_t seed = r.next();
        uint32_t n = r.range(3, W->clients == 1 ? 60 : 100 / W->clients);
        int id = (int) i;
        tids.push_back(spawn("client", [=] { client(id, seed, n); }));
    }
    for (int t : tids) join(t);
    faults_off++;
    jit_sync_all_devices();
    jit_flush_malloc_cache();
    SIM_CHECK(sys_live == 0, "jit_flush_malloc_cache() kept %zu bytes after everything was released", sys_live);
    final_checks();
    faults_off--;
}
Scenario sc("account", setup, run);
}
