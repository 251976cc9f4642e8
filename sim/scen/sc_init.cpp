/* Initialisation and shutdown, light or full, any number of times, while work
   of running, finished and helper threads is still in flight (P21) */
#include "engine.h"
#include "progs.h"
#include <string.h>
using namespace eng;
void adversary_enable(bool value);
namespace {
const VarType U32 = VarType::UInt32;
struct Kept { uint32_t idx; VarType vt; Vec v; };
struct Host { uint64_t *done, *queued; uint32_t yields = 0, nested = 0, kind = 0; uint32_t var = 0; void *mem = nullptr; };

void host_fun(void *p) {
    Host *h = (Host *) p;
    for (uint32_t i = 0; i < h->yields; ++i) sync_point();
    switch (h->kind) {
        case 1: if (h->var) { uint32_t v = h->var; h->var = 0; jit_var_dec_ref(v); } break;
        case 2: if (h->mem) { jit_free(h->mem); h->mem = nullptr; } break;
        case 3: {
            // issues further work
            Ref a(jit_var_counter(B, 9)), b(lit(U32, 5)), d(jit_var_mul(a, b));
            jit_var_eval(d);
            break;
        }
        default: break;
    }
    if (h->nested) {
        Host *q = new Host(*h);
        q->nested--;
        q->kind = 0;
        q->var = 0;
        q->mem = nullptr;
        ++*h->queued;
        jit_enqueue_host_func(B, host_fun, q);
    }
    ++*h->done;
    delete h;
}

struct W {
    uint64_t done = 0, queued = 0;
    std::vector<Kept> kept;
    struct Mem { uint8_t *p; size_t n; uint32_t v; };
    std::vector<Mem> mem;
};

/// Leaves work behind
void worker(W &w, Rng r, bool keep, bool nest) {
    jit_init(1u << (uint32_t) B);
    if (r.below(3) == 0) jit_set_flag(JitFlag::KernelHistory, 1);
    for (uint32_t k = r.range(1, 5); k; --k) {
        uint32_t n = r.below(3) ? r.range(2, 300) : r.range(300, 4000);
        switch (r.below(6)) {
            case 0: case 1: {
                Host *h = new Host();
                h->done = &w.done; h->queued = &w.queued;
                h->yields = r.below(5);
                h->nested = nest ? r.below(3) : 0;
                h->kind = r.below(nest ? 4 : 3);
                if (h->kind == 1) { Vec v(n, 7); h->var = var_from(U32, v, r); }
                if (h->kind == 2) h->mem = jit_malloc(B, n, 1);
                w.queued++;
                jit_enqueue_host_func(B, host_fun, h);
                break;
            }
            case 2: case 3: {
                uint32_t mul = (uint32_t) r.next(), add = (uint32_t) r.next();
                Ref c(jit_var_counter(B, n)), m(lit(U32, mul)), a(lit(U32, add)), x(jit_var_mul(c, m)), y(jit_var_add(x, a));
                uint32_t how = r.below(3);
                if (how == 0) jit_var_eval(y);
                else if (how == 1) { jit_var_schedule(y); jit_eval(); }
                if (!keep || r.below(2)) break;
                if (how == 2) jit_var_schedule(y);
                Vec v(n);
                for (uint32_t i = 0; i < n; ++i) v[i] = (uint32_t) (i * mul + add);
                w.kept.push_back({ y.release(), U32, std::move(v) });
                break;
            }
            case 4: { // writes that are never evaluated
                Ref k(lit(U32, 7)), i(jit_var_counter(B, n)), z(lit(U32, 1, n)), mk(mask_true());
                Ref t(jit_var_scatter(z, k, i, mk, r.below(2) ? ReduceOp::Add : ReduceOp::Identity, ReduceMode::Auto));
                if (r.below(4) == 0) { uint32_t x = 0; jit_var_read(t, 0, &x); }
                break;
            }
            default: {
                W::Mem m;
                m.n = n;
                m.v = r.below(256);
                m.p = (uint8_t *) malloc(n);
                memset(m.p, (int) ~m.v, n);
                uint8_t *src = (uint8_t *) jit_malloc(B, n, 1);
                uint8_t x = (uint8_t) m.v;
                jit_memset_async(B, src, n, 1, &x);
                jit_memcpy_async(B, m.p, src, n);
                jit_free(src);
                w.mem.push_back(m);
            }
        }
    }
}

/// Several threads initialise the library, one of them in the background
void initialise(Rng &r) {
    uint32_t all = 1u << (uint32_t) B;
    switch (r.below(4)) {
        case 0: jit_init(all); break;
        case 1: jit_init_async(all); break;
        default: {
            std::vector<int> t;
            for (uint32_t i = r.range(2, 4); i; --i) {
                bool async = r.below(2), use = r.below(2);
                t.push_back(spawn("init", [=] {
                    if (async) jit_init_async(all); else jit_init(all);
                    SIM_CHECK(jit_has_backend(B), "backend missing after initialisation by several threads");
                    if (use) {
                        Ref a(jit_var_counter(B, 20)), b(lit(U32, 3)), c(jit_var_mul(a, b));
                        uint32_t x = 0;
                        jit_var_read(c, 7, &x);
                        SIM_CHECK(x == 21, "first computation of a thread gives %u instead of 21", x);
                    }
                }));
            }
            for (int i : t) join(i);
        }
    }
}

void body(Ctx &ctx) {
    Rng &r = ctx.rng;
    adversary_init(r, 250);
    setenv("DRJIT_CACHE_DIR", "simfs", 1);
    fs_set_root("simfs");
    log_capture();
    W w;
    static int obj[8];
    uint32_t rounds = r.range(2, 4);
    std::vector<std::string> configs;
    for (uint32_t k = 0; k < rounds; ++k) {
        SIM_CHECK(!jit_has_backend(B), "the backend is initialised before round %u", k);
        bool used_before = false;
        uint32_t how = r.below(5);
        if (how < 3) {
            if (how == 0) jit_init_async(1u << (uint32_t) B); else jit_init(1u << (uint32_t) B);
        } else {
            initialise(r);
            used_before = true;
        }
        tracef("round %u (init %u)", k, how);
        SIM_CHECK(jit_has_backend(B), "LLVM backend failed to initialise: %s", warn_text);
        if (r.below(2)) jit_init(1u << (uint32_t) B);
        size_t l, s, h;
        jit_launch_stats(&l, &s, &h);
        if (!used_before)
            SIM_CHECK(!l && !s && !h, "round %u: launch statistics of a fresh library are %zu/%zu/%zu", k, l, s, h);
        {
            KernelHistoryEntry *e = jit_kernel_history();
            SIM_CHECK(!e || e[0].backend == JitBackend::None, "round %u: kernel history of a fresh library has entries", k);
            free(e);
        }
        // Registry
        char dom[32];
        snprintf(dom, sizeof(dom), "D%u", r.below(3));
        SIM_CHECK(jit_registry_id_bound("v", dom) == 0, "round %u: a fresh registry has instances", k);
        uint32_t n_obj = r.below(4);
        for (uint32_t i = 0; i < n_obj; ++i) {
            uint32_t id = jit_registry_put("v", dom, &obj[i]);
            SIM_CHECK(id == i + 1, "round %u: instance %u of a fresh registry has identifier %u", k, i, id);
            SIM_CHECK(jit_registry_ptr("v", dom, id) == &obj[i] && jit_registry_id(&obj[i]) == id, "round %u: wrong registry contents", k);
        }
        if (r.below(2)) lib_config(r);

        // The in-memory cache of kernels starts empty
        {
            Prog p = rnd_prog(r, false);
            jit_launch_stats(&l, &s, &h);
            size_t m0 = s + h, l0 = l;
            uint32_t x = prog_trace(p);
            prog_check(p, x, "after initialisation");
            jit_var_dec_ref(x);
            jit_launch_stats(&l, &s, &h);
            SIM_CHECK(l >= l0, "launch statistics decrease");
            bool launched = l > l0;
            if (launched && !used_before)
                SIM_CHECK(s + h > m0, "round %u: a kernel compiled before the shutdown was found in memory", k);
            (void) launched;
        }
        for (size_t i = 0; i < w.kept.size(); ++i) {
            Kept &q = w.kept[i];
            if (r.below(4) == 0) continue;
            SIM_CHECK(jit_var_size(q.idx) == q.v.size() && jit_var_type(q.idx) == q.vt, "variable r%u kept across a shutdown has changed", q.idx);
            switch (r.below(3)) {
                case 0: {
                    uint32_t x = 0, j = r.below((uint32_t) q.v.size());
                    jit_var_read(q.idx, j, &x);
                    SIM_CHECK(x == (uint32_t) q.v[j], "entry %u of a variable kept across a shutdown is %u instead of %u", j, x, (uint32_t) q.v[j]);
                    break;
                }
                case 1: {
                    Ref one(lit(U32, 1)), y(jit_var_add(q.idx, one));
                    void *p = nullptr;
                    Ref d(jit_var_data(y, &p));
                    jit_sync_thread();
                    for (size_t j = 0; j < q.v.size(); ++j)
                        SIM_CHECK(((uint32_t *) p)[j] == (uint32_t) (q.v[j] + 1), "computation with a variable kept across a shutdown: entry %zu is %u instead of %u", j, ((uint32_t *) p)[j], (uint32_t) (q.v[j] + 1));
                    break;
                }
                default: {
                    void *p = nullptr;
                    Ref d(jit_var_data(q.idx, &p));
                    jit_sync_thread();
                    for (size_t j = 0; j < q.v.size(); ++j)
                        SIM_CHECK(((uint32_t *) p)[j] == (uint32_t) q.v[j], "entry %zu of a variable kept across a shutdown is %u instead of %u", j, ((uint32_t *) p)[j], (uint32_t) q.v[j]);
                    if (r.below(2)) { jit_var_dec_ref(q.idx); w.kept.erase(w.kept.begin() + (long) i); i--; }
                }
            }
        }

        bool light = r.below(2), last = k + 1 == rounds, keep = light && !last, nest = r.below(3) == 0;
        if (!keep) {
            for (Kept &q : w.kept) jit_var_dec_ref(q.idx);
            w.kept.clear();
        }
        bool drop_objs = r.below(2);
        if (drop_objs) for (uint32_t i = 0; i < n_obj; ++i) jit_registry_remove(&obj[i]);

        // Work that is in flight when the library is shut down
        std::vector<int> t;
        for (uint32_t i = r.below(4); i; --i) {
            Rng q(r.next());
            t.push_back(spawn("worker", [&w, q, keep, nest] { worker(w, q, keep, nest); }));
        }
        if (r.below(2)) worker(w, Rng(r.next()), keep, nest);
        for (int i : t) join(i);
        int lw = !(w.kept.size() || (n_obj && !drop_objs));
        if (!lw && r.below(2)) lw = 2;
        jit_set_leak_warnings(lw != 0);
        warn_count = 0;
        size_t usage = 0;
        (void) usage;
        for (uint32_t i = r.below(6); i; --i) sync_point();
        // the registry keeps objects registered without a leak warning
        jit_shutdown(light);
        SIM_CHECK(w.done == w.queued, "jit_shutdown(light=%i): %llu of %llu host functions have run", (int) light, (unsigned long long) w.done, (unsigned long long) w.queued);
        pool_check_idle("after jit_shutdown()");
        for (auto &m : w.mem) {
            for (size_t i = 0; i < m.n; ++i)
                SIM_CHECK(m.p[i] == m.v, "jit_shutdown(light=%i): byte %zu of an asynchronous copy is %u instead of %u", (int) light, i, m.p[i], m.v);
            free(m.p);
        }
        w.mem.clear();
        if (lw == 1) SIM_CHECK(warn_count == 0, "shutdown reported: %s", warn_text);
        if (lw == 2) SIM_CHECK(warn_count > 0, "leaks were not reported");
        if (w.kept.empty()) SIM_CHECK(sys_live == 0, "the library holds %zu bytes of memory after jit_shutdown(light=%i)", sys_live, (int) light);
        jit_set_leak_warnings(1);
        warn_count = 0;
        uint32_t removed = 0;
        for (uint32_t i = 0; i < n_obj; ++i) {
            if (drop_objs) continue;
            // instances of the previous session can be removed or stay
            if (r.below(2)) { jit_registry_remove(&obj[i]); removed |= 1u << i; }
        }
        // not removed: later registrations of the same address must work
        if (!drop_objs) for (uint32_t i = 0; i < n_obj; ++i) if (!(removed & (1u << i))) jit_registry_remove(&obj[i]);
        if (r.below(3) == 0) {
            // shutting down a library that is not running has no effect
            jit_shutdown(r.below(2));
            SIM_CHECK(warn_count == 0 || w.kept.size(), "second shutdown reported: %s", warn_text);
        }
    }
    adversary_enable(false);
}
Scenario sc_reinit("reinit", [](Ctx &c) { random_policy(c.rng, true, true); }, body);
}
