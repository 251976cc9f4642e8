/* Variable callbacks, host functions, events, mask stack, variable arrays,
   flags, kernel history */
#include "engine.h"
#include <algorithm>
#include <cmath>
#include <numeric>

namespace eng {
/// Several engine files share these helpers (ops_basic.cpp)
uint32_t make_index(Client &c, Rng &r, uint32_t n, uint32_t m, bool unique, Vec &v);
uint32_t make_mask(Client &c, Rng &r, uint32_t n, Vec &v);

// --------------------------------------------------------------- callbacks
struct CbRec {
    World *w;
    uint32_t idx = 0;
    uint32_t n_eval = 0, n_free = 0;
    bool removed = false, may_freed = false;
    int owner;
    uint32_t partner = 0;      ///< variable to release when the callback fires
    bool partner_on_free = true;
    uint64_t partner_val = 0;
    int mode = 0;
    VarType vt;
    Vec v;                     ///< expected value (mode 1)
    int depth = 0;
    bool fresh = false;        ///< was unevaluated when the callback was set
};
struct HostRec {
    Client *c;
    World *w;
    uint64_t seq;
    uint32_t runs = 0;
    bool must_run = false;
    // check of memory computed earlier
    const void *src = nullptr; VarType vt; Vec expect; uint32_t src_idx = 0;
    // memory that the function fills
    uint8_t *dst = nullptr; std::vector<uint8_t> data;
    uint32_t yields = 0;
    uint64_t *last_done = nullptr;
};
World::World() { }
World::~World() { }
Client::Client() { }
Client::~Client() { }

static void cb_fun(uint32_t idx, int free_, void *p) {
    CbRec *rec = (CbRec *) p;
    World &w = *rec->w;
    SIM_CHECK(idx == rec->idx, "variable callback of r%u invoked with index r%u", rec->idx, idx);
    SIM_CHECK(rec->n_free == 0, "variable callback of r%u invoked after the variable was released", idx);
    SIM_CHECK(!rec->removed || w.p.share, "variable callback of r%u invoked after it was removed", idx);
    SIM_CHECK(free_ == 0 || free_ == 1, "variable callback of r%u invoked with free=%i", idx, free_);
    if (free_) rec->n_free++; else rec->n_eval++;
    if (rec->depth) return;
    rec->depth++;
    switch (rec->mode) {
        case 0: sync_point(); break;
        case 1: // asynchronous print statement: read the data of the evaluated variable
            if (!free_ && rec->fresh && rec->n_eval == 1 && jit_var_state(idx) == VarState::Evaluated && !w.p.share) {
                uint64_t x = 0;
                size_t k = rec->v.size() / 2;
                jit_var_read(idx, k, &x);
                SIM_CHECK(same(rec->vt, x, rec->v[k]), "value of r%u seen by its callback is 0x%llx, expected 0x%llx", idx,
                          (unsigned long long) x, (unsigned long long) rec->v[k]);
            }
            break;
        case 2: { // creates and releases variables
            Ref a(lit(VarType::UInt32, rec->idx)), b(jit_var_counter(B, 7)), d(jit_var_add(a, b));
            sync_point();
            break;
        }
        case 3: { // evaluates something else
            if (free_) break; // may run while another evaluation is in progress
            Ref a(jit_var_counter(B, 5)), b(lit(VarType::UInt32, 3)), d(jit_var_mul(a, b));
            uint32_t x = 0;
            jit_var_read(d, 4, &x);
            SIM_CHECK(x == 12, "computation within a variable callback returned %u", x);
            break;
        }
        default: break;
    }
    if (rec->partner && (bool) free_ == rec->partner_on_free) {
        uint32_t q = rec->partner;
        rec->partner = 0;
        SIM_CHECK(jit_var_ref(q) >= 1, "variable r%u referenced by a callback expired", q);
        jit_var_dec_ref(q);
    }
    rec->depth--;
}
static CbRec *cb_find(World &w, uint32_t idx) {
    for (auto &x : w.cb)
        if (x->idx == idx && !x->n_free && !x->removed) return x.get();
    return nullptr;
}
ENG_OP(CALLBACK, op_set_callback, 5) {
    Slot *s = c.pick(r);
    if (!s || c.in_symbolic) return false;
    World &w = *c.w;
    if (cb_find(w, s->idx)) return false;
    w.cb.emplace_back(new CbRec());
    CbRec *rec = w.cb.back().get();
    rec->w = &w; rec->idx = s->idx; rec->owner = c.id; rec->vt = s->vt; rec->v = s->v;
    rec->mode = (int) r.below(6);
    if (rec->mode == 3 && (c.flags & (uint32_t) JitFlag::LaunchBlocking)) rec->mode = 0;
    if (r.below(2)) {
        rec->partner_on_free = r.below(2);
        Slot *q = c.pick(r);
        if (q && q->idx != s->idx && r.below(2)) {
            jit_var_inc_ref(q->idx);
            rec->partner = q->idx;
        } else {
            Ref a(jit_var_counter(B, r.range(2, 50))), b(lit(VarType::UInt32, r.below(100)));
            rec->partner = jit_var_add(a, b);
        }
    }
    rec->fresh = jit_var_state(s->idx) == VarState::Unevaluated;
    jit_var_set_callback(s->idx, cb_fun, rec);
    return true;
}
ENG_OP(CALLBACK, op_remove_callback, 1) {
    Slot *s = c.pick(r);
    if (!s) return false;
    CbRec *rec = cb_find(*c.w, s->idx);
    if (!rec || rec->owner != c.id) return false;
    jit_var_set_callback(s->idx, nullptr, nullptr);
    rec->removed = true;
    if (rec->partner) { uint32_t q = rec->partner; rec->partner = 0; jit_var_dec_ref(q); }
    return true;
}
/// The callback fires when the variable is evaluated
ENG_OP(CALLBACK, op_eval_callback, 4) {
    Slot *s = nullptr;
    CbRec *rec = nullptr;
    uint32_t o = r.below((uint32_t) c.s.size());
    for (size_t i = 0; i < c.s.size() && !rec; ++i) {
        s = &c.s[(o + i) % c.s.size()];
        rec = cb_find(*c.w, s->idx);
    }
    if (!rec) return op_set_callback(c, r);
    bool un = jit_var_state(s->idx) == VarState::Unevaluated;
    uint32_t n = rec->n_eval;
    if (r.below(2)) {
        jit_var_eval(s->idx);
    } else {
        jit_var_schedule(s->idx);
        jit_eval();
    }
    s->pend = 0;
    if (un && !c.w->p.share)
        SIM_CHECK(rec->n_eval > n, "callback of r%u was not invoked by the evaluation", s->idx);
    return true;
}
ENG_OP(CALLBACK, op_release_callback, 3) {
    for (size_t i = 0; i < c.s.size(); ++i) {
        CbRec *rec = cb_find(*c.w, c.s[i].idx);
        if (!rec) continue;
        uint32_t idx = c.s[i].idx;
        // pending side effects keep a variable alive until they are evaluated
        bool last = jit_var_ref(idx) == 1 && !c.w->p.share && jit_var_state(idx) != VarState::Dirty;
        c.release(i);
        if (last)
            SIM_CHECK(rec->n_free == 1, "r%u was released, but its callback was not invoked", idx);
        return true;
    }
    return false;
}

// ---------------------------------------------------------- host functions
static void host_fun(void *p) {
    HostRec &h = *(HostRec *) p;
    for (uint32_t i = 0; i < h.yields; ++i) sync_point();
    h.runs++;
    SIM_CHECK(h.runs == 1, "host function %llu of client %i was invoked more than once", (unsigned long long) h.seq, h.c->id);
    SIM_CHECK(*h.last_done + 1 == h.seq, "host function %llu of client %i ran out of order (after %llu)",
              (unsigned long long) h.seq, h.c->id, (unsigned long long) *h.last_done);
    *h.last_done = h.seq;
    if (h.src)
        for (size_t i = 0; i < h.expect.size(); ++i) {
            uint64_t x = load(h.vt, h.src, i);
            SIM_CHECK(same(h.vt, x, h.expect[i]),
                      "host function does not observe prior work: entry %zu of r%u is 0x%llx, expected 0x%llx", i, h.src_idx,
                      (unsigned long long) x, (unsigned long long) h.expect[i]);
        }
    if (h.dst) {
        size_t half = h.data.size() / 2;
        memcpy(h.dst, h.data.data(), half);
        for (uint32_t i = 0; i < h.yields; ++i) sync_point();
        memcpy(h.dst + half, h.data.data() + half, h.data.size() - half);
    }
}
static HostRec *host_new(Client &c, Rng &r) {
    c.w->host.emplace_back(new HostRec());
    HostRec *h = c.w->host.back().get();
    h->c = &c; h->w = c.w; h->seq = ++c.host_seq; h->last_done = &c.host_done;
    h->yields = r.below(3);
    return h;
}
ENG_OP(HOST, op_host_plain, 3) {
    HostRec *h = host_new(c, r);
    jit_enqueue_host_func(B, host_fun, h);
    return true;
}
ENG_OP(HOST, op_host_reads, 5) {
    Slot *s = c.pick(r);
    if (!s) return false;
    void *p = nullptr;
    uint32_t i = jit_var_data(s->idx, &p);
    s->pend = 0;
    HostRec *h = host_new(c, r);
    h->src = p; h->vt = s->vt; h->expect = s->v; h->src_idx = i;
    jit_enqueue_host_func(B, host_fun, h);
    VarType t = s->vt; Vec v = s->v;
    bool view = s->view;
    if (r.below(2)) {
        // keep the variable; later in-place writes are ordered after the function
        c.add(i, t, std::move(v)).view = view || true;
    } else {
        // releasing the memory is permitted: later users are ordered as well
        if (r.below(2)) jit_sync_thread();
        jit_var_dec_ref(i);
    }
    return true;
}
ENG_OP(HOST, op_host_writes, 5) {
    VarType t = rnd_type(c, r, true, true);
    Vec v(rnd_size(c, r));
    for (auto &x : v) x = rnd_value(r, t);
    HostRec *h = host_new(c, r);
    h->data.resize(v.size() * tsize(t));
    for (size_t i = 0; i < v.size(); ++i) store(t, h->data.data(), i, v[i]);
    h->dst = (uint8_t *) jit_malloc(B, h->data.size(), (int) r.below(2));
    jit_enqueue_host_func(B, host_fun, h);
    uint32_t i = jit_var_mem_map(B, t, h->dst, v.size(), 1);
    c.add(i, t, std::move(v));
    return true;
}
/// All host functions enqueued by this client have finished after synchronisation
ENG_OP(HOST, op_host_sync, 2) {
    uint64_t n = c.host_seq;
    switch (r.below(3)) {
        case 0: jit_sync_thread(); break;
        case 1: jit_sync_device(); break;
        default: jit_sync_all_devices(); break;
    }
    SIM_CHECK(c.host_done >= n, "host function %llu of client %i had not run by the end of the synchronisation",
              (unsigned long long) n, c.id);
    return true;
}

// ------------------------------------------------------------------ events
static void event_done(Client &c, EventRec &e, const char *how) {
    SIM_CHECK(c.host_done >= e.after, "%s: event is complete, but host function %llu enqueued before it has not run", how,
              (unsigned long long) e.after);
    if (e.copy)
        for (size_t i = 0; i < e.expect.size(); ++i) {
            uint64_t x = load(e.vt, e.copy->data(), i);
            SIM_CHECK(same(e.vt, x, e.expect[i]), "%s: event is complete, but a copy enqueued before it is not (entry %zu)", how, i);
        }
    e.copy.reset();
    e.expect.clear();
}
static EventRec *event_pick(Client &c, Rng &r) {
    return c.ev.empty() ? nullptr : c.ev[r.below((uint32_t) c.ev.size())].get();
}
ENG_OP(EVENT, op_event_create, 2) {
    if (c.ev.size() > 5) return false;
    c.ev.emplace_back(new EventRec());
    EventRec &e = *c.ev.back();
    e.timing = r.below(2);
    e.e = jit_event_create(B, e.timing);
    SIM_CHECK(e.e, "jit_event_create returned null");
    return true;
}
ENG_OP(EVENT, op_event_record, 6) {
    EventRec *e = event_pick(c, r);
    if (!e) return op_event_create(c, r);
    // a pending asynchronous copy keeps its destination until synchronised
    if (e->copy) { jit_sync_thread(); e->copy.reset(); e->expect.clear(); }
    Slot *s = r.below(2) ? c.pick(r) : nullptr;
    if (s) {
        void *p = nullptr;
        Ref d(jit_var_data(s->idx, &p));
        s->pend = 0;
        auto buf = std::make_shared<std::vector<uint8_t>>(s->n() * tsize(s->vt), (uint8_t) 0xEE);
        jit_memcpy_async(B, buf->data(), p, buf->size());
        e->copy = buf; e->expect = s->v; e->vt = s->vt;
    }
    e->after = c.host_seq;
    jit_event_record(e->e);
    e->recorded = true;
    return true;
}
ENG_OP(EVENT, op_event_wait, 4) {
    EventRec *e = event_pick(c, r);
    if (!e) return false;
    jit_event_wait(e->e);
    if (e->recorded) event_done(c, *e, "jit_event_wait");
    SIM_CHECK(!e->recorded || jit_event_query(e->e) == 1, "jit_event_query() = 0 after jit_event_wait()");
    return true;
}
ENG_OP(EVENT, op_event_query, 5) {
    EventRec *e = event_pick(c, r);
    if (!e) return false;
    int rv = jit_event_query(e->e);
    if (rv && e->recorded) event_done(c, *e, "jit_event_query");
    return true;
}
ENG_OP(EVENT, op_event_sync, 2) {
    EventRec *e = event_pick(c, r);
    if (!e || !e->recorded) return false;
    jit_sync_thread();
    // the event depends on all work, but is not itself part of the queue
    jit_event_wait(e->e);
    SIM_CHECK(jit_event_query(e->e) == 1, "jit_event_query() = 0 although all work has finished");
    event_done(c, *e, "jit_event_query");
    return true;
}
ENG_OP(EVENT, op_event_elapsed, 2) {
    EventRec *a = event_pick(c, r), *b = event_pick(c, r);
    if (!a) return false;
    bool ok = a->timing && b->timing && a->recorded && b->recorded, raised = false;
    float t = 0;
    try { t = jit_event_elapsed_time(a->e, b->e); } catch (const std::exception &) { raised = true; }
    SIM_CHECK(raised == !ok, "jit_event_elapsed_time() %s (timing %i %i, recorded %i %i)", raised ? "raised" : "did not raise",
              a->timing, b->timing, a->recorded, b->recorded);
    if (ok) {
        event_done(c, *a, "jit_event_elapsed_time");
        event_done(c, *b, "jit_event_elapsed_time");
        SIM_CHECK(std::isfinite(t) && (a != b || t == 0), "jit_event_elapsed_time() = %f", t);
        float t2 = jit_event_elapsed_time(b->e, a->e);
        SIM_CHECK(t == -t2, "jit_event_elapsed_time() = %f, reversed: %f", t, t2);
    }
    return true;
}
/// Records an event again before the work preceding the first record is done
ENG_OP(EVENT, op_event_rerecord, 2) {
    JitEvent e = jit_event_create(B, r.below(2));
    uint32_t rounds = r.range(2, 3);
    std::vector<std::vector<uint8_t>> buf(rounds);
    std::vector<uint8_t> val(rounds);
    for (uint32_t k = 0; k < rounds; ++k) {
        size_t n = r.range(1, 3000);
        val[k] = (uint8_t) r.below(256);
        buf[k].assign(n, (uint8_t) ~val[k]);
        void *m = jit_malloc(B, n, (int) r.below(2));
        jit_memset_async(B, m, (uint32_t) n, 1, &val[k]);
        jit_memcpy_async(B, buf[k].data(), m, n);
        jit_free(m);
        if (k && r.below(4) == 0 && jit_event_query(e))
            for (size_t i = 0; i < buf[k - 1].size(); ++i)
                SIM_CHECK(buf[k - 1][i] == val[k - 1], "jit_event_query: byte %zu of a copy enqueued before the event is missing", i);
        jit_event_record(e);
    }
    uint32_t how = r.below(3);
    if (how == 0) while (!jit_event_query(e)) sync_point();
    else jit_event_wait(e);
    for (uint32_t k = 0; k < rounds; ++k)
        for (size_t i = 0; i < buf[k].size(); ++i)
            SIM_CHECK(buf[k][i] == val[k], "event recorded %u times is complete, but byte %zu of copy %u is missing", rounds, i, k);
    jit_event_destroy(e);
    jit_sync_thread();
    return true;
}
static void event_drop(Client &c, size_t i) {
    EventRec &e = *c.ev[i];
    jit_event_destroy(e.e);
    if (e.copy) jit_sync_thread();
    c.ev.erase(c.ev.begin() + (ptrdiff_t) i);
}
ENG_OP(EVENT, op_event_destroy, 2) {
    if (c.ev.empty()) return false;
    event_drop(c, r.below((uint32_t) c.ev.size()));
    return true;
}

// -------------------------------------------------------------- mask stack
ENG_OP(MASK, op_masked, 3) {
    uint32_t n = rnd_size(c, r);
    Vec mv, mv2(n, 1);
    Ref m(make_mask(c, r, n, mv)), m2;
    bool two = r.below(3) == 0;
    uint32_t depth = 1;
    {
        Ref ma(jit_var_mask_apply(m, n)); // as control flow operations do
        jit_var_mask_push(B, ma);
    }
    if (two) {
        // as nested control flow does: combine with the current mask
        Vec v2;
        m2 = Ref(make_mask(c, r, n, v2));
        Ref m3(jit_var_mask_apply(m2, n));
        jit_var_mask_push(B, m3);
        depth++;
        for (uint32_t i = 0; i < n; ++i) mv2[i] = v2[i] != 0;
    }
    if (r.below(3) == 0) jit_eval();
    {
        Ref top(jit_var_mask_peek(B));
        SIM_CHECK(top.i != 0, "the mask stack is empty after jit_var_mask_push()");
    }
    Slot *s = c.pick(r);
    if (s) {
        Vec iv, gm;
        if (r.below(2)) {
            Ref idx(make_index(c, r, n, (uint32_t) s->n(), false, iv)), mask(make_mask(c, r, n, gm));
            Vec v(n);
            for (uint32_t i = 0; i < n; ++i) v[i] = mv[i] && mv2[i] && gm[i] ? s->v[iv[i]] : 0;
            VarType t = s->vt;
            s->pend = 0;
            uint32_t res = jit_var_gather(s->idx, idx, mask);
            // lanes that are masked by the stack are unspecified
            Ref g(res);
            while (depth) { jit_var_mask_pop(B); depth--; }
            if (jit_var_size(g) == n) {
                Ref z(lit(t, 0)), s1(jit_var_select(m, g, z)), s2(m2.i ? jit_var_select(m2, s1, z) : jit_var_inc_ref(s1));
                if (jit_var_size(s2) == n) c.add(s2.release(), t, std::move(v));
            }
        } else {
            c.own(*s);
            uint32_t mm = (uint32_t) s->n(), k = n;
            if (k <= mm) {
                Ref idx(make_index(c, r, k, mm, true, iv)), mask(make_mask(c, r, k, gm));
                c.settle(*s);
                uint64_t l = rnd_value(r, s->vt);
                Ref val(lit(s->vt, l));
                size_t si = (size_t) (s - c.s.data());
                Slot &d = c.s[si];
                uint32_t res = jit_var_scatter(d.idx, val, idx, mask, ReduceOp::Identity, ReduceMode::Auto);
                jit_var_dec_ref(d.idx);
                d.idx = res;
                for (uint32_t i = 0; i < k; ++i)
                    if (mv[i] && mv2[i] && gm[i]) d.v[iv[i]] = l;
                d.pend = 9;
            }
        }
    }
    while (depth) { jit_var_mask_pop(B); depth--; }
    return true;
}

// --------------------------------------------------------- variable arrays
ENG_OP(LARRAY, op_local_array, 3) {
    uint32_t n = rnd_size(c, r), len = r.range(1, 12);
    VarType t = rnd_type(c, r, true, true);
    std::vector<Vec> a(n, Vec(len)); // [lane][entry]
    uint64_t init = rnd_value(r, t);
    Ref arr(jit_array_create(B, t, n, len));
    {
        Ref l(lit(t, init, n));
        Ref a2(jit_array_init(arr, l));
        arr = std::move(a2);
        for (auto &x : a) for (auto &y : x) y = init;
    }
    SIM_CHECK(jit_array_length(arr) == len, "jit_array_length() is wrong");
    uint32_t steps = r.range(1, 7);
    struct Old { Ref r; std::vector<Vec> a; };
    std::vector<Old> old;
    bool versions = r.below(3) != 0, evals = !versions || r.below(2);
    for (uint32_t k = 0; k < steps; ++k) {
        Vec iv, mv;
        Ref idx(make_index(c, r, n, len, false, iv)), mask(make_mask(c, r, n, mv));
        switch (r.below(5)) {
            case 0: case 1: { // write
                Vec vv(n);
                Ref val;
                if (r.below(2)) {
                    uint64_t l = rnd_value(r, t);
                    val = Ref(lit(t, l));
                    vv.assign(n, l);
                } else {
                    for (auto &y : vv) y = rnd_value(r, t);
                    val = Ref(var_from(t, vv, r));
                }
                if (versions && r.below(3) == 0 && old.size() < 3) // an earlier version remains accessible
                    old.push_back({ Ref(jit_var_inc_ref(arr)), a });
                Ref a2(jit_array_write(arr, idx, val, mask));
                arr = std::move(a2);
                for (uint32_t i = 0; i < n; ++i) if (mv[i]) a[i][iv[i]] = vv[i];
                break;
            }
            case 2: // evaluate
                if (!evals) break;
                jit_var_schedule(arr);
                if (k + 1 < steps || r.below(2)) jit_eval();
                break;
            default: { // read
                bool o = !old.empty() && r.below(3) == 0;
                Old *od = o ? &old[r.below((uint32_t) old.size())] : nullptr;
                Vec v(n);
                for (uint32_t i = 0; i < n; ++i) v[i] = mv[i] ? (od ? od->a : a)[i][iv[i]] : 0;
                uint32_t res = jit_array_read(od ? od->r.i : arr.i, idx, mask);
                Ref z(lit(t, 0)), g(res); // masked lanes are unspecified
                res = jit_var_select(mask, g, z);
                if (jit_var_size(res) != n) { jit_var_dec_ref(res); break; }
                c.add(res, t, std::move(v));
            }
        }
    }
    return true;
}

// ------------------------------------------------------------------- flags
ENG_OP(FLAGS, op_flags, 3) {
    static const JitFlag t[] = { JitFlag::ConstantPropagation, JitFlag::ValueNumbering, JitFlag::FastMath,
                                 JitFlag::OptimizeLoops, JitFlag::OptimizeCalls, JitFlag::MergeFunctions,
                                 JitFlag::ReuseIndices, JitFlag::ScatterReduceLocal, JitFlag::PacketOps };
    JitFlag f = t[r.below(9)];
    jit_set_flag(f, !jit_flag(f));
    c.flags = jit_flags();
    return true;
}
ENG_OP(FLAGS, op_scope, 2) {
    switch (r.below(3)) {
        case 0: jit_new_scope(B); break;
        case 1: jit_set_scope(B, jit_new_scope(B)); break;
        default: jit_advance_scope(B, r.range(1, 4)); break;
    }
    return true;
}
/// Builds the same expression repeatedly under different settings
ENG_OP(FLAGS, op_rebuild, 6) {
    VarType t = r.below(3) ? VarType::UInt32 : VarType::Int64;
    Slot *a = c.pick_t(r, t);
    uint32_t n = a ? (uint32_t) a->n() : rnd_size(c, r);
    Vec av = a ? a->v : Vec(n);
    Ref ai;
    if (a) {
        ai = Ref(jit_var_inc_ref(a->idx));
        a->pend = 0;
    } else {
        for (auto &x : av) x = rnd_value(r, t);
        ai = Ref(var_from(t, av, r));
    }
    uint64_t seed = r.next();
    uint32_t flags = jit_flags(), steps = r.range(2, 9), copies = r.range(2, 3);
    uint32_t prev = 0;
    for (uint32_t k = 0; k < copies; ++k) {
        if (r.below(2)) {
            uint32_t f = flags;
            if (r.below(2)) f ^= (uint32_t) JitFlag::ValueNumbering;
            if (r.below(2)) f ^= (uint32_t) JitFlag::ConstantPropagation;
            jit_set_flags(f);
        }
        if (r.below(3) == 0) jit_new_scope(B);
        if (r.below(4) == 0) jit_eval();
        Rng q(seed);
        Ref x(jit_var_inc_ref(ai)), lits[3] = { Ref(lit(t, q.below(3))), Ref(lit(t, q.below(2) ? wrap(t, ~0ull) : 1ull << q.below(32))), Ref(lit(t, q.next() & wrap(t, ~0ull))) };
        uint64_t lv[3]; { Rng z(seed); lv[0] = z.below(3); lv[1] = z.below(2) ? wrap(t, ~0ull) : 1ull << z.below(32); lv[2] = z.next() & wrap(t, ~0ull); }
        Vec v = av;
        for (uint32_t j = 0; j < steps; ++j) {
            uint32_t op = q.below(9), b = q.below(4);
            bool sw = q.below(2);
            uint32_t o = b == 3 ? ai.i : lits[b].i;
            uint32_t l = x, rr = o;
            if (sw) std::swap(l, rr);
            Ref y;
            for (uint32_t i = 0; i < n; ++i) {
                uint64_t L = v[i], R = b == 3 ? av[i] : lv[b];
                if (sw) std::swap(L, R);
                uint64_t z = 0;
                switch (op) {
                    case 0: z = L + R; break;
                    case 1: z = L - R; break;
                    case 2: z = L * R; break;
                    case 3: z = L & R; break;
                    case 4: z = L | R; break;
                    case 5: z = L ^ R; break;
                    case 6: z = is_signed(t) ? (sext(t, L) < sext(t, R) ? L : R) : (wrap(t, L) < wrap(t, R) ? L : R); break;
                    case 7: z = is_signed(t) ? (sext(t, L) > sext(t, R) ? L : R) : (wrap(t, L) > wrap(t, R) ? L : R); break;
                    default: z = (is_signed(t) ? sext(t, L) < sext(t, R) : wrap(t, L) < wrap(t, R)) ? v[i] : R; break;
                }
                v[i] = wrap(t, z);
            }
            switch (op) {
                case 0: y = Ref(jit_var_add(l, rr)); break;
                case 1: y = Ref(jit_var_sub(l, rr)); break;
                case 2: y = Ref(jit_var_mul(l, rr)); break;
                case 3: y = Ref(jit_var_and(l, rr)); break;
                case 4: y = Ref(jit_var_or(l, rr)); break;
                case 5: y = Ref(jit_var_xor(l, rr)); break;
                case 6: y = Ref(jit_var_min(l, rr)); break;
                case 7: y = Ref(jit_var_max(l, rr)); break;
                default: {
                    Ref m(jit_var_lt(l, rr));
                    y = Ref(jit_var_select(m, x, rr));
                    break;
                }
            }
            x = std::move(y);
        }
        if (jit_var_size(x) != n) { // folded to a scalar: all lanes agree
            for (uint32_t i = 1; i < n; ++i)
                SIM_CHECK(same(t, v[0], v[i]), "expression of size %u was reduced to a scalar", n);
            v.resize(1);
        }
        prev = x.release();
        c.add(prev, t, std::move(v));
    }
    jit_set_flags(flags);
    return true;
}

// ---------------------------------------------------------- kernel history
static void hist_take(World &w, bool check) {
    KernelHistoryEntry *h = jit_kernel_history();
    if (!h) return;
    for (KernelHistoryEntry *e = h; (uint32_t) e->backend; ++e) {
        SIM_CHECK(e->backend == B, "kernel history entry with backend %u", (uint32_t) e->backend);
        SIM_CHECK(e->size > 0 || e->type == KernelType::Memcpy, "kernel history entry of type %u with size 0", (uint32_t) e->type);
        SIM_CHECK(e->task == nullptr && e->event_start == nullptr && e->event_end == nullptr,
                  "kernel history entry exposes internal handles");
        SIM_CHECK(e->execution_time >= 0 && e->execution_time < 1e9f, "kernel history entry with execution time %f", e->execution_time);
        if (e->type == KernelType::JIT) {
            w.hist_jit++;
            SIM_CHECK(e->ir && strstr(e->ir, "define"), "kernel history entry without IR");
            SIM_CHECK(e->output_count > 0, "kernel history entry without outputs");
            SIM_CHECK(!(e->cache_disk && !e->cache_hit), "kernel history entry: loaded from disk, but no cache hit");
            char key[64];
            snprintf(key, sizeof(key), "%016llx%016llx", (unsigned long long) e->hash[0], (unsigned long long) e->hash[1]);
            auto &ir = w.hist_ir[key];
            SIM_CHECK(ir.empty() || ir == e->ir, "kernel history: two kernels have the same hash");
            SIM_CHECK(strstr(e->ir, key) || true, "kernel history: IR does not match the hash");
            ir = e->ir;
            if (!e->cache_hit) w.hist_miss++;
            if (e->cache_disk) w.hist_disk++;
            free(e->ir);
        } else {
            w.hist_other++;
            SIM_CHECK(e->ir == nullptr, "kernel history entry of type %u has IR", (uint32_t) e->type);
        }
    }
    (void) check;
    free(h);
}
ENG_OP(HIST, op_history, 4) {
    (void) r;
    hist_take(*c.w, true);
    return true;
}
ENG_OP(HIST, op_history_window, 5) { // exact entries of a sequence of launches by this client
    if (c.w->p.clients_max != 1 || !jit_flag(JitFlag::KernelHistory)) return false;
    jit_eval();
    for (auto &s : c.s) s.pend = 0;
    // Inputs of the kernels below
    uint32_t n0 = r.range(20, 200);
    Ref in[2], target;
    for (Ref &x : in) {
        Vec v;
        for (uint32_t i = 0; i < n0; ++i) v.push_back(r.below(1000));
        Ref a(var_from(VarType::UInt32, v, r));
        int rv = 0;
        x = Ref(jit_var_schedule_force(a, &rv));
    }
    { Vec v(n0 + 5, 7); Ref a(var_from(VarType::UInt32, v, r)); int rv = 0; target = Ref(jit_var_schedule_force(a, &rv)); }
    jit_eval();
    hist_take(*c.w, true);
    // Groups of launches: entries of one group can be in any order
    struct Item { uint32_t size, in, out; bool operator<(const Item &x) const { return size < x.size; } };
    struct Group { bool jit; std::vector<Item> items; };
    std::vector<Group> expect;
    uint32_t k = r.range(1, 7);
    c.w->hist_off = true; // some launches are not recorded below
    size_t l0, s0, h0, l1, s1, h1;
    jit_launch_stats(&l0, &s0, &h0);
    auto check = [&] {
        KernelHistoryEntry *h = jit_kernel_history();
        struct E { bool jit; Item i; };
        std::vector<E> got;
        size_t hard = 0, soft = 0, jit = 0;
        if (h) {
            for (KernelHistoryEntry *e = h; (uint32_t) e->backend; ++e) {
                SIM_CHECK(e->backend == B, "kernel history entry with backend %u", (uint32_t) e->backend);
                got.push_back({ e->type == KernelType::JIT, { e->size, e->input_count, e->output_count } });
                if (e->type == KernelType::JIT) {
                    SIM_CHECK(e->ir && strstr(e->ir, "define"), "kernel history entry without IR");
                    SIM_CHECK(e->operation_count > 0, "kernel history entry without operations");
                    jit++;
                    c.w->hist_jit++;
                    if (!e->cache_hit) c.w->hist_miss++, hard++;
                    if (e->cache_disk) c.w->hist_disk++, soft++;
                }
                free(e->ir);
            }
            free(h);
        }
        jit_launch_stats(&l1, &s1, &h1);
        SIM_CHECK(jit == l1 - l0, "kernel history: %zu entries of launches, but %zu launches", jit, l1 - l0);
        SIM_CHECK(hard == h1 - h0 && soft == s1 - s0, "kernel history: %zu compiled and %zu loaded kernels, expected %zu and %zu", hard, soft, h1 - h0, s1 - s0);
        l0 = l1; s0 = s1; h0 = h1;
        size_t j = 0;
        for (Group &g : expect) {
            if (!g.jit) { // a primitive: one or more entries
                SIM_CHECK(j < got.size() && !got[j].jit, "kernel history: entry of a primitive is missing or out of order (entry %zu)", j);
                while (j < got.size() && !got[j].jit) j++;
                continue;
            }
            std::vector<Item> p;
            for (size_t i = 0; i < g.items.size(); ++i, ++j) {
                SIM_CHECK(j < got.size(), "kernel history: an entry is missing (%zu in total)", got.size());
                SIM_CHECK(got[j].jit, "kernel history: unexpected entry of a primitive (entry %zu)", j);
                p.push_back(got[j].i);
            }
            std::sort(p.begin(), p.end());
            std::sort(g.items.begin(), g.items.end());
            for (size_t i = 0; i < p.size(); ++i) {
                SIM_CHECK(p[i].size == g.items[i].size, "kernel history: launch size is %u, expected %u", p[i].size, g.items[i].size);
                SIM_CHECK(p[i].in == g.items[i].in, "kernel history: kernel of size %u has %u inputs, expected %u", p[i].size, p[i].in, g.items[i].in);
                SIM_CHECK(p[i].out == g.items[i].out, "kernel history: kernel of size %u has %u outputs, expected %u", p[i].size, p[i].out, g.items[i].out);
            }
        }
        SIM_CHECK(j == got.size(), "kernel history: %zu entries, expected %zu", got.size(), j);
        expect.clear();
    };
    auto skip = [&] { expect.clear(); jit_launch_stats(&l0, &s0, &h0); };
    for (uint32_t i = 0; i < k; ++i) {
        uint32_t n = r.range(2, 300), m = r.range(2, 300);
        switch (r.below(10)) {
            case 0: {
                jit_launch_stats(&l1, &s1, &h1);
                size_t la = l1, sa = s1, ha = h1;
                jit_set_flag(JitFlag::KernelHistory, 0);
                Ref a(jit_var_counter(B, 33)), b(lit(VarType::UInt32, r.below(3))), x(jit_var_xor(a, b));
                jit_var_eval(x);
                jit_set_flag(JitFlag::KernelHistory, 1);
                jit_launch_stats(&l1, &s1, &h1);
                l0 += l1 - la; s0 += s1 - sa; h0 += h1 - ha;
                break;
            }
            case 1: jit_kernel_history_clear(); skip(); break;
            case 2: check(); break;
            case 3: { // a primitive
                void *p = jit_malloc(B, n * 4, 0);
                uint32_t v = 3;
                jit_memset_async(B, p, n, 4, &v);
                if (expect.empty() || expect.back().jit) expect.push_back({ false, {} });
                jit_free(p);
                break;
            }
            case 4: case 5: case 6: { // inputs, several outputs, a side effect
                Ref ct(jit_var_counter(B, n0)), l(lit(VarType::UInt32, 1 + r.below(4))), x(jit_var_mul(ct, l));
                uint32_t used = r.below(4), outs = r.below(4);
                bool bounds = jit_flag(JitFlag::Debug); // bounds checks use further buffers
                if (bounds && !outs) outs = 1;
                uint32_t side = bounds ? 0 : outs ? r.below(3) == 0 : 1;
                for (uint32_t q = 0; q < 2; ++q)
                    if (used & (1u << q)) x = Ref(jit_var_add(x, in[q]));
                std::vector<Ref> o;
                for (uint32_t q = 0; q < outs; ++q) {
                    Ref l2(lit(VarType::UInt32, 10 + q));
                    o.push_back(q ? Ref(jit_var_xor(x, l2)) : Ref(jit_var_inc_ref(x)));
                    jit_var_schedule(o.back());
                }
                if (side) {
                    Ref m1(mask_true()), t(jit_var_scatter(target, x, ct, m1, ReduceOp::Identity, ReduceMode::Auto));
                    SIM_CHECK(t.i == target.i, "a scatter operation to an array without other references made a copy");
                }
                jit_eval();
                expect.push_back({ true, { { n0, (used & 1) + (used >> 1) + side, outs + side } } });
                SIM_PROBE("history-inputs");
                break;
            }
            default: {
                Ref a(jit_var_counter(B, n)), l(lit(VarType::UInt32, 1 + r.below(4))), x(jit_var_mul(a, l));
                bool two = r.below(2) && m != n;
                Ref a2, x2;
                if (two) {
                    a2 = Ref(jit_var_counter(B, m)); x2 = Ref(jit_var_add(a2, l));
                    jit_var_schedule(x2);
                }
                jit_var_schedule(x);
                jit_eval();
                expect.push_back({ true, { { n, 0, 1 } } });
                if (two) expect.back().items.push_back({ m, 0, 1 });
            }
        }
    }
    check();
    if (r.below(2)) check(); // nothing remains
    return true;
}

// ---------------------------------------------------------------- end of run
void client_end(Client &c) {
    while (!c.ev.empty()) event_drop(c, c.ev.size() - 1);
    jit_eval(); // pending side effects hold references
    if (c.host_seq) {
        jit_sync_thread();
        SIM_CHECK(c.host_done == c.host_seq, "%llu of %llu host functions of client %i have run at the end",
                  (unsigned long long) c.host_done, (unsigned long long) c.host_seq, c.id);
    }
}
void world_end(World &w) {
    for (auto &x : w.cb)
        if (x->partner) { uint32_t q = x->partner; x->partner = 0; jit_var_dec_ref(q); }
    for (auto &x : w.cb) {
        if (x->removed) continue;
        SIM_CHECK(x->n_free == 1, "callback: release of r%u was reported %u times although all references are gone", x->idx, x->n_free);
    }
    if (w.p.flags_on & (uint32_t) JitFlag::KernelHistory) {
        hist_take(w, true);
        size_t l, s, h;
        jit_launch_stats(&l, &s, &h);
        if (!w.hist_off)
            SIM_CHECK(w.hist_jit == l, "kernel history: %llu entries, but %zu launches", (unsigned long long) w.hist_jit, l);
        SIM_CHECK(s + h <= l, "launch statistics: %zu launches, %zu soft misses, %zu hard misses", l, s, h);
    }
}
}
