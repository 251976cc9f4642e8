/* Thread-local control state: mask, prefix and scope stacks, flags, current
   instance, recording sessions, pending evaluations -- unaffected by what
   other threads do and by operations that fail */
#include "engine.h"
#include <string.h>

namespace eng {
uint32_t make_index(Client &c, Rng &r, uint32_t n, uint32_t m, bool unique, Vec &v);
uint32_t make_mask(Client &c, Rng &r, uint32_t n, Vec &v);

namespace {
const VarType U32 = VarType::UInt32;
struct Pending { Ref var; VarType t; Vec v; bool scheduled = false, dirty = false; int kind = 0; };

/// What this thread believes about its state
struct Model {
    Client &c;
    std::vector<Ref> masks;
    std::vector<uint32_t> mask_ref;
    std::vector<std::string> prefix;
    uint32_t scope = 0, flags = 0, self_value = 0, self_index = 0;
    uint32_t base_mask = 0;
    std::vector<std::unique_ptr<Pending>> pend;
    struct Text { const char *p; std::string copy; } text { nullptr, "" };
    const char *what = "";

    Model(Client &c) : c(c) {
        flags = jit_flags();
        scope = jit_scope(B);
        base_mask = jit_var_mask_peek(B);
        if (base_mask) jit_var_dec_ref(base_mask);
        const char *p = jit_prefix(B);
        if (p) prefix0 = p;
    }
    std::string prefix0;

    /// The last operation might have evaluated what was pending
    void drop_evaluated() {
        for (size_t i = 0; i < pend.size(); ++i)
            if (jit_var_state(pend[i]->var) != (pend[i]->dirty ? VarState::Dirty : VarState::Unevaluated)) {
                if (jit_var_state(pend[i]->var) != VarState::Evaluated)
                    violation("a pending variable is in state %u after an evaluation", (uint32_t) jit_var_state(pend[i]->var));
                late.push_back(std::move(pend[i]));
                pend.erase(pend.begin() + (long) i);
                i--;
            }
    }
    std::vector<std::unique_ptr<Pending>> late;
    void check(const char *after) {
        uint32_t top = jit_var_mask_peek(B), want = masks.empty() ? base_mask : mask_ref.back();
        if (top) jit_var_dec_ref(top);
        SIM_CHECK(top == want, "after %s: top of the mask stack is r%u instead of r%u", after, top, want);
        std::string e = prefix0;
        for (auto &s : prefix) { e += s; e += '/'; }
        const char *p = jit_prefix(B);
        SIM_CHECK(std::string(p ? p : "") == e, "after %s: the prefix is \"%s\" instead of \"%s\"", after, p ? p : "", e.c_str());
        SIM_CHECK(jit_scope(B) == scope, "after %s: the scope is %u instead of %u", after, jit_scope(B), scope);
        SIM_CHECK(jit_flags() == flags, "after %s: the flags are 0x%x instead of 0x%x", after, jit_flags(), flags);
        uint32_t sv = 0, si = 0;
        jit_var_self(B, &sv, &si);
        SIM_CHECK(sv == self_value && (si != 0) == (self_value != 0) && (!self_index || si == self_index),
                  "after %s: current instance is %u (r%u) instead of %u (r%u)", after, sv, si, self_value, self_index);
        for (auto &q : pend) {
            VarState s = jit_var_state(q->var);
            VarState want_s = q->dirty ? VarState::Dirty : VarState::Unevaluated;
            SIM_CHECK(s == want_s, "after %s: a %s variable is in state %u instead of %u", after,
                      q->dirty ? "written" : q->scheduled ? "scheduled" : "unscheduled", (uint32_t) s, (uint32_t) want_s);
        }
        if (text.p)
            SIM_CHECK(text.copy == text.p, "after %s: a string returned to this thread changed from \"%.60s\" to \"%.60s\"", after, text.copy.c_str(), text.p);
    }
};

/// Calls that have to be refused
bool misuse(Client &c, Rng &r, std::string &name) {
    uint32_t n = r.range(2, 40), m = n + r.range(1, 9);
    Vec a(n), b(m), f(n);
    for (auto &x : a) x = (uint32_t) r.next();
    for (auto &x : b) x = (uint32_t) r.next();
    for (auto &x : f) x = rnd_value(r, VarType::Float32);
    bool ev = r.below(2);
    Ref va(ev ? var_from(U32, a, r) : jit_var_counter(B, n)), vb(var_from(U32, b, r)), vf(var_from(VarType::Float32, f, r)), mask(mask_true());
    if (!ev) for (uint32_t i = 0; i < n; ++i) a[i] = i;
    if (!va || !vb) return false;
    uint32_t ra = jit_var_ref(va), rb = jit_var_ref(vb), rf = jit_var_ref(vf);
    VarState sa = jit_var_state(va), sb = jit_var_state(vb), sf = jit_var_state(vf);
    uint32_t d[4] = { va, vb, vf, mask }, res = 0, kind = r.below(30);
    uint64_t tmp = 1;
    bool thrown = false;
    std::string msg;
    uint32_t t = 0, out1 = 0, out2 = 0;
    try {
        switch (kind) {
            case 0: name = "addition of arrays of different size"; res = jit_var_op(JitOp::Add, d); break;
            case 1: name = "addition of different types"; d[1] = vf; res = jit_var_op(JitOp::Add, d); break;
            case 2: name = "read out of bounds"; jit_var_read(va, n + r.below(3), &tmp); break;
            case 3: name = "write out of bounds"; res = jit_var_write(va, n + r.below(3), &tmp); break;
            case 4: name = "growing shrink"; res = jit_var_shrink(va, m); break;
            case 5: name = "resize of an array"; res = jit_var_resize(va, m); break;
            case 6: name = "application of a mask that is no mask"; res = jit_var_mask_apply(va, n); break;
            case 7: name = "any() of a non-mask"; jit_var_any(va); break;
            case 8: name = "all() of a non-mask"; jit_var_all(va); break;
            case 9: name = "compress() of a non-mask"; res = jit_var_compress(va); break;
            case 10: name = "block reduction with block size 0"; res = jit_var_block_reduce(ReduceOp::Add, va, 0, -1); break;
            case 11: name = "reduction using 'and'"; res = jit_var_reduce(B, U32, ReduceOp::And, va); break;
            case 12: name = "reduction with wrong type"; res = jit_var_reduce(B, VarType::Float32, ReduceOp::Add, va); break;
            case 13: name = "dot product of different types"; res = jit_var_reduce_dot(va, vf); break;
            case 14: if (!ev) return false; name = "gather with a non-integer index"; res = jit_var_gather(va, vf, mask); break;
            case 15: name = "scatter of a different type"; res = jit_var_scatter(va, vf, vb, mask, ReduceOp::Identity); break;
            case 16: name = "scatter with index and value of different size"; res = jit_var_scatter(vb, va, vb, mask, ReduceOp::Identity); break;
            case 17: t = vf; jit_var_inc_ref(t); name = "scatter_inc into a float array";
                     try { res = jit_var_scatter_inc(&t, va, mask); } catch (...) { jit_var_dec_ref(t); throw; }
                     jit_var_dec_ref(t); break;
            case 18: t = va; jit_var_inc_ref(t); name = "compare-and-swap with different types";
                     try { jit_var_scatter_cas(&t, va, vf, va, mask, &out1, &out2); } catch (...) { jit_var_dec_ref(t); throw; }
                     jit_var_dec_ref(t); break;
            case 19: name = "label with a newline"; res = jit_var_set_label(va, 1, "a\nb"); break;
            case 20: name = "freeing an unknown address"; jit_free((void *) &tmp); break;
            case 21: name = "length of a non-array"; jit_array_length(va); break;
            case 22: name = "reading a non-array by offset"; res = jit_array_read(va, va, mask); break;
            case 23: name = "write into a non-array by offset"; res = jit_array_write(va, va, va, mask); break;
            case 24: name = "reinterpreting cast to another size"; res = jit_var_cast(va, VarType::UInt64, 1); break;
            case 25: { name = "packet gather of indivisible size"; if (n % 2 == 0) return false; uint32_t o[2] = {}; jit_var_gather_packet(2, va, va, mask, o); break; }
            case 26: name = "select with a non-mask"; d[0] = va; d[1] = va; d[2] = va; res = jit_var_op(JitOp::Select, d); break;
            case 27: name = "negation of a mask"; d[0] = mask; res = jit_var_op(JitOp::Neg, d); break;
            case 28: name = "logical and of a float and a mask of different size"; d[0] = vf; d[1] = vb; res = jit_var_op(JitOp::And, d); break;
            case 29: name = "prefix sum with block size 0"; res = jit_var_block_prefix_reduce(ReduceOp::Add, va, 0, 0, 0); break;
        }
    } catch (const std::exception &e) {
        thrown = true;
        msg = e.what();
    }
    if (!thrown) {
        if (res) jit_var_dec_ref(res);
        violation("%s was accepted", name.c_str());
    }
    SIM_CHECK(!msg.empty(), "%s: error without message", name.c_str());
    // (other variables could be shared with other threads)
    uint32_t ix[3] = { va, vb, vf }, before[3] = { ra, rb, rf };
    VarState st[3] = { sa, sb, sf };
    for (int i = 0; i < 3; ++i)
        SIM_CHECK(st[i] != VarState::Evaluated || jit_var_ref(ix[i]) == before[i], "%s failed (%.100s) and changed a reference count: %u -> %u",
                  name.c_str(), msg.c_str(), before[i], jit_var_ref(ix[i]));
    // the operation might have evaluated its operands before it failed
    SIM_CHECK((jit_var_state(va) == sa || !ev) && jit_var_state(vb) == sb, "%s failed and changed the state of its operands", name.c_str());
    uint32_t k = r.below(n), x = 0;
    if (!jit_flag(JitFlag::SymbolicScope)) {
        jit_var_read(va, k, &x);
        SIM_CHECK(x == (uint32_t) a[k], "%s failed and changed its operand", name.c_str());
    }
    (void) c;
    return true;
}

std::string small_text(const Vec &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + std::to_string((uint32_t) v[i]);
    return s + "]";
}

/// Something that must not affect the state of this thread. Symbolic: while recording
void neutral(Model &m, Client &c, Rng &r, bool symbolic) {
    std::string name;
    bool keep_text = true;
    switch (r.below(symbolic ? 9 : 14)) {
        case 0: name = "a pause"; for (uint32_t i = r.range(1, 6); i; --i) sync_point(); break;
        case 1: name = "jit_sync_thread()"; jit_sync_thread(); break;
        case 2: name = "jit_sync_device()"; jit_sync_device(); break;
        case 3: name = "jit_sync_all_devices()"; jit_sync_all_devices(); break;
        case 4: name = "jit_flush_malloc_cache()"; jit_flush_malloc_cache(); break;
        case 5: name = "jit_malloc()/jit_free()"; jit_free(jit_malloc(r.below(2) ? B : JitBackend::None, r.range(1, 5000), (int) r.below(2) )); break;
        case 6: {
            name = "jit_var_str()";
            Vec v(r.range(1, 12));
            for (auto &x : v) x = (uint32_t) r.next();
            if (symbolic) break;
            Ref x(var_from(U32, v, r));
            if (jit_var_state(x) == VarState::Unevaluated) break;
            const char *s = jit_var_str(x);
            std::string e = small_text(v);
            SIM_CHECK(e == s, "jit_var_str() returned \"%.80s\" instead of \"%.80s\"", s, e.c_str());
            m.text = { s, e };
            keep_text = false;
            break;
        }
        case 7: {
            keep_text = false;
            const char *s = r.below(2) ? jit_var_whos() : jit_var_graphviz();
            name = "jit_var_whos()/jit_var_graphviz()";
            m.text = { s, s };
            break;
        }
        case 8:
            keep_text = false;
            m.text = { nullptr, "" };
            if (!symbolic && !misuse(c, r, name)) return;
            m.drop_evaluated();
            break;
        case 9: name = "jit_flush_kernel_cache()"; jit_flush_kernel_cache(); break;
        case 10: {
            name = "jit_var_read()";
            Vec v(r.range(1, 12));
            for (auto &x : v) x = (uint32_t) r.next();
            Ref x(var_from(U32, v, r));
            void *p;
            Ref y(jit_var_data(x, &p));
            uint32_t k = r.below((uint32_t) v.size()), z = 0;
            // literals: jit_var_data() evaluates, which could be done together with other scheduled variables
            jit_var_read(y, k, &z);
            SIM_CHECK(z == (uint32_t) v[k], "jit_var_read(): wrong value");
            m.drop_evaluated();
            m.text = { nullptr, "" };
            break;
        }
        case 11: {
            name = "a host function";
            jit_enqueue_host_func(B, [](void *) {}, nullptr);
            jit_sync_thread();
            break;
        }
        case 12: name = "jit_set_log_level_stderr()"; (void) jit_log_level_stderr(); (void) jit_kernel_history; break;
        default: {
            name = "an event";
            JitEvent e = jit_event_create(B, 0);
            jit_event_record(e);
            jit_event_wait(e);
            jit_event_destroy(e);
        }
    }
    if (keep_text && r.below(3) == 0) m.text = { nullptr, "" };
    if (!name.empty()) { tracef("client %d:   %s", c.id, name.c_str()); m.check(name.c_str()); }
}

void add_pending(Model &m, Client &c, Rng &r) {
    (void) c;
    auto q = std::make_unique<Pending>();
    uint32_t n = r.range(2, 90);
    q->t = U32;
    q->v.resize(n);
    uint32_t mul = (uint32_t) r.next() | 1;
    Ref cnt(jit_var_counter(B, n)), l(lit(U32, mul));
    uint32_t d[2] = { cnt, l };
    Ref x(jit_var_op(JitOp::Mul, d));
    for (uint32_t i = 0; i < n; ++i) q->v[i] = (uint32_t) (i * mul);
    switch (r.below(4)) {
        case 0: case 1:
            q->scheduled = jit_var_schedule(x);
            q->var = std::move(x);
            break;
        case 2:
            q->var = std::move(x);
            break;
        default: {
            Vec t(n);
            for (auto &e : t) e = (uint32_t) r.next();
            Ref tgt(var_from(U32, t, r)), ix(jit_var_counter(B, n)), mk(mask_true());
            // The current mask stack applies to what is recorded
            Vec act(n, 1);
            if (!m.masks.empty()) {
                // masks on the stack have another size: leave them out
                Ref all(jit_var_mask_default(B, n));
                jit_var_mask_push(B, all);
                tgt = Ref(jit_var_scatter(tgt, x, ix, mk, ReduceOp::Identity));
                jit_var_mask_pop(B);
            } else {
                tgt = Ref(jit_var_scatter(tgt, x, ix, mk, ReduceOp::Identity));
            }
            q->dirty = true;
            q->var = std::move(tgt);
        }
    }
    m.pend.push_back(std::move(q));
}

void verify_pending(Rng &r, std::vector<std::unique_ptr<Pending>> &v, const char *how) {
    for (auto &q : v) {
        for (uint32_t i = 0; i < 4; ++i) {
            uint32_t k = r.below((uint32_t) q->v.size()), x = 0;
            jit_var_read(q->var, k, &x);
            SIM_CHECK(x == (uint32_t) q->v[k], "%s: entry %u of a variable is %u instead of %u", how, k, x, (uint32_t) q->v[k]);
        }
    }
}
}

ENG_OP(STATE, op_state, 3) {
    Model m(c);
    uint32_t flags0 = m.flags, scope0 = m.scope;
    std::vector<uint32_t> saved_scopes;
    if (r.below(2)) jit_eval(); // nothing pending from earlier operations
    for (uint32_t step = r.range(3, 14); step; --step) {
        const char *name = "";
        switch (r.below(13)) {
            case 0: {
                if (m.masks.size() > 3) break;
                uint32_t n = r.range(2, 50);
                Vec v;
                Ref raw(r.below(2) ? mask_true(n) : make_mask(c, r, n, v)); // (not dirty: the push would evaluate)
                if (jit_var_is_dirty(raw)) raw = Ref(mask_true(n));
                if (jit_var_size(raw) == 1) raw = Ref(mask_true(n));
                Ref x(jit_var_mask_apply(raw, (uint32_t) jit_var_size(raw)));
                jit_var_mask_push(B, x);
                m.mask_ref.push_back(x);
                m.masks.push_back(std::move(x));
                name = "jit_var_mask_push()";
                break;
            }
            case 1:
                if (m.masks.empty()) break;
                jit_var_mask_pop(B);
                m.masks.pop_back();
                m.mask_ref.pop_back();
                name = "jit_var_mask_pop()";
                break;
            case 2: {
                if (m.prefix.size() > 3) break;
                std::string s = "c" + std::to_string(c.id) + "_" + std::to_string(r.below(100));
                jit_prefix_push(B, s.c_str());
                m.prefix.push_back(s);
                name = "jit_prefix_push()";
                break;
            }
            case 3:
                if (m.prefix.empty()) break;
                jit_prefix_pop(B);
                m.prefix.pop_back();
                name = "jit_prefix_pop()";
                break;
            case 4: {
                uint32_t s = jit_new_scope(B);
                SIM_CHECK(s > m.scope, "jit_new_scope() returned %u, the scope was %u", s, m.scope);
                m.scope = s;
                name = "jit_new_scope()";
                break;
            }
            case 5: {
                static const JitFlag fl[] = { JitFlag::ConstantPropagation, JitFlag::ValueNumbering, JitFlag::OptimizeLoops, JitFlag::OptimizeCalls,
                                              JitFlag::PrintIR, JitFlag::SymbolicLoops, JitFlag::SymbolicCalls, JitFlag::SymbolicConditionals, JitFlag::PacketOps };
                JitFlag f = fl[r.below(9)];
                if (f == JitFlag::PrintIR) break;
                bool on = r.below(2);
                jit_set_flag(f, on);
                m.flags = on ? m.flags | (uint32_t) f : m.flags & ~(uint32_t) f;
                name = "jit_set_flag()";
                break;
            }
            case 6: {
                m.self_value = r.below(3) ? r.range(1, 1000) : 0;
                m.self_index = 0;
                jit_var_set_self(B, m.self_value, 0);
                uint32_t sv;
                jit_var_self(B, &sv, &m.self_index);
                name = "jit_var_set_self()";
                break;
            }
            case 7: case 8:
                if (m.pend.size() < 5) add_pending(m, c, r);
                name = "recording";
                break;
            case 9: {
                name = "jit_eval()";
                m.check("recording");
                jit_eval();
                std::vector<std::unique_ptr<Pending>> done, rest;
                for (auto &q : m.pend) {
                    bool ev = q->dirty || q->scheduled;
                    VarState s = jit_var_state(q->var), e = ev ? VarState::Evaluated : VarState::Unevaluated;
                    SIM_CHECK(s == e, "after jit_eval(): a %s variable is in state %u instead of %u", q->dirty ? "written" : q->scheduled ? "scheduled" : "unscheduled", (uint32_t) s, (uint32_t) e);
                    (ev ? done : rest).push_back(std::move(q));
                }
                m.pend = std::move(rest);
                if (m.masks.empty()) verify_pending(r, done, "after jit_eval()");
                break;
            }
            case 10: {
                // Label with the current prefix
                Ref x(lit(U32, r.next() & 0xffffff));
                std::string s = "v" + std::to_string(r.below(1000)), e;
                Ref y(jit_var_set_label(x, 1, s.c_str()));
                e = m.prefix0;
                for (auto &p : m.prefix) { e += p; e += '/'; }
                e += s;
                const char *lb = jit_var_label(y);
                if (m.prefix.empty()) SIM_CHECK(lb && s == lb, "label is \"%s\" instead of \"%s\"", lb ? lb : "", s.c_str());
                else SIM_CHECK(lb && strstr(lb, s.c_str()), "label is \"%s\" instead of \"%s\"", lb ? lb : "", e.c_str());
                name = "jit_var_set_label()";
                m.text = { nullptr, "" };
                break;
            }
            default: break;
        }
        if (*name) { tracef("client %d: %s", c.id, name); m.check(name); }
        for (uint32_t i = r.below(3); i; --i) neutral(m, c, r, false);
    }
    m.text = { nullptr, "" };
    while (!m.masks.empty()) { jit_var_mask_pop(B); m.masks.pop_back(); m.mask_ref.pop_back(); m.check("jit_var_mask_pop()"); }
    while (!m.prefix.empty()) { jit_prefix_pop(B); m.prefix.pop_back(); m.check("jit_prefix_pop()"); }
    jit_var_set_self(B, 0, 0);
    m.self_value = m.self_index = 0;
    m.check("jit_var_set_self()");
    jit_set_flags(flags0);
    jit_set_scope(B, m.scope);
    (void) scope0;
    verify_pending(r, m.pend, "at the end");
    verify_pending(r, m.late, "at the end");
    return true;
}

/// Recording sessions that are abandoned or leave the recorded region for a moment
ENG_OP(STATE, op_session, 2) {
    jit_eval();
    Model m(c);
    uint32_t cp[3], depth = r.range(1, 3), eff = 0;
    std::vector<Ref> targets;
    std::vector<Vec> tv;
    std::vector<uint32_t> scopes;
    for (uint32_t i = 0; i < depth; ++i) {
        std::string s = "session" + std::to_string(r.below(100));
        scopes.push_back(m.scope);
        cp[i] = jit_record_begin(B, r.below(2) ? s.c_str() : nullptr);
        m.flags |= (uint32_t) JitFlag::SymbolicScope;
        m.scope = jit_new_scope(B);
        Ref x(mask_true(4)), y(jit_var_mask_apply(x, 4));
        jit_var_mask_push(B, y);
        m.mask_ref.push_back(y);
        m.masks.push_back(std::move(y));
        m.check("jit_record_begin()");
        for (uint32_t k = r.below(3); k; --k) neutral(m, c, r, true);
        if (r.below(3) == 0) {
            // a step that is evaluated right away
            uint32_t tok = jit_eval_scope_enter(B);
            SIM_CHECK(tok == m.scope, "jit_eval_scope_enter() returned %u instead of %u", tok, m.scope);
            SIM_CHECK(!jit_flag(JitFlag::SymbolicScope), "SymbolicScope is set in an evaluated region");
            std::vector<std::unique_ptr<Pending>> v;
            {
                auto q = std::make_unique<Pending>();
                uint32_t n = r.range(2, 60), mul = (uint32_t) r.next() | 1;
                q->v.resize(n);
                Ref cnt(jit_var_counter(B, n)), l(lit(U32, mul));
                uint32_t d[2] = { cnt, l };
                q->var = Ref(jit_var_op(JitOp::Mul, d));
                for (uint32_t i2 = 0; i2 < n; ++i2) q->v[i2] = (uint32_t) (i2 * mul);
                v.push_back(std::move(q));
            }
            if (r.below(2)) { jit_var_schedule(v[0]->var); jit_eval(); }
            else jit_var_eval(v[0]->var);
            SIM_CHECK(jit_var_state(v[0]->var) == VarState::Evaluated, "evaluation inside of jit_eval_scope_enter() had no effect");
            verify_pending(r, v, "in an evaluated region");
            if (r.below(2)) sync_point();
            jit_eval_scope_leave(B, tok);
            m.check("jit_eval_scope_leave()");
        }
        if (r.below(2)) {
            // a side effect that is dropped together with the session
            uint32_t n = 4;
            Vec t(n);
            for (auto &e : t) e = (uint32_t) r.next();
            targets.emplace_back(var_from(U32, t, r));
            tv.push_back(t);
            Ref &tg = targets.back(), ix(jit_var_counter(B, n)), v(lit(U32, 7)), mk(mask_true());
            if (jit_var_state(tg) != VarState::Evaluated && jit_var_state(tg) != VarState::Literal) { targets.pop_back(); tv.pop_back(); continue; }
            tg = Ref(jit_var_scatter(tg, v, ix, mk, ReduceOp::Identity));
            eff++;
        }
        if (r.below(3) == 0) {
            // attempts to evaluate symbolic variables are refused
            Ref in(jit_var_counter(B, 4)), sym(jit_var_call_input(in));
            bool ok = false;
            try { jit_var_eval(sym); } catch (const std::exception &) { ok = true; }
            SIM_CHECK(ok, "evaluation of a symbolic variable was accepted");
            m.check("an attempt to evaluate a symbolic variable");
        }
    }
    for (uint32_t k = r.below(3); k; --k) neutral(m, c, r, true);
    m.text = { nullptr, "" };
    for (uint32_t i = depth; i-- > 0; ) {
        jit_var_mask_pop(B);
        m.masks.pop_back();
        m.mask_ref.pop_back();
        jit_set_scope(B, scopes[i]);
        m.scope = scopes[i];
        jit_record_end(B, cp[i], 1);
        if (i == 0) m.flags &= ~(uint32_t) JitFlag::SymbolicScope;
        m.check("jit_record_end()");
    }
    jit_new_scope(B);
    if (r.below(2)) jit_eval();
    for (size_t i = 0; i < targets.size(); ++i)
        for (uint32_t k = 0; k < tv[i].size(); ++k) {
            uint32_t x = 0;
            jit_var_read(targets[i], k, &x);
            SIM_CHECK(x == (uint32_t) tv[i][k], "a side effect of an abandoned recording was executed: entry %u is %u instead of %u", k, x, (uint32_t) tv[i][k]);
        }
    return true;
}
ENG_OP(STATE, op_misuse, 2) {
    std::string name;
    Model m(c);
    if (!misuse(c, r, name)) return false;
    m.check(name.c_str());
    return true;
}
}
