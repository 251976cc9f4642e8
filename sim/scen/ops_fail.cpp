/* Operations that fail: memory exhaustion inside an evaluation that consists of
   several kernels */
#include "engine.h"
#include <algorithm>
#include <numeric>

namespace eng {
uint32_t make_index(Client &c, Rng &r, uint32_t n, uint32_t m, bool unique, Vec &v);
uint32_t make_mask(Client &c, Rng &r, uint32_t n, Vec &v);

namespace {
const VarType U32 = VarType::UInt32;
enum Kind { PLAIN, WRITE, INC, ADD };
struct Part {
    uint32_t n, m;
    Kind kind;
    Ref var;          ///< the computed value (PLAIN, INC)
    Vec v;            ///< its value (PLAIN)
    Ref target;
    Vec tv, iv, mv, xv;
};
struct NoFaults { NoFaults() { faults_off++; } ~NoFaults() { faults_off--; } };
const uint32_t *data_of(Ref &keep, uint32_t idx) {
    void *p = nullptr;
    keep = Ref(jit_var_data(idx, &p));
    jit_sync_thread();
    return (const uint32_t *) p;
}
}

ENG_OP(FAIL, op_fail_eval, 4) {
    std::vector<Part> parts;
    uint32_t k = r.range(1, 4);
    {
        NoFaults off;
        for (uint32_t i = 0; i < k; ++i) {
            parts.emplace_back();
            Part &p = parts.back();
            p.n = r.below(3) ? r.range(2, 120) : r.range(60, 700);
            if (i && r.below(4) == 0) p.n = parts[0].n;
            p.kind = (Kind) r.below(4);
            p.m = p.n + r.below(20);
            Ref cnt(jit_var_counter(B, p.n)), mul(lit(U32, r.next() & 0xffff)), add(lit(U32, r.next() & 0xffffff));
            uint32_t d[2] = { cnt, mul };
            Ref t(jit_var_op(JitOp::Mul, d));
            d[0] = t; d[1] = add;
            Ref x(jit_var_op(JitOp::Add, d));
            p.xv.resize(p.n);
            uint64_t ml, ad;
            jit_var_read(mul, 0, &ml); jit_var_read(add, 0, &ad);
            for (uint32_t j = 0; j < p.n; ++j) p.xv[j] = (uint32_t) (j * (uint32_t) ml + (uint32_t) ad);
            if (p.kind == PLAIN) {
                p.var = std::move(x);
                p.v = p.xv;
                continue;
            }
            p.tv.resize(p.m);
            for (auto &e : p.tv) e = (uint32_t) r.next();
            p.target = Ref(var_from(U32, p.tv, r));
            Ref idx(make_index(c, r, p.n, p.m, p.kind == WRITE, p.iv)), mask(make_mask(c, r, p.n, p.mv));
            // operands with pending writes would evaluate part of the program now
            if (jit_var_state(idx) == VarState::Dirty || jit_var_state(mask) == VarState::Dirty) jit_eval();
            if (p.kind == INC) {
                uint32_t ti = p.target.release();
                p.var = Ref(jit_var_scatter_inc(&ti, idx, mask));
                p.target = Ref(ti);
                jit_var_schedule(p.var); // later operands could trigger an evaluation
            } else {
                p.target = Ref(jit_var_scatter(p.target, x, idx, mask, p.kind == WRITE ? ReduceOp::Identity : ReduceOp::Add));
            }
        }
        for (Part &p : parts)
            if (p.var) jit_var_schedule(p.var);
        if (r.below(3)) jit_flush_malloc_cache();
    }
    alloc_fail_more = r.below(3) ? r.range(1, 4) : 0;
    alloc_fail_at = choose(4 * k + 4);
    std::exception_ptr err;
    try {
        jit_eval();
    } catch (const std::exception &e) {
        tracef("client %d: jit_eval(): exception: %.200s", c.id, e.what());
        err = std::current_exception();
    }
    alloc_fail_at = alloc_fail_left = 0;
    NoFaults off;
    // Memory that becomes available now must not be used by what still runs
    std::vector<Part> extra;
    for (uint32_t i = 0, q = err ? r.range(0, 5) : 0; i < q; ++i) {
        extra.emplace_back();
        Part &e = extra.back();
        Part &p = parts[r.below(k)];
        e.v.resize(p.n);
        for (auto &x : e.v) x = (uint32_t) r.next();
        e.var = Ref(var_from(U32, e.v, r));
    }
    std::vector<uint32_t> order(k);
    std::iota(order.begin(), order.end(), 0);
    for (uint32_t i = k; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    for (uint32_t o : order) {
        Part &p = parts[o];
        Ref a, b;
        bool lost = false;
        if (p.kind == INC && err && jit_var_state(p.var) == VarState::Unevaluated) {
            // may be refused, but must not increment twice
            try {
                jit_var_schedule(p.var);
            } catch (const std::exception &e) {
                SIM_CHECK(strstr(e.what(), "can only be evaluated once"), "unexpected error: %s", e.what());
                lost = true;
            }
        }
        if (p.kind == PLAIN) {
            const uint32_t *d = data_of(a, p.var);
            for (uint32_t i = 0; i < p.n; ++i)
                SIM_CHECK(d[i] == p.v[i], "value after %s evaluation: entry %u of %u is %u instead of %u", err ? "a failed" : "an", i, p.n, d[i], (uint32_t) p.v[i]);
            continue;
        }
        const uint32_t *o_ = p.kind == INC && !lost ? data_of(b, p.var) : nullptr;
        const uint32_t *t = data_of(a, p.target);
        Vec once(p.tv);
        std::vector<Vec> seen(p.m);
        for (uint32_t i = 0; i < p.n; ++i) {
            if (!p.mv[i]) continue;
            uint64_t &e = once[p.iv[i]];
            switch (p.kind) {
                case WRITE: e = p.xv[i]; break;
                case ADD: e = (uint32_t) (e + p.xv[i]); break;
                default: e = (uint32_t) (e + 1); if (o_) seen[p.iv[i]].push_back(o_[i]); break;
            }
        }
        bool none = true, all = true;
        uint32_t bad = 0;
        for (uint32_t j = 0; j < p.m; ++j) {
            none &= t[j] == p.tv[j];
            if (t[j] != once[j]) { all = false; bad = j; }
        }
        if (o_) {
            for (uint32_t j = 0; j < p.m; ++j) {
                std::sort(seen[j].begin(), seen[j].end(), [&](uint64_t x, uint64_t y) { return (uint32_t) (x - p.tv[j]) < (uint32_t) (y - p.tv[j]); });
                for (size_t q = 0; q < seen[j].size(); ++q)
                    SIM_CHECK((uint32_t) seen[j][q] == (uint32_t) (p.tv[j] + q),
                              "scatter_inc in %s evaluation: counter %u handed out %u instead of %u", err ? "a failed" : "an", j, (uint32_t) seen[j][q], (uint32_t) (p.tv[j] + q));
            }
            none = false; // its results were requested
        }
        SIM_CHECK(all || (err && none), "side effect (kind %d) of %s evaluation: entry %u is %u, which is neither the old (%u) nor the new value (%u) of the target",
                  p.kind, err ? "a failed" : "an", bad, t[bad], (uint32_t) p.tv[bad], (uint32_t) once[bad]);
    }
    for (Part &e : extra) {
        Ref a;
        const uint32_t *d = data_of(a, e.var);
        for (size_t i = 0; i < e.v.size(); ++i)
            SIM_CHECK(d[i] == e.v[i], "memory allocated after a failed evaluation: entry %zu is %u instead of %u", i, d[i], (uint32_t) e.v[i]);
    }
    if (err) std::rethrow_exception(err);
    return true;
}

/// A write that is part of a recording cannot be performed yet: any use of the
/// written array as an operand must be refused, and nothing is left behind once
/// the recording is abandoned
ENG_OP(SCATTER, op_recorded_write, 1) {
    uint32_t n = r.range(2, 60);
    Vec xv(n), av(n), bv(n), mv(n), zv(n);
    for (uint32_t i = 0; i < n; ++i) {
        xv[i] = r.below(n); av[i] = r.range(2, 99); bv[i] = r.range(2, 99); mv[i] = r.below(2); zv[i] = r.below(1000);
    }
    mv[0] = 0; mv[1] = 1;
    uint32_t use = r.below(16);
    bool is_mask = use == 4 || use == 8 || use == 11 || use == 14;
    Vec xb(n);
    for (uint32_t i = 0; i < n; ++i) xb[i] = xv[i] & 1;
    VarType t = is_mask ? VarType::Bool : U32;
    Ref x(var_from(t, is_mask ? xb : xv, r)), a(var_from(U32, av, r)), b(var_from(U32, bv, r)),
        m(var_from(VarType::Bool, mv, r)), z(var_from(U32, zv, r)), mt(mask_true());
    Ref arr;
    if (use == 12 || use == 13 || use == 14) {
        Ref init(lit(U32, 3, n)), raw(jit_array_create(B, U32, n, 128));
        arr = Ref(jit_array_init(raw, init));
    }
    const char *name = "";
    uint32_t res = 0, o[2] = { 0, 0 };
    bool thrown = false;
    uint32_t cp = jit_record_begin(B, "hazard");
    {
        Ref i(lit(U32, r.below(n))), l(lit(t, is_mask ? r.below(2) : r.range(100, 200)));
        Ref y(jit_var_scatter(x, l, i, mt, ReduceOp::Identity, ReduceMode::Auto)); // writes to 'x' or a copy
        uint32_t d[3];
        try {
            switch (use) {
                case 0: name = "unary operation"; d[0] = y; res = jit_var_op(JitOp::Not, d); break;
                case 1: name = "first factor of a multiply-add"; d[0] = y; d[1] = a; d[2] = b; res = jit_var_op(JitOp::Fma, d); break;
                case 2: name = "second factor of a multiply-add"; d[0] = a; d[1] = y; d[2] = b; res = jit_var_op(JitOp::Fma, d); break;
                case 3: name = "addend of a multiply-add"; d[0] = a; d[1] = b; d[2] = y; res = jit_var_op(JitOp::Fma, d); break;
                case 4: name = "mask of a selection"; d[0] = y; d[1] = a; d[2] = b; res = jit_var_op(JitOp::Select, d); break;
                case 5: name = "last operand of a selection"; d[0] = m; d[1] = a; d[2] = y; res = jit_var_op(JitOp::Select, d); break;
                case 6: name = "source of a gather"; res = jit_var_gather(y, b, m); break;
                case 7: name = "index of a gather"; res = jit_var_gather(a, y, m); break;
                case 8: name = "mask of a gather"; res = jit_var_gather(a, b, y); break;
                case 9: name = "value of a scatter"; res = jit_var_scatter(z, y, a, m, r.below(2) ? ReduceOp::Add : ReduceOp::Identity, ReduceMode::Auto); break;
                case 10: name = "index of a scatter"; res = jit_var_scatter(z, a, y, m, r.below(2) ? ReduceOp::Add : ReduceOp::Identity, ReduceMode::Auto); break;
                case 11: name = "mask of a scatter"; res = jit_var_scatter(z, a, b, y, r.below(2) ? ReduceOp::Add : ReduceOp::Identity, ReduceMode::Auto); break;
                case 12: name = "offset of a local array access"; res = r.below(2) ? jit_array_read(arr, y, m) : jit_array_write(arr, y, a, m); break;
                case 13: name = "value written to a local array"; res = jit_array_write(arr, a, y, m); break;
                case 14: name = "mask of a local array access"; res = r.below(2) ? jit_array_read(arr, a, y) : jit_array_write(arr, a, b, y); break;
                default: {
                    name = "value of a packet scatter";
                    if (n % 2) { thrown = true; break; }
                    o[0] = a; o[1] = y;
                    Ref k(lit(U32, n / 2)), ix(jit_var_mod(b, k));
                    res = jit_var_scatter_packet(2, z, o, ix, m, r.below(2) ? ReduceOp::Add : ReduceOp::Identity, ReduceMode::Auto);
                }
            }
        } catch (const std::bad_alloc &) {
            thrown = true;
        } catch (const std::exception &) {
            thrown = true;
        }
        if (res) jit_var_dec_ref(res);
    }
    jit_record_end(B, cp, 1);
    SIM_CHECK(thrown, "array with a write that is part of an unfinished recording was accepted as %s", name);
    // A copy might be the one that is used from here on
    if (r.below(2)) { c.add(x.release(), t, Vec(is_mask ? xb : xv)); }
    if (r.below(2)) { c.add(z.release(), U32, std::move(zv)); }
    if (r.below(3) == 0) c.add(a.release(), U32, std::move(av));
    return true;
}
}
