/* Variable creation, arithmetic, gathers, scatters, scheduling, aliasing */
#include "engine.h"
#include <algorithm>
#include <numeric>

namespace eng {
// ---------------------------------------------------------------- creation
ENG_OP(MAKE, op_literal, 2) {
    VarType t = rnd_type(c, r, true, true);
    uint64_t v = rnd_value(r, t);
    uint32_t n = rnd_size(c, r);
    uint32_t i = jit_var_literal(B, t, &v, n, r.below(5) == 0);
    c.add(i, t, Vec(n, v));
    return true;
}
ENG_OP(MAKE, op_counter, 2) {
    uint32_t n = c.sizes[r.below(3)];
    Vec v(n);
    std::iota(v.begin(), v.end(), 0);
    c.add(jit_var_counter(B, n), VarType::UInt32, std::move(v));
    return true;
}
ENG_OP(MAKE, op_memory, 4) {
    VarType t = rnd_type(c, r, true, true);
    Vec v(rnd_size(c, r));
    for (auto &x : v) x = rnd_value(r, t);
    uint32_t i = var_from(t, v, r);
    c.add(i, t, std::move(v));
    return true;
}
ENG_OP(MAKE, op_full_vector, 1) { // literal immediately materialised
    VarType t = rnd_type(c, r, true, true);
    uint64_t v = rnd_value(r, t);
    uint32_t n = rnd_size(c, r);
    Ref l(lit(t, v, n));
    int rv;
    uint32_t i = jit_var_schedule_force(l, &rv);
    if (rv) jit_eval();
    c.add(i, t, Vec(n, v));
    return true;
}
ENG_OP(MAKE, op_device_copy, 1) {
    Slot *s = c.pick(r);
    if (!s) return op_memory(c, r);
    void *p;
    Ref d(jit_var_data(s->idx, &p));
    s->pend = 0;
    uint32_t i = jit_var_mem_copy(B, s->vt, p, s->n(), 0);
    VarType t = s->vt; Vec v = s->v;
    c.add(i, t, std::move(v));
    return true;
}

// -------------------------------------------------------------- arithmetic
static bool unop(VarType t, JitOp op, uint64_t a, uint64_t &o) {
    uint32_t b = tbits(t);
    if (is_float(t)) {
        double x = to_d(t, a);
        switch (op) {
            case JitOp::Neg: return from_d(t, -x, o);
            case JitOp::Abs: return from_d(t, x < 0 ? -x : x, o);
            case JitOp::Floor: case JitOp::Ceil: case JitOp::Round: case JitOp::Trunc: return from_d(t, x, o);
            default: return false;
        }
    }
    if (t == VarType::Bool) { if (op != JitOp::Not) return false; o = !a; return true; }
    switch (op) {
        case JitOp::Neg: if (!is_signed(t)) return false; o = wrap(t, 0 - a); return true;
        case JitOp::Not: o = wrap(t, ~a); return true;
        case JitOp::Abs: { if (!is_signed(t)) return false; int64_t x = sext(t, a); o = wrap(t, (uint64_t) (x < 0 ? 0 - (uint64_t) x : (uint64_t) x)); return a != 1ull << (b - 1); }
        case JitOp::Popc: if (b < 32) return false; o = (uint64_t) __builtin_popcountll(a); return true;
        case JitOp::Clz: if (b < 32) return false; o = a == 0 ? b : (uint64_t) __builtin_clzll(a) - (64 - b); return true;
        case JitOp::Ctz: if (b < 32) return false; o = a == 0 ? b : (uint64_t) __builtin_ctzll(a); return true;
        case JitOp::Brev: { if (b < 32) return false; uint64_t x = 0; for (uint32_t i = 0; i < b; ++i) if (a >> i & 1) x |= 1ull << (b - 1 - i); o = x; return true; }
        default: return false;
    }
}
ENG_OP(ARITH, op_unary, 2) {
    static const JitOp ops[] = { JitOp::Neg, JitOp::Not, JitOp::Abs, JitOp::Popc, JitOp::Clz, JitOp::Ctz, JitOp::Brev,
                                 JitOp::Floor, JitOp::Ceil, JitOp::Round, JitOp::Trunc };
    Slot *s = c.pick(r);
    if (!s) return false;
    for (int k = 0; k < 20; ++k) {
        JitOp op = ops[r.below(11)];
        Vec v(s->n());
        bool ok = true;
        for (size_t i = 0; i < v.size() && ok; ++i) ok = unop(s->vt, op, s->v[i], v[i]);
        if (!ok) continue;
        uint32_t d = s->idx;
        VarType t = s->vt;
        s->pend = 0;
        c.add(jit_var_op(op, &d), t, std::move(v));
        return true;
    }
    return false;
}
static bool binop(VarType t, JitOp op, uint64_t a, uint64_t b, uint64_t &o) {
    uint32_t nb = tbits(t);
    if (t == VarType::Bool) {
        switch (op) {
            case JitOp::And: o = a & b; return true;
            case JitOp::Or: o = a | b; return true;
            case JitOp::Xor: o = a ^ b; return true;
            default: return false;
        }
    }
    if (is_float(t)) {
        double x = to_d(t, a), y = to_d(t, b);
        switch (op) {
            case JitOp::Add: return from_d(t, x + y, o);
            case JitOp::Sub: return from_d(t, x - y, o);
            case JitOp::Mul: return from_d(t, x * y, o);
            case JitOp::Min: case JitOp::FMin: return from_d(t, std::min(x, y), o);
            case JitOp::Max: case JitOp::FMax: return from_d(t, std::max(x, y), o);
            default: return false;
        }
    }
    int64_t x = sext(t, a), y = sext(t, b);
    switch (op) {
        case JitOp::Add: o = wrap(t, a + b); return true;
        case JitOp::Sub: o = wrap(t, a - b); return true;
        case JitOp::Mul: o = wrap(t, a * b); return true;
        case JitOp::And: o = a & b; return true;
        case JitOp::Or: o = a | b; return true;
        case JitOp::Xor: o = a ^ b; return true;
        case JitOp::Min: o = is_signed(t) ? wrap(t, (uint64_t) std::min(x, y)) : std::min(a, b); return true;
        case JitOp::Max: o = is_signed(t) ? wrap(t, (uint64_t) std::max(x, y)) : std::max(a, b); return true;
        case JitOp::Div: case JitOp::Mod:
            if (b == 0 || (is_signed(t) && y == -1)) return false;
            if (is_signed(t)) o = wrap(t, (uint64_t) (op == JitOp::Div ? x / y : x % y));
            else o = op == JitOp::Div ? a / b : a % b;
            return true;
        case JitOp::MulHi:
            if (nb < 32) return false;
            if (is_signed(t)) o = wrap(t, (uint64_t) (((__int128) x * (__int128) y) >> nb));
            else o = wrap(t, (uint64_t) (((unsigned __int128) a * (unsigned __int128) b) >> nb));
            return true;
        case JitOp::Shl: if (b >= nb) return false; o = wrap(t, a << b); return true;
        case JitOp::Shr: if (b >= nb) return false; o = is_signed(t) ? wrap(t, (uint64_t) (x >> b)) : a >> b; return true;
        default: return false;
    }
}
ENG_OP(ARITH, op_binary, 8) {
    static const JitOp ops[] = { JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::And, JitOp::Or, JitOp::Xor, JitOp::Min,
                                 JitOp::Max, JitOp::Div, JitOp::Mod, JitOp::MulHi, JitOp::Shl, JitOp::Shr,
                                 JitOp::FMin, JitOp::FMax };
    Slot *a = c.pick(r);
    if (!a) return false;
    Slot *b = c.pick_t(r, a->vt, a->n());
    Ref tmp;
    Slot lb;
    if (!b || r.below(6) == 0) {
        uint64_t v = rnd_value(r, a->vt);
        tmp = Ref(lit(a->vt, v));
        lb.idx = tmp; lb.vt = a->vt; lb.v = { v };
        b = &lb;
    }
    size_t n = std::max(a->n(), b->n());
    for (int k = 0; k < 12; ++k) {
        JitOp op = ops[r.below(15)];
        Vec v(n);
        bool ok = true;
        for (size_t i = 0; i < n && ok; ++i)
            ok = binop(a->vt, op, a->v[a->n() == 1 ? 0 : i], b->v[b->n() == 1 ? 0 : i], v[i]);
        if (!ok) continue;
        uint32_t d[2] = { a->idx, b->idx };
        VarType t = a->vt;
        a->pend = b->pend = 0;
        c.add(jit_var_op(op, d), t, std::move(v));
        return true;
    }
    return false;
}
ENG_OP(ARITH, op_fma, 1) {
    Slot *a = c.pick(r);
    if (!a || a->vt == VarType::Bool) return false;
    Slot *b = c.pick_t(r, a->vt, a->n()), *d = c.pick_t(r, a->vt, a->n());
    size_t n = std::max(std::max(a->n(), b->n()), d->n());
    Vec v(n);
    for (size_t i = 0; i < n; ++i) {
        uint64_t t;
        if (!binop(a->vt, JitOp::Mul, a->v[a->n() == 1 ? 0 : i], b->v[b->n() == 1 ? 0 : i], t) ||
            !binop(a->vt, JitOp::Add, t, d->v[d->n() == 1 ? 0 : i], v[i]))
            return false;
    }
    VarType t = a->vt;
    a->pend = b->pend = d->pend = 0;
    c.add(jit_var_fma(a->idx, b->idx, d->idx), t, std::move(v));
    return true;
}
ENG_OP(ARITH, op_mul_wide, 1) {
    Slot *a = c.pick_t(r, r.below(2) ? VarType::UInt32 : VarType::Int32);
    if (!a) return false;
    Slot *b = c.pick_t(r, a->vt, a->n());
    size_t n = std::max(a->n(), b->n());
    Vec v(n);
    for (size_t i = 0; i < n; ++i)
        v[i] = (uint64_t) (sext(a->vt, a->v[a->n() == 1 ? 0 : i]) * sext(b->vt, b->v[b->n() == 1 ? 0 : i]));
    VarType t = a->vt == VarType::UInt32 ? VarType::UInt64 : VarType::Int64;
    a->pend = b->pend = 0;
    c.add(jit_var_mul_wide(a->idx, b->idx), t, std::move(v));
    return true;
}
ENG_OP(ARITH, op_compare, 3) {
    Slot *a = c.pick(r);
    if (!a) return false;
    Slot *b = c.pick_t(r, a->vt, a->n());
    size_t n = std::max(a->n(), b->n());
    uint32_t k = r.below(a->vt == VarType::Bool ? 2 : 6);
    Vec v(n);
    for (size_t i = 0; i < n; ++i) {
        uint64_t x = a->v[a->n() == 1 ? 0 : i], y = b->v[b->n() == 1 ? 0 : i];
        int cmp;
        if (is_float(a->vt)) { double p = to_d(a->vt, x), q = to_d(a->vt, y); cmp = p < q ? -1 : p > q; }
        else if (is_signed(a->vt)) { int64_t p = sext(a->vt, x), q = sext(a->vt, y); cmp = p < q ? -1 : p > q; }
        else cmp = x < y ? -1 : x > y;
        bool o = k == 0 ? cmp == 0 : k == 1 ? cmp != 0 : k == 2 ? cmp < 0 : k == 3 ? cmp <= 0 : k == 4 ? cmp > 0 : cmp >= 0;
        v[i] = o;
    }
    static const JitOp ops[] = { JitOp::Eq, JitOp::Neq, JitOp::Lt, JitOp::Le, JitOp::Gt, JitOp::Ge };
    uint32_t d[2] = { a->idx, b->idx };
    a->pend = b->pend = 0;
    c.add(jit_var_op(ops[k], d), VarType::Bool, std::move(v));
    return true;
}
ENG_OP(ARITH, op_select, 3) {
    Slot *m = c.pick_t(r, VarType::Bool);
    if (!m) return op_compare(c, r);
    size_t mn = m->n();
    Slot *a = nullptr;
    for (int k = 0; k < 10 && !a; ++k) {
        a = c.pick(r);
        if (mn != 1 && a->n() != 1 && a->n() != mn) a = nullptr;
    }
    if (!a) return false;
    size_t n = std::max(mn, a->n());
    Slot *b = c.pick_t(r, a->vt, n);
    if (!b) return false;
    Vec v(n);
    for (size_t i = 0; i < n; ++i)
        v[i] = m->v[mn == 1 ? 0 : i] ? a->v[a->n() == 1 ? 0 : i] : b->v[b->n() == 1 ? 0 : i];
    VarType t = a->vt;
    m->pend = a->pend = b->pend = 0;
    c.add(jit_var_select(m->idx, a->idx, b->idx), t, std::move(v));
    return true;
}
ENG_OP(ARITH, op_cast, 3) {
    Slot *a = c.pick(r);
    if (!a) return false;
    for (int k = 0; k < 10; ++k) {
        VarType t = rnd_type(c, r, true, true);
        if (t == a->vt) continue;
        if (t == VarType::Bool && is_float(a->vt)) continue;
        bool reinterpret = tsize(t) == tsize(a->vt) && t != VarType::Bool && a->vt != VarType::Bool && r.below(3) == 0;
        if (reinterpret && (is_float(t) || is_float(a->vt))) {
            bool ok = is_int(t); // float -> int bit pattern: no zeros (sign is not modelled)
            if (ok) for (uint64_t x : a->v) if (to_d(a->vt, x) == 0) ok = false;
            if (!ok) continue;
        }
        Vec v(a->n());
        bool ok = true;
        for (size_t i = 0; i < v.size() && ok; ++i) {
            uint64_t x = a->v[i];
            if (reinterpret) v[i] = x;
            else if (is_float(t)) ok = from_d(t, a->vt == VarType::Bool ? (double) (x != 0) : to_d(a->vt, x), v[i]);
            else if (is_float(a->vt)) {
                double d = to_d(a->vt, x);
                double lo = is_signed(t) ? -std::min(4e15, (double) (1ull << (tbits(t) - 1))) : 0;
                double hi = std::min(4e15, is_signed(t) ? (double) (1ull << (tbits(t) - 1)) - 1 : tbits(t) == 64 ? 4e15 : (double) ((1ull << tbits(t)) - 1));
                ok = d >= lo && d <= hi;
                if (ok) v[i] = wrap(t, (uint64_t) (int64_t) d);
            } else if (t == VarType::Bool) v[i] = x != 0;
            else v[i] = wrap(t, (uint64_t) sext(a->vt, x));
        }
        if (!ok) continue;
        a->pend = 0;
        c.add(jit_var_cast(a->idx, t, reinterpret), t, std::move(v));
        return true;
    }
    return false;
}
ENG_OP(ARITH, op_resize, 1) {
    Slot *a = c.pick(r, [](const Slot &s) { return s.n() == 1; });
    if (!a) return false;
    uint32_t n = c.sizes[r.below(3)];
    VarType t = a->vt;
    Vec v(n, a->v[0]);
    a->pend = 0;
    // May modify a variable with a single reference in place (documented)
    Ref hold;
    if (r.below(2)) {
        jit_var_inc_ref(a->idx);
        hold = Ref(a->idx);
    }
    Ref res(jit_var_resize(a->idx, n));
    if (!hold && res.i == a->idx) a->v = v;
    c.add(res.release(), t, std::move(v));
    return true;
}

// ------------------------------------------------------------ index helpers
/// Creates an index variable of size n with entries below m; optionally unique
/// Variable with known contents whose last writes may be pending
uint32_t fresh_var(Rng &r, VarType t, const Vec &v) {
    if (r.below(8) || v.size() < 2) return var_from(t, v, r);
    Vec w = v;
    uint32_t at = r.below((uint32_t) w.size());
    w[at] = t == VarType::Bool ? !v[at] : t == VarType::UInt32 ? 0 : w[at == 0 ? 1 : at - 1];
    uint32_t index = var_from(t, w, r);
    Ref k(lit(VarType::UInt32, at)), m(mask_true()), l(lit(t, v[at]));
    uint32_t res = jit_var_scatter(index, l, k, m, ReduceOp::Identity, ReduceMode::Auto);
    jit_var_dec_ref(index);
    return res;
}

uint32_t make_index(Client &c, Rng &r, uint32_t n, uint32_t m, bool unique, Vec &v) {
    v.resize(n);
    if (unique) {
        if (r.below(2)) {
            std::vector<uint32_t> p(m);
            std::iota(p.begin(), p.end(), 0u);
            for (uint32_t i = m; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
            for (uint32_t i = 0; i < n; ++i) v[i] = p[i];
            return fresh_var(r, VarType::UInt32, v);
        }
        uint32_t a;
        do a = r.range(1, std::max(1u, m)); while (std::gcd(a, m) != 1);
        uint32_t b = r.below(m);
        for (uint32_t i = 0; i < n; ++i) v[i] = (i * a + b) % m;
        Ref ct(n == 1 ? lit(VarType::UInt32, 0) : jit_var_counter(B, n)), la(lit(VarType::UInt32, a)), lb(lit(VarType::UInt32, b)),
            lm(lit(VarType::UInt32, m));
        Ref x(jit_var_mul(ct, la)), y(jit_var_add(x, lb));
        return jit_var_mod(y, lm);
    }
    switch (r.below(5)) {
        case 0: { // some existing integer variable
            Slot *s = c.pick_t(r, VarType::UInt32, n, false);
            if (s) {
                for (uint32_t i = 0; i < n; ++i) v[i] = s->v[i] % m;
                Ref lm(lit(VarType::UInt32, m));
                s->pend = 0;
                return jit_var_mod(s->idx, lm);
            }
            [[fallthrough]];
        }
        case 1: { // random memory
            for (auto &x : v) x = r.below(m);
            return fresh_var(r, VarType::UInt32, v);
        }
        case 2: { // strongly conflicting
            uint32_t k = r.range(1, std::min(4u, m));
            for (uint32_t i = 0; i < n; ++i) v[i] = i % k;
            Ref ct(n == 1 ? lit(VarType::UInt32, 0) : jit_var_counter(B, n)), lm(lit(VarType::UInt32, k));
            return jit_var_mod(ct, lm);
        }
        case 3: { // runs
            uint32_t k = r.range(1, 9);
            for (uint32_t i = 0; i < n; ++i) v[i] = (i / k) % m;
            Ref ct(n == 1 ? lit(VarType::UInt32, 0) : jit_var_counter(B, n)), lk(lit(VarType::UInt32, k)), lm(lit(VarType::UInt32, m));
            Ref q(jit_var_div(ct, lk));
            return jit_var_mod(q, lm);
        }
        default: { // all the same
            uint32_t k = r.below(m);
            for (auto &x : v) x = k;
            return lit(VarType::UInt32, k, n);
        }
    }
}
uint32_t make_mask(Client &c, Rng &r, uint32_t n, Vec &v) {
    v.assign(n, 1);
    switch (r.below(5)) {
        case 0: {
            for (auto &x : v) x = r.below(2);
            return fresh_var(r, VarType::Bool, v);
        }
        case 1: {
            Slot *s = c.pick_t(r, VarType::Bool, n);
            if (s) {
                for (uint32_t i = 0; i < n; ++i) v[i] = s->v[s->n() == 1 ? 0 : i] != 0;
                s->pend = 0;
                return jit_var_inc_ref(s->idx);
            }
            return mask_true(1);
        }
        case 2: {
            uint32_t k = r.below(n + 1);
            for (uint32_t i = 0; i < n; ++i) v[i] = i < k;
            if (n == 1) { v[0] = 1; return mask_true(1); }
            Ref ct(jit_var_counter(B, n)), l(lit(VarType::UInt32, k));
            return jit_var_lt(ct, l);
        }
        default: return mask_true(r.below(2) ? 1 : n);
    }
}

// ------------------------------------------------------------------ gather
ENG_OP(GATHER, op_gather, 4) {
    Slot *s = c.pick(r);
    if (!s) return false;
    uint32_t n = rnd_size(c, r);
    Vec iv, mv;
    Ref idx(make_index(c, r, n, (uint32_t) s->n(), false, iv)), mask(make_mask(c, r, n, mv));
    Vec v(n);
    for (uint32_t i = 0; i < n; ++i) v[i] = mv[i] ? s->v[iv[i]] : 0;
    VarType t = s->vt;
    s->pend = 0;
    uint32_t res = jit_var_gather(s->idx, idx, mask);
    c.add(res, t, std::move(v));
    return true;
}
ENG_OP(GATHER, op_gather_packet, 1) {
    Slot *s = c.pick(r, [](const Slot &x) { return x.n() >= 8; });
    if (!s) return false;
    static const uint32_t ks[] = { 2, 4, 8, 3, 16, 6 };
    uint32_t k = ks[r.below(6)], m = (uint32_t) s->n() / k;
    if (m == 0) return false;
    if (m * k != s->n()) return false;
    uint32_t n = rnd_size(c, r);
    Vec iv, mv;
    Ref idx(make_index(c, r, n, m, false, iv)), mask(make_mask(c, r, n, mv));
    VarType t = s->vt;
    s->pend = 0;
    uint32_t out[16];
    Vec src = s->v;
    jit_var_gather_packet(k, s->idx, idx, mask, out);
    uint32_t keep = r.below(k);
    for (uint32_t j = 0; j < k; ++j) {
        Vec v(n);
        for (uint32_t i = 0; i < n; ++i) v[i] = mv[i] ? src[iv[i] * k + j] : 0;
        if (j == keep || (j < 3 && r.below(2))) c.add(out[j], t, std::move(v));
        else jit_var_dec_ref(out[j]);
    }
    return true;
}
ENG_OP(GATHER, op_reverse, 1) {
    Slot *s = c.pick(r);
    if (!s) return false;
    Vec v(s->v.rbegin(), s->v.rend());
    VarType t = s->vt;
    s->pend = 0;
    c.add(jit_var_reverse(s->idx), t, std::move(v));
    return true;
}
ENG_OP(GATHER, op_shrink, 1) {
    Slot *s = c.pick(r, [](const Slot &x) { return x.n() > 1; });
    if (!s) return false;
    uint32_t n = r.range(1, (uint32_t) s->n());
    Vec v(s->v.begin(), s->v.begin() + n);
    VarType t = s->vt;
    s->pend = 0;
    c.add(jit_var_shrink(s->idx, n), t, std::move(v)).view = true;
    return true;
}

// ----------------------------------------------------------------- scatter
/// Plain writes are ordered after pending side effects by the library, unless
/// the caller guarantees that there are no conflicts ('promise')
static void order_write(Client &c, Slot &s, const Vec &iv, const Vec &mv, bool promise) {
    c.refresh(s);
    bool conflict = s.pend > 1;
    if (s.pend == 1) {
        for (size_t i = 0; i < iv.size(); ++i)
            if (mv[i] && s.touched[iv[i]]) conflict = true;
    }
    if (promise && conflict) c.settle(s);
    if (!s.pend || !promise) s.touched.assign(s.n(), 0);
    s.pend = 1;
    for (size_t i = 0; i < iv.size(); ++i)
        if (mv[i]) s.touched[iv[i]] = 1;
}
/// Reductions of the same kind commute, anything else must be evaluated first.
/// The same applies to atomic updates of an array that is in expanded form.
static void order_reduce(Client &c, Slot &s, ReduceOp op, ReduceMode mode) {
    c.refresh(s);
    bool expand = mode == ReduceMode::Expand ||
                  (mode == ReduceMode::Auto && s.n() <= jit_llvm_expand_threshold());
    int direct_code = 2 + (int) op, expand_code = 20 + (int) op;
    if (mode == ReduceMode::NoConflicts || (s.pend && s.pend != direct_code && !(s.pend == expand_code && expand)))
        c.settle(s);
    s.pend = mode == ReduceMode::NoConflicts ? 9 : expand ? expand_code : direct_code;
}
ENG_OP(SCATTER, op_scatter, 6) {
    Slot *s = c.pick(r);
    if (!s) return false;
    c.own(*s);
    uint32_t m = (uint32_t) s->n(), n = rnd_size(c, r);
    if (n > m) n = r.range(1, m);
    VarType t = s->vt;
    size_t si = (size_t) (s - c.s.data());
    Vec iv, mv;
    Ref idx(make_index(c, r, n, m, true, iv)), mask(make_mask(c, r, n, mv));
    static const ReduceMode md[] = { ReduceMode::Auto, ReduceMode::Auto, ReduceMode::Direct, ReduceMode::NoConflicts };
    ReduceMode mode = md[r.below(4)];
    order_write(c, *s, iv, mv, mode == ReduceMode::NoConflicts);
    // value: an existing variable or a fresh one
    Slot *x = c.pick_t(r, t, n);
    Ref value;
    Vec vv(n);
    if (x && (n == 1 || x->n() == n || x->n() == 1) && r.below(3)) {
        value = Ref(jit_var_inc_ref(x->idx));
        for (uint32_t i = 0; i < n; ++i) vv[i] = x->v[x->n() == 1 ? 0 : i];
        // reading from the target itself requires pending writes to be done
        if (x == s) return false;
        x->pend = 0;
    } else if (r.below(2)) {
        uint64_t l = rnd_value(r, t);
        value = Ref(lit(t, l));
        vv.assign(n, l);
    } else {
        for (auto &y : vv) y = rnd_value(r, t);
        value = Ref(fresh_var(r, t, vv));
    }
    Slot &d = c.s[si];
    uint32_t res = jit_var_scatter(d.idx, value, idx, mask, ReduceOp::Identity, mode);
    jit_var_dec_ref(d.idx);
    d.idx = res;
    for (uint32_t i = 0; i < n; ++i)
        if (mv[i]) d.v[iv[i]] = vv[i];
    return true;
}
ENG_OP(SCATTER, op_scatter_packet, 1) {
    Slot *s = c.pick(r, [](const Slot &x) { return x.n() >= 8; });
    if (!s) return false;
    c.own(*s);
    static const uint32_t ks[] = { 2, 4, 8 };
    uint32_t k = ks[r.below(3)], m = (uint32_t) s->n() / k;
    if (!m || m * k != s->n()) return false;
    uint32_t n = r.range(1, m);
    VarType t = s->vt;
    bool reduce = r.below(2) && jit_can_scatter_reduce(B, t, ReduceOp::Add);
    Vec iv, mv, iv2, mv2;
    Ref idx(make_index(c, r, n, m, !reduce, iv)), mask(make_mask(c, r, n, mv));
    if (t == VarType::Float16 && reduce) return false;
    size_t si = (size_t) (s - c.s.data());
    for (uint32_t i = 0; i < n; ++i)
        for (uint32_t j = 0; j < k; ++j) { iv2.push_back(iv[i] * k + j); mv2.push_back(mv[i]); }
    Vec nv = s->v;
    uint32_t vals[8];
    std::vector<Ref> keep;
    std::vector<Vec> vv(k, Vec(n));
    for (uint32_t j = 0; j < k; ++j) {
        if (r.below(2)) {
            uint64_t l = rnd_value(r, t);
            vv[j].assign(n, l);
            keep.emplace_back(lit(t, l, n));
        } else {
            for (auto &y : vv[j]) y = rnd_value(r, t);
            keep.emplace_back(fresh_var(r, t, vv[j]));
        }
        vals[j] = keep.back();
    }
    ReduceOp op = reduce ? ReduceOp::Add : ReduceOp::Identity;
    for (uint32_t i = 0; i < n; ++i)
        for (uint32_t j = 0; j < k; ++j)
            if (mv[i] && !red(t, op, nv[iv[i] * k + j], vv[j][i], nv[iv[i] * k + j])) return false;
    if (reduce) {
        order_reduce(c, *s, op, ReduceMode::Auto);
    } else {
        order_write(c, *s, iv2, mv2, false);
    }
    Slot &d = c.s[si];
    uint32_t res = jit_var_scatter_packet(k, d.idx, vals, idx, mask, op, ReduceMode::Auto);
    jit_var_dec_ref(d.idx);
    d.idx = res;
    d.v = nv;
    return true;
}
ENG_OP(SCATTER, op_write, 2) {
    Slot *s = c.pick(r);
    if (!s) return false;
    c.own(*s);
    c.settle(*s);
    size_t k = r.below((uint32_t) s->n());
    uint64_t x = rnd_value(r, s->vt), tmp = x;
    uint32_t res = jit_var_write(s->idx, k, &tmp);
    tmp = 0x5A5A5A5A5A5A5A5Aull;
    jit_var_dec_ref(s->idx);
    s->idx = res;
    s->v[k] = x;
    return true;
}

// ---------------------------------------------------- atomics with reduction
ENG_OP(ATOMIC, op_scatter_reduce, 6) {
    Slot *s = c.pick(r);
    if (!s) return false;
    c.own(*s);
    VarType t = s->vt;
    ReduceOp op = ReduceOp::Identity;
    for (int k = 0; k < 10; ++k) {
        ReduceOp o = (ReduceOp) r.range(1, 6);
        if (jit_can_scatter_reduce(B, t, o) && can_red(t, o)) { op = o; break; }
    }
    if (op == ReduceOp::Identity) return false;
    uint32_t m = (uint32_t) s->n(), n = rnd_size(c, r);
    size_t si = (size_t) (s - c.s.data());
    static const ReduceMode md[] = { ReduceMode::Auto, ReduceMode::Direct, ReduceMode::Local, ReduceMode::Expand,
                                     ReduceMode::NoConflicts };
    ReduceMode mode = md[r.below(5)];
    bool unique = mode == ReduceMode::NoConflicts;
    if (unique && n > m) n = r.range(1, m);
    Vec iv, mv;
    Ref idx(make_index(c, r, n, m, unique, iv)), mask(make_mask(c, r, n, mv));
    Vec vv(n);
    Ref value;
    if (r.below(2)) {
        uint64_t l = rnd_value(r, t);
        vv.assign(n, l);
        value = Ref(lit(t, l));
    } else {
        for (auto &y : vv) y = rnd_value(r, t);
        value = Ref(fresh_var(r, t, vv));
    }
    Vec nv = s->v;
    Vec mag(m, 0);
    for (uint32_t i = 0; i < n; ++i) {
        if (!mv[i]) continue;
        if (!red(t, op, nv[iv[i]], vv[i], nv[iv[i]])) return false;
        if (is_float(t) && op == ReduceOp::Add) { // every partial sum must be exact
            mag[iv[i]] += (uint64_t) std::abs(to_d(t, vv[i]));
            uint64_t dummy;
            if (!from_d(t, (double) mag[iv[i]] + std::abs(to_d(t, s->v[iv[i]])), dummy)) return false;
        }
    }
    order_reduce(c, *s, op, mode);
    Slot &d = c.s[si];
    uint32_t res = jit_var_scatter(d.idx, value, idx, mask, op, mode);
    jit_var_dec_ref(d.idx);
    d.idx = res;
    d.v = nv;
    return true;
}
ENG_OP(ATOMIC, op_scatter_inc, 3) {
    Slot *s = c.pick_t(r, VarType::UInt32);
    if (!s) return false;
    c.own(*s);
    c.settle(*s);
    uint32_t m = (uint32_t) s->n(), n = rnd_size(c, r);
    size_t si = (size_t) (s - c.s.data());
    Vec iv, mv;
    Ref idx(make_index(c, r, n, m, false, iv)), mask(make_mask(c, r, n, mv));
    // read the unevaluated result elsewhere: the increment must happen once
    uint32_t gn = 0;
    Vec giv, gmv;
    Ref gat, gi, gm;
    if (r.below(3) == 0) {
        gn = rnd_size(c, r);
        gi = make_index(c, r, gn, n, false, giv);
        gm = make_mask(c, r, gn, gmv);
        // using a variable with pending writes evaluates: that must not come
        // between the scatter_inc and the gather of its result
        if (jit_var_state(gi) == VarState::Dirty || jit_var_state(gm) == VarState::Dirty) jit_eval();
    }
    Ref old(jit_var_scatter_inc(&c.s[si].idx, idx, mask));
    c.s[si].pend = 9;
    if (gi && jit_var_size(old) == n) gat = Ref(jit_var_gather(old, gi, gm));
    if (r.below(2)) jit_var_eval(old);
    Slot &e = c.s[si];
    std::vector<Vec> seen(m);
    void *p;
    Ref od(jit_var_data(old, &p));
    jit_sync_thread();
    SIM_CHECK(jit_var_size(od) == n || jit_var_size(od) == 1, "scatter_inc: result has size %zu", jit_var_size(od));
    bool sc = jit_var_size(od) == 1;
    for (uint32_t i = 0; i < n; ++i)
        if (mv[i]) seen[iv[i]].push_back(load(VarType::UInt32, p, sc ? 0 : i));
    if (gat) {
        void *pg;
        Ref gd(jit_var_data(gat, &pg));
        jit_sync_thread();
        bool gs = jit_var_size(gd) == 1;
        for (uint32_t i = 0; i < gn; ++i)
            if (gmv[i] && mv[giv[i]])
                SIM_CHECK(load(VarType::UInt32, pg, gs ? 0 : i) == load(VarType::UInt32, p, sc ? 0 : giv[i]),
                          "scatter_inc: reading element %u of the result yields %u instead of %u", (uint32_t) giv[i],
                          (uint32_t) load(VarType::UInt32, pg, gs ? 0 : i), (uint32_t) load(VarType::UInt32, p, sc ? 0 : giv[i]));
    }
    for (uint32_t j = 0; j < m; ++j) {
        std::sort(seen[j].begin(), seen[j].end(), [&](uint64_t a, uint64_t b) { return (uint32_t) (a - e.v[j]) < (uint32_t) (b - e.v[j]); });
        for (size_t q = 0; q < seen[j].size(); ++q)
            SIM_CHECK((uint32_t) seen[j][q] == (uint32_t) (e.v[j] + q),
                      "scatter_inc: counter %u handed out %u instead of %u (%zu updates from %u)", j,
                      (uint32_t) seen[j][q], (uint32_t) (e.v[j] + q), seen[j].size(), (uint32_t) e.v[j]);
        e.v[j] = (uint32_t) (e.v[j] + seen[j].size());
    }
    e.pend = 0;
    return true;
}
static VarType pick_atomic_type(Rng &r) {
    static const VarType t[] = { VarType::UInt32, VarType::Int32, VarType::UInt64, VarType::Int64, VarType::Float32 };
    return t[r.below(5)];
}
ENG_OP(ATOMIC, op_scatter_exch, 2) {
    VarType t = pick_atomic_type(r);
    Slot *s = c.pick_t(r, t);
    if (!s) return false;
    c.own(*s);
    c.settle(*s);
    uint32_t m = (uint32_t) s->n(), n = rnd_size(c, r);
    size_t si = (size_t) (s - c.s.data());
    Vec iv, mv, vv(n);
    Ref idx(make_index(c, r, n, m, false, iv)), mask(make_mask(c, r, n, mv));
    for (uint32_t i = 0; i < n; ++i) // distinct values
        if (is_float(t)) from_d(t, 1000 + i, vv[i]); else vv[i] = wrap(t, 1000000 + i);
    Ref value(fresh_var(r, t, vv));
    Slot &d = c.s[si];
    Ref old(jit_var_scatter_exch(&d.idx, value, idx, mask));
    void *p;
    // returns the target itself when all lanes are masked
    if (std::find(mv.begin(), mv.end(), 1u) == mv.end()) return true;
    d.pend = 9;
    Ref od(jit_var_data(old, &p));
    Ref td(jit_var_data(c.s[si].idx, &p));
    void *po, *pt;
    Ref o2(jit_var_data(od, &po)), t2(jit_var_data(td, &pt));
    jit_sync_thread();
    SIM_CHECK(jit_var_size(od) == n, "scatter_exch: result has size %zu instead of %u", jit_var_size(od), n);
    Slot &e = c.s[si];
    // per element: {old values} + {final} == {initial} + {written values}
    std::vector<Vec> lhs(m), rhs(m);
    for (uint32_t j = 0; j < m; ++j) { lhs[j].push_back(load(t, pt, j)); rhs[j].push_back(e.v[j]); }
    for (uint32_t i = 0; i < n; ++i)
        if (mv[i]) { lhs[iv[i]].push_back(load(t, po, i)); rhs[iv[i]].push_back(vv[i]); }
    for (uint32_t j = 0; j < m; ++j) {
        uint64_t fin = lhs[j][0];
        if (is_float(t)) { for (auto &x : lhs[j]) x = (uint64_t) (int64_t) to_d(t, x); for (auto &x : rhs[j]) x = (uint64_t) (int64_t) to_d(t, x); }
        std::sort(lhs[j].begin(), lhs[j].end());
        std::sort(rhs[j].begin(), rhs[j].end());
        SIM_CHECK(lhs[j] == rhs[j], "scatter_exch: exchanged values of element %u do not form a chain (%zu updates)", j, lhs[j].size() - 1);
        e.v[j] = fin;
    }
    e.pend = 0;
    return true;
}
ENG_OP(ATOMIC, op_scatter_cas, 2) {
    VarType t = pick_atomic_type(r);
    if (is_float(t)) t = VarType::UInt32;
    Slot *s = c.pick_t(r, t);
    if (!s) return false;
    c.own(*s);
    c.settle(*s);
    uint32_t m = (uint32_t) s->n(), n = rnd_size(c, r);
    size_t si = (size_t) (s - c.s.data());
    Vec iv, mv, vv(n), cv(n);
    Ref idx(make_index(c, r, n, m, false, iv)), mask(make_mask(c, r, n, mv));
    for (uint32_t i = 0; i < n; ++i) {
        vv[i] = wrap(t, 1000000 + i);
        cv[i] = r.below(3) == 0 ? wrap(t, 1000000 + r.below(n)) : s->v[iv[i]];
    }
    Ref value(fresh_var(r, t, vv)), cmp(fresh_var(r, t, cv));
    uint32_t old = 0, succ = 0;
    jit_var_scatter_cas(&c.s[si].idx, cmp, value, idx, mask, &old, &succ);
    Ref ro(old), rs(succ);
    if (!old) { // nothing to do: fully masked
        SIM_CHECK(std::find(mv.begin(), mv.end(), 1u) == mv.end(), "scatter_cas: no result");
        return true;
    }
    c.s[si].pend = 9;
    void *po, *ps, *pt;
    // both results must be requested by the same kernel
    jit_var_schedule(ro);
    jit_var_schedule(rs);
    Ref a(jit_var_data(ro, &po)), b(jit_var_data(rs, &ps)), d(jit_var_data(c.s[si].idx, &pt));
    jit_sync_thread();
    SIM_CHECK(jit_var_size(a) == n && jit_var_size(b) == n, "scatter_cas: results have sizes %zu/%zu instead of %u",
              jit_var_size(a), jit_var_size(b), n);
    Slot &e = c.s[si];
    std::vector<Vec> lhs(m), rhs(m);
    std::vector<Vec> vis(m); // values an element may ever have had
    for (uint32_t j = 0; j < m; ++j) { lhs[j].push_back(load(t, pt, j)); rhs[j].push_back(e.v[j]); vis[j].push_back(e.v[j]); }
    for (uint32_t i = 0; i < n; ++i) {
        if (!mv[i]) continue;
        uint64_t o = load(t, po, i);
        bool ok = load(VarType::Bool, ps, i) != 0;
        SIM_CHECK(ok == (wrap(t, o) == cv[i]), "scatter_cas: lane %u reports success=%d although the old value was %sequal", i, ok,
                  wrap(t, o) == cv[i] ? "" : "un");
        if (ok) { lhs[iv[i]].push_back(o); rhs[iv[i]].push_back(vv[i]); vis[iv[i]].push_back(vv[i]); }
    }
    for (uint32_t i = 0; i < n; ++i) {
        if (!mv[i]) continue;
        uint64_t o = wrap(t, load(t, po, i));
        SIM_CHECK(std::find(vis[iv[i]].begin(), vis[iv[i]].end(), o) != vis[iv[i]].end(),
                  "scatter_cas: lane %u saw a value that element never had", i);
    }
    for (uint32_t j = 0; j < m; ++j) {
        uint64_t fin = lhs[j][0];
        std::sort(lhs[j].begin(), lhs[j].end());
        std::sort(rhs[j].begin(), rhs[j].end());
        SIM_CHECK(lhs[j] == rhs[j], "scatter_cas: successful swaps of element %u do not form a chain", j);
        e.v[j] = fin;
    }
    e.pend = 0;
    return true;
}

// -------------------------------------------------------------- scheduling
ENG_OP(SCHED, op_schedule, 3) {
    Slot *s = c.pick(r);
    if (s) jit_var_schedule(s->idx);
    return true;
}
ENG_OP(SCHED, op_eval_all, 2) {
    jit_eval();
    for (auto &s : c.s) { s.pend = 0; }
    return true;
}
ENG_OP(SCHED, op_eval, 3) {
    Slot *s = c.pick(r);
    if (!s) return false;
    jit_var_eval(s->idx);
    s->pend = 0;
    return true;
}
ENG_OP(SCHED, op_schedule_many, 2) {
    int any = 0;
    for (auto &s : c.s)
        if (r.below(2)) {
            if (r.below(4) == 0) {
                int rv = 0;
                uint32_t i = jit_var_schedule_force(s.idx, &rv);
                any |= rv;
                jit_var_dec_ref(s.idx);
                s.idx = i;
            } else {
                any |= jit_var_schedule(s.idx);
            }
        }
    if (any || r.below(2)) { jit_eval(); for (auto &s : c.s) s.pend = 0; }
    return true;
}
/// One evaluation with arrays of many different sizes and scopes
ENG_OP(SCHED, op_many_sizes, 1) {
    if (r.below(3)) return false;
    uint32_t n = 6 + (uint32_t) r.below(44), a = 1 + (uint32_t) r.below(4), chain = (uint32_t) r.below(34);
    std::vector<std::pair<Ref, Vec>> l;
    for (uint32_t k = 0; k < n; ++k) {
        uint32_t sz = 2 + k, m = k == n / 2 ? chain : 1;
        Vec v(sz);
        Ref e(jit_var_counter(B, sz));
        for (uint32_t i = 0; i < sz; ++i) v[i] = i;
        for (uint32_t j = 0; j <= m; ++j) {
            if (m == 1 && j && r.below(4) == 0) jit_new_scope(B);
            Ref x(lit(VarType::UInt32, a + j, 1));
            uint32_t d[2] = { e, x };
            JitOp op = j & 1 ? JitOp::Xor : JitOp::Mul;
            e = Ref(jit_var_op(op, d));
            for (auto &q : v) q = (uint32_t) (op == JitOp::Xor ? q ^ (a + j) : q * (a + j));
        }
        jit_var_schedule(e);
        l.emplace_back(std::move(e), std::move(v));
    }
    jit_eval();
    for (auto &s : c.s) s.pend = 0;
    for (auto &x : l)
        for (int k = 0; k < 2; ++k) {
            uint32_t i = k ? (uint32_t) x.second.size() - 1 : (uint32_t) r.below(x.second.size()), g = 0;
            jit_var_read(x.first, i, &g);
            SIM_CHECK(g == (uint32_t) x.second[i], "wrong value in one of %u arrays evaluated together: element %u of %zu is %u instead of %u",
                      n, i, x.second.size(), g, (uint32_t) x.second[i]);
        }
    return true;
}
ENG_OP(SCHED, op_sync, 2) {
    switch (r.below(4)) {
        case 0: jit_sync_device(); break;
        case 1: jit_flush_thread(); break;
        default: jit_sync_thread(); break;
    }
    return true;
}
ENG_OP(SCHED, op_sync_all, 1) { (void) c; (void) r; jit_sync_all_devices(); return true; }

// ---------------------------------------------------------------- aliasing
ENG_OP(ALIAS, op_copy, 2) {
    Slot *s = c.pick(r);
    if (!s) return false;
    VarType t = s->vt; Vec v = s->v; int pend = s->pend; auto touched = s->touched;
    uint32_t i = r.below(2) ? jit_var_copy(s->idx) : jit_var_copy_opaque(s->idx);
    Slot &n = c.add(i, t, std::move(v));
    n.pend = pend ? 9 : 0; n.touched = touched;
    return true;
}
ENG_OP(ALIAS, op_alias, 3) {
    Slot *s = c.pick(r);
    if (!s) return false;
    VarType t = s->vt; Vec v = s->v; int pend = s->pend; bool view = s->view;
    uint32_t i = jit_var_inc_ref(s->idx);
    Slot &n = c.add(i, t, std::move(v));
    n.pend = pend ? 9 : 0; n.view = view;
    return true;
}
ENG_OP(ALIAS, op_drop, 3) {
    if (c.s.empty()) return false;
    c.release(r.below((uint32_t) c.s.size()));
    return true;
}
ENG_OP(ALIAS, op_drop_all, 1) {
    if (r.below(3)) return false;
    while (!c.s.empty()) c.release(c.s.size() - 1);
    return true;
}
ENG_OP(ALIAS, op_migrate, 1) {
    Slot *s = c.pick(r);
    if (!s) return false;
    uint32_t m = jit_var_migrate(s->idx, B); // same backend: reference
    VarType t = s->vt; Vec v = s->v; int pend = s->pend; bool view = s->view;
    Slot &n = c.add(m, t, std::move(v));
    n.pend = pend ? 9 : 0; n.view = view;
    return true;
}

// ----------------------------------------------------------------- sharing
ENG_OP(SHARE, op_publish, 1) {
    Slot *s = c.pick(r);
    if (!s) return false;
    c.settle(*s);
    if (r.below(2)) jit_var_eval(s->idx);
    if (s->pend) return false;
    Slot n;
    n.idx = jit_var_inc_ref(s->idx); n.vt = s->vt; n.v = s->v; n.view = s->view;
    if (c.w->shared.size() >= 6) {
        uint32_t k = r.below(6);
        Slot o = std::move(c.w->shared[k]);
        c.w->shared[k] = std::move(n);
        jit_var_dec_ref(o.idx);
    } else {
        c.w->shared.push_back(std::move(n));
    }
    return true;
}
ENG_OP(SHARE, op_adopt, 2) {
    if (c.w->shared.empty()) return op_publish(c, r);
    const Slot &o = c.w->shared[r.below((uint32_t) c.w->shared.size())];
    // the copies below happen before another thread may run
    VarType t = o.vt; Vec v = o.v;
    uint32_t i = o.idx;
    bool view = o.view;
    jit_var_inc_ref(i);
    jit_new_scope(B); // required when data is handed over between threads
    c.add(i, t, std::move(v)).view = view;
    return true;
}

ENG_OP(VERIFY, op_verify, 1) {
    Slot *s = c.pick(r);
    if (s) verify(c, r, *s);
    return true;
}

// ------------------------------------------------------------------ caches
ENG_OP(FLUSH, op_flush_malloc, 2) { (void) c; (void) r; jit_flush_malloc_cache(); return true; }
ENG_OP(FLUSH, op_flush_kernels, 1) { (void) r; c.w->kernel_flushes++; jit_flush_kernel_cache(); c.w->kernel_flushes++; return true; }

ENG_OP(DEBUG, op_whos, 1) { (void) c; (void) r; return strlen(jit_var_whos()) > 0; }
ENG_OP(DEBUG, op_graphviz, 1) { (void) c; (void) r; return strlen(jit_var_graphviz()) > 0; }
ENG_OP(DEBUG, op_label, 2) {
    Slot *s = c.pick(r);
    if (!s) return false;
    uint32_t i = jit_var_set_label(s->idx, 1, "label");
    jit_var_dec_ref(s->idx);
    s->idx = i;
    const char *l = jit_var_label(i);
    SIM_CHECK(l && strstr(l, "label"), "label of r%u is lost (%s)", i, l ? l : "null");
    return true;
}
ENG_OP(DEBUG, op_info, 2) {
    Slot *s = c.pick(r);
    if (!s) return false;
    VarInfo vi = jit_var_info(s->idx);
    SIM_CHECK(vi.backend == B && vi.type == s->vt && vi.size == s->n(), "jit_var_info(r%u) is inconsistent", s->idx);
    if (vi.state == VarState::Literal)
        for (uint64_t x : s->v) SIM_CHECK(same(s->vt, x, vi.literal), "literal r%u has a wrong value", s->idx);
    if (jit_var_is_zero_literal(s->idx))
        for (uint64_t x : s->v) SIM_CHECK(same(s->vt, x, 0), "r%u is no zero literal", s->idx);
    SIM_CHECK(jit_var_ref(s->idx) >= 1, "reference count of r%u", s->idx);
    return true;
}
}
