/* Parallel primitives: variable-level operations and raw memory interfaces */
#include "engine.h"
#include <algorithm>
#include <cmath>
#include <numeric>

namespace eng {
static const VarType red_types[] = { VarType::UInt32, VarType::Int32, VarType::UInt64, VarType::Int64, VarType::UInt8,
                                     VarType::Float32, VarType::Float64, VarType::Float16 };
static bool red_type(VarType t) {
    for (VarType x : red_types) if (x == t) return true;
    return false;
}
static ReduceOp rnd_red(Rng &r, VarType t) {
    while (true) {
        ReduceOp o = (ReduceOp) r.range(1, 6);
        if (can_red(t, o)) return o;
    }
}
/// True if every partial result of the reduction is exact
static bool exact(VarType t, ReduceOp op, const Vec &v, size_t a, size_t b) {
    if (!is_float(t) || (op != ReduceOp::Add && op != ReduceOp::Mul)) return true;
    double m = op == ReduceOp::Add ? 0 : 1;
    for (size_t i = a; i < b; ++i) {
        double x = std::fabs(to_d(t, v[i]));
        m = op == ReduceOp::Add ? m + x : m * std::max(1.0, x);
    }
    uint64_t d;
    return from_d(t, m, d);
}
static bool block_red(VarType t, ReduceOp op, const Vec &v, size_t bs, Vec &o) {
    o.clear();
    for (size_t a = 0; a < v.size(); a += bs) {
        size_t b = std::min(v.size(), a + bs);
        if (!exact(t, op, v, a, b)) return false;
        uint64_t x = v[a];
        for (size_t i = a + 1; i < b; ++i)
            if (!red(t, op, x, v[i], x)) return false;
        o.push_back(x);
    }
    return true;
}
static bool block_prefix(VarType t, ReduceOp op, const Vec &v, size_t bs, bool excl, bool rev, Vec &o) {
    o.assign(v.size(), 0);
    for (size_t a = 0; a < v.size(); a += bs) {
        size_t b = std::min(v.size(), a + bs);
        if (!exact(t, op, v, a, b)) return false;
        uint64_t x = red_identity(t, op);
        bool first = true;
        for (size_t k = 0; k < b - a; ++k) {
            size_t i = rev ? b - 1 - k : a + k;
            if (excl) o[i] = x;
            if (first) x = v[i];
            else if (!red(t, op, x, v[i], x)) return false;
            first = false;
            if (!excl) o[i] = x;
        }
    }
    return true;
}
/// Sizes relative to the block size of the backend: decides how often an
/// operation is split, and whether its second pass is split again
static uint32_t rnd_psize(Client &c, Rng &r) {
    if (r.below(2)) return rnd_size(c, r);
    uint32_t bs = jit_llvm_block_size();
    return r.range(1, std::min(4000u, bs * (r.below(2) ? 20 : 60)));
}
static uint32_t rnd_block(Rng &r, size_t n) {
    switch (r.below(6)) {
        case 0: return 1;
        case 1: return (uint32_t) n;
        case 2: return r.range(1, (uint32_t) n);
        case 3: return std::min((uint32_t) n, 1u << r.below(9));
        case 4: return std::max(1u, (uint32_t) n / r.range(1, 5));
        default: return std::min((uint32_t) n, r.range(2, 40));
    }
}
/// A variable of a reducible type whose value range keeps reductions exact
static Slot *pick_red(Client &c, Rng &r) {
    Slot *s = c.pick(r, [](const Slot &s) { return red_type(s.vt); });
    return s;
}

ENG_OP(PRIM, op_block_reduce, 4) {
    Slot *s = pick_red(c, r);
    if (!s) return false;
    VarType t = s->vt;
    ReduceOp op = rnd_red(r, t);
    uint32_t bs = rnd_block(r, s->n());
    Vec o;
    if (!block_red(t, op, s->v, bs, o)) return false;
    int sym = 0;
    if (jit_can_scatter_reduce(B, t, op) && r.below(2)) sym = r.below(2) ? 1 : -1;
    uint32_t i = jit_var_block_reduce(op, s->idx, bs, sym);
    s = nullptr;
    c.add(i, t, std::move(o));
    return true;
}
ENG_OP(PRIM, op_block_prefix_reduce, 4) {
    Slot *s = pick_red(c, r);
    if (!s) return false;
    VarType t = s->vt;
    ReduceOp op = rnd_red(r, t);
    uint32_t bs = rnd_block(r, s->n());
    bool excl = r.below(2), rev = r.below(2);
    Vec o;
    if (!block_prefix(t, op, s->v, bs, excl, rev, o)) return false;
    // inf cannot be handled by the arithmetic model
    if (excl && is_float(t) && (op == ReduceOp::Min || op == ReduceOp::Max)) return false;
    uint32_t i = jit_var_block_prefix_reduce(op, s->idx, bs, excl, rev);
    c.add(i, t, std::move(o));
    return true;
}
ENG_OP(PRIM, op_reduce, 3) {
    Slot *s = pick_red(c, r);
    if (!s) return false;
    VarType t = s->vt;
    ReduceOp op = (ReduceOp) r.range(1, 4);
    Vec o;
    if (!block_red(t, op, s->v, s->n(), o)) return false;
    uint32_t i = jit_var_reduce(B, t, op, s->idx);
    c.add(i, t, std::move(o));
    return true;
}
ENG_OP(PRIM, op_dot, 3) {
    VarType t;
    Vec a, b;
    Ref ra, rb;
    Slot *s = c.pick(r, [](const Slot &s) { return s.vt == VarType::Float32 || s.vt == VarType::Float64 || s.vt == VarType::UInt32; });
    if (s && r.below(2)) {
        Slot *q = c.pick_t(r, s->vt, s->n(), false);
        t = s->vt; a = s->v; b = q->v;
        ra = Ref(jit_var_inc_ref(s->idx)); rb = Ref(jit_var_inc_ref(q->idx));
    } else {
        static const VarType ty[] = { VarType::Float16, VarType::Float32, VarType::Float64 };
        t = ty[r.below(3)];
        a.resize(rnd_psize(c, r)); b.resize(a.size());
        uint32_t k = t == VarType::Float16 ? 2 : 5;
        for (auto &x : a) from_d(t, r.below(k), x);
        for (auto &x : b) from_d(t, r.below(k), x);
        ra = Ref(var_from(t, a, r)); rb = Ref(var_from(t, b, r));
    }
    Vec p(a.size());
    for (size_t i = 0; i < p.size(); ++i) {
        if (is_float(t)) { if (!from_d(t, to_d(t, a[i]) * to_d(t, b[i]), p[i])) return false; }
        else p[i] = wrap(t, a[i] * b[i]);
    }
    Vec o;
    if (!block_red(t, ReduceOp::Add, p, p.size(), o)) return false;
    uint32_t i = jit_var_reduce_dot(ra, rb);
    c.add(i, t, std::move(o));
    return true;
}
ENG_OP(PRIM, op_compress, 3) {
    Slot *s = c.pick_t(r, VarType::Bool);
    if (!s) return false;
    Vec o;
    for (size_t i = 0; i < s->n(); ++i) if (s->v[i]) o.push_back(i);
    uint32_t i = jit_var_compress(s->idx);
    if (o.empty()) {
        SIM_CHECK(i == 0, "jit_var_compress: nonempty result for an empty mask");
        return true;
    }
    SIM_CHECK(i != 0, "jit_var_compress: empty result, expected %zu entries", o.size());
    c.add(i, VarType::UInt32, std::move(o));
    return true;
}
ENG_OP(PRIM, op_tile, 1) {
    Slot *s = c.pick(r);
    if (!s) return false;
    uint32_t k = r.range(1, 4);
    if (s->n() * k > c.w->p.size_max * 2) return false;
    Vec o;
    for (uint32_t j = 0; j < k; ++j) o.insert(o.end(), s->v.begin(), s->v.end());
    VarType t = s->vt;
    c.add(jit_var_tile(s->idx, k), t, std::move(o));
    return true;
}
ENG_OP(PRIM, op_repeat, 1) {
    Slot *s = c.pick(r);
    if (!s) return false;
    uint32_t k = r.range(1, 4);
    size_t lim = r.below(3) == 0 ? r.range(1, (uint32_t) s->n() * k) : 0;
    if (s->n() * k > c.w->p.size_max * 2) return false;
    Vec o;
    for (uint64_t x : s->v) for (uint32_t j = 0; j < k; ++j) o.push_back(x);
    if (lim && o.size() > lim) o.resize(lim);
    VarType t = s->vt;
    c.add(jit_var_repeat(s->idx, k, lim), t, std::move(o));
    return true;
}
ENG_OP(PRIM, op_any_all_async, 2) {
    Slot *s = c.pick_t(r, VarType::Bool);
    if (!s) return false;
    bool all = r.below(2);
    uint64_t x = all;
    for (uint64_t v : s->v) if (all) x &= v; else x |= v;
    uint32_t i = all ? jit_var_all_async(B, s->idx) : jit_var_any_async(B, s->idx);
    c.add(i, VarType::Bool, Vec{ x });
    return true;
}
ENG_OP(PRIM, op_reverse, 1) {
    Slot *s = c.pick(r);
    if (!s) return false;
    Vec o(s->v.rbegin(), s->v.rend());
    VarType t = s->vt;
    c.add(jit_var_reverse(s->idx), t, std::move(o));
    return true;
}
ENG_OP(PRIM, op_gemm, 2) {
    static const VarType ft[] = { VarType::Float32, VarType::Float64, VarType::Float16 };
    VarType t = ft[r.below(3)];
    uint32_t M = r.range(1, r.below(3) ? 9 : 40), N = r.range(1, r.below(3) ? 9 : 40), K = r.range(1, r.below(4) ? 9 : 30);
    int At = (int) r.below(2), Bt = At ? 0 : (int) r.below(2);
    GemmBatch gb;
    memset(&gb, 0, sizeof(gb));
    bool batch = r.below(2);
    uint32_t grid = 1, redn = 1;
    if (batch) {
        gb.n_bdims = r.below(3);
        gb.n_rdims = r.below(2);
        uint32_t sa = M * K, sb = K * N;
        for (uint32_t d = 0; d < gb.n_bdims + gb.n_rdims; ++d) {
            gb.extent[d] = r.range(1, 3);
            gb.a_stride[d] = r.below(4) ? sa : 0;
            gb.b_stride[d] = r.below(4) ? sb : 0;
            if (gb.a_stride[d]) sa *= gb.extent[d];
            if (gb.b_stride[d]) sb *= gb.extent[d];
            if (d < gb.n_bdims) grid *= gb.extent[d]; else redn *= gb.extent[d];
        }
    }
    uint32_t na = M * K, nb = K * N;
    for (uint32_t d = 0; d < gb.n_bdims + gb.n_rdims; ++d) {
        na += gb.a_stride[d] * (gb.extent[d] - 1);
        nb += gb.b_stride[d] * (gb.extent[d] - 1);
    }
    std::vector<int> a(na), b(nb);
    Vec va(na), vb(nb), o(grid * M * N);
    for (uint32_t i = 0; i < na; ++i) { a[i] = (int) r.below(5) - 2; from_d(t, a[i], va[i]); }
    for (uint32_t i = 0; i < nb; ++i) { b[i] = (int) r.below(5) - 2; from_d(t, b[i], vb[i]); }
    for (uint32_t g = 0; g < grid; ++g)
        for (uint32_t i = 0; i < M; ++i)
            for (uint32_t j = 0; j < N; ++j) {
                int sum = 0;
                for (uint32_t q = 0; q < redn; ++q) {
                    uint32_t z = g, oa = 0, ob = 0;
                    for (uint32_t d = 0; d < gb.n_bdims; ++d) {
                        uint32_t x = z % gb.extent[d]; z /= gb.extent[d];
                        oa += x * gb.a_stride[d]; ob += x * gb.b_stride[d];
                    }
                    z = q;
                    for (uint32_t d = gb.n_bdims; d < gb.n_bdims + gb.n_rdims; ++d) {
                        uint32_t x = z % gb.extent[d]; z /= gb.extent[d];
                        oa += x * gb.a_stride[d]; ob += x * gb.b_stride[d];
                    }
                    for (uint32_t k = 0; k < K; ++k)
                        sum += a[oa + (At ? k * M + i : i * K + k)] * b[ob + (Bt ? j * K + k : k * N + j)];
                }
                if (!from_d(t, sum, o[(g * M + i) * N + j])) return false;
            }
    Ref ra(var_from(t, va, r)), rb(var_from(t, vb, r));
    uint32_t i = jit_var_batched_gemm(ra, rb, At, Bt, M, N, K, batch ? &gb : nullptr);
    c.add(i, t, std::move(o));
    return true;
}

// ------------------------------------------------------------ raw interface
/// Raw allocation that is filled asynchronously from a host array
struct Raw {
    void *p = nullptr;
    size_t n = 0;
    VarType t;
    std::vector<uint8_t> host;
    static constexpr size_t pad = 64;
    Raw(VarType t, size_t n, Rng &r) : n(n), t(t) {
        p = jit_malloc(B, n * tsize(t) + 2 * pad, (int) r.below(2));
        SIM_CHECK(((uintptr_t) p & 63) == 0, "jit_malloc returned a misaligned address");
        host.assign(n * tsize(t) + 2 * pad, 0xC7);
    }
    uint8_t *data() { return (uint8_t *) p + pad; }
    void fill(const Vec &v) {
        for (size_t i = 0; i < v.size(); ++i) store(t, host.data() + pad, i, v[i]);
        jit_memcpy_async(B, p, host.data(), host.size());
    }
    void canary() { jit_memcpy_async(B, p, host.data(), host.size()); }
    /// call after synchronisation
    void check(const Vec &v, const char *what) {
        const uint8_t *q = (const uint8_t *) p;
        for (size_t i = 0; i < pad; ++i)
            SIM_CHECK(q[i] == 0xC7 && q[pad + n * tsize(t) + i] == 0xC7, "%s wrote outside of its output array (size %zu)", what, n);
        for (size_t i = 0; i < v.size(); ++i) {
            uint64_t x = load(t, data(), i);
            SIM_CHECK(same(t, x, v[i]), "%s: wrong value at entry %zu of %zu: 0x%llx instead of 0x%llx (type %s)", what, i, v.size(),
                      (unsigned long long) x, (unsigned long long) wrap(t, v[i]), jit_type_name(t));
        }
    }
    void drop() { jit_free(p); p = nullptr; }
};
static void rnd_vec(Rng &r, VarType t, Vec &v) { for (auto &x : v) x = rnd_value(r, t); }
static void finish(Client &c, Rng &r) {
    (void) c;
    if (r.below(3) == 0) jit_sync_device();
    else jit_sync_thread();
}

ENG_OP(RAW, raw_memset, 2) {
    static const VarType ty[] = { VarType::UInt8, VarType::Float16, VarType::UInt32, VarType::UInt64 };
    VarType t = ty[r.below(4)];
    uint32_t n = rnd_psize(c, r), k = r.below(n), m = r.range(0, n - k);
    Vec v(n), w;
    rnd_vec(r, t, v);
    if (t == VarType::Float16) for (auto &x : v) x = r.below(0x7C00);
    uint64_t x = r.below(3) ? v[r.below(n)] : 0, y = x;
    Raw a(t, n, r);
    a.fill(v);
    jit_memset_async(B, a.data() + (size_t) k * tsize(t), m, tsize(t), &y);
    y = 0x5A5A5A5A5A5A5A5Aull;
    for (uint32_t i = k; i < k + m; ++i) v[i] = x;
    finish(c, r);
    a.check(v, "jit_memset_async");
    a.drop();
    return true;
}
ENG_OP(RAW, raw_memcpy, 2) {
    VarType t = rnd_type(c, r);
    uint32_t n = rnd_psize(c, r), k = r.below(n), m = r.range(0, n - k);
    Vec v(n), w(n);
    rnd_vec(r, t, v); rnd_vec(r, t, w);
    Raw a(t, n, r), b(t, n, r);
    a.fill(v); b.fill(w);
    jit_memcpy_async(B, b.data() + (size_t) k * tsize(t), a.data() + (size_t) k * tsize(t), (size_t) m * tsize(t));
    Raw d(t, n, r);
    d.canary();
    jit_memcpy_async(B, d.data(), b.data(), (size_t) n * tsize(t));
    if (r.below(2)) { a.drop(); b.drop(); } // still in use
    for (uint32_t i = k; i < k + m; ++i) w[i] = v[i];
    finish(c, r);
    d.check(w, "jit_memcpy_async");
    if (a.p) { a.check(v, "source of jit_memcpy_async"); a.drop(); b.drop(); }
    d.drop();
    return true;
}
ENG_OP(RAW, raw_block_reduce, 3) {
    VarType t = red_types[r.below(8)];
    ReduceOp op = rnd_red(r, t);
    uint32_t n = rnd_psize(c, r), bs = rnd_block(r, n);
    if (r.below(3) == 0) bs = n;
    Vec v(n), o;
    rnd_vec(r, t, v);
    if (is_float(t)) for (auto &x : v) from_d(t, r.below(3), x);
    if (!block_red(t, op, v, bs, o)) return false;
    Raw a(t, n, r), b(t, o.size(), r);
    a.fill(v); b.canary();
    if (bs == n && r.below(2)) jit_reduce(B, t, op, a.data(), n, b.data());
    else jit_block_reduce(B, t, op, n, bs, a.data(), b.data());
    bool early = r.below(2);
    if (early) a.drop();
    finish(c, r);
    b.check(o, "jit_block_reduce");
    if (!early) { a.check(v, "input of jit_block_reduce"); a.drop(); }
    b.drop();
    return true;
}
ENG_OP(RAW, raw_block_prefix, 3) {
    VarType t = red_types[r.below(8)];
    ReduceOp op = rnd_red(r, t);
    uint32_t n = rnd_psize(c, r), bs = rnd_block(r, n);
    bool excl = r.below(2), rev = r.below(2), inplace = r.below(2);
    Vec v(n), o;
    rnd_vec(r, t, v);
    if (is_float(t)) for (auto &x : v) from_d(t, r.below(3), x);
    if (!block_prefix(t, op, v, bs, excl, rev, o)) return false;
    Raw a(t, n, r), b(t, n, r);
    a.fill(v); b.canary();
    jit_block_prefix_reduce(B, t, op, bs, n, excl, rev, a.data(), inplace ? a.data() : b.data());
    bool early = !inplace && r.below(2);
    if (early) a.drop();
    finish(c, r);
    (inplace ? a : b).check(o, "jit_block_prefix_reduce");
    if (!early && !inplace) a.check(v, "input of jit_block_prefix_reduce");
    if (a.p) a.drop();
    b.drop();
    return true;
}
ENG_OP(RAW, raw_compress, 2) {
    uint32_t n = rnd_psize(c, r), dens = r.below(1001);
    Vec v(n), o;
    for (uint32_t i = 0; i < n; ++i) { v[i] = r.chance(dens); if (v[i]) o.push_back(i); }
    Raw a(VarType::UInt8, n, r), b(VarType::UInt32, n, r);
    a.fill(v); b.canary();
    uint32_t k = jit_compress(B, a.data(), n, (uint32_t *) b.data());
    SIM_CHECK(k == o.size(), "jit_compress returned %u instead of %zu (size %u)", k, o.size(), n);
    bool early = r.below(2);
    if (early) a.drop();
    finish(c, r);
    b.check(o, "jit_compress");
    if (!early) { a.check(v, "input of jit_compress"); a.drop(); }
    b.drop();
    return true;
}
ENG_OP(RAW, raw_mkperm, 3) {
    uint32_t n = rnd_psize(c, r), bs = r.below(2) ? n : rnd_block(r, n), nb = r.range(1, r.below(3) ? 8 : 200);
    Vec v(n);
    for (auto &x : v) x = r.below(3) ? r.below(nb) : r.below(std::min(nb, 2u));
    bool offs = bs == n && r.below(2);
    Raw a(VarType::UInt32, n, r), b(VarType::UInt32, n, r), o(VarType::UInt32, nb * 4 + 4, r);
    a.fill(v); b.canary(); o.canary();
    uint32_t k = jit_block_mkperm(B, (uint32_t *) a.data(), n, bs, nb, (uint32_t *) b.data(), offs ? (uint32_t *) o.data() : nullptr);
    bool early = r.below(2);
    if (early) a.drop();
    finish(c, r);
    b.check({}, "jit_block_mkperm");
    o.check({}, "jit_block_mkperm (offsets)");
    const uint32_t *pm = (const uint32_t *) b.data();
    for (uint32_t s = 0; s < n; s += bs) {
        uint32_t e = std::min(n, s + bs);
        std::vector<char> seen(e - s, 0);
        for (uint32_t i = s; i < e; ++i) {
            SIM_CHECK(pm[i] >= s && pm[i] < e && !seen[pm[i] - s], "jit_block_mkperm: no permutation (size %u, block %u, entry %u is %u)", n, bs, i, pm[i]);
            seen[pm[i] - s] = 1;
            if (i > s)
                SIM_CHECK(v[pm[i - 1]] <= v[pm[i]], "jit_block_mkperm: result is not sorted (size %u, block %u, entry %u)", n, bs, i);
            if (i > s && v[pm[i - 1]] == v[pm[i]])
                SIM_CHECK(pm[i - 1] < pm[i], "jit_block_mkperm: result is not stable");
        }
    }
    if (offs) {
        const uint32_t *q = (const uint32_t *) o.data();
        std::vector<uint32_t> cnt(nb, 0);
        for (uint64_t x : v) cnt[x]++;
        uint32_t u = 0, start = 0;
        for (uint32_t j = 0; j < nb; ++j) {
            if (!cnt[j]) continue;
            SIM_CHECK(u < k && q[4 * u] == j && q[4 * u + 1] == start && q[4 * u + 2] == cnt[j],
                      "jit_block_mkperm: bucket %u is reported as (%u, %u, %u), expected (%u, %u, %u)", u, q[4 * u], q[4 * u + 1],
                      q[4 * u + 2], j, start, cnt[j]);
            start += cnt[j]; ++u;
        }
        SIM_CHECK(u == k, "jit_block_mkperm returned %u unique buckets instead of %u", k, u);
    }
    if (!early) a.drop();
    b.drop(); o.drop();
    return true;
}
ENG_OP(RAW, raw_aggregate, 2) {
    uint32_t n = r.range(1, r.below(2) ? 10 : 300);
    Vec v(n);
    for (auto &x : v) x = r.next();
    Raw src(VarType::UInt64, n, r);
    src.fill(v);
    // the entries must stay valid until the operation is complete
    AggregationEntry *agg = (AggregationEntry *) jit_malloc(JitBackend::None, sizeof(AggregationEntry) * n);
    std::vector<uint32_t> order(n);
    std::iota(order.begin(), order.end(), 0u);
    std::vector<uint8_t> expect(n * 8, 0xC7);
    static const int16_t sz[] = { 1, 2, 4, 8 };
    for (uint32_t i = 0; i < n; ++i) {
        int16_t s = sz[r.below(4)];
        bool ptr = r.below(2);
        uint32_t off = i * 8 + (s < 8 ? (r.below(8 / (uint32_t) s)) * (uint32_t) s : 0);
        agg[i].size = ptr ? (int16_t) -s : s;
        agg[i].resource_kind = 0;
        agg[i].offset = off;
        agg[i].src = ptr ? (const void *) (src.data() + i * 8) : (const void *) (uintptr_t) v[i];
        memcpy(expect.data() + off, &v[i], (size_t) s);
    }
    Raw dst(VarType::UInt64, n, r);
    dst.canary();
    jit_aggregate(B, dst.data(), agg, n);
    bool early = r.below(2);
    if (early) src.drop();
    finish(c, r);
    dst.check({}, "jit_aggregate");
    SIM_CHECK(memcmp(dst.data(), expect.data(), n * 8) == 0, "jit_aggregate: wrong contents");
    dst.drop();
    if (!early) src.drop();
    jit_free(agg);
    return true;
}
ENG_OP(RAW, raw_adopt, 2) { // hand a freshly computed buffer over to a variable
    VarType t = red_types[r.below(4)];
    uint32_t n = rnd_psize(c, r), bs = rnd_block(r, n);
    ReduceOp op = rnd_red(r, t);
    Vec v(n), o;
    rnd_vec(r, t, v);
    bool excl = r.below(2), rev = r.below(2);
    if (!block_prefix(t, op, v, bs, excl, rev, o)) return false;
    std::vector<uint8_t> host(n * tsize(t));
    for (uint32_t i = 0; i < n; ++i) store(t, host.data(), i, v[i]);
    void *p = jit_malloc(B, n * tsize(t), 0);
    jit_memcpy(B, p, host.data(), host.size());
    void *q = jit_malloc(B, n * tsize(t), (int) r.below(2));
    jit_block_prefix_reduce(B, t, op, bs, n, excl, rev, p, q);
    jit_free(p);
    c.add(jit_var_mem_map(B, t, q, n, 1), t, std::move(o));
    return true;
}
}
