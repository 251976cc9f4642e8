/* Cooperative vectors: elementwise programs, matrix products and atomic
   accumulation into buffers with pending writes. All values are small
   integers, hence sums and products are exact in any order. */
#include "engine.h"
#include <cmath>
namespace eng {
namespace {
typedef std::vector<Vec> Elems; ///< [component][lane]; a single lane is a uniform value

struct CV {
    Ref idx;
    VarType t;
    uint32_t n = 1; ///< lanes
    Elems e;
    uint64_t at(uint32_t k, uint32_t i) const { return e[k].size() == 1 ? e[k][0] : e[k][i]; }
};

uint64_t small(Rng &r, VarType t, bool neg = true) {
    uint64_t o = 0;
    from_d(t, neg ? (double) ((int) r.below(7) - 3) : (double) r.below(4), o);
    return o;
}
/// A vector of 'len' components
bool make_vec(Client &c, Rng &r, VarType t, uint32_t n, uint32_t len, CV &o) {
    o.t = t;
    o.n = 1;
    uint32_t kind = r.below(8);
    if (kind == 0) { // uniform literal
        uint64_t l = small(r, t);
        uint32_t sz = r.below(2) ? n : 1;
        o.idx = Ref(jit_coop_vec_literal(B, t, &l, sz, len));
        o.n = sz;
        o.e.assign(len, Vec(sz, l));
        return true;
    }
    std::vector<Ref> own;
    std::vector<uint32_t> in;
    bool same_lit = r.below(8) == 0;
    uint64_t l0 = small(r, t);
    for (uint32_t k = 0; k < len; ++k) {
        if (same_lit || r.below(4) == 0) {
            uint64_t l = same_lit ? l0 : small(r, t);
            own.emplace_back(lit(t, l));
            o.e.push_back(Vec(1, l));
        } else {
            Slot *s = r.below(2) ? c.pick_t(r, t, n) : nullptr;
            bool ok = s && (s->n() == n || s->n() == 1);
            if (ok)
                for (uint64_t x : s->v)
                    if (std::abs(to_d(t, x)) > 6) ok = false;
            if (ok) {
                jit_var_inc_ref(s->idx);
                own.emplace_back(s->idx);
                o.e.push_back(s->v);
            } else {
                Vec v(r.below(4) ? n : 1);
                for (auto &x : v) x = small(r, t);
                own.emplace_back(var_from(t, v, r));
                o.e.push_back(v);
            }
        }
        in.push_back(own.back());
        if (o.e.back().size() > 1) o.n = n;
    }
    o.idx = Ref(jit_coop_vec_pack(len, in.data()));
    return true;
}
bool binary(VarType t, JitOp op, uint64_t a, uint64_t b, uint64_t &o) {
    double x = to_d(t, a), y = to_d(t, b), z;
    switch (op) {
        case JitOp::Add: z = x + y; break;
        case JitOp::Sub: z = x - y; break;
        case JitOp::Mul: z = x * y; break;
        case JitOp::Min: case JitOp::FMin: z = x < y ? x : y; break;
        case JitOp::Max: case JitOp::FMax: z = x > y ? x : y; break;
        default: z = x < y ? 0 : 1; break;
    }
    return from_d(t, z, o);
}
/// Buffer that contains a matrix: one of the client's variables, or a new one
struct Mat { Ref idx; Vec v; MatrixDescr d; };
bool make_mat(Client &c, Rng &r, VarType t, uint32_t rows, uint32_t cols, Mat &m, size_t &slot, bool tight = false) {
    uint32_t stride = cols + (r.below(3) == 0 ? r.range(1, 3) : 0);
    if (tight) stride = cols;
    uint32_t need = (rows - 1) * stride + cols;
    slot = (size_t) -1;
    Slot *s = r.below(2) ? c.pick_t(r, t) : nullptr;
    if (s && s->n() >= need) {
        slot = (size_t) (s - c.s.data());
        jit_var_inc_ref(s->idx);
        m.idx = Ref(s->idx);
        m.v = s->v;
    } else {
        m.v.resize(need + r.below(6));
        for (auto &x : m.v) x = small(r, t);
        m.idx = Ref(var_from(t, m.v, r));
    }
    m.d.dtype = t;
    m.d.layout = MatrixLayout::RowMajor;
    m.d.rows = rows;
    m.d.cols = cols;
    m.d.stride = stride;
    m.d.size = need;
    m.d.offset = r.below((uint32_t) m.v.size() - need + 1);
    return true;
}
VarType coop_type(Rng &r) { return r.below(4) ? VarType::Float32 : VarType::Float16; }
}

ENG_OP(ARITH, op_coop_vec, 1) {
    VarType t = coop_type(r);
    uint32_t n = rnd_size(c, r), len = r.range(1, 5);
    CV a;
    if (!make_vec(c, r, t, n, len, a)) return false;
    uint32_t steps = r.range(1, 4);
    for (uint32_t st = 0; st < steps; ++st) {
        CV b, o;
        o.t = a.t;
        len = (uint32_t) a.e.size();
        switch (r.below(6)) {
            case 0: { // binary
                static const JitOp ops[] = { JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::Min, JitOp::Max, JitOp::Step,
                                             JitOp::FMin, JitOp::FMax };
                JitOp op = ops[r.below(8)];
                if (!make_vec(c, r, a.t, n, len, b)) return false;
                o.n = std::max(a.n, b.n);
                for (uint32_t k = 0; k < len; ++k) {
                    Vec v(o.n);
                    for (uint32_t i = 0; i < o.n; ++i)
                        if (!binary(a.t, op, a.at(k, i), b.at(k, i), v[i])) return false;
                    o.e.push_back(v);
                }
                o.idx = Ref(jit_coop_vec_binary_op(op, a.idx, b.idx));
                break;
            }
            case 1: { // a*b + d
                CV d;
                if (!make_vec(c, r, a.t, n, len, b) || !make_vec(c, r, a.t, n, len, d)) return false;
                o.n = std::max(a.n, std::max(b.n, d.n));
                for (uint32_t k = 0; k < len; ++k) {
                    Vec v(o.n);
                    for (uint32_t i = 0; i < o.n; ++i) {
                        uint64_t m;
                        if (!binary(a.t, JitOp::Mul, a.at(k, i), b.at(k, i), m) ||
                            !binary(a.t, JitOp::Add, m, d.at(k, i), v[i])) return false;
                    }
                    o.e.push_back(v);
                }
                o.idx = Ref(jit_coop_vec_ternary_op(JitOp::Fma, a.idx, b.idx, d.idx));
                break;
            }
            case 2: { // change of precision
                static const VarType ts[] = { VarType::Float16, VarType::Float32, VarType::Float64 };
                o.t = ts[r.below(3)];
                o.n = a.n;
                for (uint32_t k = 0; k < len; ++k) {
                    Vec v(a.e[k].size());
                    for (uint32_t i = 0; i < v.size(); ++i)
                        if (!from_d(o.t, to_d(a.t, a.e[k][i]), v[i])) return false;
                    o.e.push_back(v);
                }
                if (a.t != VarType::Float16 && o.t != VarType::Float16 && r.below(3) == 0) { // via integers
                    bool neg = false;
                    for (auto &v : a.e) for (uint64_t x : v) if (to_d(a.t, x) < 0) neg = true;
                    static const VarType is[] = { VarType::Int32, VarType::Int64, VarType::UInt32, VarType::UInt64 };
                    VarType it = is[r.below(neg ? 2 : 4)], wt = is[r.below(neg ? 2 : 4)];
                    Ref x(jit_coop_vec_cast(a.idx, it)), y(jit_coop_vec_cast(x, wt));
                    o.idx = Ref(jit_coop_vec_cast(y, o.t));
                    break;
                }
                o.idx = Ref(jit_coop_vec_cast(a.idx, o.t));
                break;
            }
            case 3: { // read a vector from a buffer
                Mat m;
                size_t si;
                if (!make_mat(c, r, a.t, 1, len, m, si)) return false;
                o.n = 1;
                for (uint32_t k = 0; k < len; ++k) {
                    if (std::abs(to_d(a.t, m.v[m.d.offset + k])) > 30) return false;
                    o.e.push_back(Vec(1, m.v[m.d.offset + k]));
                }
                o.idx = Ref(jit_coop_vec_load(m.idx, m.d.offset, len));
                break;
            }
            default: { // matrix product
                if (a.t == VarType::Float64) continue;
                bool tr = r.below(2);
                uint32_t out = r.range(1, 5);
                Mat m, bias;
                size_t si, sb;
                if (!make_mat(c, r, a.t, tr ? len : out, tr ? out : len, m, si)) return false;
                bool has_b = r.below(2);
                if (has_b && !make_mat(c, r, a.t, out, 1, bias, sb, true)) return false;
                o.n = a.n;
                for (uint32_t k = 0; k < out; ++k) {
                    Vec v(o.n);
                    for (uint32_t i = 0; i < o.n; ++i) {
                        double sum = has_b ? to_d(a.t, bias.v[bias.d.offset + k]) : 0, mag = std::abs(sum);
                        for (uint32_t j = 0; j < len; ++j) {
                            double x = to_d(a.t, m.v[m.d.offset + (tr ? j : k) * m.d.stride + (tr ? k : j)]) *
                                       to_d(a.t, a.at(j, i));
                            sum += x;
                            mag += std::abs(x);
                        }
                        uint64_t tmp;
                        if (!from_d(a.t, mag, tmp) || !from_d(a.t, sum, v[i])) return false;
                    }
                    o.e.push_back(v);
                }
                o.idx = Ref(jit_coop_vec_matvec(m.idx, &m.d, a.idx, has_b ? (uint32_t) bias.idx : 0,
                                                has_b ? &bias.d : nullptr, tr));
                // the matrix may be overwritten as soon as it has been used
                if (si != (size_t) -1 && r.below(3) == 0 && c.s[si].n() > 1) {
                    Slot &s = c.s[si];
                    m.idx = Ref();
                    c.own(s);
                    c.settle(s);
                    uint64_t x = small(r, s.vt), y = x;
                    size_t at = r.below((uint32_t) s.n());
                    uint32_t res = jit_var_write(s.idx, at, &y);
                    jit_var_dec_ref(s.idx);
                    s.idx = res;
                    s.v[at] = x;
                }
                break;
            }
        }
        a.idx = std::move(o.idx);
        a.t = o.t;
        a.n = o.n;
        a.e = std::move(o.e);
    }
    len = (uint32_t) a.e.size();
    SIM_CHECK(jit_coop_vec_length(a.idx) == len, "cooperative vector has %u components instead of %u",
              jit_coop_vec_length(a.idx), len);
    std::vector<uint32_t> out(len);
    jit_coop_vec_unpack(a.idx, len, out.data());
    a.idx = Ref();
    uint32_t keep = r.below(len);
    for (uint32_t k = 0; k < len; ++k) {
        if (k != keep && r.below(3)) {
            jit_var_dec_ref(out[k]);
            continue;
        }
        Vec v(a.n);
        for (uint32_t i = 0; i < a.n; ++i) v[i] = a.at(k, i);
        c.add(out[k], a.t, std::move(v));
    }
    return true;
}
/// Accumulation of a vector, or of an outer product
ENG_OP(ATOMIC, op_coop_accum, 2) {
    VarType t = coop_type(r);
    uint32_t n = rnd_size(c, r), la = r.range(1, 4), lb = r.range(1, 4);
    bool outer = r.below(2);
    CV a, b;
    if (!make_vec(c, r, t, n, la, a)) return false;
    if (outer && !make_vec(c, r, t, n, lb, b)) return false;
    uint32_t lanes = outer ? std::max(a.n, b.n) : a.n;
    uint32_t stride = lb + (r.below(3) == 0 ? r.range(1, 3) : 0);
    uint32_t need = outer ? (la - 1) * stride + lb : la;
    size_t si = (size_t) -1;
    Slot *s = r.below(4) ? c.pick_t(r, t) : nullptr;
    uint32_t m;
    Vec nv;
    if (s && s->n() >= need) {
        si = (size_t) (s - c.s.data());
        m = (uint32_t) s->n();
        nv = s->v;
    } else {
        m = need + r.below(6);
        nv.assign(m, 0);
        s = nullptr;
    }
    uint32_t off = r.below(m - need + 1);
    for (uint32_t k = 0; k < la; ++k)
        for (uint32_t j = 0; j < (outer ? lb : 1); ++j) {
            size_t at = off + (outer ? k * stride + j : k);
            double sum = to_d(t, nv[at]), mag = std::abs(sum);
            for (uint32_t i = 0; i < lanes; ++i) {
                double x = to_d(t, a.at(k, i));
                if (outer) x *= to_d(t, b.at(j, i));
                sum += x;
                mag += std::abs(x);
            }
            uint64_t dummy;
            if (!from_d(t, mag, dummy) || !from_d(t, sum, nv[at])) return false;
        }
    if (s) {
        c.own(*s);
        c.refresh(*s);
        int code = 2 + (int) ReduceOp::Add;
        if (s->pend && s->pend != code) c.settle(*s);
        s->pend = code;
    }
    uint32_t cur = s ? s->idx : 0, res;
    if (outer) {
        MatrixDescr d;
        d.dtype = t;
        d.layout = MatrixLayout::RowMajor;
        d.rows = la;
        d.cols = lb;
        d.offset = off;
        d.stride = stride;
        d.size = need;
        res = jit_coop_vec_outer_product_accum(cur, m, &d, a.idx, b.idx);
    } else {
        res = jit_coop_vec_accum(cur, m, off, a.idx);
    }
    if (s) {
        Slot &d = c.s[si];
        jit_var_dec_ref(d.idx);
        d.idx = res;
        d.v = nv;
    } else {
        Slot &d = c.add(res, t, std::move(nv));
        d.pend = 2 + (int) ReduceOp::Add;
    }
    return true;
}
/// Copies matrices between buffers
ENG_OP(PRIM, op_coop_pack, 1) {
    VarType t = coop_type(r);
    uint32_t k = r.range(1, 4), pos = 0, tot = 0;
    std::vector<MatrixDescr> in, out;
    for (uint32_t i = 0; i < k; ++i) {
        MatrixDescr d;
        d.dtype = t;
        d.layout = MatrixLayout::RowMajor;
        d.rows = r.range(1, 6);
        d.cols = r.range(1, 6);
        d.stride = d.cols + (r.below(2) ? r.below(4) : 0);
        d.size = (d.rows - 1) * d.stride + d.cols;
        d.offset = pos + r.below(3);
        pos = d.offset + d.size;
        in.push_back(d);
    }
    Vec v(pos + r.below(4));
    for (auto &x : v) x = small(r, t);
    Ref src(var_from(t, v, r));
    for (uint32_t i = 0; i < k; ++i) {
        MatrixDescr d = jit_coop_vec_compute_layout(src, &in[i], MatrixLayout::InferencingOptimal, tot + r.below(3));
        SIM_CHECK(d.rows == in[i].rows && d.cols == in[i].cols && d.stride >= d.cols &&
                      d.size == (d.rows - 1) * d.stride + d.cols, "layout of a %ux%u matrix: stride %u, size %u", d.rows, d.cols,
                  d.stride, d.size);
        tot = d.offset + d.size;
        out.push_back(d);
    }
    tot += r.below(3);
    uint64_t init = small(r, t);
    Vec e(tot, init);
    uint32_t dst = jit_var_literal(B, t, &init, tot, 1);
    for (uint32_t i = 0; i < k; ++i)
        for (uint32_t y = 0; y < in[i].rows; ++y)
            for (uint32_t x = 0; x < in[i].cols; ++x)
                e[out[i].offset + y * out[i].stride + x] = v[in[i].offset + y * in[i].stride + x];
    jit_coop_vec_pack_matrices(k, src, in.data(), dst, out.data());
    for (auto &d : in) d.rows = d.cols = d.offset = 0xffff; // the caller may reuse its descriptions at once
    for (auto &d : out) d.rows = d.cols = d.offset = 0xffff;
    c.add(dst, t, std::move(e));
    return true;
}
}
