/* Symbolic loops, conditionals and indirect calls: random structured programs
   are recorded with the library, and interpreted lane by lane (P23) */
#include "engine.h"
#include <algorithm>
#include <cmath>

namespace eng {
namespace {
constexpr int NR = 9;            ///< registers; number 0 holds the lane and is never written
constexpr uint32_t NInst = 4;    ///< registered instances
const char *domain = "Ctrl";
int instances[NInst];

enum Kind { LIT, CAP, BIN, CMP, SEL, CVT, GATHERK, SADD, WRITE, AREAD, AWRITE, LOOP, COND, CALL, GETTER, COOP };
struct Stmt {
    Kind k = LIT;
    int d = 0, a = 0, b = 0, c = 0;
    uint32_t op = 0;
    uint64_t imm = 0;
    bool flag = false;
    std::vector<Stmt> s1, s2;
    std::vector<std::vector<Stmt>> inst;
    std::vector<int> in, out;
    std::vector<uint32_t> ids;
    std::vector<int> vals;       ///< getter: scalars (-1 absent)
};
typedef std::vector<Stmt> Block;

struct Program {
    uint32_t n;
    VarType rt[NR];
    // evaluated scalars that are captured, tables and targets of scatters
    struct Scalar { VarType t; uint64_t v; bool literal; };
    struct Table { VarType t; Vec v; };
    std::vector<Scalar> sc;
    std::vector<Table> tab;
    Vec tgt[2];                  ///< 0: scatter-additions (UInt32), 1: one entry per lane
    VarType tgt_t[2];
    // cooperative vectors: matrix entries, target of accumulations (with the magnitude of the sums)
    VarType ct;
    std::vector<double> cm, ctgt, cmag;
    uint32_t arr_len;            ///< length of the local array (0: none)
    VarType arr_t;
    Block body;
    uint32_t budget;
    bool heavy = false;          ///< many side effects
    uint32_t mode;               ///< how scatter-additions are performed
};

// ---------------------------------------------------------------- generation
bool arith(VarType t) { return t == VarType::UInt32 || t == VarType::Int32 || t == VarType::UInt64 || t == VarType::Int64; }
int reg_of(Program &p, Rng &r, VarType t, bool dst = false) {
    int c[NR], n = 0;
    for (int i = dst ? 1 : 0; i < NR; ++i) if (p.rt[i] == t) c[n++] = i;
    return n ? c[r.below((uint32_t) n)] : -1;
}
/// Further (unchanged) state variables of a loop or conditional
void extra(const Stmt &s, std::vector<char> &w) {
    if (s.op) for (int i = 1; i < NR; ++i) if (((uint32_t) i + s.op) % 4 == 0) w[(size_t) i] = 1;
}
void writes(const Block &b, std::vector<char> &w, bool &arr) {
    for (auto &s : b) {
        switch (s.k) {
            case SADD: case WRITE: break;
            case AWRITE: arr = true; break;
            case LOOP: case COND: writes(s.s1, w, arr); writes(s.s2, w, arr); extra(s, w); break;
            case CALL: for (int x : s.out) w[(size_t) x] = 1; break;
            default: w[(size_t) s.d] = 1;
        }
    }
}
bool has_effects(const Block &b) {
    for (auto &s : b) {
        if (s.k == SADD || s.k == WRITE || (s.k == COOP && s.flag)) return true;
        if (has_effects(s.s1) || has_effects(s.s2)) return true;
        for (auto &x : s.inst) if (has_effects(x)) return true;
    }
    return false;
}
Block gen_block(Program &p, Rng &r, uint32_t n, int depth, bool in_call, bool effects);

Stmt gen_simple(Program &p, Rng &r, bool in_call, bool effects) {
    while (true) {
        Stmt s;
        s.d = (int) r.range(1, NR - 1);
        VarType t = p.rt[s.d];
        switch (p.heavy && effects && r.below(2) ? 11 : r.below(15)) {
            case 0: s.k = LIT; s.imm = rnd_value(r, t); return s;
            case 1: case 2: {
                s.k = CAP;
                std::vector<int> c;
                for (size_t i = 0; i < p.sc.size(); ++i) if (p.sc[i].t == t) c.push_back((int) i);
                if (c.empty()) continue;
                s.a = c[r.below((uint32_t) c.size())];
                return s;
            }
            case 3: case 4: case 5: case 6:
                s.k = BIN;
                s.a = reg_of(p, r, t); s.b = reg_of(p, r, t);
                if (t == VarType::Bool) s.op = 3 + r.below(3);
                else if (arith(t)) s.op = r.below(8);
                else if (is_float(t)) s.op = 6 + r.below(2);
                else s.op = 3 + r.below(3);
                return s;
            case 7: {
                s.k = CMP;
                s.d = reg_of(p, r, VarType::Bool, true);
                VarType q = p.rt[r.below(NR)];
                if (q == VarType::Bool) continue;
                s.a = reg_of(p, r, q); s.b = reg_of(p, r, q);
                s.op = r.below(4);
                return s;
            }
            case 8: s.k = SEL; s.a = reg_of(p, r, t); s.b = reg_of(p, r, t); s.c = reg_of(p, r, VarType::Bool); return s;
            case 9:
                s.k = CVT;
                if (t == VarType::Bool) continue;
                s.a = reg_of(p, r, r.below(2) ? VarType::UInt32 : VarType::Int32);
                return s;
            case 10: {
                s.k = GATHERK;
                std::vector<int> c;
                for (size_t i = 0; i < p.tab.size(); ++i) if (p.tab[i].t == t) c.push_back((int) i);
                if (c.empty()) continue;
                s.b = c[r.below((uint32_t) c.size())];
                s.a = reg_of(p, r, VarType::UInt32);
                s.c = r.below(2) ? reg_of(p, r, VarType::Bool) : -1;
                return s;
            }
            case 11:
                if (!effects) continue;
                s.k = p.heavy ? (r.below(5) ? WRITE : SADD) : r.below(3) ? SADD : WRITE;
                s.a = reg_of(p, r, VarType::UInt32);
                s.b = s.k == SADD ? reg_of(p, r, VarType::UInt32) : reg_of(p, r, p.tgt_t[1]);
                s.c = r.below(2) ? reg_of(p, r, VarType::Bool) : -1;
                s.op = r.below(3);
                return s;
            case 12:
                if (!p.arr_len || in_call) continue;
                s.k = r.below(2) ? AREAD : AWRITE;
                s.a = reg_of(p, r, VarType::UInt32);
                s.b = reg_of(p, r, p.arr_t);
                if (s.k == AREAD) { s.d = reg_of(p, r, p.arr_t, true); s.c = -1; }
                else s.c = r.below(2) ? reg_of(p, r, VarType::Bool) : -1;
                return s;
            case 14:
                s.k = COOP;
                s.d = reg_of(p, r, VarType::UInt32, true);
                s.a = reg_of(p, r, VarType::UInt32);
                s.b = reg_of(p, r, VarType::UInt32);
                s.op = (uint32_t) r.next();
                s.flag = effects && r.below(2);
                return s;
            case 13: {
                s.k = GETTER;
                std::vector<int> c;
                for (size_t i = 0; i < p.sc.size(); ++i) if (p.sc[i].t == t) c.push_back((int) i);
                if (c.empty() || in_call) continue;
                s.a = reg_of(p, r, VarType::UInt32);
                s.c = r.below(2) ? reg_of(p, r, VarType::Bool) : -1;
                for (uint32_t i = r.range(1, 4); i; --i) s.vals.push_back(r.below(4) ? c[r.below((uint32_t) c.size())] : -1);
                return s;
            }
        }
    }
}
/// Changes captured values only
void vary(Program &p, Rng &r, Block &b) {
    for (auto &s : b) {
        if (s.k == CAP && r.below(2)) {
            std::vector<int> c;
            for (size_t i = 0; i < p.sc.size(); ++i) if (p.sc[i].t == p.rt[s.d] && p.sc[i].literal == p.sc[(size_t) s.a].literal) c.push_back((int) i);
            s.a = c[r.below((uint32_t) c.size())];
        } else if (s.k == LIT && r.below(4) == 0) {
            s.imm = rnd_value(r, p.rt[s.d]);
        }
        vary(p, r, s.s1); vary(p, r, s.s2);
    }
}
Stmt gen_stmt(Program &p, Rng &r, int depth, bool in_call, bool effects) {
    if (p.budget) p.budget--;
    if (depth <= 0 || p.budget < 4 || r.below(3)) return gen_simple(p, r, in_call, effects);
    Stmt s;
    switch (r.below(3)) {
        case 0:
            s.k = LOOP;
            s.a = reg_of(p, r, VarType::UInt32);
            s.c = r.below(3) == 0 ? reg_of(p, r, VarType::Bool) : -1; // early exit
            s.imm = r.below(4) ? 7 : 3;
            s.flag = r.below(2);    // the bound is a part of the loop state
            s.op = r.below(3);      // further (unchanged) state variables
            s.s1 = gen_block(p, r, r.range(1, 4), depth - 1, in_call, effects);
            return s;
        case 1:
            s.k = COND;
            s.c = reg_of(p, r, VarType::Bool);
            s.s1 = gen_block(p, r, r.range(0, 3), depth - 1, in_call, effects);
            s.s2 = gen_block(p, r, r.range(0, 3), depth - 1, in_call, effects);
            s.op = r.below(3);
            return s;
        default: {
            s.k = CALL;
            s.a = reg_of(p, r, VarType::UInt32);
            s.c = r.below(2) ? reg_of(p, r, VarType::Bool) : -1;
            uint32_t ni = r.range(1, 3);
            uint32_t id = 0;
            for (uint32_t i = 0; i < ni; ++i) {
                id += 1 + (id + (ni - i) < NInst && r.below(3) == 0);
                s.ids.push_back(id);
            }
            for (int i = 1; i < NR; ++i) if (r.below(2)) s.in.push_back(i);
            for (int i = 1; i < NR; ++i) if (r.below(3) == 0) s.out.push_back(i);
            s.flag = false;
            if (s.out.empty() || r.below(4) == 0) std::reverse(s.in.begin(), s.in.end());
            bool similar = r.below(2);
            for (uint32_t i = 0; i < ni; ++i) {
                if (i && similar) {
                    s.inst.push_back(s.inst[0]);
                    vary(p, r, s.inst.back());
                } else {
                    s.inst.push_back(gen_block(p, r, r.range(1, 4), depth - 1, true, effects));
                }
            }
            if (s.out.empty() && !has_effects(s.inst[0])) s.out.push_back((int) r.range(1, NR - 1));
            return s;
        }
    }
}
Block gen_block(Program &p, Rng &r, uint32_t n, int depth, bool in_call, bool effects) {
    Block b;
    for (uint32_t i = 0; i < n; ++i) b.push_back(gen_stmt(p, r, depth, in_call, effects));
    return b;
}

// ------------------------------------------------------------- interpretation
uint64_t ev_bin(VarType t, uint32_t op, uint64_t a, uint64_t b) {
    bool lt = is_float(t) ? to_d(t, a) < to_d(t, b) : is_signed(t) ? sext(t, a) < sext(t, b) : a < b;
    switch (op) {
        case 0: return wrap(t, a + b);
        case 1: return wrap(t, a - b);
        case 2: return wrap(t, a * b);
        case 3: return a & b;
        case 4: return a | b;
        case 5: return a ^ b;
        case 6: return lt ? a : b;
        default: return lt ? b : a;
    }
}
bool ev_cmp(VarType t, uint32_t op, uint64_t a, uint64_t b) {
    bool lt = is_float(t) ? to_d(t, a) < to_d(t, b) : is_signed(t) ? sext(t, a) < sext(t, b) : a < b;
    bool eq = is_float(t) ? to_d(t, a) == to_d(t, b) : a == b;
    switch (op) { case 0: return lt; case 1: return lt || eq; case 2: return eq; default: return !eq; }
}
/// Conversions are applied to the lowest 8 bits, which every type can represent
uint64_t ev_cvt(VarType t, uint64_t a) {
    a &= 0x7f;
    if (!is_float(t)) return a;
    uint64_t o = 0;
    from_d(t, (double) a, o);
    return o;
}
struct Lane { uint64_t r[NR]; Vec arr; };
/// Shape of a matrix product: the input consists of the lane and two registers
struct Coop {
    uint32_t len, out, stride, offset, bias, at;
    bool tr, has_bias, relu, outer;
    Coop(const Stmt &s) {
        uint32_t o = s.op;
        auto f = [&](uint32_t n) { uint32_t x = o % n; o /= n; return x; };
        len = 1 + f(3); out = 1 + f(3); tr = f(2); has_bias = f(2); relu = f(2); outer = f(2);
        stride = (tr ? out : len) + f(2); offset = f(5); bias = f(5); at = f(4);
    }
};
struct Interp {
    Program &p;
    Vec *tgt;
    uint32_t lane;
    uint32_t steps = 0;
    uint32_t idx(uint64_t x, size_t size) { return (uint32_t) ((x + lane) & (size - 1)); }
    void run(const Block &b, Lane &l) {
        for (auto &s : b) run(s, l);
    }
    void run(const Stmt &s, Lane &l) {
        steps++;
        bool m = s.c < 0 || l.r[s.c];
        VarType t = p.rt[s.d];
        switch (s.k) {
            case COOP: {
                Coop q(s);
                uint64_t in[3] = { l.r[0] & 3, l.r[s.a] & 3, l.r[s.b] & 3 };
                double y[3];
                for (uint32_t i = 0; i < q.out; ++i) {
                    y[i] = q.has_bias ? p.cm[q.bias + i] : 0;
                    for (uint32_t j = 0; j < q.len; ++j)
                        y[i] += p.cm[q.offset + (q.tr ? j : i) * q.stride + (q.tr ? i : j)] * (double) in[j];
                    if (q.relu && y[i] < 0) y[i] = 0;
                    if (s.flag && !q.outer) { p.ctgt[q.at + i] += y[i]; p.cmag[q.at + i] += std::abs(y[i]); }
                }
                if (s.flag && q.outer)
                    for (uint32_t i = 0; i < q.out; ++i)
                        for (uint32_t j = 0; j < q.len; ++j) {
                            double x = y[i] * (double) in[j];
                            p.ctgt[q.at + i * q.stride + j] += x;
                            p.cmag[q.at + i * q.stride + j] += std::abs(x);
                        }
                l.r[s.d] = (uint64_t) (y[q.out - 1] < 0 ? 0 : y[q.out - 1]);
                break;
            }
            case LIT: l.r[s.d] = s.imm; break;
            case CAP: l.r[s.d] = p.sc[(size_t) s.a].v; break;
            case BIN: l.r[s.d] = ev_bin(t, s.op, l.r[s.a], l.r[s.b]); break;
            case CMP: l.r[s.d] = ev_cmp(p.rt[s.a], s.op, l.r[s.a], l.r[s.b]); break;
            case SEL: l.r[s.d] = l.r[s.c] ? l.r[s.a] : l.r[s.b]; break;
            case CVT: l.r[s.d] = ev_cvt(t, l.r[s.a]); break;
            case GATHERK: { const Vec &v = p.tab[(size_t) s.b].v; l.r[s.d] = m ? v[l.r[s.a] & (v.size() - 1)] : 0; break; }
            case SADD: if (m) { uint64_t &x = tgt[0][idx(l.r[s.a], tgt[0].size())]; x = wrap(VarType::UInt32, x + l.r[s.b]); } break;
            case WRITE: if (m) tgt[1][lane] = l.r[s.b]; break;
            case AREAD: l.r[s.d] = l.arr[l.r[s.a] & 3]; break;
            case AWRITE: if (m) l.arr[l.r[s.a] & 3] = l.r[s.b]; break;
            case LOOP: {
                uint32_t bound = (uint32_t) (l.r[s.a] & s.imm);
                for (uint32_t i = 0; i < bound && (s.c < 0 || l.r[s.c]); ++i) run(s.s1, l);
                break;
            }
            case COND: run(l.r[s.c] ? s.s1 : s.s2, l); break;
            case CALL: {
                uint32_t k = (uint32_t) (l.r[s.a] & 3); // 0: null
                if (k > s.ids.size()) k = (uint32_t) s.ids.size();
                Lane q;
                memset(q.r, 0, sizeof(q.r));
                q.r[0] = l.r[0];
                if (m && k) {
                    for (int i : s.in) q.r[i] = l.r[i];
                    run(s.inst[k - 1], q);
                }
                for (int i : s.out) l.r[i] = q.r[i];
                break;
            }
            case GETTER: {
                uint32_t k = (uint32_t) (l.r[s.a] & 7);
                if (k > s.vals.size()) k = 0;
                l.r[s.d] = m && k && s.vals[k - 1] >= 0 ? p.sc[(size_t) s.vals[k - 1]].v : 0;
                break;
            }
        }
    }
};

// ------------------------------------------------------------------ recording
struct Abort { };
struct Recording {
    uint32_t cp;
    bool done = false;
    Recording(const char *name) { cp = jit_record_begin(B, name); }
    ~Recording() { jit_record_end(B, cp, !done); }
};
struct Mask {
    Mask(uint32_t m) { jit_var_mask_push(B, m); }
    ~Mask() { jit_var_mask_pop(B); }
};
Ref dup(uint32_t i) { return Ref(jit_var_inc_ref(i)); }
struct Tracer {
    Program &p;
    std::vector<Ref> sc, tab;
    Ref tgt[2], cm, ctgt;
    int abort_at = -1;
    bool expanded = false;
    struct Env { Ref r[NR]; Ref arr; bool call = false; };
    static Env copy(const Env &e) {
        Env x;
        for (int i = 0; i < NR; ++i) x.r[i] = dup(e.r[i]);
        if (e.arr) x.arr = dup(e.arr);
        x.call = e.call;
        return x;
    }
    Ref u32(uint64_t v) { return Ref(lit(VarType::UInt32, v)); }
    Ref index(const Env &e, int a, size_t n) {
        Ref s(jit_var_add(e.r[a], e.r[0])), m(u32(n - 1));
        return Ref(jit_var_and(s, m));
    }
    Ref mask(const Env &e, int c) { return c >= 0 ? dup(e.r[c]) : Ref(mask_true()); }

    void block(const Block &b, Env &e, int depth) {
        for (auto &s : b) {
            if (abort_at == 0) throw Abort();
            if (abort_at > 0) abort_at--;
            stmt(s, e, depth);
        }
    }
    void stmt(const Stmt &s, Env &e, int depth) {
        VarType t = p.rt[s.d];
        Ref *r = e.r;
        switch (s.k) {
            case LIT: r[s.d] = Ref(lit(t, s.imm)); break;
            case CAP: r[s.d] = dup(sc[(size_t) s.a]); break;
            case BIN: {
                static uint32_t (*const f[])(uint32_t, uint32_t) = { jit_var_add, jit_var_sub, jit_var_mul, jit_var_and,
                                                                     jit_var_or, jit_var_xor, jit_var_min, jit_var_max };
                r[s.d] = Ref(f[s.op](r[s.a], r[s.b]));
                break;
            }
            case CMP: {
                static uint32_t (*const f[])(uint32_t, uint32_t) = { jit_var_lt, jit_var_le, jit_var_eq, jit_var_neq };
                r[s.d] = Ref(f[s.op](r[s.a], r[s.b]));
                break;
            }
            case SEL: r[s.d] = Ref(jit_var_select(r[s.c], r[s.a], r[s.b])); break;
            case CVT: {
                VarType q = p.rt[s.a];
                Ref m(lit(q, 0x7f)), x(jit_var_and(r[s.a], m));
                r[s.d] = Ref(jit_var_cast(x, t, 0));
                break;
            }
            case GATHERK: {
                Ref k(u32(p.tab[(size_t) s.b].v.size() - 1)), i(jit_var_and(r[s.a], k)), m(mask(e, s.c));
                r[s.d] = Ref(jit_var_gather(tab[(size_t) s.b], i, m));
                break;
            }
            case SADD: {
                // Expanded and other reductions must not be mixed in a kernel, except that
                // pending ones (outside of loops etc.) are performed before expanding the target
                static const ReduceMode md[] = { ReduceMode::Local, ReduceMode::Direct, ReduceMode::Local };
                bool expand = p.mode == 0 || (p.mode == 2 && (expanded || s.op == 0 || jit_flag(JitFlag::SymbolicScope)));
                if (expand) expanded = true;
                Ref i(index(e, s.a, p.tgt[0].size())), m(mask(e, s.c));
                tgt[0] = Ref(jit_var_scatter(tgt[0], r[s.b], i, m, ReduceOp::Add, expand ? ReduceMode::Auto : md[s.op]));
                break;
            }
            case WRITE: {
                Ref m(mask(e, s.c));
                tgt[1] = Ref(jit_var_scatter(tgt[1], r[s.b], r[0], m, ReduceOp::Identity, ReduceMode::Auto));
                break;
            }
            case AREAD: case AWRITE: {
                Ref k(u32(3)), i(jit_var_and(r[s.a], k)), m(mask(e, s.c));
                if (s.k == AREAD) r[s.d] = Ref(jit_array_read(e.arr, i, m));
                else e.arr = Ref(jit_array_write(e.arr, i, r[s.b], m));
                break;
            }
            case COOP: {
                Coop q(s);
                Ref k(u32(3)), x[3], y[3];
                int in[3] = { 0, s.a, s.b };
                uint32_t raw[3];
                for (uint32_t i = 0; i < q.len; ++i) {
                    Ref m(jit_var_and(r[in[i]], k));
                    x[i] = Ref(jit_var_cast(m, p.ct, 0));
                    raw[i] = x[i];
                }
                Ref v(jit_coop_vec_pack(q.len, raw));
                MatrixDescr d, db;
                d.dtype = p.ct; d.layout = MatrixLayout::RowMajor;
                d.rows = q.tr ? q.len : q.out; d.cols = q.tr ? q.out : q.len;
                d.stride = q.stride; d.offset = q.offset; d.size = (d.rows - 1) * d.stride + d.cols;
                db = d;
                db.rows = q.out; db.cols = 1; db.stride = 1; db.offset = q.bias; db.size = q.out;
                Ref w(jit_coop_vec_matvec(cm, &d, v, q.has_bias ? (uint32_t) cm : 0, q.has_bias ? &db : nullptr, q.tr));
                if (q.relu) {
                    uint64_t z = 0;
                    Ref zero(jit_coop_vec_literal(B, p.ct, &z, 1, q.out));
                    w = Ref(jit_coop_vec_binary_op(JitOp::Max, w, zero));
                }
                if (s.flag && !q.outer) {
                    ctgt = Ref(jit_coop_vec_accum(ctgt, (uint32_t) p.ctgt.size(), q.at, w));
                } else if (s.flag) {
                    MatrixDescr o = d;
                    o.rows = q.out; o.cols = q.len; o.offset = q.at; o.stride = q.stride; o.size = (o.rows - 1) * o.stride + o.cols;
                    ctgt = Ref(jit_coop_vec_outer_product_accum(ctgt, (uint32_t) p.ctgt.size(), &o, w, v));
                }
                jit_coop_vec_unpack(w, q.out, raw);
                for (uint32_t i = 0; i < q.out; ++i) y[i] = Ref(raw[i]);
                Ref z(lit(p.ct, 0)), m(jit_var_max(y[q.out - 1], z));
                r[s.d] = Ref(jit_var_cast(m, VarType::UInt32, 0));
                break;
            }
            case LOOP: loop(s, e, depth); break;
            case COND: cond(s, e, depth); break;
            case CALL: call(s, e, depth); break;
            case GETTER: {
                Ref k(u32(7)), i(jit_var_and(r[s.a], k)), lim(u32(s.vals.size())), z(u32(0)), ok(jit_var_le(i, lim)),
                    j(jit_var_select(ok, i, z)), m(mask(e, s.c));
                std::vector<uint32_t> v;
                for (int x : s.vals) v.push_back(x >= 0 ? (uint32_t) sc[(size_t) x] : 0);
                r[s.d] = Ref(jit_var_call_getter(t, (uint32_t) v.size(), v.data(), j, m));
                break;
            }
        }
    }
    void loop(const Stmt &s, Env &e, int depth) {
        bool symbolic = jit_flag(JitFlag::SymbolicScope);
        std::vector<char> w(NR, 0);
        bool arr = false;
        writes(s.s1, w, arr);
        extra(s, w);
        Ref k(u32(s.imm)), bound(jit_var_and(e.r[s.a], k)), one(u32(1));
        char name[16];
        snprintf(name, sizeof(name), "loop%i", depth);
        Recording rec(name);
        Env q = copy(e);
        Ref cnt(u32(0));
        // state variables
        std::vector<Ref *> st;
        st.push_back(&cnt);
        if (s.flag) st.push_back(&bound);
        for (int i = 0; i < NR; ++i) if (w[(size_t) i]) st.push_back(&q.r[i]);
        if (arr) st.push_back(&q.arr);
        std::vector<uint32_t> idx;
        for (Ref *x : st) idx.push_back(*x);
        Ref lp(jit_var_loop_start(name, symbolic, idx.size(), idx.data()));
        auto take = [&] { for (size_t i = 0; i < st.size(); ++i) *st[i] = Ref(idx[i]); };
        take();
        Env base = copy(q);
        for (int tries = 0;; ++tries) {
            SIM_CHECK(tries < 3, "a loop is recorded again and again");
            Ref c(jit_var_lt(cnt, bound));
            if (s.c >= 0) { Ref c2(jit_var_and(c, q.r[s.c])); c = std::move(c2); }
            Ref act(jit_var_mask_apply(c, (uint32_t) jit_var_size(c))), lc(jit_var_loop_cond(lp, act));
            {
                Mask m(act);
                block(s.s1, q, depth - 1);
            }
            Ref cn(jit_var_add(cnt, one));
            cnt = std::move(cn);
            for (size_t i = 0; i < st.size(); ++i) idx[i] = *st[i];
            int rv = jit_var_loop_end(lp, lc, idx.data(), rec.cp);
            if (!rv) q = copy(base);
            take();
            if (rv) break;
        }
        rec.done = true;
        e = std::move(q);
    }
    void cond(const Stmt &s, Env &e, int depth) {
        bool symbolic = jit_flag(JitFlag::SymbolicScope);
        std::vector<char> w(NR, 0);
        bool arr = false;
        writes(s.s1, w, arr);
        writes(s.s2, w, arr);
        extra(s, w);
        char name[16];
        snprintf(name, sizeof(name), "cond%i", depth);
        Ref nc(jit_var_not(e.r[s.c])), mt(jit_var_mask_apply(e.r[s.c], (uint32_t) jit_var_size(nc))), mf(jit_var_mask_apply(nc, (uint32_t) jit_var_size(nc)));
        Recording rec(name);
        Ref h(jit_var_cond_start(name, symbolic, mt, mf));
        Env x[2];
        Ref label[2];
        for (int b = 0; b < 2; ++b) {
            x[b] = copy(e);
            {
                Mask m(b ? mf : mt);
                block(b ? s.s2 : s.s1, x[b], depth - 1);
            }
            std::vector<uint32_t> rv;
            for (int i = 0; i < NR; ++i) if (w[(size_t) i]) rv.push_back(x[b].r[i]);
            if (arr) rv.push_back(x[b].arr);
            label[b] = Ref(jit_var_cond_append(h, rv.data(), rv.size()));
        }
        std::vector<uint32_t> out(NR + 1, 0);
        jit_var_cond_end(h, out.data());
        size_t k = 0;
        for (int i = 0; i < NR; ++i) if (w[(size_t) i]) e.r[i] = Ref(out[k++]);
        if (arr) e.arr = Ref(out[k]);
        rec.done = true;
    }
    void call(const Stmt &s, Env &e, int depth) {
        bool symbolic = jit_flag(JitFlag::SymbolicScope);
        // instance
        Ref k3(u32(3)), t(jit_var_and(e.r[s.a], k3)), self(u32(0));
        for (size_t i = 0; i < s.ids.size(); ++i) {
            Ref lim(u32(i + 1)), m(i + 1 == s.ids.size() ? jit_var_ge(t, lim) : jit_var_eq(t, lim)), id(u32(s.ids[i]));
            self = Ref(jit_var_select(m, id, self));
        }
        Ref m(mask(e, s.c));
        char name[16];
        snprintf(name, sizeof(name), "call%i", depth);
        jit_new_scope(B);
        std::vector<Ref> rv, in;
        std::vector<uint32_t> chk, out(s.out.size() + 1, 0), raw_in, raw_rv;
        {
            Recording rec(name);
            uint32_t scope = jit_new_scope(B);
            in.emplace_back(jit_var_call_input(e.r[0]));
            for (int i : s.in) in.emplace_back(jit_var_call_input(e.r[i]));
            {
                Ref cm(jit_var_call_mask(B));
                Mask mk(cm);
                for (size_t i = 0; i < s.inst.size(); ++i) {
                    jit_set_scope(B, scope);
                    chk.push_back(jit_record_checkpoint(B));
                    uint32_t old_val = 0, old_idx = 0;
                    jit_var_self(B, &old_val, &old_idx);
                    Ref old = old_idx ? dup(old_idx) : Ref();
                    struct Restore { uint32_t v; uint32_t i; ~Restore() { jit_var_set_self(B, v, i); } } restore{ old_val, old_idx };
                    jit_var_set_self(B, s.ids[i], 0);
                    Env q;
                    q.call = true;
                    for (int j = 0; j < NR; ++j) q.r[j] = Ref(lit(p.rt[j], 0));
                    q.r[0] = dup(in[0]);
                    for (size_t j = 0; j < s.in.size(); ++j) q.r[s.in[j]] = dup(in[j + 1]);
                    block(s.inst[i], q, depth - 1);
                    for (int j : s.out) rv.push_back(dup(q.r[j]));
                }
                jit_set_scope(B, scope);
                chk.push_back(jit_record_checkpoint(B));
            }
            jit_new_scope(B);
            for (auto &x : in) raw_in.push_back(x);
            for (auto &x : rv) raw_rv.push_back(x);
            jit_var_call(name, symbolic, self, m, (uint32_t) s.ids.size(), NInst, s.ids.data(), (uint32_t) raw_in.size(), raw_in.data(),
                         (uint32_t) raw_rv.size(), raw_rv.data(), chk.data(), out.data());
            rec.done = true;
        }
        for (size_t i = 0; i < s.out.size(); ++i) e.r[s.out[i]] = Ref(out[i]);
    }
};
void show(const Program &p, const Block &b, int ind) {
    static const char *nm[] = { "lit", "cap", "bin", "cmp", "sel", "cvt", "gather", "sadd", "write", "aread", "awrite", "loop", "cond", "call", "getter", "coop" };
    for (auto &s : b) {
        char in[40] = "", out[40] = "";
        for (int x : s.in) snprintf(in + strlen(in), 40 - strlen(in), "%i ", x);
        for (int x : s.out) snprintf(out + strlen(out), 40 - strlen(out), "%i ", x);
        tracef("%*s%s d=%i a=%i b=%i c=%i op=%u imm=%llu flag=%i in(%s) out(%s)", ind, "", nm[s.k], s.d, s.a, s.b, s.c, s.op,
               (unsigned long long) s.imm, s.flag, in, out);
        show(p, s.s1, ind + 2);
        if (s.k == COND) { tracef("%*selse", ind, ""); show(p, s.s2, ind + 2); }
        for (size_t i = 0; i < s.inst.size(); ++i) { tracef("%*sinstance %u", ind, "", s.ids[i]); show(p, s.inst[i], ind + 2); }
    }
}
}

void ctrl_start() {
    for (uint32_t i = 0; i < NInst; ++i) {
        uint32_t id = jit_registry_put("LLVM", domain, &instances[i]);
        SIM_CHECK(id == i + 1, "first registered instances have the identifier %u", id);
    }
}
void ctrl_end() {
    for (uint32_t i = 0; i < NInst; ++i) jit_registry_remove(&instances[i]);
}

/// Records and evaluates a random structured program
static bool structured(Client &c, Rng &r, bool may_abort) {
    Program p;
    p.n = r.below(8) == 0 ? 1 : c.sizes[r.below(3)];
    if (p.n > 600) p.n = r.range(1, 600);
    static const VarType ts[NR] = { VarType::UInt32, VarType::UInt32, VarType::UInt32, VarType::Int32, VarType::Bool, VarType::Bool };
    static const VarType more[] = { VarType::UInt64, VarType::Float32, VarType::UInt8, VarType::Float64, VarType::Int64,
                                    VarType::UInt32, VarType::Float16, VarType::Bool, VarType::Int32 };
    for (int i = 0; i < NR; ++i) p.rt[i] = i < 6 ? ts[i] : more[r.below(9)];
    for (uint32_t i = r.range(2, 9); i; --i) {
        VarType t = p.rt[r.below(NR)];
        p.sc.push_back({ t, rnd_value(r, t), r.below(5) == 0 });
    }
    for (uint32_t i = r.range(1, 3); i; --i) {
        VarType t = p.rt[r.below(NR)];
        Vec v(1u << r.below(7));
        for (auto &x : v) x = rnd_value(r, t);
        p.tab.push_back({ t, v });
    }
    bool effects = r.below(3) != 0;
    p.tgt_t[0] = VarType::UInt32;
    p.tgt_t[1] = p.rt[r.below(NR)];
    p.tgt[0].resize(1u << r.below(6));
    p.tgt[1].resize(p.n);
    for (int k = 0; k < 2; ++k) for (auto &x : p.tgt[k]) x = rnd_value(r, p.tgt_t[k]);
    p.ct = r.below(4) ? VarType::Float32 : VarType::Float16;
    for (int i = 0; i < 20; ++i) p.cm.push_back((double) r.below(5) - 2);
    p.ctgt.assign(16, 0);
    p.cmag.assign(16, 0);
    for (auto &x : p.ctgt) x = (double) r.below(5) - 2;
    p.arr_len = r.below(4) == 0 && !c.w->p.faults ? 4 : 0;
    p.arr_t = p.rt[r.range(1, NR - 1)];
    p.mode = r.below(3);
    p.budget = r.range(4, 26);
    p.heavy = effects && r.below(5) == 0;
    p.body = gen_block(p, r, r.range(1, 3), 0, false, effects);
    {
        Block b2 = gen_block(p, r, r.range(1, 4), (int) r.range(1, 3), false, effects);
        for (auto &s : b2) p.body.push_back(std::move(s));
    }
    show(p, p.body, 2);

    auto u32v = [](uint64_t x) { return lit(VarType::UInt32, x); };
    // Initial values
    Tracer tr{ p };
    Tracer::Env env;
    std::vector<Vec> init(NR);
    for (int i = 0; i < NR; ++i) {
        VarType t = p.rt[i];
        Vec &v = init[(size_t) i];
        if (i == 0) {
            v.resize(p.n);
            for (uint32_t j = 0; j < p.n; ++j) v[j] = j;
            if (r.below(3)) env.r[i] = Ref(jit_var_counter(B, p.n));
            else env.r[i] = Ref(var_from(t, v, r));
            continue;
        }
        switch (r.below(4)) {
            case 0: { uint64_t x = rnd_value(r, t); v.assign(p.n, x); env.r[i] = Ref(lit(t, x)); break; }
            case 1: if (p.n > 1) { uint64_t x = rnd_value(r, t); v.assign(p.n, x); env.r[i] = Ref(var_from(t, Vec(1, x), r)); break; } [[fallthrough]];
            default: {
                Slot *q = c.pick_t(r, t, p.n, false);
                if (q && r.below(2)) { v = q->v; env.r[i] = dup(q->idx); q->pend = 0; break; }
                v.resize(p.n);
                for (auto &x : v) x = rnd_value(r, t);
                env.r[i] = Ref(var_from(t, v, r));
                if (p.n > 1 && r.below(8) == 0) { // a write to the variable is pending
                    uint32_t at = r.below(p.n);
                    uint64_t x = rnd_value(r, t);
                    Ref k(u32v(at)), m(mask_true()), l(lit(t, x));
                    env.r[i] = Ref(jit_var_scatter(env.r[i], l, k, m, ReduceOp::Identity, ReduceMode::Auto));
                    v[at] = x;
                }
            }
        }
    }
    for (auto &x : p.sc) tr.sc.emplace_back(x.literal ? lit(x.t, x.v) : var_from(x.t, Vec(1, x.v), r));
    for (auto &x : p.tab) tr.tab.emplace_back(var_from(x.t, x.v, r));
    for (int k = 0; k < 2; ++k) tr.tgt[k] = Ref(var_from(p.tgt_t[k], p.tgt[k], r));
    auto floats = [&](const std::vector<double> &x) {
        Vec v(x.size());
        for (size_t i = 0; i < x.size(); ++i) from_d(p.ct, x[i], v[i]);
        return v;
    };
    tr.cm = Ref(var_from(p.ct, floats(p.cm), r));
    tr.ctgt = Ref(var_from(p.ct, floats(p.ctgt), r));
    auto force = [](Ref &x) { void *q; x = Ref(jit_var_data(x, &q)); };
    for (size_t i = 0; i < p.sc.size(); ++i) if (!p.sc[i].literal) force(tr.sc[i]);
    for (auto &x : tr.tab) force(x);
    for (auto &x : tr.tgt) force(x);
    force(tr.cm);
    force(tr.ctgt);
    Vec arr0;
    if (p.arr_len) {
        uint64_t x = rnd_value(r, p.arr_t);
        Ref l(lit(p.arr_t, x, p.n)), a(jit_array_create(B, p.arr_t, p.n, p.arr_len));
        env.arr = Ref(jit_array_init(a, l));
        arr0.assign(p.arr_len, x);
    }
    uint32_t flags0 = jit_flags();
    if (r.below(2)) {
        jit_set_flag(JitFlag::OptimizeLoops, (int) r.below(2));
        jit_set_flag(JitFlag::OptimizeCalls, (int) r.below(2));
        jit_set_flag(JitFlag::MergeFunctions, (int) r.below(2));
    }
    try {
        // Sometimes, the program gives up half-way, and starts over
        if (may_abort) {
            tr.abort_at = (int) r.range(1, 25);
            try {
                Tracer::Env e2 = Tracer::copy(env);
                Recording rec("abandoned");
                Mask m(env.r[4]);
                tr.block(p.body, e2, 8);
                throw Abort();
            } catch (const Abort &) {
                SIM_PROBE("recording abandoned");
            }
            tr.abort_at = -1;
            SIM_CHECK(!jit_flag(JitFlag::SymbolicScope), "SymbolicScope flag still set after a recording was abandoned");
            if (r.below(4) == 0) { jit_set_flags(flags0); return true; }
        }
        tr.block(p.body, env, 8);
    } catch (const std::exception &ex) {
        if (c.w->p.faults && (strstr(ex.what(), "out of memory") || strstr(ex.what(), "could not allocate"))) {
            jit_set_flags(flags0);
            throw;
        }
        violation("recording of a structured program failed: %s", ex.what());
    }
    jit_set_flags(flags0);

    // Expected results
    std::vector<Vec> res(NR, Vec(p.n));
    std::vector<Vec> arr(p.arr_len, Vec(p.n));
    uint64_t steps = 0;
    for (uint32_t j = 0; j < p.n; ++j) {
        Lane l;
        for (int i = 0; i < NR; ++i) l.r[i] = init[(size_t) i][j];
        l.arr = arr0;
        Interp in{ p, p.tgt, j };
        in.run(p.body, l);
        steps += in.steps;
        for (int i = 0; i < NR; ++i) res[(size_t) i][j] = l.r[i];
        for (uint32_t k = 0; k < p.arr_len; ++k) arr[k][j] = l.arr[k];
    }
    note(steps);
    // Results become ordinary variables
    for (int i = 1; i < NR; ++i) {
        Ref &x = env.r[i];
        size_t sz = jit_var_size(x);
        SIM_CHECK(sz == 1 || sz == p.n, "register %i of a structured program has size %zu instead of %u", i, sz, p.n);
        Vec v = res[(size_t) i];
        if (sz == 1) {
            for (auto &y : v) SIM_CHECK(same(p.rt[i], y, v[0]), "register %i of a structured program is uniform, but should not be", i);
            v.resize(1);
        }
        if (r.below(3) == 0 && i != 1) continue;
        c.add(x.release(), p.rt[i], std::move(v));
    }
    for (uint32_t k = 0; k < p.arr_len; ++k) {
        Ref i(lit(VarType::UInt32, k)), m(mask_true()), x(jit_array_read(env.arr, i, m));
        if (jit_var_size(x) != p.n) continue;
        c.add(x.release(), p.arr_t, Vec(arr[k]));
    }
    bool exact = true; // the sums do not depend on the order of the updates
    for (double x : p.cmag) if (x > (p.ct == VarType::Float32 ? 16000000. : 2000.)) exact = false;
    if (effects && exact) {
        Slot &s = c.add(tr.ctgt.release(), p.ct, floats(p.ctgt));
        s.pend = 9;
        s.touched.assign(s.n(), 1);
        c.refresh(s);
    }
    if (effects)
        for (int k = 0; k < 2; ++k) {
            Slot &s = c.add(tr.tgt[k].release(), p.tgt_t[k], Vec(p.tgt[k]));
            s.pend = 9;
            s.touched.assign(s.n(), 1);
            c.refresh(s);
        }
    switch (r.below(3)) {
        case 0: jit_eval(); for (auto &s : c.s) s.pend = 0; break;
        case 1: { Slot *s = c.pick(r); if (s) verify(c, r, *s); break; }
        default: break;
    }
    return true;
}
/// Reads a version of a local array within a branch after that branch has
/// derived a newer version from it
ENG_OP(CTRL, op_array_version, 1) {
    if (r.below(6) || c.w->p.w[CTRL] < 10) return false;
    uint32_t n = r.range(2, 40);
    auto u32 = [](uint64_t x) { return Ref(lit(VarType::UInt32, x)); };
    auto arr_write = [&](uint32_t a, uint32_t k, uint32_t v) { Ref o(u32(k)), m(mask_true()); return Ref(jit_array_write(a, o, v, m)); };
    auto arr_read = [&](uint32_t a, uint32_t k) { Ref o(u32(k)), m(mask_true()); return Ref(jit_array_read(a, o, m)); };
    Ref ct(jit_var_counter(B, n)), one(u32(1)), odd(jit_var_and(ct, one)), mt0(jit_var_eq(odd, one)), mf0(jit_var_not(mt0));
    Ref a(jit_array_create(B, VarType::UInt32, n, 4)), z(lit(VarType::UInt32, 5, n)), a0(jit_array_init(a, z)), a1(arr_write(a0, 1, ct));
    Ref v77(u32(77)), v88(u32(88)), v99(u32(99));
    bool wt = r.below(2);
    Ref mt(jit_var_mask_apply(mt0, n)), mf(jit_var_mask_apply(mf0, n));
    uint32_t cp = jit_record_begin(B, "version"), h = jit_var_cond_start("version", 0, mt, mf), rv[2];
    jit_var_mask_push(B, mt);
    Ref at(wt ? arr_write(a1, 1, v77) : Ref(jit_var_inc_ref(a1)));
    jit_var_mask_pop(B);
    rv[0] = at; rv[1] = v99;
    Ref lt(jit_var_cond_append(h, rv, 2));
    jit_var_mask_push(B, mf);
    Ref af(arr_write(a1, 1, v88)), old(arr_read(a1, 1));
    af = arr_write(af, 3, old);
    jit_var_mask_pop(B);
    rv[0] = af; rv[1] = old;
    Ref lf(jit_var_cond_append(h, rv, 2));
    uint32_t out[2];
    jit_var_cond_end(h, out);
    jit_record_end(B, cp, 0);
    jit_var_dec_ref(h);
    Ref oa(out[0]), ov(out[1]), x(arr_read(oa, 1));
    for (uint32_t k : { (uint32_t) r.below(n), (uint32_t) r.below(n), 0u, 1u }) {
        uint32_t y = 0, w = 0;
        jit_var_read(x, k, &y);
        jit_var_read(ov, k, &w);
        uint32_t ey = (k & 1) ? (wt ? 77 : k) : 88, ew = (k & 1) ? 99 : k;
        if (w != ew || (y != ey && !wt))
            violation("entry %u of a local array modified by a branch is %u, expected %u, its previous version gives %u, expected %u", k, y, ey, w, ew);
        if (y != ey)
            known_finding("cond-array-version", "writes of one branch to a local array are lost when the other branch also reads the version preceding its writes");
    }
    return true;
}
ENG_OP(CTRL, op_structured, 4) { return structured(c, r, false); }
ENG_OP(CTRL, op_structured_abort, 1) { return structured(c, r, true); }
}
