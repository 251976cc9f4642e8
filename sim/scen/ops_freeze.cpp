/* Recorded ("frozen") functions: random functions are recorded with
   jit_freeze_start/stop and replayed with other inputs, while other threads
   work, replay, and flush caches. Reference: the function applied to the
   inputs of the respective call (P19). */
#include "engine.h"
#include <algorithm>
namespace eng {
namespace {
typedef VarType VT;
enum Kind { ADD, MULC, XORC, MIN_, MAX_, SEL, ADDS, FLT, EVAL, REDUCE, PREFIX, BLOCK, GATH, SCATRED, SCATW, SCATN, COMPRESS,
            OPAQUE, MKPERM, DOT, ANY, LOOP, COPY, DROP, PAUSE, SCALED, HALF, HALFT, TILE, CALL, GEMM, HSCAT, OPLIT, OPARR, UNDEF, VIEW, KIND_COUNT };
enum { CN, CS, CM, CX }; // classes: same size as the inputs, scalar, table, other
struct Op { int k, d = -1, a = -1, b = -1, c = -1; uint32_t x = 0, y = 0; ReduceOp rop = ReduceOp::Add; ReduceMode mode = ReduceMode::Auto; };
struct Val { int cls; VT t; bool dropped = false; };
enum Bad { B_NONE, B_READ, B_FLUSH, B_EVENT, B_FOREIGN, B_HOST, B_WRITE, B_ABORT, B_COUNT };
struct Fn {
    VT t;
    uint32_t n_in = 1, block = 2;
    bool table = false, scalar = false;
    bool expand = false, compress = false, dry = false, gemm = false, fixed = false, wide = false; // wide: kernels that access the inputs only through pointers
    std::vector<Op> ops;
    std::vector<Val> vals;
    std::vector<int> outs;
    int inputs() const { return (int) n_in + table + scalar; }
};
}
struct FrzRec {
    Fn fn;
    Recording *rec = nullptr;
    std::vector<int> outs;
    uint32_t n = 0, m = 0, flushes = 0, replays = 0;
    int in_use = 0, owner = 0;
    ~FrzRec() { if (rec) jit_freeze_destroy(rec); }
};
static const ReduceOp rops[] = { ReduceOp::Add, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or, ReduceOp::Mul };

static Fn rnd_fn(Rng &r) {
    Fn f;
    static const VT ts[] = { VT::UInt32, VT::UInt32, VT::Int32, VT::UInt64 };
    static const uint32_t bl[] = { 2, 3, 4, 8 };
    f.t = ts[r.below(4)];
    f.n_in = r.range(1, 3);
    f.block = bl[r.below(4)];
    f.table = r.below(3) != 0;
    f.scalar = r.below(3) == 0;
    for (uint32_t i = 0; i < f.n_in; ++i) f.vals.push_back({ CN, f.t });
    if (f.table) f.vals.push_back({ CM, f.t });
    if (f.scalar) f.vals.push_back({ CS, f.t });
    auto find = [&](int cls, int not_this = -1) -> int {
        uint32_t o = r.below((uint32_t) f.vals.size());
        for (size_t i = 0; i < f.vals.size(); ++i) {
            int k = (int) ((o + i) % f.vals.size());
            if (f.vals[(size_t) k].cls == cls && !f.vals[(size_t) k].dropped && k != not_this && f.vals[(size_t) k].t == f.t) return k;
        }
        return -1;
    };
    auto make = [&](int cls, VT t) { f.vals.push_back({ cls, t }); return (int) f.vals.size() - 1; };
    uint32_t n_ops = r.range(1, r.below(3) ? 5 : 12);
    while (f.ops.size() < n_ops) {
        Op o;
        static const int kinds[] = { ADD, ADD, ADD, MULC, MULC, XORC, MIN_, MAX_, SEL, ADDS, FLT, EVAL, EVAL, REDUCE, REDUCE, PREFIX, PREFIX,
            BLOCK, GATH, GATH, SCATRED, SCATRED, SCATRED, SCATW, SCATN, COMPRESS, OPAQUE, OPAQUE, MKPERM, DOT, ANY, LOOP, COPY, DROP, DROP, PAUSE, SCALED, HALF, HALFT, TILE, CALL, CALL, CALL, GEMM, HSCAT, OPLIT, OPLIT, OPARR, UNDEF, VIEW };
        o.k = kinds[r.below(sizeof(kinds) / sizeof(int))];
        o.a = find(CN); o.b = find(CN); o.c = find(CN);
        o.x = r.next() & 0xffff; o.y = r.next() & 0xffff;
        o.rop = rops[r.below(5)];
        switch (o.k) {
            case ADD: case MIN_: case MAX_: case SEL: case MULC: case XORC: case FLT: case LOOP: o.d = make(CN, f.t); break;
            case ADDS: case SCALED: o.c = find(CS); if (o.c < 0) continue; o.d = make(o.k == ADDS ? CN : CS, f.t); break;
            case EVAL: case PAUSE: break;
            case REDUCE: o.rop = rops[r.below(2) ? 0 : r.below(3)]; o.d = make(CS, f.t); f.dry = true; break;
            case PREFIX: o.rop = rops[r.below(3)]; o.d = make(CN, f.t); f.dry = true; break;
            case BLOCK: o.rop = rops[r.below(3)]; o.d = make(CX, f.t); f.dry = true; break;
            case GATH: o.c = r.below(2) ? find(CM) : find(CN); if (o.c < 0) continue; o.d = make(CN, f.t); break;
            case SCATRED: case SCATW: {
                o.c = find(CM); if (o.c < 0) continue;
                static const ReduceMode md[] = { ReduceMode::Auto, ReduceMode::Direct, ReduceMode::Expand, ReduceMode::Expand, ReduceMode::Local };
                o.mode = md[r.below(5)];
                o.rop = rops[r.below(3)];
                o.d = make(CM, f.t);
                if (o.c >= f.inputs() && (o.y & 1)) f.vals[(size_t) o.c].dropped = true; // written in place
                if (o.k == SCATRED) f.expand = true;
                break;
            }
            case SCATN:
                o.d = make(CN, f.t);
                if (o.a == o.b) o.y &= ~1u;
                if (o.a >= f.inputs() && (o.y & 1)) f.vals[(size_t) o.a].dropped = true;
                break;
            case COMPRESS: if (f.compress) continue; o.d = make(CX, VT::UInt32); f.compress = true; if ((o.y & 7) == 0) f.fixed = true; break;
            case OPAQUE: o.d = make(CS, f.t); break;
            case MKPERM: o.d = make(CN, f.t); if ((o.y & 12) == 0) f.fixed = true; break;
            case DOT: o.d = make(CS, f.t); break;
            case ANY: o.d = make(CS, f.t); f.dry = true; break;
            case COPY: o.d = make(CN, f.t); break;
            case CALL: o.b = find(CM); o.c = find(CS); o.d = make(CN, f.t); break;
            case HSCAT: o.c = find(CM); if (o.c < 0) continue; o.d = make(CM, f.t); f.expand = true; break;
            case OPLIT: o.d = make(CS, f.t); break;
            case VIEW: o.x *= o.y & 1; o.d = make(CX, f.t); f.wide = true; break;
            case UNDEF: case OPARR: o.d = make(CN, f.t); f.fixed = true; break; // the size becomes part of the recording
            case GEMM: o.d = make(CX, f.t); f.dry = f.gemm = true; break;
            case HALFT: o.c = find(CM); if (o.c < 0) continue; // fall through
            case HALF: case TILE: o.d = make(CX, f.t); f.wide = true; break;
            case DROP: {
                int k = (int) r.below((uint32_t) f.vals.size());
                if (k < f.inputs() || f.vals[(size_t) k].dropped) continue;
                f.vals[(size_t) k].dropped = true; o.a = k;
                break;
            }
        }
        f.ops.push_back(o);
    }
    for (int tries = 0; tries < 40 && (f.outs.empty() || r.below(3)); ++tries) {
        int k = (int) r.below((uint32_t) f.vals.size());
        if (f.vals[(size_t) k].dropped || (k < f.inputs() && r.below(6))) continue;
        bool dup = false;
        for (int x : f.outs) dup |= x == k;
        if (!dup) f.outs.push_back(k);
    }
    if (f.outs.empty()) f.outs.push_back(0);
    return f;
}

static void describe(const Fn &f, uint32_t n, uint32_t m) {
    static const char *names[] = { "add", "mulc", "xorc", "min", "max", "select", "adds", "float", "eval", "reduce", "prefix", "block", "gather", "scatter-reduce",
        "scatter-table", "scatter", "compress", "opaque-width", "mkperm", "dot", "any/all", "loop", "copy", "drop", "pause", "scaled", "half", "half+table", "tile", "call", "gemm", "half-scatter", "opaque-literal", "opaque-array", "undefined", "view" };
    tracef("function of type %s, %u inputs of size %u%s%s (table size %u), block size %u:", jit_type_name(f.t), f.n_in, n, f.table ? ", table" : "", f.scalar ? ", scalar" : "", m, f.block);
    for (const Op &o : f.ops) tracef("  v%d = %s(v%d, v%d, v%d; %u, %u, %s, mode %u)", o.d, names[o.k], o.a, o.b, o.c, o.x, o.y, opname(o.rop), (uint32_t) o.mode);
    std::string s; for (int k : f.outs) s += " v" + std::to_string(k);
    tracef("  return%s", s.c_str());
}

// ---------------------------------------------------------------- reference
static std::vector<Vec> model(const Fn &f, const std::vector<Vec> &in) {
    std::vector<Vec> v(f.vals.size());
    for (size_t i = 0; i < in.size(); ++i) v[i] = in[i];
    VT t = f.t;
    size_t n = in[0].size();
    auto lt = [t](uint64_t a, uint64_t b) { return is_signed(t) ? sext(t, a) < sext(t, b) : a < b; };
    for (const Op &o : f.ops) {
        static const Vec none;
        const Vec &a = o.a >= 0 ? v[(size_t) o.a] : none, &b = o.b >= 0 ? v[(size_t) o.b] : none, &c = o.c >= 0 ? v[(size_t) o.c] : none;
        Vec d;
        switch (o.k) {
            case ADD: for (size_t i = 0; i < n; ++i) d.push_back(wrap(t, a[i] + b[i])); break;
            case MULC: for (size_t i = 0; i < n; ++i) d.push_back(wrap(t, a[i] * (o.x * 2 + 3))); break;
            case XORC: for (size_t i = 0; i < n; ++i) d.push_back(wrap(t, a[i] ^ (o.x + 1))); break;
            case MIN_: for (size_t i = 0; i < n; ++i) d.push_back(lt(a[i], b[i]) ? a[i] : b[i]); break;
            case MAX_: for (size_t i = 0; i < n; ++i) d.push_back(lt(a[i], b[i]) ? b[i] : a[i]); break;
            case SEL: for (size_t i = 0; i < n; ++i) d.push_back(lt(a[i], b[i]) ? c[i] : wrap(t, a[i] + o.x)); break;
            case ADDS: for (size_t i = 0; i < n; ++i) d.push_back(wrap(t, a[i] + c[0])); break;
            case SCALED: d.push_back(wrap(t, c[0] * (o.x * 2 + 3))); break;
            case FLT: for (size_t i = 0; i < n; ++i) d.push_back((a[i] & 255) * 3 + 1); break;
            case LOOP: for (size_t i = 0; i < n; ++i) { uint64_t x = b[i]; for (uint64_t j = 0; j < (a[i] & 7); ++j) x = wrap(t, x * 3 + 1); d.push_back(x); } break;
            case REDUCE: { uint64_t x = red_identity(t, o.rop); for (uint64_t y : a) red(t, o.rop, x, y, x); d.push_back(x); break; }
            case PREFIX: {
                size_t bs = (o.x & 1) ? n : f.block;
                bool excl = o.x & 2, rev = o.x & 4;
                d.resize(n);
                for (size_t s = 0; s < n; s += bs) {
                    uint64_t x = red_identity(t, o.rop);
                    for (size_t j = 0; j < bs; ++j) {
                        size_t i = rev ? s + bs - 1 - j : s + j;
                        if (excl) d[i] = x;
                        red(t, o.rop, x, a[i], x);
                        if (!excl) d[i] = x;
                    }
                }
                break;
            }
            case BLOCK:
                for (size_t s = 0; s < n; s += f.block) {
                    uint64_t x = red_identity(t, o.rop);
                    for (size_t j = 0; j < f.block; ++j) red(t, o.rop, x, a[s + j], x);
                    d.push_back(x);
                }
                break;
            case GATH: for (size_t i = 0; i < n; ++i) d.push_back(c[a[i] & 3]); break;
            case SCATRED:
                d = c;
                for (size_t i = 0; i < n; ++i)
                    if (!(o.x & 1) || (b[i] & 1)) { uint64_t &x = d[a[i] & 7]; red(t, o.rop, x, b[i], x); }
                break;
            case SCATW: d = c; for (size_t i = 0; i < n; ++i) d[a[i] & 7] = wrap(t, (a[i] & 7) * o.x + 1); break;
            case SCATN: d = a; for (size_t i = 0; i < n; ++i) if (b[i] & 1) d[i] = wrap(t, b[i] + o.x); break;
            case COMPRESS: for (size_t i = 0; i < n; ++i) if ((o.y & 7) == 0 || i == 0 || (i != 1 && (a[i] & 1))) d.push_back(i); break;
            case OPAQUE: d.push_back(n); break;
            case MKPERM:
                for (size_t bs = o.y & 1 ? n : f.block, s = 0; s < n; s += bs) {
                    Vec w;
                    for (size_t j = 0; j < bs; ++j) w.push_back((o.y & 12) == 0 ? o.x & 7 : a[s + j] & 7);
                    std::sort(w.begin(), w.end());
                    d.insert(d.end(), w.begin(), w.end());
                }
                break;
            case DOT: { uint64_t x = 0; for (size_t i = 0; i < n; ++i) x += (a[i] & 15) * (b[i] & 15); d.push_back(x); break; }
            case ANY: {
                bool any = false, all = true;
                for (uint64_t y : a) { bool z = (y & (o.x & 7)) == 0; any |= z; all &= z; }
                d.push_back((o.y & 1 ? any : all) ? o.x : 5);
                break;
            }
            case COPY: d = a; break;
            case HALF: case HALFT: for (size_t i = 0; i < n / 2; ++i) d.push_back(wrap(t, a[2 * i] + a[2 * i + 1] + (o.k == HALFT ? c[i & 3] : 0))); break;
            case CALL:
                for (size_t i = 0; i < n; ++i) {
                    uint64_t id = a[i] & 3, x = a[i], y = 0, sc = o.c >= 0 ? c[0] : o.y;
                    if ((o.y & 3) == 0) id &= 1;
                    if (id == 1) y = x * 3 + sc;
                    else if (id == 2) y = (x ^ (o.x + 1)) + (o.b >= 0 ? b[x >> 1 & 3] : 0);
                    else if (id == 3) y = sc + o.x;
                    d.push_back(wrap(t, y));
                }
                break;
            case HSCAT:
                for (uint64_t y : c) d.push_back(y & 15);
                for (size_t i = 0; i < n; ++i) d[a[i] & 7] += b[i] & 1;
                break;
            case VIEW: for (size_t i = 0; i < n / 2; ++i) d.push_back(wrap(t, a[i] + o.x)); break;
            case UNDEF: d = b; break;
            case OPARR: d.assign(n, wrap(t, o.y & 2 ? 0 : o.x)); break;
            case OPLIT: d.push_back(wrap(t, o.x * 7 + (o.y & 1 ? 0 : 1ull << 40))); if (o.y & 2) d[0] = 0; break;
            case GEMM: {
                size_t K = f.block, M = n / K;
                for (size_t i = 0; i < M; ++i)
                    for (size_t j = 0; j < M; ++j) {
                        uint64_t x = 0;
                        for (size_t k = 0; k < K; ++k) x += (o.x & 1 ? a[k * M + i] & 15 : a[i * K + k] & 15) * (o.x & 2 && !(o.x & 1) ? b[j * K + k] & 15 : b[k * M + j] & 15);
                        d.push_back(x);
                    }
                break;
            }
            case TILE: for (size_t i = 0; i < 2 * n; ++i) d.push_back(wrap(t, a[i >> 1] + (o.x & 1 ? b[i >> 1] : 0))); break;
            default: continue;
        }
        v[(size_t) o.d] = std::move(d);
    }
    return v;
}

// --------------------------------------------------------------- execution
namespace {
struct Run {
    Client &c;
    Rng &r;
    const Fn &f;
    std::vector<Ref> v;
    bool recording;
    Run(Client &c, Rng &r, const Fn &f, const std::vector<uint32_t> &in, bool recording) : c(c), r(r), f(f), v(f.vals.size()), recording(recording) {
        for (size_t i = 0; i < in.size(); ++i) v[i] = Ref(jit_var_inc_ref(in[i]));
    }
    void flush() {
        for (Ref &x : v) if (x.i) jit_var_schedule(x);
        jit_eval();
    }
    Ref band(uint32_t x, uint64_t k) { Ref l(lit(f.t, k)); return Ref(jit_var_and(x, l)); }
    Ref u32(Ref &&x) { return f.t == VT::UInt32 ? std::move(x) : Ref(jit_var_cast(x, VT::UInt32, 0)); }
    Ref from_u32(Ref &&x) { return f.t == VT::UInt32 ? std::move(x) : Ref(jit_var_cast(x, f.t, 0)); }
    /// Evaluate an isolated result
    void done(const Op &o, Ref &&x) {
        jit_var_schedule(x);
        jit_eval();
        v[(size_t) o.d] = std::move(x);
    }
    /// Target of a scatter operation: either given up, or kept (a copy is made)
    Ref target(const Op &o, int k) {
        if (k >= f.inputs() && (o.y & 1)) return std::move(v[(size_t) k]);
        return Ref(jit_var_inc_ref(v[(size_t) k]));
    }
    void op(const Op &o) {
        VT t = f.t;
        uint32_t a = o.a >= 0 ? v[(size_t) o.a].i : 0, b = o.b >= 0 ? v[(size_t) o.b].i : 0, cc = o.c >= 0 ? v[(size_t) o.c].i : 0;
        Ref res;
        switch (o.k) {
            case ADD: res = Ref(jit_var_add(a, b)); break;
            case MULC: { Ref l(lit(t, o.x * 2 + 3)); res = Ref(jit_var_mul(a, l)); break; }
            case XORC: { Ref l(lit(t, o.x + 1)); res = Ref(jit_var_xor(a, l)); break; }
            case MIN_: res = Ref(jit_var_min(a, b)); break;
            case MAX_: res = Ref(jit_var_max(a, b)); break;
            case SEL: { Ref l(lit(t, o.x)), m(jit_var_lt(a, b)), e(jit_var_add(a, l)); res = Ref(jit_var_select(m, cc, e)); break; }
            case ADDS: res = Ref(jit_var_add(a, cc)); break;
            case SCALED: { flush(); Ref l(lit(t, o.x * 2 + 3)); done(o, Ref(jit_var_mul(cc, l))); return; }
            case FLT: {
                VT ft = o.x & 1 ? VT::Float32 : VT::Float64;
                uint64_t k3, k1; from_d(ft, 3, k3); from_d(ft, 1, k1);
                Ref m(band(a, 255)), x(jit_var_cast(m, ft, 0)), l3(lit(ft, k3)), l1(lit(ft, k1)), y(jit_var_fma(x, l3, l1));
                res = Ref(jit_var_cast(y, t, 0));
                break;
            }
            case EVAL: flush(); return;
            case PAUSE: {
                if (!recording) return;
                flush();
                int was = jit_freeze_pause(B);
                SIM_CHECK(!was, "jit_freeze_pause() reports a pause");
                if (!c.s.empty()) verify(c, r, c.s[r.below((uint32_t) c.s.size())]);
                was = jit_freeze_resume(B);
                SIM_CHECK(was, "jit_freeze_resume() reports no pause");
                return;
            }
            case REDUCE: flush(); done(o, Ref(jit_var_reduce(B, t, o.rop, a))); return;
            case PREFIX: flush(); done(o, Ref(jit_var_block_prefix_reduce(o.rop, a, o.x & 1 ? (uint32_t) jit_var_size(a) : f.block, (o.x >> 1) & 1, (o.x >> 2) & 1))); return;
            case BLOCK: flush(); done(o, Ref(jit_var_block_reduce(o.rop, a, f.block, 0))); return;
            case GATH: {
                if (f.vals[(size_t) o.c].cls == CN) flush();
                Ref i(u32(band(a, 3))), m(mask_true());
                res = Ref(jit_var_gather(cc, i, m));
                break;
            }
            case SCATRED: {
                flush();
                Ref i(u32(band(a, 7))), m(mask_true());
                if (o.x & 1) { Ref l(lit(t, 1)), q(band(b, 1)); m = Ref(jit_var_eq(q, l)); }
                Ref tg(target(o, o.c));
                done(o, Ref(jit_var_scatter(tg, b, i, m, o.rop, jit_can_scatter_reduce(B, t, o.rop) ? o.mode : ReduceMode::Auto)));
                return;
            }
            case SCATW: {
                flush();
                Ref j(band(a, 7)), l(lit(t, o.x)), one(lit(t, 1)), p(jit_var_mul(j, l)), x(jit_var_add(p, one)), i(u32(std::move(j))), m(mask_true());
                Ref tg(target(o, o.c));
                done(o, Ref(jit_var_scatter(tg, x, i, m, ReduceOp::Identity, ReduceMode::Auto)));
                return;
            }
            case SCATN: {
                flush();
                Ref i(jit_var_counter(B, jit_var_size(a))), l(lit(t, o.x)), x(jit_var_add(b, l)), one(lit(t, 1)), q(band(b, 1)), m(jit_var_eq(q, one));
                Ref tg(target(o, o.a));
                done(o, Ref(jit_var_scatter(tg, x, i, m, ReduceOp::Identity, ReduceMode::Auto)));
                return;
            }
            case COMPRESS: {
                flush();
                Ref ct(jit_var_counter(B, jit_var_size(a))), z(lit(VT::UInt32, 0)), u1(lit(VT::UInt32, 1)), one(lit(t, 1)), q(band(a, 1)), m(jit_var_eq(q, one)),
                    is0(jit_var_eq(ct, z)), not1(jit_var_neq(ct, u1)), m2(jit_var_or(m, is0)), m3(jit_var_and(m2, not1));
                if ((o.y & 7) == 0) { uint8_t one8 = 1; m3 = Ref(jit_var_literal(B, VT::Bool, &one8, jit_var_size(a), 1)); }
                done(o, Ref(jit_var_compress(m3)));
                return;
            }
            case OPAQUE: {
                flush();
                Ref x(jit_var_opaque_width(a));
                done(o, from_u32(std::move(x)));
                return;
            }
            case MKPERM: {
                flush();
                uint32_t n = (uint32_t) jit_var_size(a);
                Ref k(u32(band(a, 7)));
                if ((o.y & 12) == 0) { uint32_t kk = o.x & 7; k = Ref(jit_var_literal(B, VT::UInt32, &kk, n, 1)); }
                jit_var_schedule(k);
                jit_eval();
                void *pk = nullptr;
                Ref kk(jit_var_data(k, &pk));
                void *perm = jit_malloc(B, n * 4, 0);
                uint32_t *offsets = (o.y & 3) == 3 ? (uint32_t *) jit_malloc(B, (8 * 4 + 1) * 4, 1) : nullptr;
                jit_block_mkperm(B, (uint32_t *) pk, n, o.y & 1 ? n : f.block, 8, (uint32_t *) perm, offsets);
                if (offsets) jit_free(offsets);
                Ref pv(jit_var_mem_map(B, VT::UInt32, perm, n, 1)), m(mask_true());
                done(o, from_u32(Ref(jit_var_gather(k, pv, m))));
                return;
            }
            case DOT: {
                flush();
                Ref x(band(a, 15)), y(band(b, 15)), fx(jit_var_cast(x, VT::Float32, 0)), fy(jit_var_cast(y, VT::Float32, 0));
                jit_var_schedule(fx); jit_var_schedule(fy);
                jit_eval();
                Ref d(jit_var_reduce_dot(fx, fy));
                jit_var_schedule(d);
                jit_eval();
                done(o, Ref(jit_var_cast(d, t, 0)));
                return;
            }
            case ANY: {
                flush();
                Ref q(band(a, o.x & 7)), z(lit(t, 0)), m(jit_var_eq(q, z));
                if ((o.x & 7) == 0) { // a literal: use another mask with the same meaning
                    Ref s1(jit_var_or(a, a)), s2(jit_var_cast(a, VT::UInt32, 0)), w(lit(VT::UInt32, 0)), g(jit_var_ge(s2, w));
                    (void) s1;
                    m = std::move(g);
                }
                jit_var_schedule(m);
                jit_eval();
                if (jit_var_state(m) != VarState::Evaluated) { Ref e(jit_var_copy_opaque(m)); m = std::move(e); }
                Ref w(o.y & 1 ? jit_var_any_async(B, m) : jit_var_all_async(B, m)), la(lit(t, o.x)), lb(lit(t, 5));
                done(o, Ref(jit_var_select(w, la, lb)));
                return;
            }
            case LOOP: {
                flush();
                Ref bound(band(a, 7)), cnt(lit(t, 0)), one(lit(t, 1)), three(lit(t, 3)), x(jit_var_inc_ref(b));
                uint32_t cp = jit_record_begin(B, "loop");
                uint32_t idx[3] = { cnt, x, bound };
                Ref lp(jit_var_loop_start("loop", 0, 3, idx));
                for (int k = 0; k < 3; ++k) {
                    Ref s0(idx[0]), s1(idx[1]), s2(idx[2]);
                    Ref cond(jit_var_lt(s0, s2)), act(jit_var_mask_apply(cond, (uint32_t) jit_var_size(cond))), lc(jit_var_loop_cond(lp, act));
                    jit_var_mask_push(B, act);
                    Ref y(jit_var_mul(s1, three)), y2(jit_var_add(y, one)), c2(jit_var_add(s0, one));
                    jit_var_mask_pop(B);
                    idx[0] = c2; idx[1] = y2; idx[2] = s2;
                    if (jit_var_loop_end(lp, lc, idx, cp)) break;
                }
                jit_record_end(B, cp, 0);
                Ref s0(idx[0]), s1(idx[1]), s2(idx[2]);
                done(o, std::move(s1));
                return;
            }
            case COPY: flush(); done(o, Ref(jit_var_copy(a))); return;
            case CALL: {
                flush();
                uint32_t n_inst = (o.y & 3) == 0 ? 1 : 3;
                Ref self(u32(band(a, n_inst))), m(mask_true()), one(lit(VT::UInt32, 1));
                jit_new_scope(B);
                uint32_t cp = jit_record_begin(B, "frozen-call"), scope = jit_new_scope(B), ids[3] = { 1, 2, 3 }, chk[4] = { }, out = 0;
                Ref in(jit_var_call_input(a)), rv[3];
                uint32_t raw_in = in, raw_rv[3] = { };
                {
                    Ref cm(jit_var_call_mask(B));
                    jit_var_mask_push(B, cm);
                    for (uint32_t k = 0; k < n_inst; ++k) {
                        jit_set_scope(B, scope);
                        chk[k] = jit_record_checkpoint(B);
                        uint32_t old_val = 0, old_idx = 0;
                        jit_var_self(B, &old_val, &old_idx);
                        Ref old(old_idx ? jit_var_inc_ref(old_idx) : 0);
                        jit_var_set_self(B, ids[k], 0);
                        Ref sc(o.c >= 0 ? jit_var_inc_ref(cc) : lit(t, o.y));
                        if (k == 0) { Ref l(lit(t, 3)), y(jit_var_mul(in, l)); rv[k] = Ref(jit_var_add(y, sc)); }
                        else if (k == 1) {
                            Ref l(lit(t, o.x + 1)), y(jit_var_xor(in, l));
                            if (o.b >= 0) {
                                Ref iu(f.t == VT::UInt32 ? jit_var_inc_ref(in) : jit_var_cast(in, VT::UInt32, 0)), three(lit(VT::UInt32, 3)),
                                    sh(jit_var_shr(iu, one)), ix(jit_var_and(sh, three)), mt(mask_true()), g(jit_var_gather(b, ix, mt));
                                y = Ref(jit_var_add(y, g));
                            }
                            rv[k] = std::move(y);
                        } else { Ref l(lit(t, o.x)); rv[k] = Ref(jit_var_add(sc, l)); }
                        raw_rv[k] = rv[k];
                        jit_var_set_self(B, old_val, old);
                    }
                    jit_set_scope(B, scope);
                    chk[n_inst] = jit_record_checkpoint(B);
                    jit_var_mask_pop(B);
                }
                jit_new_scope(B);
                jit_var_call("frozen-call", false, self, m, n_inst, 4, ids, 1, &raw_in, n_inst, raw_rv, chk, &out);
                Ref res2(out);
                jit_record_end(B, cp, 0);
                done(o, std::move(res2));
                return;
            }
            case HSCAT: { // half precision accumulation
                flush();
                Ref x(band(b, 1)), y(band(cc, 15)), fx(jit_var_cast(x, VT::Float16, 0)), fy(jit_var_cast(y, VT::Float16, 0)), i(u32(band(a, 7))), m(mask_true());
                jit_var_schedule(fy);
                jit_eval();
                Ref s1(jit_var_scatter(fy, fx, i, m, ReduceOp::Add, o.x & 1 ? ReduceMode::Expand : ReduceMode::Auto));
                jit_var_schedule(s1);
                jit_eval();
                done(o, Ref(jit_var_cast(s1, t, 0)));
                return;
            }
            case VIEW: {
                flush();
                Ref x(jit_var_shrink(a, jit_var_size(a) / 2)), l(lit(t, o.x));
                if (!o.x) done(o, std::move(x));
                else done(o, Ref(jit_var_add(x, l)));
                return;
            }
            case UNDEF: {
                flush();
                Ref x(jit_var_undefined(B, t, jit_var_size(a))), i(jit_var_counter(B, jit_var_size(a))), m(mask_true());
                done(o, Ref(jit_var_scatter(x, b, i, m, ReduceOp::Identity, ReduceMode::Auto)));
                return;
            }
            case OPARR: {
                uint64_t k = o.y & 2 ? 0 : wrap(t, o.x);
                v[(size_t) o.d] = Ref(jit_var_literal(B, t, &k, jit_var_size(a), 1));
                return;
            }
            case OPLIT: {
                uint64_t k = o.y & 2 ? 0 : wrap(t, o.x * 7 + (o.y & 1 ? 0 : 1ull << 40));
                v[(size_t) o.d] = Ref(jit_var_literal(B, t, &k, 1, 1));
                return;
            }
            case GEMM: {
                flush();
                uint32_t K = f.block, M = (uint32_t) jit_var_size(a) / K;
                Ref x(band(a, 15)), y(band(b, 15)), fx(jit_var_cast(x, VT::Float32, 0)), fy(jit_var_cast(y, VT::Float32, 0));
                jit_var_schedule(fx); jit_var_schedule(fy);
                jit_eval();
                int At = o.x & 1, Bt = o.x & 2 && !At ? 1 : 0;
                Ref d(jit_var_batched_gemm(fx, fy, At, Bt, M, M, K, nullptr));
                jit_var_schedule(d);
                jit_eval();
                done(o, Ref(jit_var_cast(d, t, 0)));
                return;
            }
            case HALF: case HALFT: case TILE: {
                // No direct input: the size of the launch follows from the arrays that are accessed through pointers
                flush();
                uint32_t n = (uint32_t) jit_var_size(a);
                Ref i(jit_var_counter(B, o.k == TILE ? 2 * n : n / 2)), one(lit(VT::UInt32, 1)), m(mask_true()), x;
                if (o.k == TILE) {
                    Ref j(jit_var_shr(i, one)), g(jit_var_gather(a, j, m));
                    x = std::move(g);
                    if (o.x & 1) { Ref h(jit_var_gather(b, j, m)); x = Ref(jit_var_add(x, h)); }
                } else {
                    Ref j(jit_var_shl(i, one)), j1(jit_var_or(j, one)), tb;
                    if (o.k == HALFT) { Ref three(lit(VT::UInt32, 3)), jt(jit_var_and(i, three)); tb = Ref(jit_var_gather(cc, jt, m)); }
                    Ref g(jit_var_gather(a, j, m)), h(jit_var_gather(a, j1, m));
                    x = Ref(jit_var_add(g, h));
                    if (tb.i) x = Ref(o.x & 1 ? jit_var_add(tb, x) : jit_var_add(x, tb));
                }
                done(o, std::move(x));
                return;
            }
            case DROP: { Ref z; v[(size_t) o.a] = std::move(z); return; }
        }
        if (o.d >= 0) v[(size_t) o.d] = std::move(res);
    }
    void go(size_t from, size_t to) { for (size_t i = from; i < to; ++i) op(f.ops[i]); }
};
struct Inputs {
    std::vector<Ref> ref;
    std::vector<uint32_t> idx;
    std::vector<Vec> v;
    void add(Ref &&r, Vec &&x) { ref.push_back(std::move(r)); idx.push_back(ref.back()); v.push_back(std::move(x)); }
};
}
static void make_inputs(Client &c, Rng &r, const Fn &f, uint32_t n, uint32_t m, Inputs &in) {
    auto one = [&](size_t k) {
        if (k > 1) for (size_t tries = 0; tries < 3 && !c.s.empty(); ++tries) {
            Slot &s = c.s[r.below((uint32_t) c.s.size())];
            if (s.vt != f.t || s.n() != k || s.view) continue;
            bool dup = false;
            for (uint32_t i : in.idx) dup |= i == s.idx;
            if (dup) continue;
            Ref x(jit_var_inc_ref(s.idx));
            int rv = 0;
            Ref y(jit_var_schedule_force(x, &rv));
            in.add(std::move(y), Vec(s.v));
            return;
        }
        Vec v;
        for (size_t i = 0; i < k; ++i) v.push_back(rnd_value(r, f.t));
        Ref x(var_from(f.t, v, r));
        int rv = 0;
        Ref y(jit_var_schedule_force(x, &rv));
        in.add(std::move(y), std::move(v));
    };
    for (uint32_t i = 0; i < f.n_in; ++i) one(n);
    if (f.table) one(m);
    if (f.scalar) one(1);
    jit_eval();
}
static bool bad_sizes(const Fn &f, uint32_t n, uint32_t m) {
    return m == n || n % m == 0 || m % n == 0 || (f.wide && (n % 2 || n <= m));
}
static void pick_sizes(Rng &r, const Fn &f, uint32_t &n, uint32_t &m) {
    do {
        n = f.block * r.range(2, r.below(3) ? 12 : 60);
        m = r.range(8, 60);
    } while (n < 8 || bad_sizes(f, n, m));
}
static void check_outputs(Client &c, Rng &r, std::vector<Ref> &out, const std::vector<int> &outs, const Fn &f, const std::vector<Vec> &v, const char *what) {
    for (size_t i = 0; i < outs.size(); ++i) {
        Slot s;
        s.idx = out[i]; s.vt = f.vals[(size_t) outs[i]].t; s.v = v[(size_t) outs[i]];
        if (jit_var_type(s.idx) != s.vt || jit_var_size(s.idx) != s.n())
            violation("%s: output %zu has type %s and size %zu, expected %s and %zu", what, i, jit_type_name(jit_var_type(s.idx)),
                      jit_var_size(s.idx), jit_type_name(s.vt), s.n());
        if (r.below(3) && c.s.size() + 1 < c.w->p.max_slots)
            c.add(out[i].release(), s.vt, std::move(s.v)); // checked later
        else
            verify(c, r, s, (int) r.below(6));
    }
}
static bool freezing() { return jit_flag(JitFlag::FreezingScope) != 0; }

/// Record a function. Returns false if the recording was given up
static bool record(Client &c, Rng &r, FrzRec &fr, uint32_t n, uint32_t m, Inputs &in, int bad) {
    const Fn &f = fr.fn;
    jit_eval(); // pending work does not become part of the function
    Ref foreign;
    if (bad == B_FOREIGN) { Vec z(n, 3); foreign = Ref(var_from(f.t, z, r)); int rv = 0; Ref y(jit_var_schedule_force(foreign, &rv)); foreign = std::move(y); jit_eval(); }
    uint32_t flushes = c.w->kernel_flushes;
    if (verbose) describe(f, n, m);
    jit_freeze_start(B, in.idx.data(), (uint32_t) in.idx.size());
    SIM_CHECK(freezing(), "JitFlag::FreezingScope is not set");
    Run x(c, r, f, in.idx, true);
    std::vector<Vec> expect = model(f, in.v);
    size_t pos = bad ? r.below((uint32_t) f.ops.size() + 1) : 0;
    x.go(0, pos);
    bool aborted = false, cont = false;
    static bool host_called;
    const char *refused = nullptr;
    if (bad) {
        x.flush();
        try {
            switch (bad) {
                case B_READ: { refused = "jit_var_read()"; uint64_t q; Ref y(jit_var_copy(x.v[0])); jit_var_read(x.v[0], 1, &q); break; }
                case B_FLUSH: refused = "jit_flush_malloc_cache()"; jit_flush_malloc_cache(); break;
                case B_EVENT: refused = "jit_event_create()"; jit_event_create(B, 0); break;
                case B_HOST: refused = "jit_enqueue_host_func()"; host_called = false; jit_enqueue_host_func(B, [](void *) { host_called = true; }, nullptr); break;
                case B_WRITE: { refused = "jit_var_write()"; uint64_t q = 7; Ref y(jit_var_write(x.v[0], 1, &q)); break; }
                case B_FOREIGN: { Ref y(jit_var_add(x.v[0], foreign)); jit_var_schedule(y); jit_eval(); break; }
                default: break;
            }
            if (refused) violation("%s succeeded while a function is recorded", refused);
        } catch (const std::exception &e) {
            if (!refused) throw;
            tracef("refused: %.150s", e.what());
        }
        cont = r.below(2);
        if (cont) x.go(pos, f.ops.size());
        if (bad == B_FOREIGN) {
            bool raised = false;
            Recording *rec = nullptr;
            try { uint32_t o = x.v[0]; rec = jit_freeze_stop(B, &o, 1); } catch (const std::exception &) { raised = true; }
            if (rec) jit_freeze_destroy(rec);
            SIM_CHECK(raised, "the recording of a function that uses an undeclared variable was accepted");
        } else {
            jit_freeze_abort(B);
        }
        aborted = true;
        SIM_CHECK(!freezing(), "JitFlag::FreezingScope is still set");
    }
    if (aborted) {
        x.recording = false;
        if (!cont) x.go(pos, f.ops.size());
    } else {
        x.go(0, f.ops.size());
    }
    x.flush();
    std::vector<Ref> out;
    std::vector<void *> seen;
    fr.outs.clear();
    for (int k : f.outs) {
        void *p = nullptr;
        Ref d(jit_var_data(x.v[(size_t) k], &p));
        bool dup = false;
        for (void *q : seen) dup |= q == p;
        if (dup) continue;
        seen.push_back(p);
        fr.outs.push_back(k);
        out.push_back(Ref(jit_var_inc_ref(x.v[(size_t) k])));
    }
    if (!aborted) {
        std::vector<uint32_t> oi;
        for (Ref &q : out) oi.push_back(q);
        bool discard = r.below(12) == 0;
        if (discard) jit_freeze_discard(B, "test");
        fr.rec = jit_freeze_stop(B, oi.data(), (uint32_t) oi.size());
        SIM_CHECK(!freezing(), "JitFlag::FreezingScope is still set");
        SIM_CHECK((jit_freeze_discarded(fr.rec) != 0) == discard, "jit_freeze_discarded() is wrong");
        fr.n = n; fr.m = m; fr.flushes = flushes;
        SIM_PROBE("freeze-record");
    } else SIM_PROBE("freeze-abort");
    if (bad == B_HOST) SIM_CHECK(!host_called, "a refused host function was called");
    check_outputs(c, r, out, fr.outs, f, expect, aborted ? "function whose recording was given up" : "recorded function");
    for (size_t i = 0; i < in.idx.size(); ++i) { // inputs keep their value
        Slot s; s.idx = in.idx[i]; s.vt = f.t; s.v = in.v[i];
        if (r.below(3) == 0) verify(c, r, s, (int) r.below(6));
    }
    return !aborted;
}
ENG_OP(FREEZE, op_freeze_record, 3) {
    auto fr = std::make_shared<FrzRec>();
    fr->fn = rnd_fn(r);
    uint32_t n, m;
    pick_sizes(r, fr->fn, n, m);
    int bad = r.below(4) == 0 ? 1 + (int) r.below(B_COUNT - 1) : 0;
    Inputs in;
    make_inputs(c, r, fr->fn, n, m, in);
    fr->owner = c.id;
    if (record(c, r, *fr, n, m, in, bad)) c.w->frz.push_back(fr);
    return true;
}
ENG_OP(FREEZE, op_freeze_replay, 7) {
    World &w = *c.w;
    if (w.frz.empty()) return false;
    std::shared_ptr<FrzRec> fr = w.frz[r.below((uint32_t) w.frz.size())];
    fr->in_use++;
    const Fn &f = fr->fn;
    uint32_t n = fr->n, m = fr->m;
    if (!f.fixed && r.below(2)) { uint32_t n2, m2; pick_sizes(r, f, n2, m2); n = n2; if (r.below(2) || bad_sizes(f, n, m)) m = m2; }
    Inputs in;
    make_inputs(c, r, f, n, m, in);
    std::vector<Vec> expect = model(f, in.v);
    if (r.below(4) == 0) { fr->in_use--; return true; }
    uint32_t fl0 = fr->flushes;
    if (verbose) { tracef("replay:"); describe(f, n, m); }
    const Recording *rec0 = fr->rec;
    int ok = jit_freeze_dry_run(fr->rec, in.idx.data());
    bool flushed = w.kernel_flushes != fl0;
    if (!ok) {
        SIM_CHECK(flushed || fr->flushes != fl0 || fr->rec != rec0 || (f.expand && m != fr->m) || (f.gemm && n != fr->n) || (f.compress && (f.dry || f.expand)),
                  "jit_freeze_dry_run() asks for another recording without a reason");
        SIM_PROBE("freeze-retrace");
        if (fr->in_use == 1) {
            auto nf = std::make_shared<FrzRec>();
            nf->fn = f; nf->owner = c.id;
            for (size_t i = 0; i < w.frz.size(); ++i)
                if (w.frz[i] == fr) { w.frz.erase(w.frz.begin() + (ptrdiff_t) i); break; }
            fr->in_use--;
            if (fr->in_use == 0 && r.below(2)) fr.reset();
            if (record(c, r, *nf, n, m, in, 0)) w.frz.push_back(nf);
        } else fr->in_use--;
        return true;
    }
    if (r.below(3) == 0) sync_point();
    std::vector<uint32_t> oi(fr->outs.size(), 0);
    uint32_t fl1 = w.kernel_flushes;
    try {
        jit_freeze_replay(fr->rec, in.idx.data(), oi.data());
    } catch (const std::exception &e) {
        if (fl0 == w.kernel_flushes && fl1 == w.kernel_flushes) violation("jit_freeze_replay() failed: %.200s", e.what());
        tracef("replay failed: %.150s", e.what());
        fr->in_use--;
        return true;
    }
    SIM_PROBE("freeze-replay");
    fr->replays++;
    std::vector<Ref> out;
    for (uint32_t i : oi) out.push_back(Ref(i));
    if (r.below(3) == 0) in.ref.clear(); // the inputs are released while the work is in flight
    check_outputs(c, r, out, fr->outs, f, expect, "replayed function");
    if (!in.ref.empty())
        for (size_t i = 0; i < in.idx.size(); ++i) {
            Slot s; s.idx = in.idx[i]; s.vt = f.t; s.v = in.v[i];
            if (r.below(3) == 0) verify(c, r, s, (int) r.below(6));
        }
    fr->in_use--;
    return true;
}
ENG_OP(FREEZE, op_freeze_destroy, 1) {
    (void) r;
    World &w = *c.w;
    if (w.frz.size() < 2) return false;
    uint32_t i = r.below((uint32_t) w.frz.size());
    if (w.frz[i]->in_use) return false;
    std::shared_ptr<FrzRec> fr = w.frz[i];
    w.frz.erase(w.frz.begin() + i);
    return true;
}
}
