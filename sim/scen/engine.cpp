#include "engine.h"
#include <algorithm>
#include <cmath>
#include <stdexcept>

void sim_adversary_seed(uint64_t s);
void adversary_enable(bool value);
bool sim_adversary_note(uint32_t n) { for (uint32_t i = 0; i < n; ++i) SIM_PROBE("released blocks overwritten"); return true; }
namespace eng {
// ------------------------------------------------------------- scalar model
bool is_float(VarType t) { return t == VarType::Float16 || t == VarType::Float32 || t == VarType::Float64; }
bool is_signed(VarType t) { return t == VarType::Int8 || t == VarType::Int16 || t == VarType::Int32 || t == VarType::Int64; }
bool is_int(VarType t) {
    return is_signed(t) || t == VarType::UInt8 || t == VarType::UInt16 || t == VarType::UInt32 || t == VarType::UInt64;
}
uint32_t tsize(VarType t) {
    switch (t) {
        case VarType::Bool: case VarType::Int8: case VarType::UInt8: return 1;
        case VarType::Int16: case VarType::UInt16: case VarType::Float16: return 2;
        case VarType::Int32: case VarType::UInt32: case VarType::Float32: return 4;
        default: return 8;
    }
}
uint32_t tbits(VarType t) { return t == VarType::Bool ? 1 : tsize(t) * 8; }
uint64_t wrap(VarType t, uint64_t v) {
    uint32_t b = tbits(t);
    return b == 64 ? v : v & ((1ull << b) - 1);
}
int64_t sext(VarType t, uint64_t v) {
    uint32_t b = tbits(t);
    if (!is_signed(t) || b == 64) return (int64_t) v;
    uint64_t m = 1ull << (b - 1);
    return (int64_t) ((v ^ m) - m);
}
double to_d(VarType t, uint64_t bits) {
    switch (t) {
        case VarType::Float16: { _Float16 h; uint16_t u = (uint16_t) bits; memcpy(&h, &u, 2); return (double) h; }
        case VarType::Float32: { float f; uint32_t u = (uint32_t) bits; memcpy(&f, &u, 4); return f; }
        case VarType::Float64: { double d; memcpy(&d, &bits, 8); return d; }
        default:
            if (is_signed(t)) return (double) sext(t, bits);
            return (double) bits;
    }
}
bool from_d(VarType t, double d, uint64_t &bits) {
    if (d != d || std::floor(d) != d) return false; // small integers only
    double lim = t == VarType::Float16 ? 2048. : t == VarType::Float32 ? 16777216. : 4503599627370496.;
    if (std::fabs(d) > lim) return false;
    if (d == 0) d = 0; // no negative zero in the model
    switch (t) {
        case VarType::Float16: { _Float16 h = (_Float16) d; uint16_t u; memcpy(&u, &h, 2); bits = u; break; }
        case VarType::Float32: { float f = (float) d; uint32_t u; memcpy(&u, &f, 4); bits = u; break; }
        case VarType::Float64: memcpy(&bits, &d, 8); break;
        default: return false;
    }
    return true;
}
bool same(VarType t, uint64_t a, uint64_t b) {
    if (is_float(t)) return to_d(t, a) == to_d(t, b);
    if (t == VarType::Bool) return (a != 0) == (b != 0);
    return wrap(t, a) == wrap(t, b);
}
uint64_t load(VarType t, const void *p, size_t i) {
    switch (tsize(t)) {
        case 1: return ((const uint8_t *) p)[i];
        case 2: return ((const uint16_t *) p)[i];
        case 4: return ((const uint32_t *) p)[i];
        default: return ((const uint64_t *) p)[i];
    }
}
void store(VarType t, void *p, size_t i, uint64_t v) {
    switch (tsize(t)) {
        case 1: ((uint8_t *) p)[i] = (uint8_t) v; break;
        case 2: ((uint16_t *) p)[i] = (uint16_t) v; break;
        case 4: ((uint32_t *) p)[i] = (uint32_t) v; break;
        default: ((uint64_t *) p)[i] = v;
    }
}
bool can_red(VarType t, ReduceOp op) {
    if (t == VarType::Bool) return op == ReduceOp::And || op == ReduceOp::Or;
    if (is_float(t)) return op == ReduceOp::Add || op == ReduceOp::Mul || op == ReduceOp::Min || op == ReduceOp::Max;
    return op != ReduceOp::Identity && op != ReduceOp::Count;
}
const char *opname(ReduceOp op) {
    static const char *n[] = { "set", "add", "mul", "min", "max", "and", "or" };
    return n[(int) op];
}
bool red(VarType t, ReduceOp op, uint64_t a, uint64_t b, uint64_t &out) {
    if (op == ReduceOp::Identity) { out = b; return true; }
    if (is_float(t)) {
        double x = to_d(t, a), y = to_d(t, b), z;
        switch (op) {
            case ReduceOp::Add: z = x + y; break;
            case ReduceOp::Mul: z = x * y; break;
            case ReduceOp::Min: z = std::min(x, y); break;
            case ReduceOp::Max: z = std::max(x, y); break;
            default: return false;
        }
        return from_d(t, z, out);
    }
    if (is_signed(t)) {
        int64_t x = sext(t, a), y = sext(t, b);
        if (op == ReduceOp::Min) { out = wrap(t, (uint64_t) std::min(x, y)); return true; }
        if (op == ReduceOp::Max) { out = wrap(t, (uint64_t) std::max(x, y)); return true; }
    }
    switch (op) {
        case ReduceOp::Add: out = wrap(t, a + b); return true;
        case ReduceOp::Mul: out = wrap(t, a * b); return true;
        case ReduceOp::Min: out = std::min(a, b); return true;
        case ReduceOp::Max: out = std::max(a, b); return true;
        case ReduceOp::And: out = a & b; return true;
        case ReduceOp::Or: out = a | b; return true;
        default: return false;
    }
}
uint64_t red_identity(VarType t, ReduceOp op) {
    uint64_t o = 0;
    switch (op) {
        case ReduceOp::Mul: if (is_float(t)) from_d(t, 1, o); else o = 1; return o;
        case ReduceOp::And: return wrap(t, ~0ull);
        case ReduceOp::Min:
            if (is_float(t)) return t == VarType::Float16 ? 0x7C00 : t == VarType::Float32 ? 0x7F800000u : 0x7FF0000000000000ull;
            return is_signed(t) ? (1ull << (tbits(t) - 1)) - 1 : wrap(t, ~0ull);
        case ReduceOp::Max:
            if (is_float(t)) return t == VarType::Float16 ? 0xFC00 : t == VarType::Float32 ? 0xFF800000u : 0xFFF0000000000000ull;
            return is_signed(t) ? 1ull << (tbits(t) - 1) : 0;
        default: return 0;
    }
}
uint64_t rnd_value(Rng &r, VarType t) {
    uint64_t o = 0;
    if (is_float(t)) {
        from_d(t, (double) ((int) r.below(t == VarType::Float16 ? 13 : 41) - (t == VarType::Float16 ? 4 : 10)), o);
        return o;
    }
    if (t == VarType::Bool) return r.below(2);
    switch (r.below(6)) {
        case 0: return wrap(t, r.next());
        case 1: return wrap(t, (uint64_t) -(int64_t) r.below(20));
        case 2: return wrap(t, 1ull << r.below(64));
        default: return wrap(t, r.below(100));
    }
}

// ------------------------------------------------------------------- slots
Slot &Client::add(uint32_t idx, VarType vt, Vec &&v) {
    while (s.size() >= w->p.max_slots)
        release(0);
    Slot sl;
    sl.idx = idx; sl.vt = vt; sl.v = std::move(v);
    for (const Slot &x : s) // simplifications may return an operand
        if (x.idx == idx && x.view) sl.view = true;
    size_t n = jit_var_size(idx);
    SIM_CHECK(n == sl.v.size(), "variable r%u has %zu entries, expected %zu", idx, n, sl.v.size());
    SIM_CHECK(jit_var_type(idx) == vt, "variable r%u has type %u, expected %u", idx,
              (uint32_t) jit_var_type(idx), (uint32_t) vt);
    s.push_back(std::move(sl));
    return s.back();
}
void Client::release(size_t i) {
    uint32_t idx = s[i].idx;
    s.erase(s.begin() + (ptrdiff_t) i);
    jit_var_dec_ref(idx);
}
void Client::refresh(Slot &sl) {
    // Simplifications may elide the use of a variable, and other operations
    // may have evaluated it: ask the library
    if (jit_var_state(sl.idx) != VarState::Dirty) {
        sl.pend = 0;
        sl.touched.clear();
    } else if (!sl.pend) {
        sl.pend = 9;
        sl.touched.clear();
    }
}
void Client::settle(Slot &sl) {
    refresh(sl);
    if (sl.pend) {
        jit_var_eval(sl.idx);
        sl.pend = 0;
        sl.touched.clear();
    }
}
void Client::own(Slot &sl) {
    if (sl.view) {
        uint32_t n = jit_var_copy(sl.idx);
        jit_var_dec_ref(sl.idx);
        sl.idx = n;
        sl.view = false;
    }
}
Slot *Client::pick(Rng &r, bool (*pred)(const Slot &)) {
    if (s.empty()) return nullptr;
    uint32_t o = r.below((uint32_t) s.size());
    for (size_t i = 0; i < s.size(); ++i) {
        Slot &x = s[(o + i) % s.size()];
        if (!pred || pred(x)) return &x;
    }
    return nullptr;
}
Slot *Client::pick_t(Rng &r, VarType t, size_t n, bool allow_scalar) {
    if (s.empty()) return nullptr;
    uint32_t o = r.below((uint32_t) s.size());
    for (size_t i = 0; i < s.size(); ++i) {
        Slot &x = s[(o + i) % s.size()];
        if (x.vt == t && (!n || x.n() == n || (allow_scalar && x.n() == 1))) return &x;
    }
    return nullptr;
}

uint32_t lit(VarType t, uint64_t bits, size_t n) {
    uint64_t v = bits;
    return jit_var_literal(B, t, &v, n, 0);
}
uint32_t mask_true(size_t n) { return lit(VarType::Bool, 1, n); }

uint32_t var_from(VarType t, const Vec &v, Rng &r) {
    std::vector<uint8_t> buf(v.size() * tsize(t));
    for (size_t i = 0; i < v.size(); ++i) store(t, buf.data(), i, v[i]);
    if (r.below(4) == 0) { // hand over a buffer of our own
        void *p = jit_malloc(B, buf.size(), (int) r.below(2));
        if (r.below(2)) {
            jit_memcpy(B, p, buf.data(), buf.size());
        } else {
            jit_memcpy_async(B, p, buf.data(), buf.size());
            jit_sync_thread(); // 'buf' must stay alive until here
        }
        return jit_var_mem_map(B, t, p, v.size(), 1);
    }
    uint32_t i = jit_var_mem_copy(B, t, buf.data(), v.size(), 1);
    // the caller may reuse the buffer at once
    memset(buf.data(), 0x5A, buf.size());
    return i;
}

VarType rnd_type(Client &c, Rng &r, bool with_float, bool with_bool) {
    if (c.w->p.small_types)
        return r.below(4) == 0 ? VarType::Int32 : VarType::UInt32;
    static const VarType t[] = { VarType::UInt32, VarType::UInt32, VarType::Int32, VarType::UInt64, VarType::Int64,
                                 VarType::UInt8, VarType::Int8, VarType::Float32, VarType::Float32,
                                 VarType::Float64, VarType::Float16, VarType::Bool };
    while (true) {
        VarType v = t[r.below(12)];
        if (v == VarType::Bool && !with_bool) continue;
        if (is_float(v) && !with_float) continue;
        return v;
    }
}
uint32_t rnd_size(Client &c, Rng &r) { return r.below(5) == 0 ? 1 : c.sizes[r.below(3)]; }

// ------------------------------------------------------------ verification
void verify_mem(const Slot &s, const void *p, const char *how) {
    for (size_t i = 0; i < s.n(); ++i) {
        uint64_t x = load(s.vt, p, i);
        if (!same(s.vt, x, s.v[i]))
            violation("wrong value: variable r%u (type %s, size %zu) entry %zu is 0x%llx, expected 0x%llx (%s)",
                      s.idx, jit_type_name(s.vt), s.n(), i, (unsigned long long) wrap(s.vt, x),
                      (unsigned long long) wrap(s.vt, s.v[i]), how);
    }
}
static void verify_one(const Slot &s, size_t k) {
    uint64_t x = 0;
    jit_var_read(s.idx, k, &x);
    if (!same(s.vt, x, s.v[k]))
        violation("wrong value: jit_var_read(r%u, %zu) (type %s, size %zu) gives 0x%llx, expected 0x%llx", s.idx, k,
                  jit_type_name(s.vt), s.n(), (unsigned long long) x, (unsigned long long) s.v[k]);
}
void verify(Client &c, Rng &r, Slot &s, int how) {
    c.w->checks++;
    if (how < 0) how = (int) r.below(9);
    switch (how) {
        case 0: case 1: {
            void *p = nullptr;
            Ref v(jit_var_data(s.idx, &p));
            jit_sync_thread();
            verify_mem(s, p, "jit_var_data");
            break;
        }
        case 2: {
            void *p = nullptr;
            Ref v(jit_var_data(s.idx, &p));
            std::vector<uint8_t> buf(s.n() * tsize(s.vt) + 8, 0xEE);
            jit_memcpy(B, buf.data(), p, s.n() * tsize(s.vt));
            verify_mem(s, buf.data(), "jit_memcpy");
            for (size_t i = s.n() * tsize(s.vt); i < buf.size(); ++i)
                SIM_CHECK(buf[i] == 0xEE, "jit_memcpy wrote beyond its destination");
            break;
        }
        case 3: {
            void *p = nullptr;
            Ref v(jit_var_data(s.idx, &p));
            std::vector<uint8_t> buf(s.n() * tsize(s.vt));
            jit_memcpy_async(B, buf.data(), p, s.n() * tsize(s.vt));
            switch (r.below(3)) {
                case 0: jit_sync_thread(); break;
                case 1: jit_sync_device(); break;
                default: jit_sync_all_devices(); break;
            }
            verify_mem(s, buf.data(), "jit_memcpy_async + sync");
            break;
        }
        case 4: case 5: {
            uint32_t k = s.n() <= 4 ? (uint32_t) s.n() : 3;
            for (uint32_t i = 0; i < k; ++i)
                verify_one(s, s.n() <= 4 ? i : r.below((uint32_t) s.n()));
            verify_one(s, s.n() - 1);
            break;
        }
        case 6: { // opaque copy
            Slot t;
            t.idx = jit_var_copy_opaque(s.idx); t.vt = s.vt; t.v = s.v;
            verify(c, r, t, 0);
            jit_var_dec_ref(t.idx);
            break;
        }
        case 7: {
            if (s.n() > 20 || s.vt == VarType::Float16) { verify_one(s, 0); break; }
            const char *str = jit_var_str(s.idx);
            std::string e = "[", g = str;
            for (size_t i = 0; i < s.n(); ++i) {
                char b[64];
                if (is_float(s.vt)) snprintf(b, sizeof(b), "%g", to_d(s.vt, s.v[i]) + 0.0);
                else if (is_signed(s.vt)) snprintf(b, sizeof(b), "%lld", (long long) sext(s.vt, s.v[i]));
                else snprintf(b, sizeof(b), "%llu", (unsigned long long) s.v[i]);
                e += b;
                if (i + 1 < s.n()) e += ", ";
            }
            e += "]";
            // "-0" and "0" denote the same value
            size_t q;
            while ((q = g.find("-0,")) != std::string::npos) g.erase(q, 1);
            while ((q = g.find("-0]")) != std::string::npos) g.erase(q, 1);
            SIM_CHECK(g == e, "jit_var_str(r%u) = %s, expected %s", s.idx, g.c_str(), e.c_str());
            break;
        }
        default: { // reduction to a scalar
            if (s.vt == VarType::Bool) {
                bool any = false, all = true;
                for (uint64_t x : s.v) { any |= x != 0; all &= x != 0; }
                SIM_CHECK((jit_var_any(s.idx) != 0) == any, "jit_var_any(r%u) is wrong (size %zu)", s.idx, s.n());
                SIM_CHECK((jit_var_all(s.idx) != 0) == all, "jit_var_all(r%u) is wrong (size %zu)", s.idx, s.n());
                break;
            }
            uint64_t e = is_float(s.vt) ? 0 : 0;
            bool ok = true;
            for (uint64_t x : s.v) ok = ok && red(s.vt, ReduceOp::Add, e, x, e);
            if (!ok || tsize(s.vt) < 4) { verify_one(s, s.n() / 2); break; }
            Slot t;
            t.idx = jit_var_reduce(B, s.vt, ReduceOp::Add, s.idx); t.vt = s.vt; t.v = { e };
            verify_one(t, 0);
            jit_var_dec_ref(t.idx);
        }
    }
    s.pend = 0;
    s.touched.clear();
}

// -------------------------------------------------------------- operations
struct OpEntry { OpFn fn; const char *name; uint32_t weight; };
static std::vector<OpEntry> *ops() {
    static std::vector<OpEntry> v[CAT_COUNT];
    return v;
}
OpReg::OpReg(Cat cat, OpFn fn, const char *name, uint32_t weight) {
    ops()[cat].push_back({ fn, name, weight });
}
bool do_op(Client &c, Rng &r, Cat cat) {
    auto &v = ops()[cat];
    uint32_t t = 0;
    for (auto &e : v) t += e.weight;
    uint32_t k = r.below(t);
    for (auto &e : v) {
        if (k < e.weight) {
            tracef("client %d: %s", c.id, e.name);
            bool rv = e.fn(c, r);
            for (auto &x : c.s)
                SIM_CHECK(jit_var_size(x.idx) == x.n() && jit_var_type(x.idx) == x.vt,
                          "after %s: variable r%u has %zu entries of type %u, expected %zu of type %u", e.name, x.idx,
                          jit_var_size(x.idx), (uint32_t) jit_var_type(x.idx), x.n(), (uint32_t) x.vt);
            return rv;
        }
        k -= e.weight;
    }
    return false;
}

/// An operation failed. Writes that were pending might have been performed or
/// discarded, everything else must have its value, and later operations work.
static void recover(Client &c, Rng &r, const char *what) {
    SIM_CHECK(strstr(what, "out of memory") || strstr(what, "could not allocate"), "unexpected error: %s", what);
    faults_off++;
    for (Slot &s : c.s) {
        if (!s.pend) continue;
        void *p = nullptr;
        Ref d(jit_var_data(s.idx, &p));
        jit_sync_thread();
        for (size_t i = 0; i < s.n(); ++i) {
            uint64_t x = load(s.vt, p, i);
            if (s.pend == 1 && s.touched.size() == s.n() && !s.touched[i])
                SIM_CHECK(same(s.vt, x, s.v[i]), "after a failed operation (%.80s), entry %zu of r%u is 0x%llx instead of 0x%llx", what, i, s.idx,
                          (unsigned long long) x, (unsigned long long) s.v[i]);
            s.v[i] = x;
        }
        s.pend = 0;
    }
    if (r.below(2))
        for (size_t i = 0; i < c.s.size(); ++i) verify(c, r, c.s[i]);
    faults_off--;
}
void client_main(Client &c) {
    const Profile &p = c.w->p;
    jit_init(1u << (uint32_t) B);
    jit_set_flags(c.flags);
    c.s.reserve(128);
    uint64_t base = c.rng.next();
    uint32_t tot = 0;
    for (uint32_t i = 0; i < CAT_COUNT; ++i) tot += p.w[i];
    for (uint32_t k = 0; k < c.n_ops; ++k) {
        Rng r(base + k * 7919 + 13);
        bool keep = keep_op();
        uint32_t x = r.below(tot), cat = 0;
        while (x >= p.w[cat]) { x -= p.w[cat]; cat++; }
        if (!keep) continue;
        if (p.faults) {
            struct Before { uint32_t idx; int pend; std::vector<char> touched; };
            std::vector<Before> before;
            for (Slot &s : c.s)
                if (s.pend || jit_var_state(s.idx) == VarState::Dirty)
                    before.push_back({ s.idx, s.pend ? s.pend : 9, s.touched });
            try {
                do_op(c, r, (Cat) cat);
            } catch (const std::exception &e) {
                tracef("client %d: exception: %.300s", c.id, e.what());
                c.failed_op = true;
                for (Before &b : before)
                    for (Slot &s : c.s)
                        if (s.idx == b.idx) {
                            if (s.pend == 1 && b.pend == 1 && s.touched.size() == b.touched.size())
                                for (size_t i = 0; i < s.touched.size(); ++i) s.touched[i] |= b.touched[i];
                            else if (s.pend && s.pend != b.pend) s.pend = 9;
                            else { s.pend = b.pend; s.touched = b.touched; }
                        }
                recover(c, r, e.what());
            }
        } else {
            do_op(c, r, (Cat) cat);
        }
    }
    Rng r(base ^ 0x777);
    faults_off++;
    while (!c.s.empty()) {
        size_t i = r.below((uint32_t) c.s.size());
        if (r.below(4)) verify(c, r, c.s[i]);
        c.release(i);
    }
    client_end(c);
}

// -------------------------------------------------------------- whole run
uint32_t warn_count;
char warn_text[512];
static void log_cb(LogLevel l, const char *msg) {
    if (l == LogLevel::Warn || l == LogLevel::Error) {
        // documented hints about functions that cannot be replayed
        if (strstr(msg, "drjit.compress") || strstr(msg, "dr.compress")) return;
        if (!warn_count) snprintf(warn_text, sizeof(warn_text), "%s", msg);
        warn_count++;
        if (verbose) fprintf(stderr, "[log] %s\n", msg);
    }
}
void log_capture() {
    static const char *dbg = getenv("DRSIM_LOG"); // debugging aid: print everything
    jit_set_log_level_stderr(dbg ? (LogLevel) atoi(dbg) : LogLevel::Disable);
    jit_set_log_level_callback(LogLevel::Warn, log_cb);
}

uint32_t random_flags(Rng &r, const Profile &p) {
    uint32_t f = (uint32_t) JitFlag::Default;
    if (p.random_flags) {
        static const JitFlag t[] = { JitFlag::ConstantPropagation, JitFlag::ValueNumbering, JitFlag::FastMath,
                                     JitFlag::OptimizeLoops, JitFlag::OptimizeCalls, JitFlag::MergeFunctions,
                                     JitFlag::ReuseIndices, JitFlag::ScatterReduceLocal, JitFlag::PacketOps };
        if (r.below(2))
            for (JitFlag x : t)
                if (r.below(4) == 0) f ^= (uint32_t) x;
        if (r.below(8) == 0) f |= (uint32_t) JitFlag::Debug;
        if (r.below(8) == 0) f |= (uint32_t) JitFlag::KernelHistory;
        if (r.below(10) == 0) f |= (uint32_t) JitFlag::LaunchBlocking;
    }
    f |= p.flags_on;
    f &= ~p.flags_off;
    return f;
}

void adversary_init(Rng &r, uint32_t permille) {
    Rng q(r.next());
    sim_adversary_seed(q.next());
    adversary_enable(q.chance(permille));
}
void lib_init(Rng &r, uint32_t adversary) {
    adversary_init(r, adversary);
    setenv("DRJIT_CACHE_DIR", "simfs", 1);
    fs_set_root("simfs");
    log_capture();
    jit_init(1u << (uint32_t) B);
    SIM_CHECK(jit_has_backend(B), "LLVM backend failed to initialise: %s", warn_text);
    lib_config(r);
}
void lib_config(Rng &r) {
    static const uint32_t widths[] = { 4, 8, 4, 16, 4, 8 };
    uint32_t w = widths[r.below(6)];
    if (r.below(4)) {
        std::string cpu = jit_llvm_target_cpu();
        const char *f = jit_llvm_target_features();
        std::string feat = f ? f : "";
        jit_llvm_set_target(cpu.c_str(), f ? feat.c_str() : nullptr, w);
    }
    w = jit_llvm_vector_width();
    uint32_t bs = 1;
    while (bs < w) bs *= 2;
    static const uint32_t mul[] = { 1, 1, 1, 1, 2, 2, 4, 16, 1024 };
    jit_llvm_set_block_size(bs * mul[r.below(9)]);
}

void setup(Ctx &c, const Profile &p, bool step_ok) {
    random_policy(c.rng, true, step_ok);
    if (p.faults) {
        static const uint32_t pr[] = { 20, 60, 150, 300, 700 };
        S->pol.fault_p[F_ALLOC] = pr[c.rng.below(5)];
        S->pol.fault_max = c.rng.range(1, 12);
        alloc_faults_here = c.rng.below(2);
    }
}

void final_checks(bool expect_clean) {
    adversary_enable(false);
    warn_count = 0;
    jit_shutdown(0);
    pool_check_idle("after shutdown");
    if (expect_clean)
        SIM_CHECK(warn_count == 0, "shutdown reported: %s", warn_text);
}

void run(Ctx &ctx, const Profile &p) {
    Rng &r = ctx.rng;
    World *w = new World();
    w->p = p;
    lib_init(r, p.adversary);
    if (p.w[CTRL] || p.w[FREEZE]) ctrl_start();
    uint32_t nc = r.range(p.clients_min, p.clients_max);
    std::vector<Client *> cs;
    std::vector<int> tids;
    uint32_t szs[3] = { r.range(2, 40), r.range(20, std::max(21u, p.size_max / 4)), r.range(60, std::max(61u, p.size_max)) };
    for (uint32_t i = 0; i < nc; ++i) {
        Client *c = new Client();
        c->w = w;
        c->id = (int) i;
        c->rng = Rng(r.next());
        memcpy(c->sizes, szs, sizeof(szs));
        if (r.below(3) == 0) c->sizes[r.below(3)] = r.range(2, p.size_max);
        c->flags = random_flags(r, p);
        c->n_ops = r.range(p.ops_min, p.ops_max);
        if (ctx.deep) c->n_ops *= 2;
        cs.push_back(c);
    }
    for (Client *c : cs)
        tids.push_back(spawn("client", [c] { client_main(*c); }));
    for (int t : tids) join(t);
    for (Slot &s : w->shared) jit_var_dec_ref(s.idx);
    w->shared.clear();
    w->frz.clear();
    world_end(*w);
    if (p.w[CTRL] || p.w[FREEZE]) ctrl_end();
    SIM_CHECK(warn_count == 0 || p.faults, "the library logged a warning: %s", warn_text);
    bool failed = false;
    for (Client *c : cs) failed |= c->failed_op;
    // operations that fail midway might leave memory behind
    if (p.final_shutdown)
        final_checks(!failed);
    for (Client *c : cs) delete c;
    delete w;
}
}
