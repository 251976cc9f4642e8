/* Instance registry: linearizability of concurrent histories (P16) */
#include "engine.h"
#include "linear.h"
#include <map>
#include <stdexcept>
using namespace eng;
namespace {
enum Kind { PUT, REMOVE, ID, PTR, BOUND, POINTERS, PEEK, CLEAR };
const char *kname[] = { "put", "remove", "id", "ptr", "id_bound", "get_pointers", "peek", "clear" };
struct Op {
    Kind k;
    int dom = 0;          // index of the (variant, domain) pair
    int p = -1;           // object, -1: null
    uint32_t id = 0;      // argument of 'ptr'
    // result
    bool error = false;
    uint32_t res = 0;     // id, bound
    int res_p = -1;       // object
    std::vector<int> list;
};
constexpr int N_DOM = 4, N_OBJ = 40;
struct State {
    struct D { std::vector<int> fwd; };
    D d[N_DOM];
    std::map<int, int> rev; // object -> domain, -1: cleared
    uint32_t bound(int q) const {
        uint32_t b = (uint32_t) d[q].fwd.size();
        while (b && d[q].fwd[b - 1] < 0) b--;
        return b;
    }
};
bool apply(State &s, const Op &o) {
    State::D &d = s.d[o.dom];
    switch (o.k) {
        case PUT: {
            if (s.rev.count(o.p)) return o.error;
            if (o.error) return false;
            uint32_t i = 0;
            while (i < d.fwd.size() && d.fwd[i] >= 0) i++;
            if (i == d.fwd.size()) d.fwd.push_back(-1);
            d.fwd[i] = o.p;
            s.rev[o.p] = o.dom;
            return o.res == i + 1;
        }
        case REMOVE: {
            auto it = s.rev.find(o.p);
            if (it == s.rev.end()) return false; // never issued
            if (it->second >= 0)
                for (int &x : s.d[it->second].fwd) if (x == o.p) x = -1;
            s.rev.erase(it);
            return true;
        }
        case ID: {
            if (o.p < 0) return !o.error && o.res == 0;
            auto it = s.rev.find(o.p);
            if (it == s.rev.end()) return o.error;
            if (o.error) return false;
            uint32_t e = 0;
            if (it->second >= 0)
                for (size_t i = 0; i < s.d[it->second].fwd.size(); ++i)
                    if (s.d[it->second].fwd[i] == o.p) e = (uint32_t) i + 1;
            return o.res == e;
        }
        case PTR: {
            // identifiers beyond the largest one ever used are an error, unless
            // the domain is unknown: both answers mean that there is no object
            int e = o.id && o.id <= d.fwd.size() ? d.fwd[o.id - 1] : -1;
            if (o.error) return e < 0 && o.id > s.bound(o.dom);
            return o.res_p == e;
        }
        case BOUND: return o.res == s.bound(o.dom);
        case PEEK: {
            uint32_t b = s.bound(o.dom);
            if (!b) return o.res_p == -1;
            // an arbitrary instance of the domain
            for (int x : d.fwd) if (x >= 0 && x == o.res_p) return true;
            return false;
        }
        case POINTERS: {
            std::vector<int> e(d.fwd.begin(), d.fwd.begin() + s.bound(o.dom));
            return o.list == e;
        }
        case CLEAR:
            for (State::D &x : s.d) x.fwd.clear();
            for (auto &kv : s.rev) kv.second = -1;
            return true;
    }
    return false;
}
std::string key(const State &s) {
    std::string k;
    for (const State::D &d : s.d) {
        for (int x : d.fwd) k += (char) (x + 2);
        k += (char) 127;
    }
    for (auto &kv : s.rev) { k += (char) kv.first; k += (char) (kv.second + 2); }
    return k;
}
char objects[8][N_OBJ][16];
// equal names at different addresses
char names[8][N_DOM][2][16];
const char *variants[N_DOM] = { "LLVM", "LLVM", "CUDA", "LLVM" };
const char *domains[N_DOM] = { "Shape", "BSDF", "Shape", "" };
struct RW {
    std::vector<lin::Event<Op>> h;
    uint64_t clock = 0;
    std::vector<int> pinned;
} *W;
int obj_index(void *p) {
    if (!p) return -1;
    ptrdiff_t o = (char *) p - &objects[0][0][0];
    SIM_CHECK(o >= 0 && o < (ptrdiff_t) sizeof(objects) && o % 16 == 0, "the registry returned the unknown pointer %p", p);
    return (int) (o / 16);
}
void *obj(int i) { return i < 0 ? nullptr : &objects[0][0][0] + i * 16; }

void client(int t, uint64_t seed, uint32_t n_ops, int n_obj, uint32_t clear_w, bool shared) {
    std::vector<int> mine; // objects that are currently registered by this thread
    for (uint32_t k = 0; k < n_ops; ++k) {
        Rng r(seed + k * 7919);
        if (!keep_op()) continue;
        Op o;
        uint32_t x = r.below(40);
        o.k = x < 14 ? PUT : x < 22 ? REMOVE : x < 26 ? ID : x < 30 ? PTR : x < 33 ? BOUND : x < 36 ? POINTERS : x < 38 ? PEEK : CLEAR;
        if (o.k == CLEAR && r.below(10) >= clear_w) o.k = PUT;
        o.dom = (int) r.below(N_DOM);
        const char *va = names[t][o.dom][0], *dn = names[t][o.dom][1];
        switch (o.k) {
            case PUT: o.p = shared && r.below(6) == 0 ? (int) r.below(4) * N_OBJ : t * N_OBJ + (int) r.below((uint32_t) n_obj);
                break;
            case REMOVE: if (mine.empty()) continue; o.p = mine[r.below((uint32_t) mine.size())]; break;
            case ID: o.p = r.below(8) == 0 ? -1 : (int) r.below(4) * N_OBJ + (int) r.below((uint32_t) n_obj); break;
            case PTR: o.id = r.below(5) == 0 ? r.below(400) : r.below(2 + (uint32_t) n_obj); break;
            default: break;
        }
        lin::Event<Op> e;
        e.thread = t;
        size_t q = W->h.size();
        e.op = o; e.t0 = ++W->clock; e.t1 = ~0ull;
        W->h.push_back(e);
        tracef("client %d: %s dom=%d obj=%d id=%u", t, kname[o.k], o.dom, o.p, o.id);
        void *list[N_OBJ * 8 + 400];
        try {
            switch (o.k) {
                case PUT: o.res = jit_registry_put(va, dn, obj(o.p));
                    // the first object of a thread may be registered by anybody, and is never removed by them
                    if (o.p % N_OBJ == 0) W->pinned.push_back(o.p); else mine.push_back(o.p);
                    break;
                case REMOVE:
                    jit_registry_remove(obj(o.p));
                    for (size_t i = 0; i < mine.size(); ++i) if (mine[i] == o.p) { mine.erase(mine.begin() + (ptrdiff_t) i); break; }
                    break;
                case ID: o.res = jit_registry_id(obj(o.p)); break;
                case PTR: o.res_p = obj_index(jit_registry_ptr(va, dn, o.id)); break;
                case BOUND: o.res = jit_registry_id_bound(va, dn); break;
                case POINTERS: {
                    memset(list, 0, sizeof(list));
                    jit_registry_get_pointers(va, dn, list);
                    size_t n = sizeof(list) / sizeof(void *);
                    while (n && !list[n - 1]) n--;
                    for (size_t i = 0; i < n; ++i) o.list.push_back(obj_index(list[i]));
                    break;
                }
                case PEEK: o.res_p = obj_index(jit_registry_peek(va, dn)); break;
                case CLEAR: jit_registry_clear(); break;
            }
        } catch (const std::exception &ex) {
            tracef("client %d: error %s", t, ex.what());
            o.error = true;
        }
        W->h[q].op = o;
        W->h[q].t1 = ++W->clock;
        tracef("client %d: %s -> %s res=%u obj=%d", t, kname[o.k], o.error ? "error" : "ok", o.res, o.res_p);
        if (r.below(4) == 0) sync_point();
    }
    // one thread removes what is left (checked against the model by 'run')
    for (int p : mine) {
        if (keep_op()) {
            lin::Event<Op> e;
            e.op.k = REMOVE; e.op.p = p; e.t0 = ++W->clock; e.thread = t;
            size_t q = W->h.size();
            W->h.push_back(e);
            W->h[q].t1 = ~0ull;
            jit_registry_remove(obj(p));
            W->h[q].t1 = ++W->clock;
        }
    }
}
void setup(Ctx &c) { random_policy(c.rng, true, false); }
void check_history(const char *when) {
    size_t best = 0;
    int rv = lin::check<Op, State>(W->h, State(), apply, key, &best);
    if (rv < 0) { SIM_PROBE("linearizability search budget exceeded"); return; }
    if (rv == 0) {
        std::string txt;
        for (auto &e : W->h) {
            char b[200];
            snprintf(b, sizeof(b), " [%llu-%llu t%d %s dom=%d obj=%d id=%u -> %s%u/%d]", (unsigned long long) e.t0,
                     (unsigned long long) e.t1, e.thread, kname[e.op.k], e.op.dom, e.op.p, e.op.id, e.op.error ? "error " : "",
                     e.op.res, e.op.res_p);
            txt += b;
        }
        violation("registry history is not linearizable (%s; %zu of %zu operations explained):%.3000s", when, best, W->h.size(), txt.c_str());
    }
}
void run(Ctx &ctx) {
    Rng &r = ctx.rng;
    W = new RW();
    for (int t = 0; t < 8; ++t)
        for (int d = 0; d < N_DOM; ++d) {
            strcpy(names[t][d][0], variants[d]);
            strcpy(names[t][d][1], domains[d]);
        }
    lib_init(r, 0);
    uint32_t rounds = r.range(1, 2);
    for (uint32_t round = 0; round < rounds; ++round) {
        W->h.clear();
        W->pinned.clear();
        uint32_t nt = r.range(1, 4);
        int n_obj = (int) r.range(1, r.below(3) == 0 ? N_OBJ : 8);
        uint32_t clear_w = r.below(3) == 0 ? r.range(1, 10) : 0;
        bool shared = r.below(2);
        std::vector<int> tids;
        for (uint32_t i = 0; i < nt; ++i) {
            uint64_t seed = r.next();
            uint32_t n = r.range(3, nt == 1 ? 150 : 70 / nt);
            int t = (int) i;
            tids.push_back(spawn("client", [=] { client(t, seed, n, n_obj, clear_w, shared); }));
        }
        for (int t : tids) join(t);
        for (int p : W->pinned) jit_registry_remove(obj(p));
        check_history("concurrent phase");
        // shut down (instances may still be registered), and start again
        bool leak = r.below(3) == 0;
        if (leak) {
            jit_set_leak_warnings(0);
            uint32_t n = r.range(1, 5);
            for (uint32_t i = 0; i < n; ++i)
                jit_registry_put(names[0][i % 3][0], names[0][i % 3][1], obj(7 * N_OBJ + (int) i));
            if (r.below(3) == 0) jit_registry_clear();
            warn_count = 0;
            jit_shutdown((int) r.below(2));
            pool_check_idle("after shutdown");
            uint32_t kind = r.below(4);
            if (kind == 0) { // a second shutdown
                jit_init(1u << (uint32_t) B);
                jit_set_leak_warnings(1);
                jit_shutdown((int) r.below(2));
                jit_set_leak_warnings(0);
            }
            bool before = r.below(2);
            if (before) for (uint32_t i = 0; i < n; ++i) jit_registry_remove(obj(7 * N_OBJ + (int) i));
            jit_init(1u << (uint32_t) B);
            if (!before) for (uint32_t i = 0; i < n; ++i) {
                // the instance is destroyed after the library was restarted
                SIM_CHECK(jit_registry_id_bound(names[0][i % 3][0], names[0][i % 3][1]) == 0, "identifiers survive a shutdown");
                if (r.below(2)) { // or the same address holds a new instance
                    uint32_t id = jit_registry_put(names[0][3][0], names[0][3][1], obj(7 * N_OBJ + (int) i));
                    SIM_CHECK(id == 1, "first instance after a restart has the identifier %u", id);
                }
                jit_registry_remove(obj(7 * N_OBJ + (int) i));
            }
            jit_set_leak_warnings(1);
        } else if (r.below(2)) {
            final_checks();
            log_capture();
            jit_init(1u << (uint32_t) B);
        }
    }
    final_checks();
}
Scenario sc("registry", setup, run);
}
