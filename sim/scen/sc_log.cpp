/* Log messages: exactly once, complete, in the order of each thread, whatever
   the threads, the callback and the deferral hook do (P15) */
#include "engine.h"
#include <pthread.h>
#include <stdexcept>
extern void jit_log_flush();
using namespace eng;
namespace {
struct Msg { std::string text; LogLevel level; uint64_t t0, t1; uint32_t got; bool prefix; };
struct Change { uint64_t t0, t1; LogLevel level; };
struct LW {
    std::vector<Msg> msgs[8];          ///< per issuing thread
    std::vector<uint32_t> order[8];    ///< sequence numbers in order of delivery
    std::vector<Change> changes;
    uint64_t clock = 0;
    bool single = false;               ///< only one thread issues messages
    bool gil = false, defer = false, throwing = false, reenter = false;
    uint32_t reg_count = 0;
    int who[MAX_THREADS];
    int crit[MAX_THREADS] = {};        ///< depth of the client's critical section
    int nest[MAX_THREADS] = {};
    Rng cb_rng{1};
    bool in_gil_owner[MAX_THREADS] = {};
};
LW *L;
pthread_mutex_t gil_mutex = PTHREAD_MUTEX_INITIALIZER;
void gil_lock() {
    if (L->in_gil_owner[self]) return;
    pthread_mutex_lock(&gil_mutex);
    L->in_gil_owner[self] = true;
}
void gil_unlock() { L->in_gil_owner[self] = false; pthread_mutex_unlock(&gil_mutex); }
char reg_obj[4096];

/// Records the message before it is issued
uint32_t begin(int t, LogLevel l, std::string text, bool prefix = false) {
    L->msgs[t].push_back(Msg{ std::move(text), l, ++L->clock, ~0ull, 0, prefix });
    return (uint32_t) L->msgs[t].size() - 1;
}
void end(int t, uint32_t k) {
    Msg &m = L->msgs[t][k];
    m.t1 = ++L->clock;
    // nobody else could be busy delivering it
    if (L->single && L->nest[self] == 0 && !(L->defer && L->crit[self] > 0) && m.level <= L->changes.back().level)
        SIM_CHECK(m.got == 1, "message %u (level %d) was not delivered when the call that issued it returned", k, (int) m.level);
}
std::string payload(Rng &r, int t, size_t k) {
    char b[64];
    snprintf(b, sizeof(b), "<T%d:%zu>", t, k);
    std::string s = b;
    static const uint32_t lens[] = { 0, 3, 20, 70, 200, 700, 3000 };
    uint32_t n = lens[r.below(7)];
    n += r.below(n + 1);
    for (uint32_t i = 0; i < n; ++i) s += (char) (r.below(12) ? 33 + r.below(94) : "%\\ \t"[r.below(4)]);
    return s + "<end>";
}
void issue(int t, Rng &r, LogLevel lv) {
    std::string s = payload(r, t, L->msgs[t].size());
    uint32_t k = begin(t, lv, s);
    switch (r.below(3)) {
        case 0: jit_log(lv, "%s", s.c_str()); break;
        case 1: {
            size_t h = s.size() / 2;
            jit_log(lv, "%.*s%s", (int) h, s.c_str(), s.c_str() + h);
            break;
        }
        default: {
            size_t h = s.find(':');
            jit_log(lv, "%s:%u%s", s.substr(0, h).c_str(), k, s.c_str() + s.find('>'));
        }
    }
    end(t, k);
}
LogLevel rnd_level(Rng &r) { return (LogLevel) r.range(1, 6); }

void callback(LogLevel level, const char *msg) {
    int me = self;
    LW &w = *L;
    SIM_CHECK(msg, "log callback invoked without a message");
    if (w.gil) {
        bool had = w.in_gil_owner[me];
        gil_lock();
        sync_point();
        if (!had) gil_unlock();
    }
    int t = -1;
    unsigned k = 0;
    if (sscanf(msg, "<T%d:%u>", &t, &k) != 2) {
        t = -1;
        if (strncmp(msg, "jit_registry_put(domain=\"log-", 29) == 0) {
            const char *p = strstr(msg, "ptr=0x");
            SIM_CHECK(p, "damaged log message: %.200s", msg);
            char *q = (char *) strtoull(p + 4, nullptr, 16);
            SIM_CHECK(q >= reg_obj && q < reg_obj + sizeof(reg_obj), "damaged log message: %.200s", msg);
            for (int i = 0; i < 8 && t < 0; ++i)
                for (k = 0; k < w.msgs[i].size(); ++k)
                    if (w.msgs[i][k].prefix && strncmp(w.msgs[i][k].text.c_str(), msg, w.msgs[i][k].text.size()) == 0) { t = i; break; }
            SIM_CHECK(t >= 0, "log message without a cause: %.200s", msg);
            size_t n = w.msgs[t][k].text.size();
            const char *rest = msg + n;
            SIM_CHECK(strspn(rest, "0123456789") == strlen(rest) && *rest, "damaged log message: %.200s", msg);
        }
    }
    if (t >= 0) {
        SIM_CHECK(t < 8 && k < w.msgs[t].size(), "log message that was not issued: %.100s", msg);
        Msg &m = w.msgs[t][k];
        SIM_CHECK(m.prefix || m.text == msg, "message %u of thread %d arrives as \"%.150s\" (%zu characters), expected \"%.150s\" (%zu characters)",
                  k, t, msg, strlen(msg), m.text.c_str(), m.text.size());
        SIM_CHECK(m.level == level, "message %u of thread %d arrives with level %d instead of %d", k, t, (int) level, (int) m.level);
        SIM_CHECK(m.got == 0, "message %u of thread %d is delivered twice", k, t);
        SIM_CHECK(!(w.defer && w.crit[me] > 0), "message delivered within a critical section whose deferral hook asked to wait");
        m.got = 1;
        if (!w.order[t].empty())
            SIM_CHECK(w.order[t].back() < k, "message %u of thread %d arrives after message %u", k, t, w.order[t].back());
        w.order[t].push_back(k);
    }
    if (w.nest[me]) return;
    w.nest[me]++;
    Rng r(w.cb_rng.next());
    bool thr = false;
    if (t >= 0) {
        sync_point();
        if (w.reenter && r.below(3) == 0) {
            SIM_PROBE("log callback calls back into the library");
            switch (r.below(4)) {
                case 0: if (w.who[me] >= 0) { issue(w.who[me], r, rnd_level(r)); } break;
                case 1: { Ref a(jit_var_u32(B, r.below(1000))), b(jit_var_counter(B, 9)), d(jit_var_add(a, b)); break; }
                case 2: jit_registry_id(nullptr); jit_log_level_callback(); break;
                default: { void *p = jit_malloc(JitBackend::None, 100); jit_free(p); }
            }
        }
        thr = w.throwing && r.below(4) == 0;
    }
    w.nest[me]--;
    if (thr) throw std::runtime_error("callback failed");
}
int defer_hook() { return L->crit[self] > 0; }

void client(int t, uint64_t seed, uint32_t n_ops, bool may_change) {
    L->who[self] = t;
    jit_init(1u << (uint32_t) B);
    for (uint32_t k = 0; k < n_ops; ++k) {
        Rng r(seed + k * 7919);
        if (!keep_op()) continue;
        uint32_t op = r.below(12);
        tracef("client %d: op %u", t, op);
        if (op < 5) issue(t, r, rnd_level(r));
        else if (op == 5) { // library message, logged under the lock
            if (L->reg_count + 1 >= 400) continue;
            char *p = reg_obj + 8 * L->reg_count++;
            char dom[2][16] = { "log-a", "log-bb" };
            static const char *d[] = { "log-a", "log-bb" };
            uint32_t q = r.below(2);
            (void) dom;
            char b[128];
            snprintf(b, sizeof(b), "jit_registry_put(domain=\"%s\", ptr=%p): id_bound=", d[q], (void *) p);
            uint32_t m = begin(t, LogLevel::Debug, b, true);
            jit_registry_put("LLVM", d[q], p);
            end(t, m);
        } else if (op == 6) { // more messages by the library
            Ref a(jit_var_u32(B, r.below(1000))), b(jit_var_counter(B, r.range(2, 20))), d(jit_var_add(a, b));
            if (r.below(3) == 0 && !L->in_gil_owner[self]) jit_var_eval(d);
        } else if (op == 7 && may_change) {
            LogLevel l = rnd_level(r);
            L->changes.push_back(Change{ ++L->clock, ~0ull, l });
            size_t q = L->changes.size() - 1;
            jit_set_log_level_callback(l, callback);
            L->changes[q].t1 = ++L->clock;
        } else if (op == 8) { // raised errors are not log messages
            try { jit_raise("error %u", k); SIM_CHECK(false, "jit_raise() returned"); }
            catch (const std::exception &e) {
                char b[32];
                snprintf(b, sizeof(b), "error %u", k);
                SIM_CHECK(strcmp(e.what(), b) == 0, "jit_raise() delivers \"%s\" instead of \"%s\"", e.what(), b);
            }
        } else if (op == 9 || op == 10) {
            if (L->defer || L->gil) { // critical section of the client
                bool g = L->gil;
                if (g) gil_lock();
                if (L->defer) L->crit[self]++;
                uint32_t n = r.range(1, 4);
                for (uint32_t i = 0; i < n; ++i) {
                    if (r.below(3)) issue(t, r, rnd_level(r));
                    else { Ref a(jit_var_u32(B, r.below(1000))), b(jit_var_counter(B, r.range(2, 20))), d(jit_var_add(a, b)); }
                    if (r.below(2)) sync_point();
                    if (r.below(6) == 0) jit_log_flush();
                }
                if (L->defer) L->crit[self]--;
                if (g) gil_unlock();
                if (L->defer) jit_log_flush();
            } else
                issue(t, r, rnd_level(r));
        } else
            jit_log_flush();
    }
}
void setup(Ctx &c) { random_policy(c.rng, true, false); }
void run(Ctx &ctx) {
    Rng &r = ctx.rng;
    L = new LW();
    L->cb_rng = Rng(r.next());
    L->gil = r.below(3) == 0;
    L->defer = r.below(3) == 0;
    L->throwing = r.below(4) == 0;
    L->reenter = r.below(2);
    for (int &x : L->who) x = -1;
    lib_init(r, 0);
    bool may_change = r.below(2);
    LogLevel l0 = rnd_level(r);
    L->changes.push_back(Change{ 0, 0, l0 });
    if (L->defer) jit_set_log_defer_callback(defer_hook);
    if (r.below(3) == 0) jit_set_log_level_stderr(LogLevel::Disable);
    jit_set_log_level_callback(l0, callback);
    uint32_t nt = r.range(1, 4);
    L->single = nt == 1;
    std::vector<int> tids;
    for (uint32_t i = 0; i < nt; ++i) {
        uint64_t seed = r.next();
        uint32_t n = r.range(4, 25);
        int t = (int) i;
        tids.push_back(spawn("client", [=] { client(t, seed, n, may_change); }));
    }
    for (int t : tids) join(t);
    // one more flush: everything that was postponed must be out
    jit_log_flush();
    for (int t = 0; t < 8; ++t)
        for (size_t k = 0; k < L->msgs[t].size(); ++k) {
            Msg &m = L->msgs[t][k];
            bool any = false, all = true;
            for (size_t q = 0; q < L->changes.size(); ++q) {
                // the level was in force from (at the earliest) t0 up to the end of the last overlapping change
                uint64_t from = L->changes[q].t0, to = 0;
                if (from > m.t1) continue;
                // in force until some later change has completed
                to = ~0ull;
                for (size_t z = 0; z < L->changes.size(); ++z)
                    if (z != q && L->changes[z].t0 > L->changes[q].t1) to = std::min(to, L->changes[z].t1);
                if (to < m.t0) continue;
                if (m.level <= L->changes[q].level) any = true; else all = false;
            }
            if (any && all)
                SIM_CHECK(m.got == 1, "message %zu of thread %d (level %d) was not delivered", k, t, (int) m.level);
            if (!any)
                SIM_CHECK(m.got == 0, "message %zu of thread %d (level %d) was delivered although its level was disabled", k, t, (int) m.level);
        }
    jit_set_log_defer_callback(nullptr);
    log_capture();
    for (uint32_t i = 0; i < L->reg_count; ++i)
        jit_registry_remove(reg_obj + 8 * i);
    final_checks();
}
Scenario sc("log", setup, run);
}
