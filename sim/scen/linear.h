/* Linearizability of a recorded history against a sequential specification:
   Wing & Gong's search with memoisation (Lowe) */
#pragma once
#include <cstdint>
#include <set>
#include <string>
#include <vector>

namespace lin {
template <typename Op> struct Event { Op op; uint64_t t0, t1; int thread; };

/// 'apply(state, op)' executes the operation, and returns whether the recorded
/// result is the one the specification gives. 'key(state)' identifies a state.
template <typename Op, typename State, typename Apply, typename Key>
struct Checker {
    const std::vector<Event<Op>> &h;
    Apply apply;
    Key key;
    std::vector<char> done;
    std::set<std::string> seen;
    uint64_t budget;
    size_t n_done = 0, best = 0;

    Checker(const std::vector<Event<Op>> &h, Apply apply, Key key, uint64_t budget = 400000)
        : h(h), apply(apply), key(key), done(h.size(), 0), budget(budget) {}

    /// 1: linearizable, 0: not, -1: budget exceeded
    int search(const State &s) {
        if (n_done == h.size()) return 1;
        if (budget == 0) return -1;
        budget--;
        std::string k(done.begin(), done.end());
        k += key(s);
        if (!seen.insert(std::move(k)).second) return 0;
        // earliest completion among the operations that are left
        uint64_t lim = ~0ull;
        for (size_t i = 0; i < h.size(); ++i)
            if (!done[i] && h[i].t1 < lim) lim = h[i].t1;
        for (size_t i = 0; i < h.size(); ++i) {
            if (done[i] || h[i].t0 > lim) continue;
            State s2 = s;
            if (!apply(s2, h[i].op)) continue;
            done[i] = 1;
            if (++n_done > best) best = n_done;
            int rv = search(s2);
            if (rv != 0) return rv;
            done[i] = 0;
            n_done--;
        }
        return 0;
    }
};
template <typename Op, typename State, typename Apply, typename Key>
int check(const std::vector<Event<Op>> &h, const State &init, Apply apply, Key key, size_t *best = nullptr) {
    Checker<Op, State, Apply, Key> c(h, apply, key);
    int rv = c.search(init);
    if (best) *best = c.best;
    return rv;
}
}
