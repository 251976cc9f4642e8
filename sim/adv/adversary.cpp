/* Memory adversary: plays a further client that obtains every block of memory
   the moment it was released, and immediately overwrites it with asynchronous
   (or, for host memory, synchronous) writes. A block that the library released
   too early, i.e. while queued work or a variable still refers to it, then
   holds garbage. Compiled and instrumented like a file of the library. */
#include "internal.h"
#include "llvm.h"
#include "malloc.h"
#include <algorithm>

extern void (*sim_unlock_hook)(void *);
extern bool sim_adversary_note(uint32_t n);
extern uint64_t sim_adversary_rand();

static std::vector<std::pair<uintptr_t, AllocInfo>> released;
static bool enabled = false, busy = false;

extern "C" void __real__Z9jitc_freePv(void *) __attribute__((weak));
extern "C" void __wrap__Z9jitc_freePv(void *ptr) {
    if (enabled && ptr) {
        auto it = state.alloc_used.find((uintptr_t) ptr);
        if (it != state.alloc_used.end()) {
            released.push_back({ (uintptr_t) ptr, it->second });
        }
    }
    __real__Z9jitc_freePv(ptr);
}

struct Poison { void *ptr; size_t size; uint64_t value; };
static void poison(const Poison &p) {
    uint64_t *u = (uint64_t *) p.ptr;
    for (size_t i = 0; i < p.size / 8; ++i)
        u[i] = p.value;
}

static void hook(void *lock) {
    if (lock != (void *) &state.lock || released.empty() || busy)
        return;
    busy = true;
    std::vector<std::pair<uintptr_t, AllocInfo>> todo;
    todo.swap(released);
    std::reverse(todo.begin(), todo.end());
    uint32_t n = 0;
    for (auto [ptr, ai] : todo) {
        auto [size, backend, shared, device] = alloc_info_decode(ai);
        if (size > 65536 || (backend != JitBackend::LLVM && backend != JitBackend::None))
            continue;
        {
            // Only touch memory that everyone else could obtain at this point
            lock_guard guard(state.alloc_free_lock);
            auto it = state.alloc_free.find(ai);
            if (it == state.alloc_free.end())
                continue;
            auto &list = it.value();
            if (std::find(list.begin(), list.end(), (void *) ptr) == list.end())
                continue;
        }
        uint64_t r = sim_adversary_rand();
        if (r & 3) { // leaves some blocks alone
            static const uint64_t v[] = { 0xA5A5A5A5A5A5A5A5ull, 0x0101010101010101ull, 0xFFFFFFFFFFFFFFFFull, 0x40ull };
            Poison p { (void *) ptr, size, v[(r >> 2) & 3] };
            // Shared memory is accessed by the host and only becomes available
            // again once queued work is done with it
            if (backend == JitBackend::None || shared || !jitc_task) {
                poison(p);
            } else {
                Task *task = task_submit_dep(
                    nullptr, &jitc_task, 1, 1,
                    [](uint32_t, void *payload) { poison(*(Poison *) payload); }, &p, sizeof(Poison), nullptr, 0);
                task_release(jitc_task);
                jitc_task = task;
            }
            n++;
        }
    }
    sim_adversary_note(n);
    busy = false;
}

/// Called before the library is initialised
void adversary_enable(bool value) {
    enabled = value;
    released.clear();
    sim_unlock_hook = value ? hook : nullptr;
}
