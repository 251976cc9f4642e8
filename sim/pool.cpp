/* Simulated thread pool: implements the part of nanothread used by drjit-core
   on top of the deterministic scheduler. See nanothread/nanothread.h for the
   modelled contract. */
#include "sim.h"
#include "nanothread/nanothread.h"
#include <exception>
#include <deque>
#include <set>

using namespace sim;

struct Task {
    static constexpr uint32_t Magic = 0x7A5C0DE5, Dead = 0xDEADDEAD;
    uint32_t magic = Magic;
    uint32_t refs = 1;      // references held by the user
    uint32_t size = 0, next = 0, finished = 0;
    uint32_t wait_parents = 0;
    void (*func)(uint32_t, void *) = nullptr;
    void *payload = nullptr;
    void (*deleter)(void *) = nullptr;
    bool own_payload = false, done = false;
    std::vector<Task *> children;
    std::exception_ptr exc;
    int64_t t_start = 0, t_end = 0;
    uint64_t serial = 0;
};

namespace {
std::vector<Task *> *ready = nullptr;   // runnable tasks with units left
uint64_t live = 0, serial = 0;
uint32_t workers_wanted = 0, workers_alive = 0;
uint32_t size_ = 1;
int profile_ = 0;
__thread uint32_t my_id = 0;
__thread uint32_t help_depth = 0;
constexpr uint64_t CHAN_POOL = 0x504f4f4c;
std::set<uint32_t> *free_ids = nullptr;

std::set<Task *> *all_tasks = nullptr;

void check(const Task *t, const char *op) {
    if (t && t->magic != Task::Magic)
        violation("thread pool handle misuse: %s() on a released task", op);
}

void maybe_free(Task *t) {
    if (t->refs || !t->done)
        return;
    if (t->deleter) {
        auto d = t->deleter;
        t->deleter = nullptr;
        d(t->payload);
    } else if (t->own_payload) {
        free(t->payload);
    }
    t->magic = Task::Dead;
    live--;
    all_tasks->erase(t);
    delete t;
}

void push(Task *t);

void complete(Task *t) {
    t->done = true;
    if (verbose) tracef("task %llu done", (unsigned long long) t->serial);
    t->t_end = S->now_ns;
    t->refs++; // protect
    auto children = std::move(t->children);
    for (Task *c : children) {
        if (t->exc && !c->exc) c->exc = t->exc;
        if (--c->wait_parents == 0)
            push(c);
    }
    t->refs--;
    wake(CHAN_POOL);
    maybe_free(t);
}

void push(Task *t) {
    t->t_start = S->now_ns;
    if (t->size == 0 || !t->func || t->exc) {
        complete(t);
        return;
    }
    ready->push_back(t);
    wake(CHAN_POOL);
}

// Executes one unit of some ready task
void run_one() {
    uint32_t i = choose((uint32_t) ready->size(), 350);
    Task *t = (*ready)[i];
    uint32_t unit = t->next++;
    if (t->next == t->size)
        ready->erase(ready->begin() + i);
    S->units++;
    help_depth++;
    S->now_ns += 500;
    try {
        step_begin();
        t->func(unit, t->payload);
        step_end();
    } catch (...) {
        step_end();
        if (!t->exc) t->exc = std::current_exception();
    }
    help_depth--;
    if (++t->finished == t->size)
        complete(t);
    sync_point();
}

void worker(uint32_t id) {
    my_id = id;
    while (id < size_) {
        if (!ready->empty())
            run_one();
        else
            block(CHAN_POOL);
    }
    workers_alive--;
    free_ids->erase(id);
}

void grow() {
    if (!ready) { ready = new std::vector<Task *>(); free_ids = new std::set<uint32_t>(); }
    for (uint32_t id = 1; id < size_; ++id) {
        if (free_ids->count(id)) continue;
        free_ids->insert(id);
        workers_alive++;
        char name[24];
        snprintf(name, sizeof(name), "w%u%s", id, "");
        spawn(name, [id] { worker(id); });
    }
    wake(CHAN_POOL);
}
}

namespace sim {
void pool_start(uint32_t cores) {
    size_ = cores;
    if (!ready) { ready = new std::vector<Task *>(); free_ids = new std::set<uint32_t>(); }
    // workers are launched lazily, with the first task
}
uint64_t pool_live_tasks() { return live; }
void pool_dump() {
    if (!all_tasks) return;
    for (Task *t : *all_tasks)
        tracef("task %llu: refs=%u size=%u next=%u finished=%u parents=%u children=%zu done=%d",
               (unsigned long long) t->serial, t->refs, t->size, t->next, t->finished,
               t->wait_parents, t->children.size(), (int) t->done);
    tracef("ready=%zu workers=%u", ready ? ready->size() : 0, workers_alive);
}
bool pool_idle() { return !ready || ready->empty(); }
void pool_reset_child() {
    delete ready; delete free_ids;
    ready = nullptr; free_ids = nullptr;
    workers_alive = 0; live = 0; my_id = 0;
}
void pool_check_idle(const char *where) {
    if (live)
        violation("%s: %llu thread pool task(s) were never released", where,
                  (unsigned long long) live);
}
}

extern "C" {
uint32_t core_count() { return S->cores; }
Pool *pool_create(uint32_t, int) { return nullptr; }
void pool_destroy(Pool *) {
    uint32_t s = size_;
    size_ = 1;
    wake(CHAN_POOL);
    while (workers_alive && S->active) pause();
    size_ = s;
}
uint32_t pool_size(Pool *) { return size_; }
void pool_set_size(Pool *, uint32_t size) {
    size_ = size ? size : 1;
    if (S->active) wake(CHAN_POOL);
}
int pool_profile() { return profile_; }
void pool_set_profile(int v) { profile_ = v; }
int pool_ftz(Pool *) { return 1; }
void pool_set_ftz(Pool *, int) {}
uint32_t pool_thread_id() { return my_id; }

Task *task_submit_dep(Pool *, const Task *const *parent, uint32_t parent_count,
                      uint32_t size, void (*func)(uint32_t, void *), void *payload,
                      uint32_t payload_size, void (*deleter)(void *), int always_async,
                      int) {
    bool has_parent = false;
    std::exception_ptr parent_exc;
    for (uint32_t i = 0; i < parent_count; ++i) {
        if (!parent[i]) continue;
        check(parent[i], "task_submit_dep");
        if (!parent[i]->done) has_parent = true;
        else if (parent[i]->exc) parent_exc = parent[i]->exc;
    }
    bool any_parent = false;
    for (uint32_t i = 0; i < parent_count; ++i)
        any_parent |= parent[i] != nullptr;

    if (size == 1 && !any_parent && !always_async) {
        S->units++;
        if (func) {
            step_begin();
            func(0, payload);
            step_end();
        }
        if (deleter) deleter(payload);
        return nullptr;
    }

    Task *t = new Task();
    live++;
    if (!all_tasks) all_tasks = new std::set<Task *>();
    all_tasks->insert(t);
    t->serial = ++serial;
    t->size = size;
    t->func = func;
    t->deleter = deleter;
    if (parent_exc) t->exc = parent_exc;
    if (deleter || !payload_size) {
        t->payload = payload;
    } else {
        t->payload = malloc(payload_size);
        memcpy(t->payload, payload, payload_size);
        t->own_payload = true;
    }
    t->wait_parents = 1; // held by this function
    if (has_parent) {
        for (uint32_t i = 0; i < parent_count; ++i)
            if (parent[i] && !parent[i]->done) {
                const_cast<Task *>(parent[i])->children.push_back(t);
                t->wait_parents++;
            }
    }
    if (workers_alive + 1 < size_ && S->active)
        grow();
    if (verbose) { char b[200]; int k = 0; for (uint32_t i = 0; i < parent_count && k < 150; ++i) k += snprintf(b + k, 40, " %llu%s", parent[i] ? (unsigned long long) parent[i]->serial : 0ull, parent[i] && parent[i]->done ? "(done)" : ""); b[k] = 0; tracef("submit task %llu size=%u parents:%s", (unsigned long long) t->serial, size, b); }
    t->refs++; // keep alive while pushing
    if (--t->wait_parents == 0)
        push(t);
    sync_point();
    t->refs--;
    maybe_free(t);
    return t;
}

void task_retain(Task *t) {
    if (!t) return;
    check(t, "task_retain");
    t->refs++;
}

void task_release(Task *t) {
    if (!t) return;
    check(t, "task_release");
    if (t->refs == 0)
        violation("thread pool handle misuse: reference count underflow");
    t->refs--;
    maybe_free(t);
}

void task_wait(Task *t) {
    if (!t) return;
    check(t, "task_wait");
    sync_point();
    while (true) {
        check(t, "task_wait");
        if (t->done) break;
        // A waiting thread may help out (it must, if there are no workers)
        if (!ready->empty() && help_depth < 3 &&
            (workers_alive == 0 || choose(2, S->pol.p_help) == 0 ))
            run_one();
        else if (!ready->empty() && workers_alive == 0)
            run_one();
        else
            block(CHAN_POOL);
    }
    if (t->exc) {
        std::exception_ptr e = t->exc;
        std::rethrow_exception(e);
    }
}

void task_wait_and_release(Task *t) {
    if (!t) return;
    struct Rel { Task *t; ~Rel() { task_release(t); } } rel{ t };
    task_wait(t);
}

int task_query(Task *t) {
    if (!t) return 1;
    check(t, "task_query");
    sync_point();
    return t->done ? 1 : 0;
}

double task_time(Task *t) {
    if (!t) return 0;
    check(t, "task_time");
    return (double) (t->t_end - t->t_start) * 1e-6;
}
double task_time_rel(Task *a, Task *b) {
    if (!a || !b) return 0;
    return (double) (b->t_end - a->t_end) * 1e-6;
}
}
