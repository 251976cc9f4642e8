/* Minimal deterministic stand-in for the (absent) nanothread submodule, used by
   the demonstrations: tasks run when a thread waits for them (or when pumped
   explicitly), in an order chosen by the demonstration. */
#include "pool.h"
#include <nanothread/nanothread.h>
#include <exception>
#include <mutex>
#include <condition_variable>
#include <set>
#include <vector>
#include <cstdlib>
#include <cstring>
#include <cstdio>
struct Task {
    uint32_t refs = 1, size = 0, next = 0, finished = 0, wait_parents = 0;
    void (*func)(uint32_t, void *) = nullptr;
    void *payload = nullptr;
    void (*deleter)(void *) = nullptr;
    bool own = false, done = false;
    std::vector<Task *> children;
    std::exception_ptr exc;
    uint32_t magic = 0x1234;
};
static std::recursive_mutex m;
static std::condition_variable_any cv;
static std::vector<Task *> ready;
static uint32_t size_ = 4, cycle = 0;
static thread_local uint32_t my_id = 0;
int demo_lifo = 0, demo_ids = 1;
size_t demo_live = 0;
static void chk(Task *t) { if (t && t->magic != 0x1234) { fprintf(stderr, "task misuse\n"); abort(); } }
static void maybe_free(Task *t) {
    if (t->refs || !t->done) return;
    if (t->deleter) t->deleter(t->payload); else if (t->own) free(t->payload);
    t->magic = 0; demo_live--; delete t;
}
static void push(Task *t);
static void complete(Task *t) {
    t->done = true; t->refs++;
    auto ch = std::move(t->children);
    for (Task *c : ch) { if (t->exc && !c->exc) c->exc = t->exc; if (--c->wait_parents == 0) push(c); }
    t->refs--; cv.notify_all(); maybe_free(t);
}
static void push(Task *t) { if (!t->func || !t->size) complete(t); else { ready.push_back(t); cv.notify_all(); } }
/// Runs one work unit; returns false if there is none
int demo_step() {
    Task *t; uint32_t unit, id;
    {
        std::lock_guard<std::recursive_mutex> g(m);
        if (ready.empty()) return 0;
        size_t k = demo_lifo ? ready.size() - 1 : 0;
        t = ready[k];
        unit = demo_lifo ? t->size - 1 - t->next : t->next;
        if (++t->next == t->size) ready.erase(ready.begin() + k);
        id = demo_ids ? cycle++ % size_ : 0;
    }
    uint32_t old = my_id; my_id = id;
    std::exception_ptr e;
    try { t->func(unit, t->payload); } catch (...) { e = std::current_exception(); }
    my_id = old;
    std::lock_guard<std::recursive_mutex> g(m);
    if (e) t->exc = e;
    if (++t->finished == t->size) complete(t);
    return 1;
}
void demo_drain() { while (demo_step()); }
extern "C" {
uint32_t core_count() { return 4; }
Pool *pool_create(uint32_t s, int) { size_ = s == (uint32_t) -1 ? 4 : s; return nullptr; }
void pool_destroy(Pool *) { }
uint32_t pool_size(Pool *) { return size_; }
void pool_set_size(Pool *, uint32_t s) { size_ = s; }
int pool_profile() { return 0; }
void pool_set_profile(int) {}
int pool_ftz(Pool *) { return 1; }
void pool_set_ftz(Pool *, int) {}
uint32_t pool_thread_id() { return my_id; }
Task *task_submit_dep(Pool *, const Task *const *parent, uint32_t n, uint32_t size, void (*func)(uint32_t, void *),
                      void *payload, uint32_t psize, void (*del)(void *), int always_async, int) {
    std::unique_lock<std::recursive_mutex> g(m);
    bool any = false;
    for (uint32_t i = 0; i < n; ++i) { chk((Task *) parent[i]); any |= parent[i] != nullptr; }
    if (size == 1 && !any && !always_async) {
        g.unlock();
        if (func) func(0, payload);
        if (del) del(payload);
        return nullptr;
    }
    Task *t = new Task(); demo_live++;
    t->size = size; t->func = func;
    if (del) { t->payload = payload; t->deleter = del; }
    else if (psize) { t->payload = malloc(psize); memcpy(t->payload, payload, psize); t->own = true; }
    else t->payload = payload;
    t->wait_parents = 1;
    for (uint32_t i = 0; i < n; ++i) {
        Task *p = (Task *) parent[i];
        if (!p) continue;
        if (p->done) { if (p->exc) t->exc = p->exc; continue; }
        p->children.push_back(t); t->wait_parents++;
    }
    t->refs++;
    if (--t->wait_parents == 0) push(t);
    t->refs--;
    return t;
}
void task_retain(Task *t) { std::lock_guard<std::recursive_mutex> g(m); chk(t); if (t) t->refs++; }
void task_release(Task *t) { std::lock_guard<std::recursive_mutex> g(m); chk(t); if (t) { t->refs--; maybe_free(t); } }
void task_wait(Task *t) {
    if (!t) return;
    chk(t);
    while (true) {
        { std::lock_guard<std::recursive_mutex> g(m); if (t->done) break; }
        if (!demo_step()) {
            std::unique_lock<std::recursive_mutex> g(m);
            if (t->done) break;
            if (ready.empty()) cv.wait(g);
        }
    }
    std::exception_ptr e = t->exc;
    if (e) std::rethrow_exception(e);
}
void task_wait_and_release(Task *t) { try { task_wait(t); } catch (...) { task_release(t); throw; } task_release(t); }
int task_query(Task *t) { std::lock_guard<std::recursive_mutex> g(m); chk(t); return !t || t->done; }
double task_time(Task *) { return 1; }
double task_time_rel(Task *, Task *) { return 1; }
}
