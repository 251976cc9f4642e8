/*
   Simulated stand-in for the (absent) nanothread submodule.  Declares the part
   of the public nanothread interface that drjit-core uses.  The implementation
   in pool.cpp runs every work unit under the deterministic scheduler.

   Contract modelled (see DESIGN.md, "the nanothread seam"):
    - a pool of size N has N participants: N-1 workers with ids 1..N-1; every
      thread outside of the pool has id 0 and participates while it waits
    - a task of size 1 without (non-null) parents and always_async=0 executes
      immediately and yields a null handle; null handles are accepted anywhere
    - the payload is copied unless a deleter is given
    - an exception raised by a task is rethrown by task_wait()
*/
#pragma once

#include <cstdint>
#include <cstddef>

#define NANOTHREAD_EXPORT
#define NANOTHREAD_DEF(x) = x
#define NANOTHREAD_MIXED_MODE 0

typedef struct Pool Pool;
typedef struct Task Task;

extern "C" {
extern uint32_t core_count();
extern Pool *pool_create(uint32_t size = (uint32_t) -1, int ftz = 1);
extern void pool_destroy(Pool *pool = nullptr);
extern uint32_t pool_size(Pool *pool = nullptr);
extern void pool_set_size(Pool *pool, uint32_t size);
extern int pool_profile();
extern void pool_set_profile(int value);
extern int pool_ftz(Pool *pool = nullptr);
extern void pool_set_ftz(Pool *pool, int ftz);
extern uint32_t pool_thread_id();
extern Task *task_submit_dep(Pool *pool, const Task *const *parent,
                             uint32_t parent_count, uint32_t size = 1,
                             void (*func)(uint32_t, void *) = nullptr,
                             void *payload = nullptr, uint32_t payload_size = 0,
                             void (*payload_deleter)(void *) = nullptr,
                             int always_async = 0, int profile = 0);
extern void task_retain(Task *task);
extern void task_release(Task *task);
extern void task_wait(Task *task);
extern void task_wait_and_release(Task *task);
extern int task_query(Task *task);
extern double task_time(Task *task);
extern double task_time_rel(Task *task_1, Task *task_2);
}

static inline Task *task_submit(Pool *pool, uint32_t size = 1,
                                void (*func)(uint32_t, void *) = nullptr,
                                void *payload = nullptr, uint32_t payload_size = 0,
                                void (*payload_deleter)(void *) = nullptr,
                                int always_async = 0, int profile = 0) {
    return task_submit_dep(pool, nullptr, 0, size, func, payload, payload_size,
                           payload_deleter, always_async, profile);
}
