#pragma once
#include <cstddef>
extern int demo_lifo;      ///< run the most recently submitted task (and its last unit) first
extern int demo_ids;       ///< work units use the thread IDs 0..3 in turn (0: always ID 0)
extern size_t demo_live;   ///< number of tasks that still exist
int demo_step();           ///< run one work unit
void demo_drain();
