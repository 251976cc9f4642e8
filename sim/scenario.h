/* Scenario registry and helpers shared by all workloads */
#pragma once
#include "sim.h"

namespace sim {
struct Ctx {
    Rng rng;              ///< workload randomness (independent of the schedule)
    const char *name;
    bool deep = false;
};

struct Scenario {
    const char *name;
    /// Chooses policy and limits; runs before the simulation starts
    void (*setup)(Ctx &);
    /// Main program, thread 0 of process 0
    void (*run)(Ctx &);
    Scenario *next;
    Scenario(const char *name, void (*setup)(Ctx &), void (*run)(Ctx &));
};
extern Scenario *scenarios;

/// Random scheduling policy: mixes several exploration styles
void random_policy(Rng &rng, bool bb = true, bool step = false);
int64_t wall_ns();
extern int sim_pid_override;
bool pool_idle();
void fs_set_root(const char *path);
extern const char *probe_name[64];
int name_probe(const char *name);
#define SIM_PROBE(name)                                                        \
    do { static int id_ = sim::name_probe(name); sim::probe((uint32_t) id_); } while (0)
}
