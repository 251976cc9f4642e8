#include "engine.h"
using namespace eng;
namespace {
Profile base() {
    Profile p;
    p.w[MAKE] = 5; p.w[ARITH] = 8; p.w[GATHER] = 3; p.w[SCATTER] = 3; p.w[SCHED] = 5; p.w[ALIAS] = 3;
    p.w[VERIFY] = 2; p.w[DEBUG] = 1; p.w[ATOMIC] = 2; p.w[FLUSH] = 1;
    return p;
}
Profile mix() {
    Profile p = base();
    p.w[SHARE] = 2; p.share = true;
    return p;
}
Profile prim() {
    Profile p = base();
    p.w[PRIM] = 14; p.w[RAW] = 8; p.w[DEBUG] = 0; p.share = true; p.w[SHARE] = 1;
    return p;
}
/// Writes through aliases, copies, views and adopted variables
Profile write() {
    Profile p = base();
    p.w[SCATTER] = 10; p.w[ALIAS] = 8; p.w[GATHER] = 5; p.w[SHARE] = 2; p.w[ATOMIC] = 1; p.w[ARITH] = 5; p.w[DEBUG] = 0;
    p.w[FLUSH] = 0; p.share = true;
    return p;
}
/// Conflicting scatter-reductions
Profile atomic() {
    Profile p = base();
    p.w[ATOMIC] = 16; p.w[SCATTER] = 2; p.w[DEBUG] = 0; p.w[FLUSH] = 0; p.w[ARITH] = 4; p.w[SHARE] = 1; p.share = true;
    p.clients_max = 2;
    return p;
}
/// Memory is allocated and released at a high rate while work is in flight
Profile memory() {
    Profile p = base();
    p.w[MAKE] = 9; p.w[ARITH] = 5; p.w[PRIM] = 5; p.w[RAW] = 5; p.w[SCHED] = 7; p.w[ALIAS] = 7; p.w[FLUSH] = 4; p.w[SHARE] = 2;
    p.w[DEBUG] = 0; p.share = true; p.clients_min = 2; p.clients_max = 4; p.max_slots = 6; p.adversary = 700;
    return p;
}
Profile callback() {
    Profile p = base();
    p.w[CALLBACK] = 14; p.w[ALIAS] = 6; p.clients_max = 3;
    return p;
}
Profile callback_share() {
    Profile p = callback();
    p.w[SHARE] = 4; p.share = true; p.clients_min = 2;
    return p;
}
Profile host() {
    Profile p = base();
    p.w[HOST] = 14; p.w[SCATTER] = 6; p.w[ALIAS] = 6; p.w[RAW] = 2; p.w[SHARE] = 1; p.share = true;
    return p;
}
Profile event() {
    Profile p = base();
    p.w[HOST] = 6; p.w[EVENT] = 14; p.w[SHARE] = 1; p.share = true;
    return p;
}
Profile lvn() {
    Profile p = base();
    p.w[FLAGS] = 14; p.w[MASK] = 3; p.w[ARITH] = 12; p.w[SHARE] = 2; p.share = true;
    return p;
}
Profile history() {
    Profile p = base();
    p.w[HIST] = 8; p.w[PRIM] = 4; p.w[RAW] = 2; p.w[HOST] = 2; p.flags_on = (uint32_t) JitFlag::KernelHistory;
    return p;
}
Profile history1() { Profile p = history(); p.clients_max = 1; p.ops_max = 20; return p; }
Profile local_array() {
    Profile p = base();
    p.w[LARRAY] = 10; p.w[MASK] = 5;
    return p;
}
/// Allocations fail
Profile oom() {
    Profile p = base();
    p.w[RAW] = 3; p.w[PRIM] = 5; p.w[ALIAS] = 5; p.w[FLUSH] = 2; p.w[DEBUG] = 0; p.w[FAIL] = 12; p.faults = true; p.final_shutdown = true;
    return p;
}
Profile oom1() { Profile p = oom(); p.clients_max = 1; p.w[CTRL] = 3; return p; }
/// Thread-local control state
Profile isolate() {
    Profile p = base();
    p.w[STATE] = 24; p.w[CTRL] = 1; p.w[FLUSH] = 4; p.w[DEBUG] = 2; p.w[HOST] = 2; p.clients_min = 1; p.clients_max = 4; p.ops_max = 16;
    p.size_max = 400;
    return p;
}
/// Recorded functions
Profile freeze() {
    Profile p = base();
    p.w[FREEZE] = 22; p.w[PRIM] = 1; p.w[SHARE] = 1; p.share = true; p.clients_max = 3; p.ops_max = 22; p.size_max = 300; p.w[DEBUG] = 0;
    p.flags_off |= (uint32_t) JitFlag::Debug; // the bounds checks of debug mode have the sizes of the recording built in
    return p;
}
Profile freeze1() { Profile p = freeze(); p.clients_max = 1; p.w[FREEZE] = 60; p.ops_max = 14; return p; }
/// Loops, conditionals, indirect calls
Profile ctrl() {
    Profile p = base();
    p.w[CTRL] = 14; p.w[MASK] = 1; p.w[SHARE] = 1; p.share = true; p.ops_max = 18; p.clients_max = 3; p.size_max = 300;
    return p;
}
Profile ctrl1() { Profile p = ctrl(); p.clients_max = 1; p.ops_min = 1; p.ops_max = 6; p.w[CTRL] = 40; return p; }
#define ENG_SCENARIO(nm, prof)                                                 \
    Scenario sc_##nm(#nm, [](Ctx &c) { setup(c, prof); }, [](Ctx &c) { run(c, prof); })
ENG_SCENARIO(mix, mix());
ENG_SCENARIO(prim, prim());
ENG_SCENARIO(write, write());
ENG_SCENARIO(atomic, atomic());
ENG_SCENARIO(memory, memory());
ENG_SCENARIO(callback, callback());
ENG_SCENARIO(callback_share, callback_share());
ENG_SCENARIO(host, host());
ENG_SCENARIO(event, event());
ENG_SCENARIO(lvn, lvn());
ENG_SCENARIO(history, history());
ENG_SCENARIO(history1, history1());
ENG_SCENARIO(larray, local_array());
ENG_SCENARIO(oom, oom());
ENG_SCENARIO(oom1, oom1());
ENG_SCENARIO(isolate, isolate());
ENG_SCENARIO(freeze, freeze());
ENG_SCENARIO(freeze1, freeze1());
ENG_SCENARIO(ctrl, ctrl());
ENG_SCENARIO(ctrl1, ctrl1());
}
