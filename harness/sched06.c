/* T06: join */
#include "sched.h"
#include "crowd.h"
const char mc_property[] = "T06";

const struct mc_scen mc_scenarios[] = {
    { "two", run, MC_BOTH, { 2, 4, 2, F_JOIN | F_EXIT | F_SPAWN, 1, 2 } },
    { "three", run, MC_BOTH, { 3, 3, 0, F_JOIN | F_EXIT, 1, 3 } },
    { "restart", run, MC_BOTH, { 3, 2, 2, F_JOIN | F_EXIT | F_SPAWN, 1, 3 } },
    { "wait", run, MC_BOTH, { 3, 2, 0, F_JOIN | F_WAIT | F_EXIT, 1, 3 } },
    { "two-wait", run, MC_BOTH, { 2, 3, 1, F_JOIN | F_WAIT | F_EXIT | F_SPAWN, 1, 2 } },
    { "sleep", run, MC_BOTH, { 3, 2, 1, F_JOIN | F_SLEEP | F_SPAWN | F_RET, 1, 3 } },
    { "runs", run, MC_BOTH, { 3, 2, 0, F_JOIN | F_EXIT, 2, 2 } },
    { "four", run, MC_BOTH, { 4, 2, 0, F_JOIN | F_EXIT, 1, 4 } },
    { "prio", run, MC_BOTH, { 2, 3, 0, F_JOIN | F_PRIO | F_EXIT, 1, 2 } },
    { "prios", run, MC_BOTH, { 3, 2, 0, F_JOIN | F_WAIT | F_EXIT | F_PRIOS, 1, 3 } },
    { "prios-two", run, MC_BOTH, { 2, 3, 1, F_JOIN | F_WAIT | F_SPAWN | F_PRIOS, 1, 2 } },
    { "two-wait-deep", run, MC_THOROUGH, { 2, 4, 1, F_JOIN | F_WAIT | F_EXIT | F_SPAWN, 1, 2 } },
    { "three-deep", run, MC_THOROUGH, { 3, 3, 2, F_JOIN | F_EXIT | F_SPAWN, 1, 3 } },
    { "wait-deep", run, MC_THOROUGH, { 3, 3, 0, F_JOIN | F_WAIT | F_EXIT, 1, 3 } },
    { "crowd", crowd_join, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
