/* T01: tasks run exactly once, to completion */
#include "sched.h"
#include "crowd.h"
const char mc_property[] = "T01";

const struct mc_scen mc_scenarios[] = {
    { "spawn", run, MC_BOTH, { 3, 3, 3, F_SPAWN | F_EXIT | F_RET, 1, 1 } },
    { "restart", run, MC_BOTH, { 2, 3, 2, F_SPAWN | F_EXIT | F_RET | F_SLEEP, 1, 2 } },
    { "restart-more", run, MC_BOTH, { 2, 2, 4, F_SPAWN | F_EXIT | F_SLEEP, 1, 2 } },
    { "two-runs", run, MC_BOTH, { 3, 2, 1, F_SPAWN | F_EXIT | F_RET, 2, 2 } },
    { "three-runs", run, MC_BOTH, { 2, 2, 0, F_EXIT | F_SLEEP, 3, 2 } },
    { "wait", run, MC_BOTH, { 3, 3, 1, F_WAIT | F_SPAWN | F_EXIT, 1, 2 } },
    { "again", run, MC_BOTH, { 2, 3, 1, F_WAIT | F_SPAWN | F_READD, 1, 2 } },
    { "four", run, MC_BOTH, { 4, 2, 3, F_SPAWN | F_SLEEP | F_RET, 1, 2 } },
    { "prio", run, MC_BOTH, { 3, 2, 1, F_SPAWN | F_PRIO | F_EXIT, 1, 2 } },
    { "prios", run, MC_BOTH, { 3, 2, 2, F_SPAWN | F_PRIOS | F_RET, 1, 2 } },
    { "restart-deep", run, MC_THOROUGH, { 3, 3, 4, F_SPAWN | F_EXIT | F_RET, 1, 2 } },
    { "wait-deep", run, MC_THOROUGH, { 3, 4, 1, F_WAIT | F_SPAWN | F_SLEEP, 1, 2 } },
    { "runs-deep", run, MC_THOROUGH, { 3, 2, 2, F_WAIT | F_SPAWN | F_EXIT, 2, 2 } },
    { "crowd", crowd, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
