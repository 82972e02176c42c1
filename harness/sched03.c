/* T03: wait and wakeup */
#include "sched.h"
#include "crowd.h"
const char mc_property[] = "T03";

const struct mc_scen mc_scenarios[] = {
    { "two", run, MC_BOTH, { 2, 6, 0, F_WAIT, 1, 2 } },
    { "three", run, MC_BOTH, { 3, 3, 0, F_WAIT, 1, 3 } },
    { "four", run, MC_BOTH, { 4, 2, 0, F_WAIT, 1, 4 } },
    { "spawn", run, MC_BOTH, { 3, 3, 2, F_WAIT | F_SPAWN, 1, 1 } },
    { "prio", run, MC_BOTH, { 2, 3, 0, F_WAIT | F_PRIO | F_SLEEP, 1, 2 } },
    { "sleep", run, MC_BOTH, { 2, 4, 0, F_WAIT | F_SLEEP, 1, 2 } },
    { "three-sleep", run, MC_BOTH, { 3, 2, 0, F_WAIT | F_SLEEP, 1, 3 } },
    { "again", run, MC_BOTH, { 2, 4, 0, F_WAIT | F_READD, 1, 2 } },
    { "again-three", run, MC_BOTH, { 3, 2, 0, F_WAIT | F_READD, 1, 3 } },
    { "again-sleep", run, MC_BOTH, { 2, 3, 0, F_WAIT | F_SLEEP | F_READD, 1, 2 } },
    { "two-deep", run, MC_THOROUGH, { 2, 8, 0, F_WAIT, 1, 2 } },
    { "three-deep", run, MC_THOROUGH, { 3, 4, 0, F_WAIT, 1, 3 } },
    { "four-deep", run, MC_THOROUGH, { 4, 3, 0, F_WAIT | F_NOYIELD, 1, 4 } },
    { "crowd", crowd_wake, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
