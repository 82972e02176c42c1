/* T05: life time of tasks */
#include "sched.h"
#include "crowd.h"
const char mc_property[] = "T05";

const struct mc_scen mc_scenarios[] = {
    { "refs", run, MC_BOTH, { 2, 4, 2, F_REF | F_SPAWN, 1, 1 } },
    { "refs-two", run, MC_BOTH, { 2, 3, 2, F_REF | F_SPAWN | F_EXIT, 1, 2 } },
    { "create", run, MC_BOTH, { 3, 3, 2, F_REF | F_SPAWN | F_NEW | F_EXIT | F_NOYIELD, 1, 1 } },
    { "join", run, MC_BOTH, { 2, 3, 1, F_REF | F_JOIN | F_EXIT | F_SPAWN, 1, 2 } },
    { "wait", run, MC_BOTH, { 2, 3, 1, F_REF | F_WAIT | F_SPAWN | F_SLEEP, 1, 2 } },
    { "runs", run, MC_BOTH, { 2, 2, 1, F_REF | F_SPAWN | F_EXIT, 2, 2 } },
    { "three", run, MC_BOTH, { 3, 2, 1, F_REF | F_JOIN | F_EXIT, 1, 3 } },
    { "prios", run, MC_BOTH, { 2, 3, 1, F_REF | F_SPAWN | F_PRIOS | F_NOYIELD, 1, 1 } },
    { "refs-deep", run, MC_THOROUGH, { 2, 5, 2, F_REF | F_SPAWN | F_EXIT, 1, 1 } },
    { "join-deep", run, MC_THOROUGH, { 2, 4, 1, F_REF | F_JOIN | F_EXIT | F_SPAWN, 1, 2 } },
    { "three-deep", run, MC_THOROUGH, { 3, 2, 1, F_REF | F_JOIN | F_EXIT | F_WAIT, 1, 3 } },
    { "crowd", crowd_refs, MC_BOTH, { 0 }, .horizon = 100000000 },
    { "waves", crowd_waves, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
