/* T09: task mutex. All programs of lock, trylock, unlock, yield, sleep and stray
 * wakeups by P0 tasks with P1 operations each. */
#include "h.h"
#include <hev-task-mutex.h>

const char mc_property[] = "T09";

#define N P (0)
#define OPS P (1)
#define PRIO P (2)  /* 0: all default, 1: first choice of priorities enumerated */
#define SLEEP P (3) /* sleeping allowed */

static HevTaskMutex m;
static HevTask *t[5];
static int owner, waiting[5], ended, acquired;

static void
got (int i, const char *how)
{
    MC_CHECK (owner < 0, "task %d acquired the mutex while task %d holds it", i,
              owner);
    owner = i;
    acquired++;
}

static void
stray (int i)
{
    int k, n = 0, l[5];
    for (k = 0; k < N; k++)
        if (k != i && hev_task_get_state (t[k]) == HEV_TASK_WAITING)
            l[n++] = k;
    if (!n) {
        hev_task_yield (HEV_TASK_YIELD);
        return;
    }
    k = l[mc_choose (n, "whom to wake")];
    mc_ev2 ("task %ld wakes task %ld", i, k);
    hev_task_wakeup (t[k]);
}

static void
entry (void *data)
{
    int i = (int)(intptr_t)data, k;

    for (k = 0; k < OPS; k++) {
        if (owner != i) {
            switch (mc_choose (SLEEP ? 5 : 4, "operation")) {
            case 0:
                mc_ev1 ("task %ld calls lock", i);
                waiting[i] = 1;
                if (owner >= 0)
                    mc_outcome ("lock contended");
                MC_CHECK (hev_task_mutex_lock (&m) == 0, "lock failed");
                waiting[i] = 0;
                mc_ev1 ("task %ld has the lock", i);
                got (i, "lock");
                break;
            case 1: {
                int free = owner < 0;
                int r = hev_task_mutex_trylock (&m);
                mc_ev2 ("task %ld: trylock = %ld", i, r);
                MC_CHECK ((r == 0) == free && (r == 0 || r == -1),
                          "trylock returned %d while the mutex was %s", r,
                          free ? "free" : "held");
                if (!r)
                    got (i, "trylock");
                else
                    mc_outcome ("trylock refused");
                break;
            }
            case 2:
                mc_ev1 ("task %ld yields", i);
                hev_task_yield (HEV_TASK_YIELD);
                break;
            case 3:
                stray (i);
                break;
            case 4:
                mc_ev1 ("task %ld sleeps", i);
                hev_task_sleep (1 + i);
                break;
            }
        } else {
            switch (mc_choose (SLEEP ? 5 : 4, "operation while holding")) {
            case 0:
                mc_ev1 ("task %ld unlocks", i);
                owner = -1;
                MC_CHECK (hev_task_mutex_unlock (&m) == 0, "unlock failed");
                break;
            case 1: {
                int r = hev_task_mutex_trylock (&m);
                MC_CHECK (r == -1, "trylock of a held mutex returned %d", r);
                mc_ev1 ("task %ld: trylock refused", i);
                break;
            }
            case 2:
                mc_ev1 ("task %ld yields holding", i);
                hev_task_yield (HEV_TASK_YIELD);
                break;
            case 3:
                stray (i);
                break;
            case 4:
                mc_ev1 ("task %ld sleeps holding", i);
                hev_task_sleep (1 + i);
                break;
            }
            MC_CHECK (owner == i || owner < 0 || hev_task_get_state (t[owner]) != HEV_TASK_STOPPED,
                      "owner ended");
        }
    }
    if (owner == i) {
        mc_ev1 ("task %ld unlocks at its end", i);
        owner = -1;
        hev_task_mutex_unlock (&m);
    }
    mc_ev1 ("task %ld ends", i);
    ended++;
}

static void
idle (void)
{
    int k;
    for (k = 0; k < N; k++)
        if (waiting[k])
            mc_fail ("task %d waits for the mutex for ever while it is %s", k,
                     owner < 0 ? "free" : "held by a task that ended");
    mc_fail ("tasks blocked for ever");
}

static void
run (void)
{
    static const int prios[] = { 1, 15, 8, 0 };
    int k;

    owner = -1;
    ended = acquired = 0;
    memset (waiting, 0, sizeof (waiting));
    mc_on_idle = idle;
    h_init ();
    memset (&m, 0xa5, sizeof (m));
    hev_task_mutex_init (&m);
    for (k = 0; k < N; k++) {
        t[k] = hev_task_ref (h_task ());
        if (PRIO)
            hev_task_set_priority (t[k],
                                   prios[mc_choose (PRIO, "priority")]);
    }
    for (k = 0; k < N; k++)
        hev_task_run (t[k], entry, (void *)(intptr_t)k);
    hev_task_system_run ();
    MC_CHECK (ended == N, "run returned before all tasks ended");
    MC_CHECK (owner < 0, "mutex still held");
    MC_CHECK (hev_task_mutex_trylock (&m) == 0,
              "mutex not free after everyone released it");
    for (k = 0; k < N; k++)
        hev_task_unref (t[k]);
    h_fini ();
    mc_leak_check ("fini");
    if (acquired > 1)
        mc_outcome ("acquired more than once");
}

/* ---- a crowd of P0 tasks that each lock three times, one or two mutexes ---- */

#define CROWD 150

static HevTaskMutex m2;
static HevTask *ct[CROWD];
static int chold, ctwo, cevery, cstride, ctry, inside2, crounds[CROWD];

static void
crowd_hold (int i)
{
    if (chold == 1 || (chold == 2 && i % 3 == 0))
        hev_task_yield (HEV_TASK_YIELD);
    if (chold == 3)
        hev_task_sleep (1);
}

static void
crowd_entry (void *data)
{
    int i = (int)(intptr_t)data, k;

    for (k = 0; k < 3; k++) {
        if (ctry) {
            int free = owner < 0, r = hev_task_mutex_trylock (&m);
            MC_CHECK (r == (free ? 0 : -1), "trylock returned %d while the mutex was %s", r,
                      free ? "free" : "held");
            if (r == 0)
                goto locked;
        }
        MC_CHECK (hev_task_mutex_lock (&m) == 0, "lock failed");
    locked:
        got (i, "lock");
        crowd_hold (i);
        if (ctwo) {
            MC_CHECK (hev_task_mutex_lock (&m2) == 0, "lock failed");
            MC_CHECK (inside2 < 0, "task %d acquired the second mutex while task %d holds it",
                      i, inside2);
            inside2 = i;
            if (ctwo == 1) {
                owner = -1;
                hev_task_mutex_unlock (&m);
            }
            crowd_hold (i);
            MC_CHECK (inside2 == i, "task %d lost the second mutex", i);
            inside2 = -1;
            hev_task_mutex_unlock (&m2);
        }
        if (ctwo != 1) {
            MC_CHECK (owner == i, "task %d lost the mutex", i);
            owner = -1;
            hev_task_mutex_unlock (&m);
        }
        crounds[i]++;
        if (i % 4 == k)
            hev_task_yield (HEV_TASK_YIELD);
    }
    ended++;
}

static void
crowd_waker (void *data)
{
    int k, r;

    for (r = 0; r < 3; r++) {
        for (k = 0; k < N; k += cevery) {
            int i = k * cstride % N;
            if (hev_task_get_state (ct[i]) == HEV_TASK_WAITING)
                hev_task_wakeup (ct[i]);
        }
        hev_task_yield (HEV_TASK_YIELD);
    }
}

static void
crowd_idle (void)
{
    mc_fail ("%d of %d tasks wait for ever while the mutexes are held by %d and %d", N - ended,
             N, owner, inside2);
}

static void
crowd (void)
{
    static const int every[] = { 1000, 1, 2, 3 }, strides[] = { 1, 3, 7 };
    int k, pr;

    owner = inside2 = -1;
    ended = acquired = 0;
    memset (crounds, 0, sizeof (crounds));
    mc_on_idle = crowd_idle;
    chold = mc_choose (4, "hold");
    ctwo = mc_choose (3, "second mutex");
    ctry = mc_choose (2, "trylock first");
    cevery = every[mc_choose (4, "stray wakeups")];
    cstride = strides[mc_choose (3, "order")];
    pr = mc_choose (3, "priorities");
    mc_evx ("hold %ld, second %ld, try %ld", chold, ctwo, ctry);
    mc_evx ("every %ld in order %ld, priorities %ld", cevery, cstride, pr);
    h_init ();
    memset (&m, 0xa5, sizeof (m));
    memset (&m2, 0xa5, sizeof (m2));
    hev_task_mutex_init (&m);
    hev_task_mutex_init (&m2);
    for (k = 0; k < N; k++) {
        ct[k] = hev_task_ref (h_task ());
        hev_task_set_priority (ct[k], pr == 0 ? 8 : pr == 1 ? k % 16 : 1 + k % 3 * 7);
        hev_task_run (ct[k], crowd_entry, (void *)(intptr_t)k);
    }
    hev_task_run (h_task (), crowd_waker, NULL);
    hev_task_system_run ();
    MC_CHECK (ended == N, "run returned before all tasks ended");
    MC_CHECK (hev_task_mutex_trylock (&m) == 0 && hev_task_mutex_trylock (&m2) == 0,
              "mutex not free after everyone released it");
    for (k = 0; k < N; k++) {
        MC_CHECK (crounds[k] == 3, "task %d", k);
        hev_task_unref (ct[k]);
    }
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all acquired");
}

const struct mc_scen mc_scenarios[] = {
    { "two-tasks", run, MC_BOTH, { 2, 4, 0, 1 } },
    { "two-tasks-deep", run, MC_THOROUGH, { 2, 6, 0, 1 } },
    { "three-tasks", run, MC_BOTH, { 3, 3, 0, 0 } },
    { "three-tasks-deep", run, MC_THOROUGH, { 3, 4, 0, 0 } },
    { "three-tasks-prio", run, MC_BOTH, { 3, 2, 2, 1 } },
    { "three-tasks-sleep", run, MC_THOROUGH, { 3, 4, 0, 1 } },
    { "four-tasks", run, MC_BOTH, { 4, 2, 0, 0 } },
    { "four-tasks-deep", run, MC_THOROUGH, { 4, 3, 0, 0 } },
    { "crowd", crowd, MC_BOTH, { 5 }, .horizon = 100000000 },
    { "crowd-more", crowd, MC_BOTH, { 17 }, .horizon = 100000000 },
    { "crowd-large", crowd, MC_BOTH, { 139 }, .horizon = 100000000 },
    { 0 },
};
