/* T07: sleeps. P0 sleepers with P1 sleeps each from duration alphabet P2, a
 * driver with P3 operations (wake a sleeper, be busy, sleep itself, yield),
 * start time from alphabet P4, lateness of the kernel if P5, sleepers change
 * their priority before they sleep if P6. Many sleepers: P2 1: a woken sleeper
 * runs before the next is woken, 3: and sleeps again. */
#include "h.h"

const char mc_property[] = "T07";

#define NS P (0)
#define SOPS P (1)
#define ALPH P (2)
#define DOPS P (3)
#define START P (4)
#define LATE P (5)
#define PRIO P (6)

#define US(x) (-(long)(x)) /* negative: microseconds */
static const struct
{
    int n;
    long d[8];
} alph[] = {
    { 4, { 1, 2, 0, US (1500) } },
    { 3, { 1, 2, 3 } },
    { 6, { US (1), US (999), US (1000), US (0), 1, 1000 } },
    { 6, { 4294967295L, 4294967, 4294968, US (4294967295L), 2147483648L, 1 } },
    { 5, { US (1), US (999999), US (1000000), US (1000001), 1001 } },
    { 2, { 1, 2 } },
    { 3, { 4294967, 4294968, 8589935 } },
};

static const uint64_t busy[] = { 400000, 600000, 1000000, 999 };
static const uint64_t starts[][6] = {
    { 0 },
    { 0, 999999999, 999999000, 999000000, 998999999, 500000000 },
    { 0, 999000000, 999999999 },
};
static const int nstarts[] = { 1, 6, 3 };
static const uint64_t lates[] = { 1, 1000000, 2500000 };

#define MAXS 150
static HevTask *t[MAXS], *td;
static int asleep[MAXS], woken[MAXS], done[MAXS], ddone;
static uint64_t began[MAXS], deadline[MAXS];
static int rank_[MAXS];

static void
check_blocked (void)
{
    int i;
    for (i = 0; i <= NS; i++) {
        if (!asleep[i])
            continue;
        MC_CHECK (deadline[i] > vk_now,
                  "everything waits although the time of sleeper %d passed %lu ns ago",
                  i, (unsigned long)(vk_now - deadline[i]));
        MC_CHECK (!woken[i], "everything waits although sleeper %d was woken", i);
    }
}

/* After the driver had others run and something was polled: who is due is
 * ready, whoever else is. */
static void
check_ready (void)
{
    int i;
    if (LATE)
        return;
    for (i = 0; i < NS; i++)
        if (asleep[i])
            MC_CHECK (deadline[i] > vk_now || hev_task_get_state (t[i]) == HEV_TASK_RUNNING,
                      "the time of sleeper %d passed %lu ns ago, it is not ready",
                      i, (unsigned long)(vk_now - deadline[i]));
}

static void
do_sleep (int i, long d)
{
    uint64_t unit = d < 0 ? 1000 : 1000000, req = d < 0 ? -d : d, left;
    unsigned r;

    mc_evx (d < 0 ? "task %ld: usleep %ld" : "task %ld: sleep %ld", i, req, 0);
    began[i] = vk_now;
    deadline[i] = vk_now + req * unit;
    asleep[i] = 1;
    woken[i] = 0;
    r = d < 0 ? hev_task_usleep (req) : hev_task_sleep (req);
    asleep[i] = 0;
    left = deadline[i] > vk_now ? deadline[i] - vk_now : 0;
    mc_evx ("task %ld: returned %ld at %ld ns", i, r, vk_now);
    if (r == 0) {
        MC_CHECK (!left, "sleep of %lu %s returned 0 although %lu ns are left",
                  (unsigned long)req, d < 0 ? "us" : "ms", (unsigned long)left);
        mc_outcome ("slept");
        return;
    }
    MC_CHECK (woken[i], "sleep ended early with %u left without a wakeup", r);
    MC_CHECK (r <= req, "sleep of %lu reports %u left", (unsigned long)req, r);
    MC_CHECK (r >= left / unit, "sleep reports %u left, but %lu ns are left", r,
              (unsigned long)left);
    MC_CHECK (r <= (left + unit - 1) / unit, "sleep reports %u left, but only %lu ns are",
              r, (unsigned long)left);
    mc_outcome ("woken early");
}

static void
sleeper (void *data)
{
    int i = (int)(intptr_t)data, k;

    for (k = 0; k < SOPS; k++) {
        if (PRIO && mc_choose (2, "priority"))
            hev_task_set_priority (t[i], HEV_TASK_PRIORITY_MAX);
        do_sleep (i, alph[ALPH].d[mc_choose (alph[ALPH].n, "duration")]);
    }
    done[i] = 1;
}

static void
driver (void *data)
{
    int k, i;

    for (k = 0; k < DOPS; k++) {
        int op[16], arg[16], n = 0, c;
        for (i = 0; i < NS; i++)
            if (!done[i] && hev_task_get_state (t[i]) == HEV_TASK_WAITING)
                op[n] = 0, arg[n++] = i;
        for (i = 0; i < 4; i++)
            op[n] = 1, arg[n++] = i;
        op[n++] = 2;
        op[n] = 3, arg[n++] = 0;
        op[n] = 3, arg[n++] = 1;
        c = mc_choose (n, "operation of the driver");
        i = arg[c];
        switch (op[c]) {
        case 0:
            mc_ev1 ("driver wakes sleeper %ld", i);
            woken[i] = 1;
            hev_task_wakeup (t[i]);
            break;
        case 1:
            mc_ev1 ("driver is busy for %ld ns", busy[i]);
            vk_advance (busy[i]);
            break;
        case 2:
            mc_ev ("driver yields");
            hev_task_yield (HEV_TASK_YIELD);
            check_ready ();
            break;
        case 3:
            do_sleep (NS, i ? US (700) : 1);
            check_ready ();
            break;
        }
    }
    ddone = 1;
}

static void
run (void)
{
    int k;

    memset (asleep, 0, sizeof (asleep));
    memset (done, 0, sizeof (done));
    ddone = 0;
    vk_on_block = check_blocked;
    if (LATE) {
        vk_late = lates;
        vk_late_n = 3;
    }
    vk_now += starts[START][mc_choose (nstarts[START], "start time")];
    h_init ();
    for (k = 0; k < NS; k++)
        t[k] = h_task ();
    for (k = 0; k < NS; k++)
        hev_task_run (t[k], sleeper, (void *)(intptr_t)k);
    if (DOPS) {
        td = h_task ();
        if (PRIO)
            hev_task_set_priority (td, HEV_TASK_PRIORITY_MIN);
        hev_task_run (td, driver, NULL);
    }
    hev_task_system_run ();
    for (k = 0; k < NS; k++)
        MC_CHECK (done[k], "run returned while a sleeper sleeps");
    MC_CHECK (!DOPS || ddone, "run returned while the driver sleeps");
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- many sleepers: every order of their times, some are woken ---- */

static void
many_sleeper (void *data)
{
    int i = (int)(intptr_t)data;

    do_sleep (i, rank_[i] + 1);
    done[i] = 1;
}

static void
many_driver (void *data)
{
    int k, i, left = NS;

    for (k = 0; k < DOPS; k++) {
        int c = mc_choose (left, "sleeper to wake");
        for (i = 0; i < NS; i++)
            if (!woken[i] && c-- == 0)
                break;
        mc_ev1 ("driver wakes sleeper %ld", i);
        woken[i] = 1;
        hev_task_wakeup (t[i]);
        left--;
        if (P (2) & 1) {
            hev_task_yield (HEV_TASK_YIELD);
            MC_CHECK (done[i], "the woken sleeper does not run");
            if (P (2) & 2) /* the place is taken again */ {
                t[i] = h_task ();
                rank_[i] = NS + k;
                woken[i] = done[i] = 0;
                left++;
                hev_task_run (t[i], many_sleeper, (void *)(intptr_t)i);
                hev_task_yield (HEV_TASK_YIELD);
            }
        }
    }
    ddone = 1;
}

static void
run_many (void)
{
    int k, i, c, used = 0;

    memset (asleep, 0, sizeof (asleep));
    memset (woken, 0, sizeof (woken));
    memset (done, 0, sizeof (done));
    ddone = 0;
    vk_on_block = check_blocked;
    h_init ();
    for (k = 0; k < NS; k++) {
        c = mc_choose (NS - k, "rank");
        for (i = 0; i < NS; i++)
            if (!(used & 1 << i) && c-- == 0)
                break;
        used |= 1 << i;
        rank_[k] = i;
        t[k] = h_task ();
    }
    for (k = 0; k < NS; k++)
        hev_task_run (t[k], many_sleeper, (void *)(intptr_t)k);
    td = h_task ();
    hev_task_run (td, many_driver, NULL);
    hev_task_system_run ();
    for (k = 0; k < NS; k++)
        MC_CHECK (done[k], "run returned while a sleeper sleeps");
    MC_CHECK (ddone, "run returned while the driver waits");
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all done");
}

/* ---- a crowd: order of the times, equal times and wakeups follow patterns ---- */

static int cstride, cgroup, cevery, corder, chow;

static void
crowd_sleeper (void *data)
{
    int i = (int)(intptr_t)data, k;

    for (k = 0; k < 3; k++)
        do_sleep (i, cgroup == 0 ? US (1 + (i * cstride + k * 5) % NS * 10)
                                 : 1 + (i * cstride + k * 5) % NS / cgroup * (k + 1));
    done[i] = 1;
}

static void
crowd_driver (void *data)
{
    int k, i, r;

    for (r = 0; r < 4; r++) {
        for (k = 0; k < NS; k++) {
            i = k * corder % NS;
            if (k % cevery || done[i] || !asleep[i] || woken[i])
                continue;
            woken[i] = 1;
            hev_task_wakeup (t[i]);
            if (chow == 1)
                hev_task_yield (HEV_TASK_YIELD);
            if (chow == 2) {
                vk_advance (300000);
                hev_task_yield (HEV_TASK_YIELD);
                check_ready ();
            }
        }
        do_sleep (NS, 3 + r);
    }
    ddone = 1;
}

static void
run_crowd (void)
{
    static const int strides[] = { 1, 3, 7, 16 }, groups[] = { 1, 0, 3, 1000 },
                     every[] = { 2, 3, 1000, 1 };
    int k;

    memset (asleep, 0, sizeof (asleep));
    memset (woken, 0, sizeof (woken));
    memset (done, 0, sizeof (done));
    ddone = 0;
    vk_on_block = check_blocked;
    k = mc_choose (5, "order of the times");
    cstride = k == 4 ? NS - 1 : strides[k];
    cgroup = groups[mc_choose (4, "equal times")];
    cevery = every[mc_choose (4, "who is woken")];
    k = mc_choose (5, "order of the wakeups");
    corder = k == 4 ? NS - 1 : strides[k];
    chow = mc_choose (3, "turns between wakeups");
    mc_evx ("order %ld, groups of %ld, every %ld", cstride, cgroup, cevery);
    mc_ev2 ("wakeups in order %ld, mode %ld", corder, chow);
    h_init ();
    for (k = 0; k < NS; k++) {
        t[k] = h_task ();
        hev_task_run (hev_task_ref (t[k]), crowd_sleeper, (void *)(intptr_t)k);
    }
    td = h_task ();
    hev_task_run (td, crowd_driver, NULL);
    hev_task_system_run ();
    for (k = 0; k < NS; k++) {
        MC_CHECK (done[k], "run returned while a sleeper sleeps");
        hev_task_unref (t[k]);
    }
    MC_CHECK (ddone, "run returned while the driver waits");
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all done");
}

const struct mc_scen mc_scenarios[] = {
    { "one", run, MC_BOTH, { 1, 2, 2, 4, 1 } },
    { "one-fine", run, MC_BOTH, { 1, 2, 4, 3, 1 } },
    { "range", run, MC_BOTH, { 2, 2, 3, 2, 1 } },
    { "range-wake", run, MC_BOTH, { 2, 1, 6, 4, 0 } },
    { "two", run, MC_BOTH, { 2, 2, 0, 4, 0 } },
    { "two-start", run, MC_BOTH, { 2, 1, 2, 3, 1 } },
    { "three", run, MC_BOTH, { 3, 1, 0, 4, 0 } },
    { "three-twice", run, MC_BOTH, { 3, 2, 5, 3, 0 } },
    { "four", run, MC_BOTH, { 4, 1, 1, 3, 0 } },
    { "four-alone", run, MC_BOTH, { 4, 2, 1, 0, 1 } },
    { "late", run, MC_BOTH, { 2, 2, 1, 3, 0, 1 }, .env_budget = 2 },
    { "three-late", run, MC_BOTH, { 3, 1, 1, 3, 0, 1 }, .env_budget = 2 },
    { "prio", run, MC_BOTH, { 2, 1, 0, 4, 0, 0, 1 } },
    { "three-prio", run, MC_BOTH, { 3, 1, 1, 3, 0, 0, 1 } },
    { "many", run_many, MC_BOTH, { 7, 0, 1, 3 } },
    { "many-at-once", run_many, MC_BOTH, { 6, 0, 0, 4 } },
    { "many-again", run_many, MC_BOTH, { 6, 0, 3, 3 } },
    { "many-deep", run_many, MC_THOROUGH, { 8, 0, 1, 4 } },
    { "many-again-deep", run_many, MC_THOROUGH, { 7, 0, 3, 4 } },
    { "two-deep", run, MC_THOROUGH, { 2, 3, 1, 5, 0 } },
    { "three-deep", run, MC_THOROUGH, { 3, 2, 0, 4, 0 } },
    { "four-deep", run, MC_THOROUGH, { 4, 1, 0, 4, 0 } },
    { "late-deep", run, MC_THOROUGH, { 3, 2, 1, 3, 2, 1 }, .env_budget = 3 },
    { "crowd", run_crowd, MC_BOTH, { 11 }, .horizon = 100000000 },
    { "crowd-more", run_crowd, MC_BOTH, { 41 }, .horizon = 100000000 },
    { "crowd-large", run_crowd, MC_BOTH, { 139 }, .horizon = 100000000 },
    { 0 },
};
