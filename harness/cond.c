/* T10: condition variable. P0 waiters with P1 waits each, P2 drivers with P3
 * operations each. The oracle is the set of all worlds (which waiters have been
 * signalled) that the property allows. */
#include "h.h"
#include <hev-task-cond.h>

const char mc_property[] = "T10";

#define NW P (0)
#define WOPS P (1)
#define ND P (2)
#define DOPS P (3)
#define KINDS P (4) /* kinds of waits offered */

#define TMAX 5

static HevTaskMutex m;
static HevTaskCond c;
static HevTask *t[TMAX];
static int nt, owner, ended;
static int inwait[TMAX];      /* inside wait or timedwait */
static uint64_t deadline[TMAX]; /* of a timed wait, 0: none */
static uint32_t worlds;       /* set of masks of signalled waiters */

static int
expired (int i)
{
    return deadline[i] && vk_now >= deadline[i];
}

static void
do_signal (int all)
{
    uint32_t nw = 0;
    int w, i;

    for (w = 0; w < (1 << NW); w++) {
        int must = 0, any = 0;
        if (!(worlds >> w & 1))
            continue;
        for (i = 0; i < NW; i++)
            if (inwait[i] && !(w >> i & 1)) {
                any |= 1 << i;
                if (!expired (i))
                    must |= 1 << i;
            }
        if (all) {
            int may = any & ~must, s;
            for (s = may;; s = (s - 1) & may) {
                nw |= 1u << (w | must | s);
                if (!s)
                    break;
            }
        } else {
            if (!must)
                nw |= 1u << w;
            for (i = 0; i < NW; i++)
                if (any >> i & 1)
                    nw |= 1u << (w | 1 << i);
        }
    }
    worlds = nw;
}

static void
returned (int i, int res)
{
    uint32_t nw = 0;
    int w;

    for (w = 0; w < (1 << NW); w++)
        if ((worlds >> w & 1) && (w >> i & 1) == (res == 0))
            nw |= 1u << (w & ~(1 << i));
    MC_CHECK (nw, res == 0 ?
                      "wait of task %d returned 0 without having been signalled" :
                      "timed wait of task %d reported a timeout although it was "
                      "signalled",
              i);
    worlds = nw;
}

static void
lock (int i)
{
    hev_task_mutex_lock (&m);
    MC_CHECK (owner < 0, "mutex taken by task %d while task %d holds it", i,
              owner);
    owner = i;
}

static void
unlock (int i)
{
    owner = -1;
    hev_task_mutex_unlock (&m);
}

static void
waiter (void *data)
{
    int i = (int)(intptr_t)data, k, r;

    for (k = 0; k < WOPS; k++) {
        int kind = mc_choose (KINDS, "kind of wait");
        unsigned ms = kind == 1 ? 2 : kind == 2 ? 1 : 0;

        lock (i);
        if (kind == 0) {
            mc_ev1 ("task %ld waits", i);
            deadline[i] = 0;
        } else {
            mc_ev2 ("task %ld waits at most %ld ms", i, ms);
            deadline[i] = vk_now + ms * 1000000ull;
        }
        inwait[i] = 1;
        owner = -1;
        r = kind ? hev_task_cond_timedwait (&c, &m, ms) :
                   hev_task_cond_wait (&c, &m);
        mc_evx ("task %ld: wait returned %ld at %ld us", i, r, vk_now / 1000);
        MC_CHECK (owner < 0, "wait returned in task %d while task %d holds the mutex",
                  i, owner);
        owner = i;
        MC_CHECK (hev_task_mutex_trylock (&m) == -1,
                  "wait returned without holding the mutex");
        MC_CHECK (r == 0 || (r == -1 && kind), "wait returned %d", r);
        if (r == -1) {
            MC_CHECK (expired (i),
                      "timed wait gave up %ld us before its time had passed",
                      (long)(deadline[i] - vk_now) / 1000);
            mc_outcome ("timeout");
        } else
            mc_outcome ("signalled");
        returned (i, r);
        inwait[i] = 0;
        unlock (i);
    }
    ended++;
}

static void
driver (void *data)
{
    int i = (int)(intptr_t)data, k;

    for (k = 0; k < DOPS; k++) {
        int op = mc_choose (7 + NW, "operation");
        switch (op) {
        case 0:
            mc_ev1 ("task %ld signals", i);
            do_signal (0);
            MC_CHECK (hev_task_cond_signal (&c) == 0, "signal failed");
            break;
        case 1:
            mc_ev1 ("task %ld broadcasts", i);
            do_signal (1);
            MC_CHECK (hev_task_cond_broadcast (&c) == 0, "broadcast failed");
            break;
        case 2:
            mc_ev1 ("task %ld yields", i);
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 3:
            mc_ev1 ("task %ld is busy for 600 us", i);
            vk_advance (600000);
            break;
        case 4:
            mc_ev1 ("task %ld sleeps 1 ms", i);
            hev_task_sleep (1);
            break;
        case 5: /* hold the mutex for a while */
            mc_ev1 ("task %ld locks, sleeps 2 ms", i);
            lock (i);
            hev_task_sleep (2);
            mc_ev1 ("task %ld unlocks", i);
            unlock (i);
            break;
        case 6:
            mc_ev1 ("task %ld locks, signals, yields", i);
            lock (i);
            do_signal (0);
            hev_task_cond_signal (&c);
            hev_task_yield (HEV_TASK_YIELD);
            unlock (i);
            break;
        default:
            if (hev_task_get_state (t[op - 7]) == HEV_TASK_WAITING) {
                mc_ev2 ("task %ld wakes task %ld", i, op - 7);
                hev_task_wakeup (t[op - 7]);
                hev_task_yield (HEV_TASK_YIELD);
            }
        }
    }
    ended++;
}

static void
idle (void)
{
    int w, i, ok = 0;

    for (i = NW; i < nt; i++)
        MC_CHECK (hev_task_get_state (t[i]) == HEV_TASK_STOPPED,
                  "task %d is blocked for ever on the mutex", i);
    MC_CHECK (owner < 0, "task %d is blocked while it holds the mutex", owner);
    for (w = 0; w < (1 << NW); w++) {
        int good = worlds >> w & 1;
        for (i = 0; i < NW; i++)
            if (hev_task_get_state (t[i]) != HEV_TASK_STOPPED) {
                MC_CHECK (inwait[i] && !deadline[i],
                          "task %d is blocked for ever in %s", i,
                          inwait[i] ? "a timed wait" : "lock");
                if (w >> i & 1)
                    good = 0;
            } else if (w >> i & 1)
                good = 0;
        ok |= good;
    }
    MC_CHECK (ok, "lost signal: a signalled waiter is still blocked");
    mc_outcome ("some waiter never signalled");
    mc_done ();
}

static void
run (void)
{
    int k;

    owner = -1;
    ended = 0;
    nt = NW + ND;
    worlds = 1;
    memset (inwait, 0, sizeof (inwait));
    memset (deadline, 0, sizeof (deadline));
    mc_on_idle = idle;
    h_init ();
    memset (&m, 0xa5, sizeof (m));
    memset (&c, 0xa5, sizeof (c));
    hev_task_mutex_init (&m);
    hev_task_cond_init (&c);
    for (k = 0; k < nt; k++)
        t[k] = hev_task_ref (h_task ());
    for (k = 0; k < nt; k++)
        hev_task_run (t[k], k < NW ? waiter : driver, (void *)(intptr_t)k);
    hev_task_system_run ();
    MC_CHECK (ended == nt, "run returned before all tasks ended");
    for (k = 0; k < nt; k++)
        hev_task_unref (t[k]);
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("everyone finished");
}

/* ---- a crowd of P0 waiters on one or two conditions, at rest when signalled ---- */

#define CROWD 150

static HevTaskCond c2;
static HevTask *ct[CROWD];
static int cwaits[CROWD], cres[CROWD], cstray[CROWD], ctimed, cstride, cevery, ctwo, chow;
static uint64_t cdead[CROWD];
static int cok, clate, csig[2], cin[2];

static void
crowd_waiter (void *data)
{
    int i = (int)(intptr_t)data, k = ctwo ? i % 2 : 0, r;
    int timed = ctimed && i % ctimed == 0;
    unsigned ms = 1 + i * cstride % NW;

    lock (i);
    cdead[i] = timed ? vk_now + ms * 1000000ull : 0;
    cwaits[i] = 1;
    cin[k]++;
    owner = -1;
    r = timed ? hev_task_cond_timedwait (k ? &c2 : &c, &m, ms)
              : hev_task_cond_wait (k ? &c2 : &c, &m);
    MC_CHECK (owner < 0, "wait returned in task %d while task %d holds the mutex", i, owner);
    owner = i;
    if (i % 3 == 0)
        hev_task_yield (HEV_TASK_YIELD);
    MC_CHECK (owner == i, "task %d lost the mutex", i);
    cwaits[i] = 0;
    cin[k]--;
    cres[i] = r;
    if (r == 0) {
        cok++;
        MC_CHECK (--csig[k] >= 0, "wait of task %d returned 0 without a signal", i);
    } else {
        clate++;
        MC_CHECK (r == -1 && timed && vk_now >= cdead[i],
                  "wait of task %d returned %d before its time had passed", i, r);
    }
    ended++;
    unlock (i);
}

/* everybody had a chance to run */
static void
crowd_rest (const char *when)
{
    int i;

    hev_task_usleep (1000);
    for (i = 0; i < NW * 4 && (owner >= 0 || csig[0] || csig[1]); i++)
        hev_task_yield (HEV_TASK_YIELD);
    MC_CHECK (owner < 0, "task %d keeps the mutex", owner);
    MC_CHECK (csig[0] == 0 && csig[1] == 0, "%d signals were lost %s", csig[0] + csig[1], when);
    for (i = 0; i < NW; i++)
        /* a stray wakeup may cost less than a millisecond */
        MC_CHECK (!cwaits[i] || !cdead[i] || cdead[i] + cstray[i] * 1000000ull >= vk_now,
                  "task %d waits on although its time has passed, %s", i, when);
}

static void
crowd_driver (void *data)
{
    int k, r, n, i;

    hev_task_usleep (500);
    for (r = 0; r < 4; r++) {
        for (k = 0; k < NW; k += cevery) {
            i = k * cstride % NW;
            if (cwaits[i] && hev_task_get_state (ct[i]) == HEV_TASK_WAITING) {
                cstray[i]++;
                hev_task_wakeup (ct[i]);
            }
        }
        crowd_rest ("after stray wakeups");
        n = 1 + r * (NW / 8);
        while (n--) {
            k = ctwo && n % 2;
            if (csig[k] < cin[k])
                csig[k]++;
            if (chow == 2)
                lock (NW);
            MC_CHECK (hev_task_cond_signal (k ? &c2 : &c) == 0, "signal failed");
            if (chow == 2)
                unlock (NW);
            if (chow == 1)
                crowd_rest ("after a signal");
        }
        crowd_rest ("after signals");
    }
    for (k = 0; k < 2; k++) {
        csig[k] = cin[k];
        MC_CHECK (hev_task_cond_broadcast (k ? &c2 : &c) == 0, "broadcast failed");
        crowd_rest ("after the broadcast");
        MC_CHECK (cin[k] == 0, "%d tasks wait after the broadcast", cin[k]);
    }
    ended++;
}

static void
crowd_idle (void)
{
    mc_fail ("%d tasks wait for ever", NW + 1 - ended);
}

static void
crowd (void)
{
    static const int strides[] = { 1, 3, 7 }, every[] = { 1000, 1, 3 }, timed[] = { 0, 2, 3 };
    int k;

    owner = -1;
    ended = cok = clate = 0;
    csig[0] = csig[1] = cin[0] = cin[1] = 0;
    memset (cwaits, 0, sizeof (cwaits));
    memset (cstray, 0, sizeof (cstray));
    memset (cdead, 0, sizeof (cdead));
    mc_on_idle = crowd_idle;
    ctimed = timed[mc_choose (3, "timed waits")];
    cstride = strides[mc_choose (3, "order")];
    cevery = every[mc_choose (3, "stray wakeups")];
    ctwo = mc_choose (2, "two conditions");
    chow = mc_choose (3, "how to signal");
    mc_evx ("timed %ld, order %ld, strays %ld", ctimed, cstride, cevery);
    mc_ev2 ("two %ld, how %ld", ctwo, chow);
    h_init ();
    memset (&m, 0xa5, sizeof (m));
    memset (&c, 0xa5, sizeof (c));
    memset (&c2, 0xa5, sizeof (c2));
    hev_task_mutex_init (&m);
    hev_task_cond_init (&c);
    hev_task_cond_init (&c2);
    for (k = 0; k < NW; k++) {
        ct[k] = h_task ();
        hev_task_run (ct[k], crowd_waiter, (void *)(intptr_t)k);
    }
    hev_task_run (h_task (), crowd_driver, NULL);
    hev_task_system_run ();
    MC_CHECK (ended == NW + 1, "run returned before all tasks ended");
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome (clate ? "some timed out" : "all signalled");
}

const struct mc_scen mc_scenarios[] = {
    { "one-waiter", run, MC_BOTH, { 1, 3, 1, 4, 2 } },
    { "two-waiters", run, MC_BOTH, { 2, 2, 1, 4, 2 } },
    { "three-waiters", run, MC_BOTH, { 3, 1, 1, 4, 3 } },
    { "two-waiters-deep", run, MC_THOROUGH, { 2, 2, 1, 6, 3 } },
    { "three-waiters-deep", run, MC_THOROUGH, { 3, 1, 1, 5, 3 } },
    { "two-drivers", run, MC_BOTH, { 2, 1, 2, 2, 3 } },
    { "two-drivers-deep", run, MC_THOROUGH, { 2, 2, 2, 2, 3 } },
    { "four-waiters", run, MC_BOTH, { 4, 1, 1, 3, 2 } },
    { "crowd", crowd, MC_BOTH, { 5 }, .horizon = 100000000 },
    { "crowd-more", crowd, MC_BOTH, { 17 }, .horizon = 100000000 },
    { "crowd-large", crowd, MC_BOTH, { 139 }, .horizon = 100000000 },
    { 0 },
};
