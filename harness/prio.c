/* T02: fair scheduling. P0 tasks, P1 turns (or operations) each, P2 mode:
 * 0: always ready, all priorities from alphabet P3
 * 1: programs of yield, wait, wake, spawn and priority changes */
#include "h.h"
#include <limits.h>

const char mc_property[] = "T02";

#define NT P (0)
#define TURNS P (1)
#define MODE P (2)
#define ALPH P (3)
#define FLAGS P (4)
#define F_CHANGE 1
#define F_WAIT 2
#define F_SPAWN 4
#define F_SLEEP 8
#define F_OTHER 16 /* priority of other tasks may be changed, too */
#define F_PASS 32  /* time may pass while tasks are ready */

#define LOG 256

static const struct
{
    int n, p[18];
} alph[] = {
    { 18, { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, -1, 99 } },
    { 7, { 0, 1, 2, 3, 7, 8, 15 } },
    { 4, { 1, 2, 5, 15 } },
    { 3, { 0, 1, 3 } },
    { 2, { 1, 4 } },
    { 2, { 1, 15 } },
};

static struct
{
    HevTask *t;
    int st; /* 0 stopped 1 ready 2 waiting 3 current */
    int set;            /* value last set */
    int wlo[LOG], whi[LOG]; /* lowest and highest value for each turn */
    int wait_hi;        /* highest value since the task waits */
    int rhi;            /* highest value that counts for the coming turn */
    int turns, at[6];   /* turns taken; turns of the others when it became ready */
    int tat[6];         /* turns of the others at its last turn */
    long ready_at;      /* sequence number of becoming ready */
    long log_at;        /* length of the log at that moment */
    long last_turn;     /* position of its last turn in the log */
    long since;         /* turn since when it is always ready, -1: is not */
    int sleeping;
    uint64_t until;
} m[6];
static int log_[LOG];
static long nlog, seq;

static int
clamp (int p)
{
    return p < 0 ? 0 : p > 15 ? 15 : p;
}

/* The turn of a task counts with a priority that it had at some time between
 * becoming ready for that turn and the end of the turn. */
static void
window (int i, int t, int p, int start)
{
    if (start || p < m[i].wlo[t])
        m[i].wlo[t] = p;
    if (start || p > m[i].whi[t])
        m[i].whi[t] = p;
}

static int
wlo (int i, int from)
{
    int a = m[i].set;
    for (; from <= m[i].turns; from++)
        if (m[i].wlo[from] < a)
            a = m[i].wlo[from];
    return a;
}

static int
whi (int i, int from)
{
    int a = 0;
    for (; from <= m[i].turns; from++)
        if (m[i].whi[from] > a)
            a = m[i].whi[from];
    return a;
}

static void
set_prio (int i, int p)
{
    hev_task_set_priority (m[i].t, p);
    p = clamp (p);
    MC_CHECK (hev_task_get_priority (m[i].t) == p, "priority %d reads back as %d", p,
              hev_task_get_priority (m[i].t));
    m[i].set = p;
    if (m[i].st == 1)
        window (i, m[i].turns + 1, p, 0);
    else if (m[i].st == 3)
        window (i, m[i].turns, p, 0);
    else if (p > m[i].wait_hi)
        m[i].wait_hi = p;
}

static void
ready (int i)
{
    int j;
    m[i].rhi = m[i].st == 3 ? m[i].whi[m[i].turns] : m[i].wait_hi;
    window (i, m[i].turns + 1, m[i].set, 1);
    m[i].st = 1;
    m[i].ready_at = ++seq;
    m[i].log_at = nlog;
    for (j = 0; j < NT; j++)
        m[i].at[j] = m[j].turns;
}

/* a turn of task i begins */
static void
turn (int i)
{
    int j, last = m[i].last_turn, n = m[i].turns;

    if (m[i].st == 2 && m[i].sleeping) {
        ready (i);
    }
    MC_CHECK (m[i].st == 1, "task %d runs although it is not ready", i);
    for (j = 0; j < NT; j++) {
        long k, since_ready = 0, between = 0;
        int q, bound;
        if (j == i)
            continue;
        /* a ready task of priority 0 goes first */
        if (m[j].st == 1 && m[j].ready_at < m[i].ready_at && m[j].rhi == 0 &&
            !m[i].sleeping)
            mc_fail ("task %d runs before task %d, which has priority 0 and was ready "
                     "first", i, j);
        for (k = m[i].log_at; k < nlog; k++)
            since_ready += log_[k] == j;
        if (last >= 0)
            for (k = last + 1; k < nlog; k++)
                between += log_[k] == j;
        q = wlo (j, m[i].at[j] + 1);
        if (q >= 1) {
            bound = (m[i].rhi + q - 1) / q;
            if (bound < 1)
                bound = 1;
            MC_CHECK (since_ready <= bound,
                      "task %d (priority %d) took %ld turns while task %d (priority %d) was ready",
                      j, m[j].set, since_ready, i, m[i].set);
        }
        /* both were ready all the time since the last turn of i */
        if (last >= 0 && m[i].since >= 0 && m[i].since <= last && m[j].since >= 0 &&
            m[j].since < last && m[j].st != 0) {
            int t = m[i].tat[j], qh = whi (j, t), p = m[i].wlo[n];
            if (qh >= 1)
                MC_CHECK (between >= p / qh - 1,
                          "task %d (priority %d) took only %ld turns between two turns of "
                          "task %d (priority %d)", j, qh, between, i, p);
            if (p == qh && m[i].whi[n] == p && wlo (j, t) == p && p)
                MC_CHECK (between == 1,
                          "task %d took %ld turns between two turns of task %d of the same "
                          "priority", j, between, i);
            mc_outcome ("steady pair compared");
        }
    }
    m[i].st = 3;
    m[i].turns++;
    if (nlog == LOG)
        mc_prune ();
    m[i].last_turn = nlog;
    for (j = 0; j < NT; j++)
        m[i].tat[j] = m[j].turns;
    log_[nlog++] = i;
}

static void
do_yield (int i)
{
    ready (i);
    hev_task_yield (HEV_TASK_YIELD);
    turn (i);
}

static void
always (void *data)
{
    int i = (int)(intptr_t)data, k;

    turn (i);
    m[i].since = nlog - 1;
    for (k = 0; k < TURNS; k++) {
        do_yield (i);
        mc_ev1 ("turn of task %ld", i);
    }
    m[i].st = 0;
    m[i].since = -1;
    mc_done (); /* what follows is without competition */
}

static void
programs (void *data)
{
    int i = (int)(intptr_t)data, k;

    turn (i);
    m[i].since = nlog - 1;
    for (k = 0; k < TURNS; k++) {
        int op[32], arg[32], n = 0, c, j;
        op[n++] = 'y';
        if (FLAGS & F_WAIT) {
            op[n++] = 'w';
            for (j = 0; j < NT; j++)
                if (m[j].st == 2 && !m[j].sleeping)
                    op[n] = 'u', arg[n++] = j;
        }
        if (FLAGS & F_SPAWN)
            for (j = 0; j < NT; j++)
                if (m[j].st == 0 && !m[j].ready_at) {
                    op[n] = 's', arg[n++] = j;
                    break;
                }
        if (FLAGS & F_CHANGE)
            for (j = 0; j < alph[ALPH].n; j++)
                op[n] = 'p', arg[n++] = j;
        if (FLAGS & F_OTHER)
            for (j = 0; j < alph[ALPH].n; j++)
                op[n] = 'o', arg[n++] = j;
        if (FLAGS & F_SLEEP)
            op[n++] = 'z';
        c = mc_choose (n, "operation");
        j = arg[c];
        switch (op[c]) {
        case 'y':
            mc_ev1 ("task %ld yields", i);
            do_yield (i);
            break;
        case 'w':
            mc_ev1 ("task %ld waits", i);
            m[i].st = 2;
            m[i].wait_hi = m[i].set;
            m[i].since = -1;
            hev_task_yield (HEV_TASK_WAITIO);
            turn (i);
            m[i].since = nlog - 1;
            break;
        case 'z':
            mc_ev1 ("task %ld sleeps", i);
            m[i].st = 2;
            m[i].wait_hi = m[i].set;
            m[i].sleeping = 1;
            m[i].until = vk_now + 1000000;
            m[i].since = -1;
            hev_task_sleep (1);
            turn (i);
            m[i].sleeping = 0;
            m[i].since = nlog - 1;
            break;
        case 'u':
            mc_ev2 ("task %ld wakes task %ld", i, j);
            ready (j);
            hev_task_wakeup (m[j].t);
            break;
        case 's':
            mc_ev2 ("task %ld starts task %ld", i, j);
            ready (j);
            hev_task_run (m[j].t, programs, (void *)(intptr_t)j);
            break;
        case 'p':
            mc_ev2 ("task %ld sets its priority to %ld and yields", i, alph[ALPH].p[j]);
            set_prio (i, alph[ALPH].p[j]);
            do_yield (i);
            break;
        case 'o': {
            int o = (i + 1) % NT;
            if (m[o].st == 0)
                break;
            mc_ev2 ("task %ld sets the other priority to %ld", i, alph[ALPH].p[j]);
            set_prio (o, alph[ALPH].p[j]);
            do_yield (i);
            break;
        }
        }
    }
    mc_ev1 ("task %ld ends", i);
    m[i].st = 0;
    m[i].since = -1;
}

/* time passes while tasks are ready: sleepers whose time is over are ready now */
static void
pass (uint64_t ns)
{
    int i;
    for (i = 0; i < NT; i++)
        if (m[i].st == 2 && m[i].sleeping && m[i].until <= vk_now + ns) {
            ready (i);
            mc_outcome ("a sleeper competes");
        }
}

static void
idle (void)
{
    int i;
    for (i = 0; i < NT; i++)
        MC_CHECK (m[i].st == 0 || m[i].st == 2, "task %d is ready but never runs", i);
    mc_done ();
}

static void
run (void)
{
    int k, n;

    memset (m, 0, sizeof (m));
    nlog = seq = 0;
    mc_on_idle = idle;
    vk_env_at_poll = MODE && (FLAGS & F_PASS);
    if (vk_env_at_poll)
        vk_on_pass = pass;
    h_init ();
    for (k = 0; k < NT; k++) {
        int p = HEV_TASK_PRIORITY_DEFAULT;
        m[k].t = hev_task_ref (h_task ());
        MC_CHECK (hev_task_get_priority (m[k].t) == HEV_TASK_PRIORITY_DEFAULT, "default priority");
        if (MODE == 0 || !(FLAGS & F_CHANGE))
            p = alph[ALPH].p[mc_choose (alph[ALPH].n, "priority")];
        mc_ev2 ("priority of task %ld: %ld", k, p);
        m[k].last_turn = -1;
        m[k].since = -1;
        m[k].set = HEV_TASK_PRIORITY_DEFAULT;
        set_prio (k, p);
        m[k].wait_hi = m[k].set;
    }
    n = MODE && (FLAGS & F_SPAWN) ? 1 : NT;
    for (k = 0; k < n; k++) {
        ready (k);
        hev_task_run (m[k].t, MODE ? programs : always, (void *)(intptr_t)k);
    }
    hev_task_system_run ();
    for (k = 0; k < NT; k++)
        MC_CHECK (m[k].st == 0, "run returned although task %d has not ended", k);
    for (k = 0; k < NT; k++) {
        if (!m[k].ready_at)
            hev_task_unref (m[k].t);
        hev_task_unref (m[k].t);
    }
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- many turns, many tasks: P0 kinds of priorities, P1 turns in all, P2 tasks ---- */

#define MANY 150

static struct
{
    HevTask *t;
    int prio;
    int turns;
    int snap[MANY]; /* turns of the others at its last turn */
} l[MANY];
static long lturns;
static int lsame;

static void
long_turn (int i)
{
    int j;

    for (j = 0; j < P (2) && l[i].turns; j++) {
        int between = l[j].turns - l[i].snap[j], p = l[i].prio, q = l[j].prio, bound;
        if (j == i || q == 0)
            continue;
        bound = (p + q - 1) / q;
        if (bound < 1)
            bound = 1;
        MC_CHECK (between <= bound,
                  "task %d (priority %d) took %d turns between two turns of task %d "
                  "(priority %d)", j, q, between, i, p);
        MC_CHECK (between >= p / q - 1 && (p != q || between == 1),
                  "task %d (priority %d) took only %d turns between two turns of task %d "
                  "(priority %d)", j, q, between, i, p);
    }
    if (l[i].turns == 0 && lsame) /* in the order of their starts */
        for (j = 0; j < P (2); j++)
            MC_CHECK (l[j].turns == (j < i), "task %d has its first turn out of order", i);
    l[i].turns++;
    for (j = 0; j < P (2); j++)
        l[i].snap[j] = l[j].turns;
    if (++lturns == P (1)) {
        mc_outcome ("all turns");
        mc_done (); /* what follows is without competition */
    }
}

static void
long_entry (void *data)
{
    for (;;) {
        long_turn ((int)(intptr_t)data);
        hev_task_yield (HEV_TASK_YIELD);
    }
}

static void
run_long (void)
{
    int k, a = 0, b = 0, c = 1;

    memset (l, 0, sizeof (l[0]) * P (2));
    lturns = 0;
    if (P (2) > 3)
        c = 2 + mc_choose (4, "every n-th");
    a = mc_choose (P (0), "priority");
    b = mc_choose (P (0), "other priority");
    if (P (0) < 16) {
        static const int pr[] = { 1, 2, 3, 5, 8, 13, 15, 0 };
        a = pr[a];
        b = pr[b];
    }
    mc_evx ("priorities %ld and %ld, every %ld", a, b, c);
    lsame = a == b;
    h_init ();
    for (k = 0; k < P (2); k++) {
        l[k].t = h_task ();
        l[k].prio = P (2) <= 3 ? (k == 0 ? a : b) : (k % c == c - 1 ? b : a);
        hev_task_set_priority (l[k].t, l[k].prio);
        hev_task_run (l[k].t, long_entry, (void *)(intptr_t)k);
    }
    hev_task_system_run ();
    mc_fail ("run returned although the tasks go on");
}

/* ---- every priority is read back, limited to the documented range ---- */

static void
run_range (void)
{
    static const int pr[] = { 127,   128,   129,   143,   200,   255,    256,     257,     270,
                              271,   511,   512,   32767, 32768, 32783,  65535,   65536,   65543,
                              65551, 1 << 24, INT_MAX, INT_MIN, INT_MIN + 7, -2, -15, -16, -127,
                              -128,  -129,  -200,  -255,  -256,  -249,   -65536,  -65529,  16, 17 };
    HevTask *t;
    int p, k = mc_choose (sizeof (pr) / sizeof (pr[0]) + 16, "priority"), again;

    p = k < 16 ? k : pr[k - 16];
    again = mc_choose (sizeof (pr) / sizeof (pr[0]), "next priority");
    mc_ev2 ("priority %ld, then %ld", p, pr[again]);
    h_init ();
    t = h_task ();
    hev_task_set_priority (t, p);
    MC_CHECK (hev_task_get_priority (t) == clamp (p), "priority %d reads back as %d", p,
              hev_task_get_priority (t));
    hev_task_set_priority (t, pr[again]);
    MC_CHECK (hev_task_get_priority (t) == clamp (pr[again]), "priority %d reads back as %d",
              pr[again], hev_task_get_priority (t));
    mc_outcome (p < 0 ? "below" : p > 15 ? "above" : "inside");
    hev_task_unref (t);
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- a scheduling clock is configured: running time counts instead of turns. P0
 * tasks, P1 turns in all, P2 priority alphabet, P3 kinds of turns ---- */

#ifdef MC_CONFIG_CLOCK
static struct
{
    int prio, turns;
    uint64_t service; /* running time times priority, in ns */
} s[6];
static int sturns;

static void
clock_entry (void *data)
{
    static const uint64_t busy[] = { 100000, 0, 350000, 2000000000ull, 999999999ull,
                                     5000000000ull };
    int i = (int)(intptr_t)data, j;

    for (;;) {
        uint64_t ns;
        for (j = 0; j < P (0); j++)
            MC_CHECK (s[i].service <= s[j].service + 16000 * (s[i].turns + s[j].turns + 2),
                      "task %d of priority %d runs although task %d of priority %d had less of its "
                      "share of the time", i, s[i].prio, j, s[j].prio);
        s[i].turns++;
        if (++sturns == P (1)) {
            mc_outcome ("all turns");
            mc_done ();
        }
        ns = busy[mc_choose (P (3), "length of the turn")];
        mc_ev2 ("task %ld runs for %ld us", i, ns / 1000);
        vk_advance (ns);
        s[i].service += ns * s[i].prio;
        hev_task_yield (HEV_TASK_YIELD);
    }
}

static void
run_clock (void)
{
    int k;

    memset (s, 0, sizeof (s));
    sturns = 0;
    vk_now += mc_choose (2, "start") ? 999950000ull : 0;
    h_init ();
    for (k = 0; k < P (0); k++) {
        HevTask *t = h_task ();
        s[k].prio = alph[P (2)].p[mc_choose (alph[P (2)].n, "priority")];
        mc_ev2 ("priority of task %ld: %ld", k, s[k].prio);
        hev_task_set_priority (t, s[k].prio);
        hev_task_run (t, clock_entry, (void *)(intptr_t)k);
    }
    hev_task_system_run ();
    mc_fail ("run returned although the tasks go on");
}
#endif

const struct mc_scen mc_scenarios[] = {
#ifdef MC_CONFIG_CLOCK
    { "clock-two", run_clock, MC_BOTH, { 2, 9, 2, 3 } },
    { "clock-three", run_clock, MC_BOTH, { 3, 8, 2, 3 } },
    { "clock-long", run_clock, MC_BOTH, { 3, 7, 4, 6 } },
    { "clock-deep", run_clock, MC_THOROUGH, { 3, 9, 2, 4 } },
    { "clock-ready", run, MC_BOTH, { 3, 20, 0, 1 } },
    { "clock-wait", run, MC_BOTH, { 3, 3, 1, 2, F_WAIT } },
    { "clock-change", run, MC_BOTH, { 2, 4, 1, 2, F_CHANGE } },
    { "clock-spawn", run, MC_BOTH, { 3, 3, 1, 3, F_SPAWN | F_WAIT } },
    { "clock-late", run, MC_BOTH, { 2, 3, 1, 5, F_SLEEP }, .env_budget = 1 },
#else
    { "two-ready", run, MC_BOTH, { 2, 60, 0, 0 } },
    { "three-ready", run, MC_BOTH, { 3, 40, 0, 0 } },
    { "four-ready", run, MC_BOTH, { 4, 30, 0, 1 } },
    { "five-ready", run, MC_BOTH, { 5, 20, 0, 2 } },
    { "change", run, MC_BOTH, { 2, 4, 1, 2, F_CHANGE } },
    { "change-two", run, MC_BOTH, { 2, 6, 1, 4, F_CHANGE } },
    { "change-low", run, MC_BOTH, { 3, 3, 1, 3, F_CHANGE } },
    { "other", run, MC_BOTH, { 2, 4, 1, 4, F_CHANGE | F_OTHER } },
    { "wait", run, MC_BOTH, { 3, 4, 1, 3, F_WAIT } },
    { "wait-high", run, MC_BOTH, { 3, 4, 1, 2, F_WAIT } },
    { "wait-change", run, MC_BOTH, { 2, 4, 1, 2, F_WAIT | F_CHANGE } },
    { "wait-other", run, MC_BOTH, { 2, 5, 1, 4, F_WAIT | F_OTHER } },
    { "wait-other-low", run, MC_THOROUGH, { 3, 3, 1, 3, F_WAIT | F_OTHER } },
    { "spawn", run, MC_BOTH, { 3, 5, 1, 1, F_SPAWN } },
    { "spawn-wait", run, MC_BOTH, { 3, 4, 1, 3, F_SPAWN | F_WAIT } },
    { "sleep", run, MC_BOTH, { 3, 3, 1, 2, F_SLEEP | F_WAIT } },
    { "late", run, MC_BOTH, { 2, 4, 1, 5, F_SLEEP | F_PASS }, .env_budget = 1 },
    { "late-wait", run, MC_BOTH, { 3, 3, 1, 5, F_SLEEP | F_WAIT | F_PASS }, .env_budget = 1 },
    { "late-three", run, MC_BOTH, { 3, 4, 1, 4, F_SLEEP | F_PASS }, .env_budget = 1 },
    { "late-deep", run, MC_THOROUGH, { 3, 4, 1, 2, F_SLEEP | F_WAIT | F_PASS }, .env_budget = 2 },
    { "range", run_range, MC_BOTH, { 0 } },
    { "four-ready-deep", run, MC_THOROUGH, { 4, 40, 0, 0 } },
    { "change-deep", run, MC_THOROUGH, { 2, 5, 1, 2, F_CHANGE } },
    { "change-three", run, MC_THOROUGH, { 3, 4, 1, 3, F_CHANGE } },
    { "wait-deep", run, MC_THOROUGH, { 3, 5, 1, 3, F_WAIT } },
    { "spawn-deep", run, MC_THOROUGH, { 4, 3, 1, 2, F_SPAWN | F_WAIT } },
    { "long", run_long, MC_BOTH, { 16, 20000, 2 }, .horizon = 100000000 },
    { "long-three", run_long, MC_BOTH, { 16, 5000, 3 }, .horizon = 100000000 },
    { "crowd", run_long, MC_BOTH, { 8, 3000, 41 }, .horizon = 100000000 },
    { "crowd-large", run_long, MC_BOTH, { 7, 6000, 139 }, .horizon = 100000000 },
    { "long-deep", run_long, MC_THOROUGH, { 16, 1000000, 2 }, .horizon = 1000000000 },
#endif
    { 0 },
};
