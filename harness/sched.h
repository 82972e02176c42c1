/* Programs of tasks that spawn, yield, wait, wake, join, sleep, exit, restart,
 * reference and release tasks, checked against the state machine of tasks.
 *
 * P0 tasks  P1 operations per start  P2 starts by tasks in all  P3 flags
 * P4 runs of the system  P5 tasks started by main */
#include "h.h"

#define NT P (0)
#define OPS P (1)
#define STARTS P (2)
#define FLAGS P (3)
#define RUNS P (4)
#define FIRST P (5)

#define F_WAIT 1
#define F_SPAWN 2
#define F_EXIT 4
#define F_JOIN 8
#define F_SLEEP 16
#define F_PRIO 32
#define F_REF 64    /* references are part of the program */
#define F_RET 128   /* a task may end at any time */
#define F_READD 256 /* start of a task that is running */
#define F_NOYIELD 512
#define F_NEW 1024 /* tasks may be created by tasks */
#define F_PRIOS 2048 /* tasks have priorities of their own */

enum
{
    S_STOPPED,
    S_READY,
    S_WAITING,
    S_CURRENT,
};

static struct
{
    HevTask *t;
    int alive;   /* the object exists */
    int st;
    int own;     /* references the program may drop */
    int gen;     /* number of starts */
    int entered; /* number of entries */
    int ended;
    int data;
    int sleeping;
    int joins;   /* task + 1 it joins */
    int join_gen;
    int joiner;  /* task + 1 that joins it */
    int jcount;  /* joins in progress */
    uint64_t until;
    int stray; /* joining and woken by someone else: wakes the joined task, waits on */
} m[6];
static int starts_left, cur, started_total, strays;

/* every start has data and an entry of its own */
static char slot[6][4];
static void entry_even (void *data);
static void entry_odd (void *data);

static void *
data_of (int k, int gen)
{
    return &slot[k][gen & 3];
}

static void
on_block (void)
{
    int k, n = 0;
    for (k = 0; k < NT; k++) {
        if (!m[k].alive)
            continue;
        if (m[k].stray && m[k].st == S_READY)
            m[k].st = S_WAITING;
        MC_CHECK (m[k].st != S_READY && m[k].st != S_CURRENT,
                  "the system waits although task %d is ready", k);
        n += m[k].st != S_STOPPED;
    }
    MC_CHECK (n, "the system waits although all tasks have stopped");
}

/* the model cannot know the moment of some wakeups */
static int
may_be_ready (int k)
{
    return m[k].st == S_WAITING && ((m[k].sleeping && vk_now >= m[k].until) ||
                                    (m[k].joiner && strays));
}

static void
check_states (void)
{
    int k;
    for (k = 0; k < NT; k++)
        if (m[k].alive) {
            HevTaskState s = hev_task_get_state (m[k].t), want;
            if (s == HEV_TASK_RUNNING && may_be_ready (k)) {
                m[k].st = S_READY;
                m[k].stray = !!m[k].joins;
            }
            if (s == HEV_TASK_WAITING && m[k].stray && m[k].st == S_READY) {
                m[k].st = S_WAITING;
                m[k].stray = 0;
            }
            want =
                m[k].st == S_STOPPED ? HEV_TASK_STOPPED :
                m[k].st == S_WAITING ? HEV_TASK_WAITING :
                                       HEV_TASK_RUNNING;
            MC_CHECK (s == want, "state of task %d is reported as %d, not %d", k, s, want);
        }
}

/* task i has control again */
static void
resumed (int i)
{
    MC_CHECK (cur < 0, "task %d runs while task %d has not given up control", i, cur);
    MC_CHECK (m[i].alive, "task %d runs after it was freed", i);
    if (may_be_ready (i))
        m[i].st = S_READY;
    MC_CHECK (m[i].st == S_READY, "task %d runs although it %s", i,
              m[i].st == S_WAITING ? "waits and nobody woke it" : "has stopped");
    m[i].st = S_CURRENT;
    cur = i;
    MC_CHECK (hev_task_self () == m[i].t, "hev_task_self is wrong");
    MC_CHECK (hev_task_get_data (m[i].t) == data_of (i, m[i].gen), "task data is wrong");
    check_states ();
}

static void
leave (int i, int st)
{
    m[i].st = st;
    cur = -1;
}

static void
create (int k)
{
    m[k].t = h_task ();
    m[k].alive = 1;
    m[k].own = 1;
    m[k].st = S_STOPPED;
    if (FLAGS & F_PRIOS) {
        static const int pr[] = { HEV_TASK_PRIORITY_DEFAULT, 2, 14 };
        int c = mc_choose (3, "priority");
        mc_ev2 ("task %ld has priority %ld", k, pr[c]);
        hev_task_set_priority (m[k].t, pr[c]);
    }
}

static void
start (int k)
{
    if (!(FLAGS & F_REF)) {
        hev_task_ref (m[k].t);
        m[k].own++;
    }
    m[k].own--;
    m[k].gen++;
    m[k].data = ++started_total;
    MC_CHECK (m[k].st == S_STOPPED, "harness");
    m[k].st = S_READY;
    hev_task_run (m[k].t, m[k].gen & 1 ? entry_odd : entry_even, data_of (k, m[k].gen));
}

static void
gone (int k)
{
    m[k].alive = 0;
#ifndef MC_CONFIG_DEFAULT
    MC_CHECK (!mc_mem_ok (m[k].t, 1), "task %d is not released with its last reference", k);
#endif
}

static void
wake (int k)
{
    if (m[k].st == S_WAITING) {
        m[k].st = S_READY;
        if (m[k].joins)
            m[k].stray = 1, strays++;
    }
    hev_task_wakeup (m[k].t);
}

/* to be called when the task ends, before control leaves it */
static void
ends (int i)
{
    m[i].ended++;
    MC_CHECK (m[i].ended == m[i].gen, "harness");
    if (m[i].joiner) {
        int j = m[i].joiner - 1;
        if (m[j].st == S_WAITING)
            m[j].st = S_READY;
        m[j].stray = 0;
        m[i].joiner = 0;
    }
    leave (i, S_STOPPED);
    if (!m[i].own)
        m[i].alive = 0;
}

/* tasks that join each other in a circle are an error of the program */
static int
cycle (int i, int k)
{
    while (m[k].joins) {
        k = m[k].joins - 1;
        if (k == i)
            return 1;
    }
    return 0;
}

static void
do_join (int i, int k)
{
    int gen = m[k].gen, r, stopped = m[k].st == S_STOPPED, registered = !!m[k].joiner;

    mc_ev2 ("task %ld joins task %ld", i, k);
    m[k].jcount++;
    if (!stopped && !registered) {
        m[k].joiner = i + 1;
        m[i].joins = k + 1;
        m[i].join_gen = gen;
        /* joining wakes the task */
        if (m[k].st == S_WAITING) {
            m[k].st = S_READY;
            if (m[k].joins)
                m[k].stray = 1, strays++;
        }
        leave (i, S_WAITING);
    }
    r = hev_task_join (m[k].t);
    m[k].jcount--;
    mc_evx ("task %ld: join of task %ld returned %ld", i, k, r);
    if (registered && !stopped) {
        MC_CHECK (cur == i, "a second join waited");
        MC_CHECK (r == -1, "a second join returned %d", r);
        mc_outcome ("second join refused");
        return;
    }
    MC_CHECK (r == 0, "join returned %d", r);
    if (stopped) {
        MC_CHECK (cur == i, "join of a stopped task waited");
        mc_outcome ("joined a stopped task");
        return;
    }
    MC_CHECK (m[k].ended >= gen, "join of task %d returned before it ended", k);
    m[i].joins = 0;
    m[i].stray = 0;
    resumed (i);
    mc_outcome ("joined a running task");
}

static void
entry (void *data, int odd)
{
    int i = (int)(((char *)data - slot[0]) / 4), k, left = OPS;

    resumed (i);
    m[i].entered++;
    mc_ev2 ("task %ld starts, start %ld", i, m[i].entered);
    MC_CHECK (data == data_of (i, m[i].gen), "task %d was given wrong data", i);
    MC_CHECK ((m[i].gen & 1) == odd, "task %d was entered at a wrong entry", i);
    MC_CHECK (m[i].entered == m[i].gen, "task %d was entered %d times after %d starts", i,
              m[i].entered, m[i].gen);
    while (left--) {
        int op[64], arg[64], n = 0, c;

        if (!(FLAGS & F_NOYIELD))
            op[n] = 'y', n++;
        if (FLAGS & F_WAIT) {
            op[n++] = 'w';
            for (k = 0; k < NT; k++)
                if (m[k].alive && m[k].st != S_STOPPED &&
                    (m[k].st == S_WAITING || k == i || k == (i + 1) % NT))
                    op[n] = 'u', arg[n++] = k;
        }
        if (FLAGS & F_SPAWN)
            for (k = 0; k < NT; k++)
                if (m[k].alive && m[k].st == S_STOPPED && starts_left &&
                    (m[k].own || !(FLAGS & F_REF)))
                    op[n] = 's', arg[n++] = k;
        if (FLAGS & F_NEW)
            for (k = 0; k < NT; k++)
                if (!m[k].alive && !m[k].gen && !m[k].t) {
                    op[n] = 'n', arg[n++] = k;
                    break;
                }
        if (FLAGS & F_READD)
            for (k = 0; k < NT; k++)
                if (m[k].alive && m[k].st != S_STOPPED)
                    op[n] = 'a', arg[n++] = k;
        if (FLAGS & F_JOIN)
            for (k = 0; k < NT; k++)
                if (k != i && m[k].alive && m[k].own && !cycle (i, k))
                    op[n] = 'j', arg[n++] = k;
        if (FLAGS & F_SLEEP)
            op[n++] = 'z';
        if (FLAGS & F_EXIT)
            op[n++] = 'x';
        if (FLAGS & F_RET)
            op[n++] = 'r';
        if (FLAGS & F_REF)
            for (k = 0; k < NT; k++) {
                if (m[k].alive && m[k].own < 2)
                    op[n] = '+', arg[n++] = k;
                if (m[k].alive && m[k].own && !(m[k].jcount && m[k].own == 1))
                    op[n] = '-', arg[n++] = k;
            }
        if (FLAGS & F_PRIO)
            op[n++] = 'p';
        c = mc_choose (n, "operation");
        k = arg[c];
        switch (op[c]) {
        case 'y':
            mc_ev1 ("task %ld yields", i);
            leave (i, S_READY);
            hev_task_yield (HEV_TASK_YIELD);
            resumed (i);
            break;
        case 'w':
            mc_ev1 ("task %ld waits", i);
            leave (i, S_WAITING);
            hev_task_yield (HEV_TASK_WAITIO);
            resumed (i);
            mc_outcome ("waited and woken");
            break;
        case 'u':
            mc_ev2 ("task %ld wakes task %ld", i, k);
            wake (k);
            break;
        case 's':
            mc_ev2 ("task %ld starts task %ld", i, k);
            starts_left--;
            if (m[k].gen)
                mc_outcome ("restarted");
            start (k);
            break;
        case 'n':
            mc_ev2 ("task %ld creates task %ld", i, k);
            create (k);
            break;
        case 'a':
            mc_ev2 ("task %ld starts running task %ld", i, k);
            hev_task_run (m[k].t, m[k].gen & 1 ? entry_even : entry_odd,
                          data_of (k, m[k].gen + 1));
            break;
        case 'j':
            do_join (i, k);
            break;
        case 'z':
            mc_ev1 ("task %ld sleeps", i);
            m[i].sleeping = 1;
            m[i].until = vk_now + 1000000;
            leave (i, S_WAITING);
            hev_task_sleep (1);
            resumed (i);
            m[i].sleeping = 0;
            break;
        case 'x':
            mc_ev1 ("task %ld calls exit", i);
            ends (i);
            hev_task_exit ();
            mc_fail ("hev_task_exit returned");
        case 'r':
            left = 0;
            break;
        case '+':
            mc_ev2 ("task %ld references task %ld", i, k);
            MC_CHECK (hev_task_ref (m[k].t) == m[k].t, "hev_task_ref");
            m[k].own++;
            break;
        case '-':
            mc_ev2 ("task %ld releases task %ld", i, k);
            m[k].own--;
            hev_task_unref (m[k].t);
            if (!m[k].own && m[k].st == S_STOPPED) {
                gone (k);
                mc_outcome ("released by unref");
            }
            break;
        case 'p': {
            static const int pr[] = { 0, 1, 15, 4 };
            k = mc_choose (4, "priority");
            mc_ev2 ("task %ld sets its priority to %ld", i, pr[k]);
            hev_task_set_priority (m[i].t, pr[k]);
            break;
        }
        }
        check_states ();
    }
    mc_ev1 ("task %ld returns", i);
    ends (i);
}

static void
entry_even (void *data)
{
    entry (data, 0);
}

static void
entry_odd (void *data)
{
    entry (data, 1);
}

static void
idle (void)
{
    int k;
    for (k = 0; k < NT; k++) {
        if (!m[k].alive || m[k].st != S_WAITING)
            continue;
        if (m[k].joins)
            MC_CHECK (m[m[k].joins - 1].ended < m[k].join_gen,
                      "task %d waits for ever in join of task %d, which ended", k,
                      m[k].joins - 1);
        MC_CHECK (!m[k].sleeping, "task %d never wakes from its sleep", k);
    }
    mc_outcome ("ended with waiting tasks");
    mc_done ();
}

static void
run (void)
{
    int k, r;

    memset (m, 0, sizeof (m));
    cur = -1;
    started_total = strays = 0;
    starts_left = STARTS;
    mc_on_idle = idle;
    vk_on_block = on_block;
    h_init ();
    for (k = 0; k < NT; k++)
        if (!(FLAGS & F_NEW) || k < FIRST)
            create (k);
    for (r = 0; r < (RUNS ? RUNS : 1); r++) {
        int n = FIRST ? FIRST : NT;
        for (k = 0; k < n; k++)
            if (m[k].alive && (m[k].own || !(FLAGS & F_REF)) &&
                (r == 0 || mc_choose (2, "start again")))
                start (k);
        check_states ();
        mc_ev ("run");
        hev_task_system_run ();
        mc_ev ("run returned");
        MC_CHECK (cur < 0, "run returned while task %d has control", cur);
        for (k = 0; k < NT; k++) {
            if (!m[k].alive)
                continue;
            MC_CHECK (m[k].st == S_STOPPED, "run returned although task %d has not stopped",
                      k);
        }
        for (k = 0; k < NT; k++)
            MC_CHECK (m[k].entered == m[k].gen && m[k].ended == m[k].gen,
                      "task %d was started %d times, entered %d times, ended %d times", k,
                      m[k].gen, m[k].entered, m[k].ended);
        check_states ();
    }
    for (k = 0; k < NT; k++)
        while (m[k].alive && m[k].own) {
            hev_task_unref (m[k].t);
            if (!--m[k].own)
                gone (k);
        }
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all ended");
}
