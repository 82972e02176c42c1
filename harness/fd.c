/* T08: tasks waiting for descriptors. P0 tasks with P1 operations, P2
 * descriptors of kind P3 (0 streams, 1 pipe ends, 2 datagram), P4 environment
 * actions, P5 1: the environment also acts while tasks are ready, P6 turns of
 * a task that never waits, P7 1: tasks also sleep. */
#include "h.h"

ssize_t vk_read (int fd, void *p, size_t n);
ssize_t vk_write (int fd, const void *p, size_t n);
ssize_t vk_recv (int fd, void *p, size_t n, int flags);
ssize_t vk_send (int fd, const void *p, size_t n, int flags);

const char mc_property[] = "T08";

#define NT P (0)
#define OPS P (1)
#define NF P (2)
#define KIND P (3)
#define EVS P (4)
#define ATPOLL P (5)
#define BUSY P (6)
#define SLEEP P (7)
#define MAXT 4
#define MAXF 4
#define LATENCY 64

static HevTask *t[MAXT], *busy_task;
static int fd[MAXF], isopen[MAXF];
static int reg[MAXF];  /* task registered, -1 none */
static int mask[MAXF]; /* requested conditions */
/* must: the task has to be resumed; may: it can be */
static int must[MAXT][MAXF], may[MAXT][MAXF], woken[MAXT];
static int waiting[MAXT], done[MAXT], evs, late[MAXT];

static int
holds (int f)
{
    return isopen[f] ? vk_poll_obj (vk_obj (fd[f])) : 0;
}

/* condition of the descriptor changed from `before' */
static void
changed (int f, int before, int edge)
{
    int now = holds (f), i = reg[f];

    if (i < 0)
        return;
    if (now & edge & (mask[f] | POLLERR | POLLHUP)) {
        may[i][f] = 1;
        if (waiting[i]) /* others drain before they wait */
            must[i][f] = 1;
    }
    if (now & (mask[f] | POLLERR | POLLHUP))
        may[i][f] = 1;
    (void)before;
}

static int
must_any (int i)
{
    int f;
    for (f = 0; f < NF; f++)
        if (must[i][f])
            return 1;
    return woken[i];
}

static void
on_block (void)
{
    int i;
    for (i = 0; i < NT; i++)
        MC_CHECK (!waiting[i] || !must_any (i),
                  "everything waits although a condition task %d asked for arose", i);
}

static int act_op[32], act_fd[32], nact;
static int
env_count (void)
{
    int f;
    nact = 0;
    if (evs >= EVS)
        return 0;
    for (f = 0; f < NF; f++) {
        struct vobj *o = vk_obj (fd[f]);
        if (!isopen[f])
            continue;
        if (o->type == VO_DGRAM) {
            if (o->nmsg < 2)
                act_op[nact] = 5, act_fd[nact++] = f;
            if (o->nout)
                act_op[nact] = 6, act_fd[nact++] = f;
            continue;
        }
        if (o->rx && !o->rx->weof) {
            act_op[nact] = 0, act_fd[nact++] = f;
            act_op[nact] = 1, act_fd[nact++] = f;
        }
        if (o->tx && o->tx->len)
            act_op[nact] = 2, act_fd[nact++] = f;
        if (o->tx && !o->tx->rgone)
            act_op[nact] = 3, act_fd[nact++] = f;
        if (!o->err && o->type == VO_STREAM)
            act_op[nact] = 4, act_fd[nact++] = f;
    }
    return nact;
}

static void
env_do (int k)
{
    int f = act_fd[k], b = holds (f);
    char c[8];
    struct vobj *o = vk_obj (fd[f]);

    evs++;
    switch (act_op[k]) {
    case 0:
        mc_ev1 ("a byte arrives at descriptor %ld", f);
        vk_remote_send (fd[f], "x", 1);
        changed (f, b, POLLIN);
        break;
    case 1:
        mc_ev1 ("end of input at descriptor %ld", f);
        vk_remote_eof (fd[f]);
        changed (f, b, POLLIN | POLLHUP);
        break;
    case 2:
        mc_ev1 ("output of descriptor %ld is taken", f);
        vk_remote_take (fd[f], c, 8);
        changed (f, b, b & POLLOUT ? 0 : POLLOUT);
        break;
    case 3:
        mc_ev1 ("nobody takes output of descriptor %ld any more", f);
        vk_remote_gone (fd[f]);
        changed (f, b, POLLOUT | POLLERR | POLLHUP);
        break;
    case 4:
        mc_ev1 ("error at descriptor %ld", f);
        vk_remote_err (fd[f], ECONNRESET);
        changed (f, b, POLLIN | POLLOUT | POLLERR);
        break;
    case 5:
        mc_ev1 ("a datagram arrives at descriptor %ld", f);
        vk_remote_msg (fd[f], "xy", 2, "a", 1);
        changed (f, b, POLLIN);
        break;
    case 6:
        mc_ev1 ("datagrams of descriptor %ld are sent", f);
        o->nout = 0;
        vk_wake (o, EPOLLOUT);
        changed (f, b, b & POLLOUT ? 0 : POLLOUT);
        break;
    }
}

static void
drain (int i)
{
    char b[16];
    int f, k;

    for (f = 0; f < NF; f++) {
        struct vobj *o;
        if (reg[f] != i)
            continue;
        o = vk_obj (fd[f]);
        for (k = 0; k < 20 && (mask[f] & POLLIN); k++)
            if ((o->type == VO_DGRAM ? vk_recv (fd[f], b, 16, 0) : vk_read (fd[f], b, 16)) <= 0)
                break;
        for (k = 0; k < 20 && (mask[f] & POLLOUT); k++)
            if ((o->type == VO_DGRAM ? vk_send (fd[f], "z", 1, 0) : vk_write (fd[f], "z", 1)) <= 0)
                break;
        must[i][f] = 0;
    }
}

static void
turn (int i)
{
    int k;
    for (k = 0; k < NT; k++) {
        if (k == i || !waiting[k] || !must_any (k)) {
            late[k] = 0;
            continue;
        }
        MC_CHECK (++late[k] < LATENCY,
                  "task %d is not resumed while other tasks keep running", k);
    }
}

static void
resumed (int i, int waited)
{
    int f, just = woken[i];

    turn (i);
    for (f = 0; f < NF; f++) {
        just |= !!may[i][f];
        must[i][f] = 0;
        /* a registration by another task may be reported later */
        if (waited)
            may[i][f] = may[i][f] == 2;
    }
    if (!waited)
        return;
    MC_CHECK (just, "task %d was resumed for nothing", i);
    mc_outcome (woken[i] ? "woken by a task" : "resumed by a descriptor");
    woken[i] = 0;
}

static void
wait (int i)
{
    waiting[i] = 1;
    late[i] = 0;
    hev_task_yield (HEV_TASK_WAITIO);
    waiting[i] = 0;
    mc_ev1 ("task %ld resumes", i);
    resumed (i, 1);
}

static void
doze (int i)
{
    uint64_t end = vk_now + 1000000;

    waiting[i] = 1;
    late[i] = 0;
    hev_task_sleep (1);
    waiting[i] = 0;
    mc_ev1 ("task %ld resumes", i);
    if (vk_now >= end) {
        mc_outcome (must_any (i) ? "descriptor and time" : "the time passed");
        woken[i] = 1;
    }
    resumed (i, 1);
}

static const int masks[] = { POLLIN, POLLOUT, POLLIN | POLLOUT, 0 };

static void
forget (int f)
{
    if (reg[f] >= 0)
        must[reg[f]][f] = 0;
    reg[f] = -1;
}

static void
entry (void *data)
{
    int i = (int)(intptr_t)data, k, f, j, m, r;

    for (k = 0; k < OPS; k++) {
        int op[64], af[64], at[64], am[64], n = 0, c;
        op[n] = 0, n++;
        op[n] = 1, n++;
        op[n] = 2, n++;
        for (f = 0; f < NF; f++)
            for (m = 0; m < 4; m++) {
                if (!isopen[f])
                    continue;
                if (KIND && m == 3)
                    continue;
                if (reg[f] < 0) {
                    op[n] = 3, af[n] = f, at[n] = i, am[n++] = m;
                    if (!m && NT > 1 && !done[(i + 1) % NT])
                        op[n] = 3, af[n] = f, at[n] = (i + 1) % NT, am[n++] = m;
                } else {
                    if (!m) /* fails */
                        op[n] = 3, af[n] = f, at[n] = i, am[n++] = m;
                    op[n] = 4, af[n] = f, at[n] = i, am[n++] = m;
                    if (!m && NT > 1 && !done[(i + 1) % NT])
                        op[n] = 4, af[n] = f, at[n] = (i + 1) % NT, am[n++] = m;
                }
            }
        for (f = 0; f < NF; f++)
            if (isopen[f])
                op[n] = 5, af[n++] = f;
        if (NT > 1 && waiting[(i + 1) % NT])
            op[n++] = 6;
        for (f = 0; f < NF; f++)
            if (isopen[f] && reg[f] == i)
                op[n] = 7, af[n++] = f;
        if (k == 0)
            op[n++] = 8;
        if (SLEEP)
            op[n++] = 9;
        c = mc_choose (n, "operation");
        f = af[c];
        switch (op[c]) {
        case 0:
            mc_ev1 ("task %ld drains and waits", i);
            drain (i);
            wait (i);
            break;
        case 1:
            mc_ev1 ("task %ld waits", i);
            wait (i);
            break;
        case 2:
            mc_ev1 ("task %ld yields", i);
            hev_task_yield (HEV_TASK_YIELD);
            resumed (i, 0);
            break;
        case 3:
            j = at[c];
            m = masks[am[c]];
            r = hev_task_add_fd (t[j], fd[f], m);
            mc_evx ("task %ld: descriptor %ld, conditions %ld", i, f, m);
            mc_ev2 ("  added for task %ld: %ld", j, r);
            if (reg[f] >= 0) {
                MC_CHECK (r == -1, "a second add of a descriptor returned %d", r);
                break;
            }
            MC_CHECK (r == 0, "adding a descriptor returned %d", r);
            reg[f] = j;
            mask[f] = m;
            if (holds (f) & (m | POLLERR | POLLHUP))
                must[j][f] = j == i || waiting[j], may[j][f] = j == i ? 1 : 2;
            break;
        case 4:
            j = at[c];
            m = masks[am[c]];
            r = hev_task_mod_fd (t[j], fd[f], m);
            mc_evx ("task %ld: descriptor %ld modified to conditions %ld", i, f, m);
            mc_ev1 ("  for task %ld", j);
            MC_CHECK (r == 0, "modifying a descriptor returned %d", r);
            /* the modification also moves it to the named task */
            must[reg[f]][f] = 0;
            reg[f] = j;
            mask[f] = m;
            must[j][f] = 0;
            if (holds (f) & (m | POLLERR | POLLHUP))
                must[j][f] = j == i || waiting[j], may[j][f] = j == i ? 1 : 2;
            break;
        case 5:
            r = hev_task_del_fd (t[i], fd[f]);
            mc_evx ("task %ld: descriptor %ld deleted: %ld", i, f, r);
            MC_CHECK (r == (reg[f] < 0 ? -1 : 0), "deleting a descriptor returned %d", r);
            /* readiness reported before stays reported */
            forget (f);
            break;
        case 6:
            j = (i + 1) % NT;
            mc_ev2 ("task %ld wakes task %ld", i, j);
            woken[j] = 1;
            hev_task_wakeup (t[j]);
            break;
        case 7:
            mc_ev2 ("task %ld closes descriptor %ld", i, f);
            vk_close_user (fd[f]);
            isopen[f] = 0;
            forget (f);
            break;
        case 8:
            r = hev_task_mod_fd (t[i], 150, POLLIN);
            MC_CHECK (r == -1, "modifying an unknown descriptor returned %d", r);
            r = hev_task_add_fd (t[i], 150, POLLIN);
            MC_CHECK (r == -1, "adding a closed descriptor returned %d", r);
            r = hev_task_del_fd (t[i], 150);
            MC_CHECK (r == -1, "deleting an unknown descriptor returned %d", r);
            break;
        case 9:
            mc_ev1 ("task %ld drains and sleeps", i);
            drain (i);
            doze (i);
            break;
        }
    }
    for (f = 0; f < NF; f++)
        if (reg[f] == i) {
            MC_CHECK (hev_task_del_fd (t[i], fd[f]) == 0, "deleting a descriptor failed");
            forget (f);
        }
    mc_ev1 ("task %ld ends", i);
    done[i] = 1;
}

static void
busy (void *data)
{
    int k;
    for (k = 0; k < BUSY; k++) {
        hev_task_yield (HEV_TASK_YIELD);
        turn (MAXT);
    }
}

static void
idle (void)
{
    on_block ();
    mc_outcome ("tasks wait for ever");
    mc_done ();
}

static void
run (void)
{
    int k;

    memset (must, 0, sizeof (must));
    memset (may, 0, sizeof (may));
    memset (woken, 0, sizeof (woken));
    memset (waiting, 0, sizeof (waiting));
    memset (done, 0, sizeof (done));
    memset (late, 0, sizeof (late));
    evs = 0;
    vk_env_count = env_count;
    vk_env_do = env_do;
    vk_env_at_poll = ATPOLL;
    vk_on_block = on_block;
    mc_on_idle = idle;
    h_init ();
    for (k = 0; k < NF; k++) {
        fd[k] = KIND == 0 ? vk_mk_stream (2) :
                KIND == 2 ? vk_mk_dgram (2) :
                k % 2     ? vk_mk_writer (2) :
                            vk_mk_reader ();
        isopen[k] = 1;
        reg[k] = -1;
    }
    for (k = 0; k < NT; k++)
        t[k] = h_task ();
    for (k = 0; k < NT; k++)
        hev_task_run (t[k], entry, (void *)(intptr_t)k);
    if (BUSY) {
        busy_task = h_task ();
        hev_task_run (busy_task, busy, NULL);
    }
    hev_task_system_run ();
    for (k = 0; k < NT; k++)
        MC_CHECK (done[k], "run returned before task %d ended", k);
    for (k = 0; k < NF; k++)
        if (isopen[k])
            vk_close_user (fd[k]);
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- a crowd of P0 descriptors, each with data for P1 tasks ---- */

#define CROWD 2200

static int cfd[CROWD], cgot[CROWD], csent[CROWD], crounds, corder, cpart, cnt;
static HevTask *ct[CROWD];

static int
crowd_count (void)
{
    return crounds > 0;
}

static void
crowd_do (int a)
{
    int k;

    crounds--;
    for (k = 0; k < P (0); k += cpart) {
        int f = (k + crounds) * corder % P (0);
        vk_remote_send (cfd[f], "x", 1);
        csent[f]++;
    }
}

static void
crowd_block (void)
{
    int f;

    for (f = 0; f < P (0); f++)
        MC_CHECK (cgot[f] == csent[f],
                  "everything waits although descriptor %d of task %d has data", f, f % cnt);
}

static void
crowd_task (void *data)
{
    int i = (int)(intptr_t)data, f;
    unsigned char b;

    for (f = i; f < P (0); f += cnt)
        MC_CHECK (hev_task_add_fd (ct[i], cfd[f], POLLIN) == 0, "adding a descriptor failed");
    for (;;) {
        int any = 0;
        for (f = i; f < P (0); f += cnt)
            while (vk_read (cfd[f], &b, 1) == 1)
                cgot[f]++;
        if (crounds == 0)
            break;
        hev_task_yield (HEV_TASK_WAITIO);
        for (f = i; f < P (0); f += cnt)
            any |= cgot[f] != csent[f];
        MC_CHECK (any, "task %d runs although none of its descriptors is ready", i);
    }
    for (f = i; f < P (0); f += cnt)
        MC_CHECK (hev_task_del_fd (ct[i], cfd[f]) == 0, "deleting a descriptor failed");
}

static void
crowd_idle (void)
{
    crowd_block ();
    mc_outcome ("tasks without further data wait");
    mc_done ();
}

static void
crowd (void)
{
    static const int orders[] = { 1, 3, 7 };
    int k;

    memset (cgot, 0, sizeof (cgot));
    memset (csent, 0, sizeof (csent));
    k = mc_choose (4, "number of tasks");
    cnt = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 16 : P (0);
    corder = orders[mc_choose (3, "order of arrivals")];
    cpart = 1 + mc_choose (3, "part of the descriptors");
    crounds = 3;
    mc_evx ("%ld tasks, order %ld, every %ld", cnt, corder, cpart);
    vk_env_count = crowd_count;
    vk_env_do = crowd_do;
    vk_on_block = crowd_block;
    mc_on_idle = crowd_idle;
    h_init ();
    for (k = 0; k < P (0); k++)
        cfd[k] = vk_mk_reader ();
    for (k = 0; k < cnt; k++) {
        ct[k] = h_task ();
        hev_task_run (ct[k], crowd_task, (void *)(intptr_t)k);
    }
    hev_task_system_run ();
    for (k = 0; k < P (0); k++) {
        MC_CHECK (cgot[k] == csent[k], "run returned although descriptor %d has data", k);
        vk_close_user (cfd[k]);
    }
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all received");
}

const struct mc_scen mc_scenarios[] = {
    { "one-stream", run, MC_BOTH, { 1, 4, 1, 0, 3 } },
    { "one-dgram", run, MC_BOTH, { 1, 4, 1, 2, 3 } },
    { "one-pipes", run, MC_BOTH, { 1, 4, 2, 1, 2 } },
    { "two-stream", run, MC_BOTH, { 2, 3, 1, 0, 2 } },
    { "two-streams", run, MC_BOTH, { 2, 2, 2, 0, 2 } },
    { "two-ready", run, MC_BOTH, { 2, 3, 1, 0, 2, 1 }, .env_budget = 2 },
    { "busy", run, MC_BOTH, { 1, 3, 1, 0, 1, 1, 100 }, .env_budget = 1 },
    { "sleepers", run, MC_BOTH, { 2, 2, 1, 0, 2, 2, 0, 1 }, .env_budget = 2 },
    { "sleepers-more", run, MC_BOTH, { 2, 2, 2, 1, 2, 2, 0, 1 }, .env_budget = 2 },
    { "sleepers-deep", run, MC_THOROUGH, { 3, 2, 1, 1, 2, 2, 0, 1 }, .env_budget = 2 },
    { "one-deep", run, MC_THOROUGH, { 1, 5, 1, 0, 4 } },
    { "two-deep", run, MC_THOROUGH, { 2, 3, 2, 0, 2 } },
    { "two-pipes-deep", run, MC_THOROUGH, { 2, 3, 2, 1, 2 } },
    { "three-deep", run, MC_THOROUGH, { 3, 2, 1, 0, 3 } },
    { "crowd", crowd, MC_BOTH, { 17 }, .horizon = 100000000 },
    { "crowd-more", crowd, MC_BOTH, { 139 }, .horizon = 100000000 },
    { "crowd-large", crowd, MC_BOTH, { 1031 }, .horizon = 100000000 },
    { "crowd-huge", crowd, MC_BOTH, { 2099 }, .horizon = 100000000 },
    { 0 },
};
