/* I04: hev_task_io_splice. P0 0: four descriptors 1: two sockets 2: one socket
 * and two pipe ends, P1 actions of the environment, P2 buffer size (and pipe
 * capacity), P3 1: short transfers, P4 1: a yielder, P5 1: the environment acts
 * also while tasks are ready, P6 1: errors. */
#include "io.h"

const char mc_property[] = "I04";

#define SHARED P (0)
#define ACTS P (1)
#define SIZE P (2)
#define SHORT P (3)
#define YIELDER P (4)
#define ATPOLL P (5)
#define ERRS P (6)

static HevTask *t, *t2;
static int in_e[2], out_e[2];
static int on, stop, yielding, finished, ran, token;

static long
pending (int d)
{
    return ep_consumed (in_e[d]) - ep_produced (out_e[d]);
}

static int
out_dead (int d)
{
    return E[out_e[d]].gone || E[out_e[d]].errs;
}

/* nothing is left to forward in this direction */
static int
ended (int d)
{
    struct vobj *o = vk_obj (E[in_e[d]].fd);
    if (out_dead (d))
        return 1;
    return E[in_e[d]].eof && !pending (d) && (!o->rx->len || E[in_e[d]].errs);
}

static void
may_wait (void)
{
    int d;

    for (d = 0; d < 2; d++) {
        struct vobj *i = vk_obj (E[in_e[d]].fd), *o = vk_obj (E[out_e[d]].fd);
        if (ended (d))
            continue;
        if (pending (d))
            MC_CHECK (!(vk_poll_obj (o) & (POLLOUT | POLLERR | POLLHUP)),
                      "waits although %ld bytes of direction %d could be written", pending (d), d);
        else
            MC_CHECK (!(vk_poll_obj (i) & (POLLIN | POLLERR | POLLHUP)),
                      "waits although direction %d has input", d);
    }
}

static int
over (void)
{
    int a = ended (0), b = ended (1);
    return SHARED ? a || b : a && b;
}

static void
on_block (void)
{
    if (!on)
        return;
    MC_CHECK (!YIELDER || yielding, "waits past the yielder");
    may_wait ();
    /* an output that is gone is only noticed by writing to it */
    if (over ()) {
        int d, silent = 0;
        for (d = 0; d < 2; d++)
            silent |= out_dead (d) && !pending (d) && !E[in_e[d]].eof;
        MC_CHECK (silent, "waits although everything is done");
    }
}

static void
idle (void)
{
    on_block ();
    MC_CHECK (on, "the task waits outside of splice");
    mc_outcome ("waiting for ever");
    mc_done ();
}

static int
yielder (HevTaskYieldType type, void *data)
{
    MC_CHECK (data == &token && hev_task_self () == t, "the yielder got other data");
    MC_CHECK (!stop, "the yielder is called again after it asked to stop");
    MC_CHECK (type == HEV_TASK_WAITIO || type == HEV_TASK_YIELD, "yield type %d", type);
    if (type == HEV_TASK_WAITIO)
        may_wait ();
    yielding = 1;
    if (mc_env (2, "yielder stops")) {
        mc_ev ("the yielder stops");
        stop = 1;
    } else
        hev_task_yield (type);
    yielding = 0;
    return stop;
}

static void
entry (void *data)
{
    int k, fl = mc_fault_left;
    long f = mc_live_fds;

    for (k = 0; k < ne; k++)
        MC_CHECK (hev_task_add_fd (t, E[k].fd,
                                   E[k].kind == 1 ? POLLIN :
                                   E[k].kind == 2 ? POLLOUT :
                                                    POLLIN | POLLOUT) == 0,
                  "add_fd failed");
    on = 1;
    if (mc_fault_left)
        mc_faults_on = 1;
    hev_task_io_splice (E[in_e[0]].fd, E[out_e[1]].fd, E[in_e[1]].fd, E[out_e[0]].fd, SIZE,
                        YIELDER ? yielder : NULL, &token);
    mc_faults_on = 0;
    on = 0;
    mc_ev2 ("splice returned, pending %ld and %ld", pending (0), pending (1));
    MC_CHECK (mc_live_fds == f, "splice left a descriptor open");
    if (stop) {
        mc_outcome ("stopped by the yielder");
    } else if (mc_fault_left < fl) {
        mc_outcome ("failed");
        MC_CHECK (over () || (!ep_consumed (in_e[0]) && !ep_consumed (in_e[1])),
                  "splice took input and failed");
    } else {
        MC_CHECK (over (), "splice returned although a direction is not finished");
        mc_outcome ("done");
        for (k = 0; k < 2; k++)
            if (E[in_e[k]].eof && !out_dead (k) && !pending (k) && ep_consumed (in_e[k]))
                mc_outcome ("a direction was delivered to its end");
    }
    for (k = 0; k < ne; k++) {
        MC_CHECK (vk_is_open (E[k].fd), "splice closed a descriptor of the caller");
        hev_task_del_fd (t, E[k].fd);
    }
    finished = 1;
}

static void
other (void *data)
{
    int k;
    for (k = 0; k < 2; k++) {
        hev_task_yield (HEV_TASK_YIELD);
        ran++;
        if (on && !finished)
            hev_task_wakeup (t);
    }
}

static void
run (void)
{
    int k;

    io_reset ();
    on = stop = yielding = finished = ran = 0;
    acts_left = ACTS;
    errs_on = ERRS;
    resets = 1;
    finale = 1;
    vk_short_io = SHORT;
    vk_env_at_poll = ATPOLL;
    vk_on_block = on_block;
    vk_pipe_cap = SIZE;
    mc_on_idle = idle;
    h_init ();
    switch (SHARED) {
    case 0:
        in_e[0] = ep_new (1, 0);
        out_e[0] = ep_new (2, 2);
        in_e[1] = ep_new (1, 0);
        out_e[1] = ep_new (2, 1);
        break;
    case 1:
        in_e[0] = out_e[1] = ep_new (0, 2);
        in_e[1] = out_e[0] = ep_new (0, 1);
        break;
    case 2:
        in_e[0] = out_e[1] = ep_new (0, 1);
        in_e[1] = ep_new (1, 0);
        out_e[0] = ep_new (2, 2);
        break;
    }
    from_e[out_e[0]] = in_e[0];
    from_e[out_e[1]] = in_e[1];
    t = h_task ();
    hev_task_run (t, entry, NULL);
    t2 = h_task ();
    hev_task_run (t2, other, NULL);
    hev_task_system_run ();
    MC_CHECK (finished && ran == 2, "run returned before the tasks ended");
    for (k = 0; k < 2; k++)
        if (!stop && E[in_e[k]].eof && !out_dead (k) && !E[in_e[k]].errs && ended (k))
            MC_CHECK (vk_obj (E[out_e[k]].fd)->tx->in_total == E[in_e[k]].arrived,
                      "input of direction %d was lost", k);
    io_close_all ();
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- long streams ---- */

#include "bulk.h"

static long
bulk_op (int write, struct iovec *v, int n)
{
    return -1;
}

static void
bulk_forward (void)
{
    may_wait ();
}

static void
bulk_entry (void *data)
{
    static const int sizes[] = { 17, 4096, 65536 };
    int size = sizes[mc_choose (3, "size")], shared = mc_choose (2, "sockets"), k;
    int n = bulk_sizes[mc_choose (6, "bytes")];

    mc_evx ("size %ld, sockets %ld, %ld bytes", size, shared, n);
    L.in_total = n;
    vk_pipe_cap = mc_choose (2, "room of pipes") ? 4096 : 65536;
    if (shared) {
        in_e[0] = out_e[1] = ep_new (0, 1000);
        in_e[1] = out_e[0] = ep_new (0, 70000);
        bulk_open[in_e[1]] = 1;
    } else {
        in_e[0] = ep_new (1, 0);
        out_e[0] = ep_new (2, 70000);
        in_e[1] = ep_new (1, 0);
        out_e[1] = ep_new (2, 1000);
    }
    for (k = 0; k < ne; k++)
        MC_CHECK (hev_task_add_fd (L.t, E[k].fd,
                                   E[k].kind == 1 ? POLLIN :
                                   E[k].kind == 2 ? POLLOUT :
                                                    POLLIN | POLLOUT) == 0,
                  "add_fd failed");
    vk_on_block = bulk_forward;
    hev_task_io_splice (E[in_e[0]].fd, E[out_e[1]].fd, E[in_e[1]].fd, E[out_e[0]].fd, size, NULL,
                        NULL);
    vk_on_block = NULL;
    for (k = 0; k < ne; k++)
        hev_task_del_fd (L.t, E[k].fd);
    for (k = 0; k < 2 - shared; k++)
        MC_CHECK (E[in_e[k]].eof && ep_produced (out_e[k]) == n, "%ld of %d bytes were forwarded",
                  ep_produced (out_e[k]), n);
    L.done = 1;
}

static void
bulk (void)
{
    bulk_start (bulk_entry, 0);
    bulk_end ();
}

const struct mc_scen mc_scenarios[] = {
    { "pipes", run, MC_BOTH, { 0, 6, 2, 0, 0, 0, 0 } },
    { "pipes-size1", run, MC_BOTH, { 0, 6, 1, 0, 0, 0, 0 } },
    { "pipes-errors", run, MC_BOTH, { 0, 5, 3, 0, 0, 0, 1 } },
    { "sockets", run, MC_BOTH, { 1, 7, 2, 0, 0, 0, 0 } },
    { "sockets-errors", run, MC_BOTH, { 1, 6, 3, 0, 0, 0, 1 } },
    { "mixed", run, MC_BOTH, { 2, 6, 2, 0, 0, 0, 1 } },
    { "short", run, MC_BOTH, { 1, 5, 3, 1, 0, 0, 0 }, .env_budget = 3 },
    { "yielder", run, MC_BOTH, { 0, 5, 2, 0, 1, 0, 0 }, .env_budget = 1 },
    { "yielder-sockets", run, MC_BOTH, { 1, 5, 2, 0, 1, 0, 1 }, .env_budget = 1 },
    { "ready", run, MC_BOTH, { 0, 4, 2, 0, 0, 1, 0 }, .env_budget = 2 },
    { "faults", run, MC_BOTH, { 0, 3, 2, 0, 0, 0, 0 }, .fault_budget = 1 },
    { "pipes-deep", run, MC_THOROUGH, { 0, 8, 2, 0, 0, 0, 0 } },
    { "sockets-deep", run, MC_THOROUGH, { 1, 9, 2, 0, 0, 0, 0 } },
    { "ready-deep", run, MC_THOROUGH, { 1, 6, 2, 1, 1, 1, 1 }, .env_budget = 3 },
    { "bulk", bulk, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
