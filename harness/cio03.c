/* O03: hev_task_cio_splice. P0 and P1 the two chains: 0 socket 1 a layer over
 * a socket 2 a buffer over a socket 3 a layer over a buffer over a socket 4 two
 * buffers over a socket 5 a descriptor pair 6 a buffer over one 7 a layer over
 * one 8 null 9 a buffer over null, P2 actions of the environment, P3 buffer
 * size of splice, P4 10 * r + w: sizes of the buffer layers, P5 flags: 1 short
 * transfers 2 a yielder 4 the environment acts also while tasks are ready
 * 8 errors, P6 bytes of input at the start. */
#include "cio.h"

const char mc_property[] = "O03";

#define ACTS P (2)
#define SIZE P (3)
#define RSIZE (P (4) / 10)
#define WSIZE (P (4) % 10)
#define SHORT (P (5) & 1)
#define YIELDER (P (5) & 2)
#define ATPOLL (P (5) & 4)
#define ERRS (P (5) & 8)

static HevTask *t2;
static HevTaskCIO *chain[2];
static int in_e[2], out_e[2]; /* of the direction from chain d to the other */
static int on, stop, yielding, ran, token;

static int
is_null (int d)
{
    return P (d) >= 8;
}

static int
bare (int d)
{
    return P (d) == 0 || P (d) == 5;
}

static long
pending (int d)
{
    if (is_null (d) || is_null (!d))
        return 0;
    return ep_consumed (in_e[d]) - ep_produced (out_e[d]);
}

static int
out_dead (int d)
{
    return !is_null (!d) && (E[out_e[d]].gone || E[out_e[d]].errs);
}

/* nothing is left to forward in this direction */
static int
ended (int d)
{
    struct vobj *o;
    if (is_null (d) || out_dead (d))
        return 1;
    o = vk_obj (E[in_e[d]].fd);
    return E[in_e[d]].eof && !pending (d) && (!o->rx->len || E[in_e[d]].errs);
}

static void
may_wait (void)
{
    int d;

    for (d = 0; d < 2; d++) {
        struct vobj *i, *o;
        if (ended (d))
            continue;
        i = vk_obj (E[in_e[d]].fd);
        if (pending (d)) {
            o = vk_obj (E[out_e[d]].fd);
            MC_CHECK (!(vk_poll_obj (o) & (POLLOUT | POLLERR | POLLHUP)),
                      "waits although %ld bytes of direction %d could be written", pending (d), d);
        } else
            MC_CHECK (!(vk_poll_obj (i) & (POLLIN | POLLERR | POLLHUP)),
                      "waits although direction %d has input", d);
    }
}

static void
on_block (void)
{
    int d, silent = 0, over;
    if (!on)
        return;
    MC_CHECK (!YIELDER || yielding, "waits past the yielder");
    may_wait ();
    over = ended (0) || ended (1);
    if (bare (0) && bare (1) && (P (0) == 5 && P (1) == 5))
        over = ended (0) && ended (1);
    if (!over)
        return;
    /* an output that is gone is only noticed by writing to it */
    for (d = 0; d < 2; d++)
        silent |= out_dead (d) && !E[in_e[d]].eof;
    MC_CHECK (silent, "waits although a side has ended");
}

static void
idle (void)
{
    on_block ();
    MC_CHECK (on, "the task waits outside of splice");
    mc_outcome ("waiting for ever");
    mc_done ();
}

static int
splice_yielder (HevTaskYieldType type, void *data)
{
    MC_CHECK (data == &token && hev_task_self () == t, "the yielder got other data");
    MC_CHECK (!stop, "the yielder is called again after it asked to stop");
    MC_CHECK (type == HEV_TASK_WAITIO || type == HEV_TASK_YIELD, "yield type %d", type);
    if (type == HEV_TASK_WAITIO)
        may_wait ();
    yielding = 1;
    if (mc_env (2, "yielder stops")) {
        mc_ev ("the yielder stops");
        stop = 1;
    } else
        hev_task_yield (type);
    yielding = 0;
    return stop;
}

static HevTaskCIO *
over (HevTaskCIO *top, HevTaskCIO *next)
{
    MC_CHECK (top && hev_task_cio_push (top, next) == top, "push failed");
    return top;
}

static HevTaskCIO *
mk (int d)
{
    int k = P (d);
    HevTaskCIO *c;

    if (k <= 4) {
        int e = ep_new (0, 1 + d);
        in_e[d] = out_e[!d] = e;
        c = HEV_TASK_CIO (hev_task_cio_socket_new (AF_INET, E[e].fd));
    } else if (k <= 7) {
        in_e[d] = ep_new (1, 0);
        out_e[!d] = ep_new (2, 1 + d);
        c = HEV_TASK_CIO (hev_task_cio_fd_new (E[in_e[d]].fd, E[out_e[!d]].fd));
    } else {
        in_e[d] = out_e[!d] = MAXE - 1;
        c = HEV_TASK_CIO (hev_task_cio_null_new ());
    }
    MC_CHECK (c, "no innermost layer");
    if (k == 4)
        c = over (HEV_TASK_CIO (hev_task_cio_buffer_new (WSIZE, RSIZE)), c);
    if (k == 2 || k == 3 || k == 4 || k == 6 || k == 9)
        c = over (HEV_TASK_CIO (hev_task_cio_buffer_new (RSIZE, WSIZE)), c);
    if (k == 1 || k == 3 || k == 7)
        c = over (cio_plain (), c);
    return c;
}

static void
entry (void *data)
{
    int k;
    long f = mc_live_fds;
    long b = mc_live_blocks;

    for (k = 0; k < ne; k++)
        MC_CHECK (hev_task_add_fd (t, E[k].fd,
                                   E[k].kind == 1 ? POLLIN :
                                   E[k].kind == 2 ? POLLOUT :
                                                    POLLIN | POLLOUT) == 0,
                  "add_fd failed");
    on = 1;
    hev_task_cio_splice (chain[0], chain[1], SIZE, YIELDER ? splice_yielder : NULL, &token);
    on = 0;
    mc_ev2 ("splice returned, pending %ld and %ld", pending (0), pending (1));
    MC_CHECK (mc_live_fds == f, "splice left a descriptor open");
    (void)b;
    if (stop) {
        mc_outcome ("stopped by the yielder");
    } else {
        MC_CHECK (ended (0) || ended (1), "splice returned although no side has ended");
        mc_outcome ("done");
        for (k = 0; k < 2; k++)
            if (!is_null (k) && E[in_e[k]].eof && !out_dead (k) && !pending (k) &&
                ep_consumed (in_e[k]))
                mc_outcome ("a direction was delivered to its end");
    }
    for (k = 0; k < ne; k++) {
        MC_CHECK (vk_is_open (E[k].fd), "splice closed a descriptor of the caller");
        hev_task_del_fd (t, E[k].fd);
    }
    finished = 1;
}

static void
other (void *data)
{
    int k;
    for (k = 0; k < 2; k++) {
        hev_task_yield (HEV_TASK_YIELD);
        ran++;
        if (on && !finished)
            hev_task_wakeup (t);
    }
}

static void
run (void)
{
    int k;

    io_reset ();
    on = stop = yielding = finished = ran = 0;
    nplain = 0;
    acts_left = ACTS;
    errs_on = ERRS;
    resets = 1;
    finale = 1;
    vk_short_io = SHORT;
    vk_env_at_poll = ATPOLL;
    vk_on_block = on_block;
    vk_pipe_cap = SIZE;
    mc_on_idle = idle;
    h_init ();
    for (k = 0; k < 2; k++)
        chain[k] = mk (k);
    for (k = 0; k < 2; k++)
        if (!is_null (k) && !is_null (!k))
            from_e[out_e[k]] = in_e[k];
    if (P (6))
        for (k = 0; k < 2; k++)
            if (!is_null (k))
                io_arrive (in_e[k], P (6));
    t = h_task ();
    hev_task_run (t, entry, NULL);
    t2 = h_task ();
    hev_task_run (t2, other, NULL);
    hev_task_system_run ();
    MC_CHECK (finished && ran == 2, "run returned before the tasks ended");
    for (k = 0; k < ne; k++)
        if (!E[k].gone)
            io_take (k, VBUF_MAX);
    for (k = 0; k < 2; k++) {
        HevTaskCIO *c = chain[k];
        while (c && nplain && c == plain[0]) {
            /* a layer of the harness: take it off by hand */
            chain[k] = c = c->next;
        }
        hev_object_unref (HEV_OBJECT (c));
    }
    cio_free_plain ();
    for (k = 0; k < ne; k++)
        MC_CHECK (!vk_is_open (E[k].fd), "a descriptor of a destroyed chain is open");
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- long streams ---- */

#include "bulk.h"

static long
bulk_op (int write, struct iovec *v, int n)
{
    return -1;
}

static void
bulk_forward (void)
{
    may_wait ();
}

static void
bulk_entry (void *data)
{
    static const int sizes[] = { 17, 4096, 65536 }, buffers[] = { 0, 257, 8192 };
    int size = sizes[mc_choose (3, "size")], b[2], k;
    int n = bulk_sizes[mc_choose (6, "bytes")];

    vk_pipe_cap = 65536;
    for (k = 0; k < 2; k++)
        b[k] = buffers[mc_choose (3, "buffer")];
    mc_ev2 ("size %ld, %ld bytes", size, n);
    mc_ev2 ("buffers of %ld and %ld bytes", b[0], b[1]);
    L.in_total = n;
    for (k = 0; k < 2; k++) {
        int e = ep_new (0, k ? 1000 : 70000);
        in_e[k] = out_e[!k] = e;
        chain[k] = HEV_TASK_CIO (hev_task_cio_socket_new (AF_INET, E[e].fd));
        if (b[k])
            chain[k] = over (HEV_TASK_CIO (hev_task_cio_buffer_new (b[k], b[k] / 2)), chain[k]);
        MC_CHECK (hev_task_add_fd (L.t, E[e].fd, POLLIN | POLLOUT) == 0, "add_fd failed");
    }
    bulk_open[in_e[1]] = 1;
    vk_on_block = bulk_forward;
    hev_task_cio_splice (chain[0], chain[1], size, NULL, NULL);
    vk_on_block = NULL;
    MC_CHECK (E[in_e[0]].eof && ep_produced (out_e[0]) == n, "%ld of %d bytes were forwarded",
              ep_produced (out_e[0]), n);
    for (k = 0; k < 2; k++) {
        bulk_take (k, VBUF_BIG);
        hev_object_unref (HEV_OBJECT (chain[k]));
    }
    L.done = 1;
}

static void
bulk (void)
{
    bulk_start (bulk_entry, 0);
    bulk_end ();
}

const struct mc_scen mc_scenarios[] = {
    { "sockets", run, MC_BOTH, { 0, 0, 5, 2, 0, 8 } },
    { "pairs", run, MC_BOTH, { 5, 5, 5, 2, 0, 0 } },
    { "layer", run, MC_BOTH, { 1, 0, 6, 2, 0, 8 } },
    { "layer-second", run, MC_BOTH, { 0, 1, 6, 2, 0, 8 } },
    { "layer-second-pairs", run, MC_BOTH, { 5, 7, 5, 2, 0, 0 } },
    { "layer-size1", run, MC_BOTH, { 1, 0, 6, 1, 0, 0 } },
    { "layer-pairs", run, MC_BOTH, { 7, 5, 5, 3, 0, 0 } },
    { "buffer", run, MC_BOTH, { 2, 0, 6, 2, 22, 0 } },
    { "buffer-errors", run, MC_BOTH, { 2, 0, 5, 3, 23, 8 } },
    { "buffers", run, MC_BOTH, { 2, 2, 5, 1, 33, 8 } },
    { "buffer-pairs", run, MC_BOTH, { 6, 6, 5, 2, 12, 0 } },
    { "write-buffer", run, MC_BOTH, { 0, 2, 6, 2, 3, 0 } },
    { "read-buffer", run, MC_BOTH, { 2, 0, 6, 1, 30, 0 } },
    { "mixed", run, MC_BOTH, { 3, 6, 5, 2, 31, 0 } },
    { "nested", run, MC_BOTH, { 4, 1, 6, 2, 23, 0 } },
    { "nested-both", run, MC_BOTH, { 4, 4, 5, 2, 12, 8 } },
    { "prefilled", run, MC_BOTH, { 2, 2, 4, 2, 33, 0, 5 } },
    { "prefilled-nested", run, MC_BOTH, { 4, 3, 4, 3, 21, 8, 6 } },
    { "null", run, MC_BOTH, { 8, 2, 4, 2, 22, 8, 2 } },
    { "buffered-null", run, MC_BOTH, { 0, 9, 4, 2, 22, 0, 2 } },
    { "short", run, MC_BOTH, { 2, 1, 4, 3, 22, 1, 4 }, .env_budget = 3 },
    { "yielder", run, MC_BOTH, { 2, 0, 5, 2, 22, 2 }, .env_budget = 1 },
    { "yielder-errors", run, MC_BOTH, { 1, 4, 4, 2, 22, 10, 2 }, .env_budget = 1 },
    { "ready", run, MC_BOTH, { 2, 2, 4, 2, 22, 4 }, .env_budget = 2 },
    { "buffers-deep", run, MC_THOROUGH, { 2, 2, 8, 2, 22, 0 } },
    { "nested-deep", run, MC_THOROUGH, { 4, 6, 7, 2, 23, 8 } },
    { "ready-deep", run, MC_THOROUGH, { 2, 4, 6, 2, 22, 7 }, .env_budget = 3 },
    { "bulk", bulk, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
