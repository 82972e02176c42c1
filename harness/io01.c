/* I01: read, readv, write, writev and the helpers that make descriptors. P0
 * tasks with P1 operations on a descriptor of kind P2 each, P3 actions of the
 * environment, P4 1: transfers may be short, P5 1: the environment acts also
 * while tasks are ready, P6 operation alphabet, P7 kinds of errors. */
#include "io.h"
#include <fcntl.h>
#include <hev-task-io-pipe.h>
#include <hev-task-io-socket.h>

const char mc_property[] = "I01";

#define NT P (0)
#define OPS P (1)
#define KIND P (2)
#define ACTS P (3)
#define SHORT P (4)
#define ATPOLL P (5)
#define ALPH P (6)
#define ERRS P (7)

static const struct
{
    int n;
    int v[4];
} shapes[] = {
    { 1, { 1 } }, { 1, { 3 } }, { 2, { 1, 2 } }, { 3, { 2, 0, 1 } }, { 3, { 0, 1, 1 } }, { 1, { 0 } },
};
#define NSH 6

static HevTask *t[MAXW];
static struct op
{
    int on, write, yielding, with_yielder, stop;
    long c0, p0;
} O[MAXW];
static int done[MAXW];

static int
yielder (HevTaskYieldType type, void *data)
{
    int i = (int)((struct op *)data - O);

    MC_CHECK (i >= 0 && i < NT && hev_task_self () == t[i], "the yielder got other data");
    MC_CHECK (type == HEV_TASK_WAITIO, "the yielder is asked to yield with type %d", type);
    MC_CHECK (O[i].on && !O[i].stop, "the yielder is called again after it asked to stop");
    O[i].yielding = 1;
    switch (mc_choose (3, "yielder")) {
    case 0:
        mc_ev1 ("task %ld: yielder waits", i);
        hev_task_yield (HEV_TASK_WAITIO);
        break;
    case 1:
        mc_ev1 ("task %ld: yielder stops", i);
        O[i].stop = 1;
        break;
    case 2:
        mc_ev1 ("task %ld: yielder waits and stops", i);
        hev_task_yield (HEV_TASK_WAITIO);
        O[i].stop = 1;
        break;
    }
    O[i].yielding = 0;
    return O[i].stop ? 1 + i : 0;
}

static void
on_block (void)
{
    int i;
    for (i = 0; i < NT; i++) {
        int m;
        if (!O[i].on)
            continue;
        MC_CHECK (ep_consumed (i) == O[i].c0 && ep_produced (i) == O[i].p0,
                  "task %d waits although it transferred something already", i);
        MC_CHECK (!O[i].with_yielder || O[i].yielding, "task %d waits past its yielder", i);
        MC_CHECK (!err_consumed (i), "task %d waits although its operation failed", i);
        m = vk_poll_obj (vk_obj (E[i].fd));
        MC_CHECK (!(m & ((O[i].write ? POLLOUT : POLLIN) | POLLERR | POLLHUP)),
                  "task %d waits although its operation would not block", i);
    }
}

static void
one (int i)
{
    int wr, kind, sh, y, k, j, from = vk_ncalls, total = 0;
    struct iovec v[4];
    unsigned char buf[4][8];
    long r, n;
    int err;
    struct op *o = &O[i];

    if (KIND == 0)
        wr = mc_choose (2, "direction");
    else
        wr = KIND == 2;
    kind = mc_choose (2, "plain or vector");
    if (kind)
        sh = 1 + mc_choose (ALPH ? NSH - 1 : 3, "vector");
    else
        sh = mc_choose (ALPH ? 3 : 2, "size");
    if (!kind && sh == 2)
        sh = 5;
    y = mc_choose (2, "with a yielder");
    for (k = 0, n = 0; k < shapes[sh].n; k++) {
        v[k].iov_base = buf[k];
        v[k].iov_len = shapes[sh].v[k];
        for (j = 0; j < 8; j++)
            buf[k][j] = 0xee;
        for (j = 0; j < shapes[sh].v[k]; j++, n++)
            if (wr)
                buf[k][j] = pout (i, E[i].put + n);
    }
    total = n;
    memset (o, 0, sizeof (*o));
    o->write = wr;
    o->with_yielder = y;
    o->c0 = ep_consumed (i);
    o->p0 = ep_produced (i);
    o->on = 1;
    mc_evx (wr ? "task %ld: write of %ld, vector of %ld" : "task %ld: read of %ld, vector of %ld",
            i, total, kind ? shapes[sh].n : 0);
    errno = 0;
    if (wr)
        r = kind ? hev_task_io_writev (E[i].fd, v, shapes[sh].n, y ? yielder : NULL, o) :
                   hev_task_io_write (E[i].fd, buf[0], total, y ? yielder : NULL, o);
    else
        r = kind ? hev_task_io_readv (E[i].fd, v, shapes[sh].n, y ? yielder : NULL, o) :
                   hev_task_io_read (E[i].fd, buf[0], total, y ? yielder : NULL, o);
    err = errno;
    o->on = 0;
    mc_evx ("task %ld: returned %ld, errno %ld", i, r, r == -1 ? err : 0);

    n = wr ? ep_produced (i) - o->p0 : ep_consumed (i) - o->c0;
    MC_CHECK (n == (r > 0 ? r : 0), "%ld bytes were transferred, but the call returned %ld", n, r);
    MC_CHECK (r <= total, "the call returned %ld for %d bytes", r, total);
    MC_CHECK (moves (i, from) <= 1, "the bytes were transferred in %d parts", moves (i, from));
    for (k = 0, n = 0; k < shapes[sh].n; k++) {
        MC_CHECK (v[k].iov_base == buf[k] && v[k].iov_len == (size_t)shapes[sh].v[k],
                  "the caller's vector changed");
        for (j = 0; j < 8; j++) {
            unsigned char want = 0xee;
            if (j < shapes[sh].v[k]) {
                if (wr)
                    want = pout (i, E[i].put + n);
                else if (n < r)
                    want = pin (i, E[i].got + n);
                n++;
            }
            MC_CHECK (buf[k][j] == want, "byte %d of vector element %d is %d instead of %d", j, k,
                      buf[k][j], want);
        }
    }
    if (r == -2) {
        MC_CHECK (o->stop, "-2 although the yielder did not ask to stop");
        mc_outcome ("stopped by the yielder");
        return;
    }
    MC_CHECK (!o->stop, "the call went on after the yielder asked to stop");
    if (r == -1) {
        if (E[i].err) {
            MC_CHECK (err == E[i].err, "errno is %d instead of %d", err, E[i].err);
            E[i].err = 0;
        } else
            MC_CHECK (wr && E[i].gone && err == EPIPE, "the call failed with errno %d", err);
        mc_outcome ("error");
        return;
    }
    MC_CHECK (!E[i].err, "an error of the descriptor was not reported");
    MC_CHECK (r >= 0, "the call returned %ld", r);
    if (r == 0) {
        MC_CHECK (!total || (!wr && E[i].eof && ep_consumed (i) == E[i].arrived),
                  "0 was returned before the end of input");
        mc_outcome (total ? "end of input" : "empty");
        return;
    }
    MC_CHECK (!wr || !E[i].gone, "a write that nobody reads succeeded");
    if (wr)
        E[i].put += r;
    else
        E[i].got += r;
    mc_outcome (r < total ? "partial" : "complete");
}

static void
entry (void *data)
{
    int i = (int)(intptr_t)data, k;

    MC_CHECK (hev_task_add_fd (t[i], E[i].fd,
                               KIND == 1 ? POLLIN : KIND == 2 ? POLLOUT : POLLIN | POLLOUT) == 0,
              "add_fd failed");
    for (k = 0; k < OPS; k++) {
        if (NT > 1 && O[(i + 1) % NT].on && mc_choose (2, "wake the other task")) {
            mc_ev1 ("stray wakeup of task %ld", (i + 1) % NT);
            hev_task_wakeup (t[(i + 1) % NT]);
            hev_task_yield (HEV_TASK_YIELD);
        }
        one (i);
    }
    hev_task_del_fd (t[i], E[i].fd);
    done[i] = 1;
}

static void
idle (void)
{
    on_block ();
    mc_outcome ("waiting for ever");
    mc_done ();
}

static void
run (void)
{
    int k;

    io_reset ();
    memset (O, 0, sizeof (O));
    memset (done, 0, sizeof (done));
    acts_left = ACTS;
    if (ERRS)
        nerrs = ERRS;
    vk_short_io = SHORT;
    vk_env_at_poll = ATPOLL;
    vk_on_block = on_block;
    mc_on_idle = idle;
    h_init ();
    for (k = 0; k < NT; k++) {
        ep_new (KIND, 2);
        t[k] = h_task ();
        hev_task_run (t[k], entry, (void *)(intptr_t)k);
    }
    hev_task_system_run ();
    for (k = 0; k < NT; k++)
        MC_CHECK (done[k], "run returned before task %d ended", k);
    io_close_all ();
    h_fini ();
    mc_leak_check ("fini");
}

/* the last call that opened a file */
static struct vk_call *
opened (void)
{
    static struct vk_call none;
    int k;
    for (k = vk_ncalls - 1; k >= 0 && k > vk_ncalls - VK_CALLS; k--)
        if (strstr (vk_calls[k % VK_CALLS].name, "open"))
            return &vk_calls[k % VK_CALLS];
    return &none;
}

/* descriptor helpers, with failures */
static void
helpers (void)
{
    int fd[2] = { -1, -1 }, r = -1, n = 0, k, old, fl;
    long fds;
    struct vk_call *c = NULL;
    struct vobj *was;

    io_reset ();
    h_init ();
    old = vk_mk_stream (4);
    vk_obj (old)->nonblock = 0;
    fds = mc_live_fds;
    fl = mc_fault_left;
    mc_faults_on = 1;
    k = mc_choose (13, "helper");
    mc_ev1 ("helper %ld", k);
    switch (k) {
    case 0:
        r = fd[0] = hev_task_io_open ("/f", O_RDONLY | O_CLOEXEC);
        c = opened ();
        MC_CHECK ((c->a & ~O_NONBLOCK) == (O_RDONLY | O_CLOEXEC), "open flags are %lx", c->a);
        n = 1;
        break;
    case 1:
        r = fd[0] = hev_task_io_open ("/f", O_RDWR | O_CREAT | O_EXCL, 0640);
        c = opened ();
        MC_CHECK ((c->a & ~O_NONBLOCK) == (O_RDWR | O_CREAT | O_EXCL) && c->b == 0640,
                  "open with flags %lx mode %lo", c->a, c->b);
        n = 1;
        break;
    case 2:
        r = fd[0] = hev_task_io_creat ("/f", 0601);
        c = opened ();
        MC_CHECK ((c->a & ~O_NONBLOCK) == (O_WRONLY | O_CREAT | O_TRUNC) && c->b == 0601,
                  "creat with flags %lx mode %lo", c->a, c->b);
        n = 1;
        break;
    case 3:
        r = fd[0] = hev_task_io_openat (77, "f", O_WRONLY | O_APPEND);
        c = opened ();
        MC_CHECK ((c->a & ~O_NONBLOCK) == (O_WRONLY | O_APPEND) && c->c == 77,
                  "openat with flags %lx in %ld", c->a, c->c);
        n = 1;
        break;
    case 4:
        r = fd[0] = hev_task_io_openat (78, "f", O_WRONLY | O_CREAT, 0711);
        c = opened ();
        MC_CHECK ((c->a & ~O_NONBLOCK) == (O_WRONLY | O_CREAT) && c->b == 0711 && c->c == 78,
                  "openat with flags %lx mode %lo in %ld", c->a, c->b, c->c);
        n = 1;
        break;
    case 5:
        r = fd[0] = hev_task_io_dup (old);
        MC_CHECK (r < 0 || vk_obj (r) == vk_obj (old), "dup made another descriptor");
        n = 1;
        break;
    case 6:
        r = fd[0] = hev_task_io_dup2 (old, 100);
        MC_CHECK (r < 0 || (r == 100 && vk_obj (r) == vk_obj (old)), "dup2 made another descriptor");
        n = 1;
        break;
    case 7:
        r = hev_task_io_pipe_pipe (fd);
        n = 2;
        MC_CHECK (r <= 0, "pipe returned %d", r);
        if (r >= 0)
            MC_CHECK (vk_obj (fd[0]) && vk_obj (fd[1]) && vk_obj (fd[0])->rx &&
                          vk_obj (fd[0])->rx == vk_obj (fd[1])->tx,
                      "the two ends are not a pipe");
        break;
    case 11: /* over the descriptor itself; what a failure does then is not said */
        mc_faults_on = 0;
        r = hev_task_io_dup2 (old, old);
        MC_CHECK (r < 0 || (r == old && vk_obj (old)->nonblock),
                  "dup2 over itself returned %d, a blocking descriptor", r);
        break;
    case 12: /* over another open one, which is closed */
        fd[0] = vk_mk_stream (4);
        was = vk_obj (fd[0]);
        r = hev_task_io_dup2 (old, fd[0]);
        MC_CHECK (r < 0 || (r == fd[0] && vk_obj (r) == vk_obj (old)), "dup2 made another descriptor");
        if (r < 0 && vk_obj (fd[0]) == was)
            vk_close_user (fd[0]);
        n = 1;
        break;
    case 8:
        r = hev_task_io_dup (150);
        MC_CHECK (r == -1, "dup of a closed descriptor returned %d", r);
        break;
    case 9:
        r = fd[0] = hev_task_io_socket_socket (AF_INET6, SOCK_STREAM, 6);
        if (r >= 0)
            MC_CHECK (vk_obj (r)->domain == AF_INET6 && vk_obj (r)->stype % 16 == SOCK_STREAM &&
                          vk_obj (r)->proto == 6,
                      "another kind of socket was made");
        n = 1;
        break;
    case 10:
        r = hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, fd);
        MC_CHECK (r <= 0, "socketpair returned %d", r);
        n = 2;
        break;
    }
    mc_faults_on = 0;
    if (r < 0) {
        MC_CHECK (k == 8 || mc_fault_left < fl, "helper %d failed", k);
        MC_CHECK (mc_live_fds == fds, "a failed helper left a descriptor open");
        mc_outcome ("helper failed");
    } else {
        MC_CHECK (mc_fault_left == fl, "a failure was not reported");
        MC_CHECK (mc_live_fds == fds + n, "the helper left a descriptor open");
        for (k = 0; k < n; k++) {
            MC_CHECK (vk_is_open (fd[k]), "the returned descriptor is not open");
            MC_CHECK (vk_obj (fd[k])->nonblock, "the returned descriptor is blocking");
            vk_close_user (fd[k]);
        }
        mc_outcome ("helper succeeded");
    }
    MC_CHECK (vk_is_open (old), "the caller's descriptor was closed");
    vk_close_user (old);
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- long streams ---- */

#include "bulk.h"

static long
bulk_op (int write, struct iovec *v, int n)
{
    if (n > 1)
        return write ? hev_task_io_writev (E[0].fd, v, n, NULL, NULL) :
                       hev_task_io_readv (E[0].fd, v, n, NULL, NULL);
    return write ? hev_task_io_write (E[0].fd, v->iov_base, v->iov_len, NULL, NULL) :
                   hev_task_io_read (E[0].fd, v->iov_base, v->iov_len, NULL, NULL);
}

static void
bulk_entry (void *data)
{
    int n = bulk_sizes[mc_choose (6, "size")], parts = bulk_parts[mc_choose (5, "parts")], k;

    MC_CHECK (hev_task_add_fd (L.t, E[0].fd, POLLIN | POLLOUT) == 0, "add_fd failed");
    L.in_total = 3l * n + 17;
    for (k = 0; k < 3; k++)
        bulk_one (1, n, parts);
    while (bulk_one (0, n, parts))
        ;
    MC_CHECK (E[0].got == L.in_total, "%ld bytes of input", E[0].got);
    hev_task_del_fd (L.t, E[0].fd);
    L.done = 1;
}

static void
bulk (void)
{
    bulk_start (bulk_entry, 1);
    bulk_end ();
}

const struct mc_scen mc_scenarios[] = {
    { "stream", run, MC_BOTH, { 1, 2, 0, 4, 0, 0, 0 } },
    { "stream-shapes", run, MC_BOTH, { 1, 2, 0, 2, 0, 0, 1 } },
    { "reader", run, MC_BOTH, { 1, 3, 1, 3, 0, 0, 0 } },
    { "writer", run, MC_BOTH, { 1, 3, 2, 2, 0, 0, 0 } },
    { "short", run, MC_BOTH, { 1, 2, 0, 3, 1, 0, 1 }, .env_budget = 2 },
    { "errors", run, MC_BOTH, { 1, 2, 0, 2, 0, 0, 0, 5 } },
    { "two", run, MC_BOTH, { 2, 1, 0, 2, 0, 0, 0 } },
    { "two-ready", run, MC_BOTH, { 2, 1, 0, 2, 0, 1, 0 }, .env_budget = 1 },
    { "helpers", helpers, MC_BOTH, { 0 }, .fault_budget = 2 },
    { "stream-deep", run, MC_THOROUGH, { 1, 3, 0, 4, 0, 0, 0 } },
    { "two-deep", run, MC_THOROUGH, { 2, 2, 0, 3, 0, 0, 0 } },
    { "short-deep", run, MC_THOROUGH, { 1, 3, 0, 3, 1, 0, 1 }, .env_budget = 3 },
    { "bulk", bulk, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
