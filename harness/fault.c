/* F01: requests that the system refuses. A sequence of P0 calls from the table
 * below, chosen from all of them (P1 < 0) or only call P1, each under failing
 * requests for memory, mappings, descriptors and registrations. */
#include "h.h"
#include <fcntl.h>
#include <hev-circular-buffer.h>
#include <hev-task-io.h>
#include <hev-memory-allocator.h>
#include <hev-task-call.h>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>
#include <hev-task-cio-buffer.h>
#include <hev-task-cio-fd.h>
#include <hev-task-cio-null.h>
#include <hev-task-cio-socket.h>
#include <hev-task-io-pipe.h>
#include <hev-task-io-poll.h>
#include <hev-task-io-socket.h>

const char mc_property[] = "F01";

#if defined(MC_CONFIG_NOSLICE) || defined(MC_CONFIG_HEAP) || defined(MC_CONFIG_NOSPLICE)
#define MC_NOSLICE 1
#else
#define MC_NOSLICE 0
#endif
#define LEN P (0)
#define ONLY P (1)

static HevTask *t, *by;
static HevTaskChannel *bc[2];
static int finished, by_state, refused;
static long by_seen;

/* what a call made */
static void *ob[2];
static int fd[4];

static int flag;

static void
set_flag (void *data)
{
    flag++;
}

static int
c_task (void)
{
    return !!(ob[0] = hev_task_new (STK));
}
static void
u_task (int use)
{
    if (!use) {
        hev_task_unref (ob[0]);
        return;
    }
    flag = 0;
    hev_task_ref (ob[0]);
    hev_task_run (ob[0], set_flag, NULL);
    hev_task_join (ob[0]);
    MC_CHECK (flag == 1, "a task did not run");
    hev_task_unref (ob[0]);
}

static void
call_entry (HevTaskCall *c)
{
    flag++;
    hev_task_call_set_retval (c, &flag);
}
static int
c_call (void)
{
    return !!(ob[0] = hev_task_call_new (sizeof (HevTaskCall), 8192));
}
static void
u_call (int use)
{
    if (use)
        MC_CHECK (hev_task_call_jump (ob[0], call_entry) == &flag, "a call returned something else");
    hev_task_call_destroy (ob[0]);
}

static int
c_chan (void)
{
    int r = hev_task_channel_new ((HevTaskChannel **)&ob[0], (HevTaskChannel **)&ob[1]);
    MC_CHECK (r == 0 || r == -1, "hev_task_channel_new returned %d", r);
    return r == 0;
}
static void
u_chan (int use)
{
    hev_task_channel_destroy (ob[0]);
    if (use) {
        int v = 0;
        MC_CHECK (hev_task_channel_read (ob[1], &v, sizeof (v)) == -1, "read from a closed channel");
    }
    hev_task_channel_destroy (ob[1]);
}

static int
c_bchan (void)
{
    int r = hev_task_channel_new_with_buffers ((HevTaskChannel **)&ob[0], (HevTaskChannel **)&ob[1], sizeof (int), 2);
    MC_CHECK (r == 0 || r == -1, "hev_task_channel_new_with_buffers returned %d", r);
    return r == 0;
}
static void
u_bchan (int use)
{
    int i, v, d;

    for (d = 0; use && d < 2; d++) {
        for (i = 0; i < 2; i++) {
            v = 7 + i;
            MC_CHECK (hev_task_channel_write (ob[d], &v, sizeof (v)) == sizeof (v), "write");
        }
        for (i = 0; i < 2; i++)
            MC_CHECK (hev_task_channel_read (ob[!d], &v, sizeof (v)) == sizeof (v) && v == 7 + i, "read");
    }
    hev_task_channel_destroy (ob[0]);
    hev_task_channel_destroy (ob[1]);
}

static int
c_select (void)
{
    return !!(ob[0] = hev_task_channel_select_new ());
}
static void
u_select (int use)
{
    hev_task_channel_select_destroy (ob[0]);
}

static int
c_addfd (void)
{
    return hev_task_add_fd (t, fd[3], POLLIN | POLLOUT) >= 0;
}
static void
u_addfd (int use)
{
    if (use) {
        char c;
        MC_CHECK (hev_task_mod_fd (t, fd[3], POLLIN) >= 0, "the interest cannot be changed");
        vk_remote_send (fd[3], "x", 1);
        hev_task_yield (HEV_TASK_WAITIO);
        MC_CHECK (hev_task_io_read (fd[3], &c, 1, NULL, NULL) == 1 && c == 'x', "read");
    }
    MC_CHECK (hev_task_del_fd (t, fd[3]) >= 0, "the interest cannot be removed");
}

static void
u_close (int use)
{
    int k;
    for (k = 0; k < 2; k++)
        if (fd[k] >= 0) {
            MC_CHECK (vk_is_open (fd[k]) && vk_obj (fd[k])->nonblock, "descriptor %d is closed or blocking", fd[k]);
            vk_close_user (fd[k]);
        }
}

static int
c_open (void)
{
    return (fd[0] = hev_task_io_open ("/f", O_RDWR | O_CREAT, 0600)) >= 0;
}
static int
c_creat (void)
{
    return (fd[0] = hev_task_io_creat ("/f", 0600)) >= 0;
}
static int
c_openat (void)
{
    return (fd[0] = hev_task_io_openat (77, "f", O_RDONLY)) >= 0;
}
static int
c_dup (void)
{
    return (fd[0] = hev_task_io_dup (fd[3])) >= 0;
}
static int
c_dup2 (void)
{
    return (fd[0] = hev_task_io_dup2 (fd[3], 40)) >= 0;
}
static int
c_pipe (void)
{
    int p[2] = { -1, -1 };
    if (hev_task_io_pipe_pipe (p) < 0)
        return 0;
    fd[0] = p[0];
    fd[1] = p[1];
    return 1;
}
static int
c_socket (void)
{
    return (fd[0] = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0)) >= 0;
}
static int
c_pair (void)
{
    int p[2] = { -1, -1 };
    if (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, p) < 0)
        return 0;
    fd[0] = p[0];
    fd[1] = p[1];
    return 1;
}
static int lfd;
static int
c_accept (void)
{
    vk_remote_connect (lfd);
    return (fd[0] = hev_task_io_socket_accept (lfd, NULL, NULL, NULL, NULL)) >= 0;
}

/* memory */
static unsigned char *keep;
static int ksize;

static void
fill (void *p, int n)
{
    int k;
    for (k = 0; k < n; k++)
        ((unsigned char *)p)[k] = 3 + k * 7;
}
static int
filled (void *p, int n)
{
    int k;
    for (k = 0; k < n; k++)
        if (((unsigned char *)p)[k] != (unsigned char)(3 + k * 7))
            return 0;
    return 1;
}
static int
zeroed (void *p, int n)
{
    int k;
    for (k = 0; k < n; k++)
        if (((unsigned char *)p)[k])
            return 0;
    return 1;
}
static int
c_malloc (void)
{
    return !!(ob[0] = hev_malloc (100));
}
static int
c_malloc0 (void)
{
    return (ob[0] = hev_malloc0 (5000)) && zeroed (ob[0], 5000);
}
static int
c_calloc (void)
{
    return (ob[0] = hev_calloc (3, 40)) && zeroed (ob[0], 120);
}
static void
u_free (int use)
{
    if (use)
        fill (ob[0], 100);
    hev_free (ob[0]);
}
static int
c_grow (void)
{
    int n = ksize == 64 ? 3000 : 64;
    void *p = hev_realloc (keep, n);
    if (!p) {
        MC_CHECK (filled (keep, ksize), "a failed resize damaged the block");
        return 0;
    }
    keep = p;
    MC_CHECK (filled (keep, ksize < n ? ksize : n), "a resized block lost its contents");
    ksize = n;
    fill (keep, n);
    return 1;
}
static void
u_none (int use)
{
}
static int
c_null (void)
{
    return !!(ob[0] = hev_realloc (NULL, 100));
}

static int
c_circ (void)
{
    return !!(ob[0] = hev_circular_buffer_new (6));
}
static void
u_circ (int use)
{
    struct iovec v[2];
    if (use) {
        MC_CHECK (hev_circular_buffer_writing (ob[0], v) == 1 && v[0].iov_len == 6, "room");
        fill (v[0].iov_base, 6);
        hev_circular_buffer_write_finish (ob[0], 6);
        MC_CHECK (hev_circular_buffer_reading (ob[0], v) == 1 && filled (v[0].iov_base, 6), "contents");
    }
    hev_circular_buffer_unref (ob[0]);
}

/* a chain under construction takes its descriptors only when it exists */
static int cfd;
static int
c_ciofd (void)
{
    return !!(ob[0] = hev_task_cio_fd_new (cfd, cfd));
}
static int
c_ciosock (void)
{
    return !!(ob[0] = hev_task_cio_socket_new (AF_INET, cfd));
}
static int
c_cionull (void)
{
    return !!(ob[0] = hev_task_cio_null_new ());
}
static void
u_cio (int use)
{
    char b[4];
    if (use && vk_is_open (cfd)) {
        vk_remote_send (cfd, "ab", 2);
        MC_CHECK (hev_task_cio_read (ob[0], b, 2, NULL, NULL) == 2 && b[1] == 'b', "read through a layer");
    }
    hev_object_unref (ob[0]);
}
static void
u_null (int use)
{
    hev_object_unref (ob[0]);
}
static int
c_ciobuf (void)
{
    return !!(ob[0] = hev_task_cio_buffer_new (4, 4));
}
static void
u_ciobuf (int use)
{
    char b[4] = "xyz";
    HevTaskCIO *f;

    if (use) {
        /* works, if need be without its buffers */
        f = HEV_TASK_CIO (hev_task_cio_fd_new (cfd, cfd));
        MC_CHECK (f, "a new layer");
        f = hev_task_cio_push (f, ob[0]);
        vk_remote_send (cfd, "ab", 2);
        MC_CHECK (hev_task_cio_read (f, b, 2, NULL, NULL) == 2 && b[1] == 'b', "read through a buffer");
        MC_CHECK (hev_task_cio_write (f, "xyz", 3, NULL, NULL) == 3, "write through a buffer");
        MC_CHECK (hev_task_cio_flush (f, NULL, NULL) >= 0, "flush");
        MC_CHECK (vk_remote_take (cfd, b, 4) == 3 && b[2] == 'z', "data written through a buffer");
        hev_object_unref (HEV_OBJECT (f));
    } else
        hev_object_unref (ob[0]);
}

/* forwarding: moves everything, or stops without losing anything */
static int
c_splice (void)
{
    int a = vk_mk_stream (16), b = vk_mk_stream (16), n, left = mc_fault_left;
    char buf[16];

    mc_faults_on = 0;
    hev_task_add_fd (t, a, POLLIN | POLLOUT);
    hev_task_add_fd (t, b, POLLIN | POLLOUT);
    vk_remote_send (a, "hello", 5);
    vk_remote_eof (a);
    vk_remote_eof (b);
    mc_faults_on = 1;
    hev_task_io_splice (a, a, b, b, 64, NULL, NULL);
    mc_faults_on = 0;
    n = vk_remote_take (b, buf, 16);
    if (n != 5) {
        MC_CHECK (mc_fault_left < left, "forwarding stopped with %d bytes", n);
        MC_CHECK (n == 0 && hev_task_io_read (a, buf, 16, NULL, NULL) == 5, "forwarding lost data");
    }
    MC_CHECK (!memcmp (buf, "hello", 5), "forwarding changed data");
    hev_task_del_fd (t, a);
    hev_task_del_fd (t, b);
    vk_close_user (a);
    vk_close_user (b);
    return n == 5;
}

static int
c_poll (void)
{
    struct pollfd p[2] = { { fd[3], POLLIN }, { fd[2], POLLIN } };
    int left = mc_fault_left, r;

    r = hev_task_io_poll (p, 2, 3);
    mc_faults_on = 0;
    /* what cannot be waited for is reported, and nothing else */
    MC_CHECK (r <= 0 || mc_fault_left < left, "poll reports %d descriptors", r);
    hev_task_del_fd (t, fd[3]);
    hev_task_del_fd (t, fd[2]);
    return mc_fault_left == left;
}

static const struct
{
    const char *name;
    int (*call) (void);
    void (*use) (int use);
    int may; /* may work without what was refused */
} calls[] = {
    { "hev_task_new", c_task, u_task },
    { "hev_task_call_new", c_call, u_call },
    { "hev_task_channel_new", c_chan, u_chan },
    { "hev_task_channel_new_with_buffers", c_bchan, u_bchan },
    { "hev_task_channel_select_new", c_select, u_select },
    { "hev_task_add_fd", c_addfd, u_addfd },
    { "hev_task_io_open", c_open, u_close },
    { "hev_task_io_creat", c_creat, u_close },
    { "hev_task_io_openat", c_openat, u_close },
    { "hev_task_io_dup", c_dup, u_close },
    { "hev_task_io_dup2", c_dup2, u_close },
    { "hev_task_io_pipe_pipe", c_pipe, u_close },
    { "hev_task_io_socket_socket", c_socket, u_close },
    { "hev_task_io_socket_socketpair", c_pair, u_close },
    { "hev_task_io_socket_accept", c_accept, u_close },
    { "hev_malloc", c_malloc, u_free },
    { "hev_malloc0", c_malloc0, u_free },
    { "hev_calloc", c_calloc, u_free },
    { "hev_realloc", c_grow, u_none },
    { "hev_realloc of nothing", c_null, u_free },
    { "hev_circular_buffer_new", c_circ, u_circ },
    { "hev_task_cio_fd_new", c_ciofd, u_cio },
    { "hev_task_cio_socket_new", c_ciosock, u_cio },
    { "hev_task_cio_null_new", c_cionull, u_null },
    { "hev_task_cio_buffer_new", c_ciobuf, u_ciobuf, 1 },
    { "hev_task_io_splice", c_splice, u_none, 1 },
    { "hev_task_io_poll", c_poll, u_none },
};
#define NCALLS ((int)(sizeof (calls) / sizeof (calls[0])))

/* blocks are only counted where freed ones go back to the system */
static void
census (long *c)
{
    c[0] = MC_NOSLICE ? mc_live_blocks : 0;
    c[1] = mc_live_fds;
    c[2] = mc_live_maps;
}

static void
same (long *a, const char *what, const char *name)
{
    long b[3];
    census (b);
    MC_CHECK (a[0] == b[0] && a[1] == b[1] && a[2] == b[2],
              "%s %s left %ld blocks, %ld descriptors, %ld mappings behind", what, name, b[0] - a[0], b[1] - a[1],
              b[2] - a[2]);
}

static void
attempt (int k)
{
    long c[3];
    int ok, left, tries;

    for (tries = 0;; tries++) {
        memset (ob, 0, sizeof (ob));
        fd[0] = fd[1] = -1;
        cfd = vk_mk_stream (16);
        vk_obj (cfd)->nonblock = 1;
        census (c);
        left = mc_fault_left;
        errno = 0;
        mc_faults_on = 1;
        ok = calls[k].call ();
        mc_faults_on = 0;
        mc_ev2 (ok ? "call %ld worked" : "call %ld failed", k, 0);
        if (!ok) {
            MC_CHECK (mc_fault_left < left, "%s failed for no reason", calls[k].name);
            MC_CHECK (vk_is_open (cfd), "a failed %s closed a descriptor", calls[k].name);
            same (c, "a failed", calls[k].name);
            refused++;
            mc_outcome ("refused");
        } else {
            MC_CHECK (mc_fault_left == left || calls[k].may, "%s worked without what was refused", calls[k].name);
            if (mc_fault_left < left)
                mc_outcome ("worked without what was refused");
            calls[k].use (mc_choose (2, "use it"));
            if (!vk_is_open (cfd))
                c[1]--;
            same (c, "using", calls[k].name);
        }
        if (vk_is_open (cfd))
            vk_close_user (cfd);
        if (ok)
            break;
    }
    if (tries)
        mc_outcome ("worked when tried again");
}

static void
main_task (void *data)
{
    int k, v = 5;

    for (k = 0; k < LEN; k++) {
        attempt (ONLY >= 0 ? ONLY : mc_choose (NCALLS, "call"));
        MC_CHECK (filled (keep, ksize), "a block lost its contents");
    }
    /* what existed before still works */
    v = 41;
    MC_CHECK (by_state == 1, "another task went on");
    MC_CHECK (hev_task_channel_write (bc[0], &v, sizeof (v)) == sizeof (v), "write");
    hev_task_join (by);
    MC_CHECK (by_state == 2 && by_seen == 41, "another task got %ld", by_seen);
    hev_task_unref (by);
    hev_task_channel_destroy (bc[0]);
    hev_free (keep);
    finished = 1;
}

static void
by_task (void *data)
{
    int v = 0;
    by_state = 1;
    MC_CHECK (hev_task_channel_read (bc[1], &v, sizeof (v)) == sizeof (v), "read");
    by_seen = v;
    hev_task_channel_destroy (bc[1]);
    by_state = 2;
}

static void
run (void)
{
    finished = by_state = refused = 0;
    h_init ();
    MC_CHECK (hev_task_channel_new (&bc[0], &bc[1]) == 0, "channel");
    keep = hev_malloc (ksize = 64);
    fill (keep, ksize);
    lfd = vk_mk_listen ();
    vk_obj (lfd)->nonblock = 1;
    fd[3] = vk_mk_stream (16);
    fd[2] = vk_mk_stream (16);
    vk_obj (fd[2])->nonblock = vk_obj (fd[3])->nonblock = 1;
    by = hev_task_ref (h_task ());
    hev_task_set_priority (by, 1);
    hev_task_run (by, by_task, NULL);
    t = h_task ();
    hev_task_run (t, main_task, NULL);
    hev_task_system_run ();
    MC_CHECK (finished, "run returned early");
    h_fini ();
    vk_close_user (fd[3]);
    vk_close_user (fd[2]);
    vk_close_user (lfd);
    MC_CHECK (!mc_live_blocks && !mc_live_maps && !mc_live_fds,
              "%ld blocks, %ld mappings, %ld descriptors left at the end", mc_live_blocks, mc_live_maps,
              mc_live_fds);
    mc_outcome (refused ? "ended after refusals" : "ended");
    mc_done ();
}

/* creating systems. P0 systems, P1 1: a thread that used the allocator before,
 * P2 attempts to create a second system in the thread */
static void
twice (void)
{
    int k, n = P (2);
    long c[3];

    for (k = 0; k < n; k++) {
        int *p = hev_malloc (40);
        MC_CHECK (p, "hev_malloc");
        *p = 99;
        census (c);
        mc_faults_on = 1;
        MC_CHECK (hev_task_system_init () == -1, "a second system in the same thread");
        mc_faults_on = 0;
        same (c, "a failed", "second init");
        mc_outcome ("second system refused");
        MC_CHECK (*p == 99, "a block lost its contents");
        hev_free (p);
    }
}

static void
sys_task (void *data)
{
    hev_task_sleep (1);
    twice ();
    flag++;
}

static void
systems (void)
{
    long base, own = 0;
    int k, r, left;

    if (P (1)) {
        void *p = hev_malloc (10);
        hev_free (p);
        own = mc_live_blocks; /* the allocator of the thread, replaced by that of the first system */
    }
    for (k = 0; k < P (0); k++) {
        for (;;) {
            base = mc_live_blocks;
            left = mc_fault_left;
            mc_faults_on = 1;
            r = hev_task_system_init ();
            mc_faults_on = 0;
            mc_evx ("hev_task_system_init: %ld", r, 0, 0);
            if (r == 0)
                break;
            MC_CHECK (r == -1 && mc_fault_left < left, "hev_task_system_init failed for no reason");
            MC_CHECK (mc_live_blocks <= (own ? own : base) && !mc_live_maps && !mc_live_fds,
                      "a failed hev_task_system_init left %ld blocks, %ld mappings and %ld descriptors",
                      mc_live_blocks, mc_live_maps, mc_live_fds);
            mc_outcome ("init refused");
            if (mc_choose (2, "use memory")) {
                /* the thread can still use memory, which stays its own */
                void *p = hev_malloc (10);
                MC_CHECK (p, "hev_malloc failed");
                hev_free (p);
                own = mc_live_blocks;
                MC_CHECK (own <= 1, "%ld blocks", own);
            }
        }
        own = 0;
        twice ();
        flag = 0;
        hev_task_run (h_task (), sys_task, NULL);
        hev_task_system_run ();
        MC_CHECK (flag == 1, "the task did not run");
        twice ();
        h_fini ();
        MC_CHECK (!mc_live_blocks && !mc_live_maps && !mc_live_fds,
                  "%ld blocks, %ld mappings, %ld descriptors left at the end", mc_live_blocks, mc_live_maps,
                  mc_live_fds);
        mc_outcome ("system ended");
    }
    mc_done ();
}

const struct mc_scen mc_scenarios[] = {
    { "systems", systems, MC_BOTH, { 2, 0, 0 }, .fault_budget = 3 },
    { "systems-memory", systems, MC_BOTH, { 2, 1, 0 }, .fault_budget = 2 },
    { "systems-twice", systems, MC_BOTH, { 1, 0, 2 }, .fault_budget = 2 },
    { "one-call", run, MC_BOTH, { 1, -1 }, .fault_budget = 3 },
    { "two-calls", run, MC_BOTH, { 2, -1 }, .fault_budget = 2 },
    { "three-calls", run, MC_BOTH, { 3, -1 }, .fault_budget = 1 },
    { "three-deep", run, MC_THOROUGH, { 3, -1 }, .fault_budget = 2 },
    { "four-deep", run, MC_THOROUGH, { 4, -1 }, .fault_budget = 1 },
    { "systems-deep", systems, MC_THOROUGH, { 3, 1, 1 }, .fault_budget = 4 },
    { 0 },
};
