/* Descriptors whose far end is played by the environment, with the byte
 * streams that went through them. */
#ifndef IO_H
#define IO_H

#include "h.h"
#include <hev-task-io.h>

#define MAXE 4
#define MAXW 4

static struct ep
{
    int fd, kind; /* 0 stream 1 read end 2 write end 3 datagram */
    long arrived; /* bytes the environment sent */
    long taken;   /* bytes the environment took */
    long got, put; /* bytes the library reported as read / written */
    int eof, gone, err, errs;
    int msgs, outs;
} E[MAXE];
static int ne, acts_left;
static int max_chunk = 2; /* bytes per arrival */
static int errs_on;       /* errors are among the actions */
static int finale;        /* at the end all output is taken and all input ends */
static int nerrs;         /* how many kinds of them */
static int resets;        /* and end both directions */
static int from_e[MAXE];  /* output is that input, forwarded */

static unsigned char
pin (int e, long n)
{
    return 17 * e + 5 * n + 1;
}

static unsigned char
pout (int e, long n)
{
    return 29 * e + 3 * n + 2;
}

static int
ep_new (int kind, int cap)
{
    struct ep *x = &E[ne];

    memset (x, 0, sizeof (*x));
    x->kind = kind;
    x->fd = kind == 0 ? vk_mk_stream (cap) :
            kind == 1 ? vk_mk_reader () :
            kind == 2 ? vk_mk_writer (cap) :
                        vk_mk_dgram (cap);
    return ne++;
}

static struct
{
    int op, e, n;
} A[64];
static int na;

static int
io_env_count (void)
{
    int e, k;

    na = 0;
    if (acts_left <= 0) {
        for (e = 0; finale && e < ne && !na; e++) {
            struct vobj *o = vk_obj (E[e].fd);
            if (o && o->tx && o->tx->len && !E[e].gone)
                A[na].op = 2, A[na].e = e, A[na++].n = VBUF_MAX;
        }
        for (e = 0; finale && e < ne && !na; e++) {
            struct vobj *o = vk_obj (E[e].fd);
            if (o && o->rx && !E[e].eof)
                A[na].op = 1, A[na++].e = e;
        }
        return na;
    }
    for (e = 0; e < ne; e++) {
        struct vobj *o = vk_obj (E[e].fd);
        if (!o)
            continue;
        if (o->rx && !E[e].eof && !E[e].errs) {
            for (k = 1; k <= max_chunk; k++)
                A[na].op = 0, A[na].e = e, A[na++].n = k;
            A[na].op = 1, A[na++].e = e;
        }
        if (o->tx && o->tx->len) {
            for (k = 1; k <= o->tx->len && k <= max_chunk; k++)
                A[na].op = 2, A[na].e = e, A[na++].n = k;
        }
        if (errs_on && o->tx && !E[e].gone)
            A[na].op = 3, A[na++].e = e;
        if (errs_on && !E[e].errs && E[e].kind == 0)
            A[na].op = 4, A[na++].e = e;
    }
    return na;
}

static void
io_arrive (int e, int n)
{
    unsigned char d[64];
    int k;
    for (k = 0; k < n; k++)
        d[k] = pin (e, E[e].arrived + k);
    E[e].arrived += n;
    vk_remote_send (E[e].fd, d, n);
}

static void
io_take (int e, int n)
{
    unsigned char d[VBUF_MAX];
    int k;
    n = vk_remote_take (E[e].fd, d, n);
    for (k = 0; k < n; k++) {
        int want = from_e[e] >= 0 ? pin (from_e[e], E[e].taken + k) : pout (e, E[e].taken + k);
        MC_CHECK (d[k] == want, "output byte %ld of descriptor %d is %d instead of %d",
                  E[e].taken + k, e, d[k], want);
    }
    E[e].taken += n;
}

static const int err_kind[] = { ECONNRESET, EINTR, EINPROGRESS, ENOBUFS, EISCONN };

/* the descriptor reported an error, and no call passed it on yet */
static int
err_consumed (int e)
{
    return E[e].err && !vk_obj (E[e].fd)->err;
}

static void
io_env_do (int i)
{
    int e = A[i].e, n = A[i].n;

    acts_left--;
    switch (A[i].op) {
    case 0:
        mc_ev2 ("descriptor %ld: %ld bytes arrive", e, n);
        io_arrive (e, n);
        break;
    case 1:
        mc_ev1 ("descriptor %ld: end of input", e);
        E[e].eof = 1;
        vk_remote_eof (E[e].fd);
        break;
    case 2:
        mc_ev2 ("descriptor %ld: %ld bytes are taken", e, n);
        io_take (e, n);
        break;
    case 3:
        mc_ev1 ("descriptor %ld: nobody takes output any more", e);
        E[e].gone = 1;
        vk_remote_gone (E[e].fd);
        break;
    case 4:
        E[e].errs = 1;
        E[e].err = err_kind[nerrs > 1 ? mc_choose (nerrs, "error") : 0];
        mc_ev2 ("descriptor %ld: error %ld", e, E[e].err);
        if (resets) {
            E[e].eof = E[e].gone = 1;
            vk_remote_reset (E[e].fd, E[e].err);
            E[e].err = vk_obj (E[e].fd)->err; /* another one after the end */
        } else
            vk_remote_err (E[e].fd, E[e].err);
        break;
    }
}

static long
ep_consumed (int e)
{
    struct vobj *o = vk_obj (E[e].fd);
    return o && o->rx ? o->rx->out_total : 0;
}

static long
ep_produced (int e)
{
    struct vobj *o = vk_obj (E[e].fd);
    return o && o->tx ? o->tx->in_total : 0;
}

/* system calls that moved bytes of this descriptor since call number `from' */
static int
moves (int e, int from)
{
    int k, n = 0;
    for (k = from; k < vk_ncalls; k++) {
        struct vk_call *c = &vk_calls[k % VK_CALLS];
        if (c->fd == E[e].fd && c->res > 0 &&
            (strstr (c->name, "re") || strstr (c->name, "wri") || strstr (c->name, "sen")))
            n++;
    }
    return n;
}

static void
io_reset (void)
{
    ne = 0;
    na = 0;
    max_chunk = 2;
    errs_on = 1;
    nerrs = 2;
    resets = finale = 0;
    memset (from_e, -1, sizeof (from_e));
    vk_env_count = io_env_count;
    vk_env_do = io_env_do;
}

/* everything still buffered in the far ends is compared as well */
static void
io_close_all (void)
{
    int e;
    for (e = 0; e < ne; e++) {
        if (!vk_is_open (E[e].fd))
            continue;
        if (!E[e].gone)
            io_take (e, VBUF_MAX);
        vk_close_user (E[e].fd);
    }
}

#endif
