/* O01: operations on chains of layers. P0 operations, P1 actions of the
 * environment, P2 innermost layer, P3 layers above it, P4 1: transfers may be
 * short, P5 1: the environment acts also while the task is ready, P6 shapes */
#include "cio.h"

const char mc_property[] = "O01";

#define OPS P (0)
#define ACTS P (1)
#define INNER P (2)
#define LAYERS P (3)
#define SHORT P (4)
#define ATPOLL P (5)
#define NSHAPES P (6)
#define FAMILY P (4)

static HevTaskCIO *c;
static int ei, eo; /* descriptor of input and output */

static void
on_block (void)
{
    int m;
    long n;

    if (!O.on)
        return;
    MC_CHECK (!O.with_yielder || O.yielding, "the task waits past its yielder");
    MC_CHECK (!O.flush, "flush waits although nothing is buffered");
    n = O.write ? ep_produced (eo) - O.p0 : ep_consumed (ei) - O.c0;
    MC_CHECK (!n || O.exact, "the task waits although it transferred something already");
    MC_CHECK (!n || n < O.total, "the task waits although everything was transferred");
    MC_CHECK (!err_consumed (O.write ? eo : ei), "the task waits although its operation failed");
    m = vk_poll_obj (vk_obj (E[O.write ? eo : ei].fd));
    MC_CHECK (!(m & ((O.write ? POLLOUT : POLLIN) | POLLERR | POLLHUP)),
              "the task waits although its operation would not block");
}

static void
idle (void)
{
    on_block ();
    MC_CHECK (O.on, "the task is waiting outside of an operation");
    mc_outcome ("waiting for ever");
    mc_done ();
}

static void
one (void)
{
    int kind, sh, y, k, j, from = vk_ncalls, wr, exact, vec, total;
    struct iovec v[4], v0[4];
    unsigned char *buf[4];
    long r, n;
    HevTaskIOYielder yf;

    memset (&O, 0, sizeof (O));
    kind = mc_choose (9, "operation");
    y = mc_choose (2, "with a yielder");
    yf = y ? yielder : NULL;
    O.with_yielder = y;
    if (kind == 8) {
        O.flush = 1;
        O.on = 1;
        r = hev_task_cio_flush (c, yf, &O);
        O.on = 0;
        MC_CHECK (r == 0, "flush returned %ld", r);
        return;
    }
    wr = kind & 1;
    exact = !!(kind & 2);
    vec = !!(kind & 4);
    sh = vec ? mc_choose (NSHAPES, "vector") : mc_choose (2, "size");
    for (k = 0, n = 0; k < shapes[sh].n; k++) {
        v[k].iov_len = shapes[sh].v[k];
        v[k].iov_base = buf[k] = v[k].iov_len ? hev_malloc (v[k].iov_len) : NULL;
        for (j = 0; j < shapes[sh].v[k]; j++, n++)
            buf[k][j] = wr ? pout (eo, E[eo].put + n) : 0xee;
    }
    memcpy (v0, v, sizeof (v));
    total = n;
    O.write = wr;
    O.exact = exact;
    O.total = total;
    O.c0 = ep_consumed (ei);
    O.p0 = ep_produced (eo);
    O.on = 1;
    mc_ev2 ("operation %ld of %ld bytes", kind, total);
    switch (kind) {
    case 0:
        r = hev_task_cio_read (c, buf[0], total, yf, &O);
        break;
    case 1:
        r = hev_task_cio_write (c, buf[0], total, yf, &O);
        break;
    case 2:
        r = hev_task_cio_read_exact (c, buf[0], total, yf, &O);
        break;
    case 3:
        r = hev_task_cio_write_exact (c, buf[0], total, yf, &O);
        break;
    case 4:
        r = hev_task_cio_readv (c, v, shapes[sh].n, yf, &O);
        break;
    case 5:
        r = hev_task_cio_writev (c, v, shapes[sh].n, yf, &O);
        break;
    case 6:
        r = hev_task_cio_readv_exact (c, v, shapes[sh].n, yf, &O);
        break;
    default:
        r = hev_task_cio_writev_exact (c, v, shapes[sh].n, yf, &O);
    }
    O.on = 0;
    mc_ev2 ("returned %ld, err %ld", r, r == -1 ? c->err : 0);

    MC_CHECK (r <= total, "the call returned %ld for %d bytes", r, total);
    n = wr ? ep_produced (eo) - O.p0 : ep_consumed (ei) - O.c0;
    MC_CHECK ((wr ? ep_consumed (ei) == O.c0 : ep_produced (eo) == O.p0),
              "the other direction was touched");
    if (r != -2 || !exact)
        MC_CHECK (n == (r > 0 ? r : 0), "%ld bytes were transferred, but the call returned %ld", n,
                  r);
    if (!exact)
        MC_CHECK (moves (wr ? eo : ei, from) <= 1, "the bytes were transferred in parts");
    MC_CHECK (!memcmp (v, v0, sizeof (v[0]) * shapes[sh].n), "the caller's vector changed");
    if (r != -2) {
        long x = 0;
        for (k = 0; k < shapes[sh].n; k++)
            for (j = 0; j < shapes[sh].v[k]; j++, x++) {
                unsigned char want = wr    ? pout (eo, E[eo].put + x) :
                                     x < r ? pin (ei, E[ei].got + x) :
                                             0xee;
                MC_CHECK (buf[k][j] == want, "byte %d of element %d is %d instead of %d", j, k,
                          buf[k][j], want);
            }
    }
    if (wr)
        E[eo].put += n;
    else
        E[ei].got += n;
    for (k = 0; k < shapes[sh].n; k++)
        if (buf[k])
            hev_free (buf[k]);

    if (r == -2) {
        MC_CHECK (O.stop, "-2 although the yielder did not ask to stop");
        mc_outcome ("stopped by the yielder");
        return;
    }
    MC_CHECK (!O.stop, "the call went on after the yielder asked to stop");
    {
        struct ep *e = &E[wr ? eo : ei];
        struct vobj *o = vk_obj (e->fd);
        int pending = e->err && o->err, consumed = e->err && !o->err;
        if (r == -1) {
            if (consumed)
                MC_CHECK (c->err == e->err, "the error is %d instead of %d", c->err, e->err);
            else
                MC_CHECK (wr && e->gone && c->err == EPIPE && !pending,
                          "the call failed with error %d", c->err);
            e->err = 0;
            mc_outcome ("error");
            return;
        }
        MC_CHECK (r >= 0, "the call returned %ld", r);
        if (r > 0 && r < total && exact) {
            MC_CHECK (consumed || (wr ? e->gone : e->eof && (ep_consumed (ei) == e->arrived || e->errs)),
                      "only %ld of %d bytes although all were requested", r, total);
            if (consumed)
                e->err = 0;
            mc_outcome ("cut short");
            return;
        }
        MC_CHECK (!consumed, "an error of the descriptor was not reported");
    }
    if (r == 0) {
        MC_CHECK (!total || (!wr && E[ei].eof && ep_consumed (ei) == E[ei].arrived),
                  "0 was returned before the end of input");
        mc_outcome (total ? "end of input" : "empty");
        return;
    }
    mc_outcome (r < total ? "partial" : "complete");
}

static HevTaskCIO *
layers (HevTaskCIO *x)
{
    int k, n;
    for (k = 0; k < LAYERS; k++) {
        HevTaskCIO *l;
        n = mc_choose (2, "layer");
        l = n ? HEV_TASK_CIO (hev_task_cio_buffer_new (0, 0)) : cio_plain ();
        x = hev_task_cio_push (l, x);
        MC_CHECK (x == l, "push returned another layer");
    }
    return x;
}

static void
stream_entry (void *data)
{
    int k;

    for (k = 0; k < ne; k++)
        MC_CHECK (hev_task_add_fd (t, E[k].fd,
                                   E[k].kind == 1 ? POLLIN :
                                   E[k].kind == 2 ? POLLOUT :
                                                    POLLIN | POLLOUT) == 0,
                  "add_fd failed");
    for (k = 0; k < OPS; k++)
        one ();
    MC_CHECK (hev_task_cio_get_fd (c, 0) == E[ei].fd && hev_task_cio_get_fd (c, 1) == E[eo].fd,
              "get_fd returned another descriptor");
    if (!E[eo].gone)
        io_take (eo, VBUF_MAX);
    hev_object_unref (HEV_OBJECT (c));
    for (k = 0; k < ne; k++)
        MC_CHECK (!vk_is_open (E[k].fd), "the descriptor of the innermost layer is still open");
    finished = 1;
}

static void
start (void)
{
    io_reset ();
    memset (&O, 0, sizeof (O));
    finished = nplain = 0;
    vk_on_block = on_block;
    mc_on_idle = idle;
    h_init ();
}

static void
stop (void)
{
    hev_task_system_run ();
    MC_CHECK (finished, "run returned before the task ended");
    cio_free_plain ();
    h_fini ();
    mc_leak_check ("fini");
}

static void
stream (void)
{
    start ();
    acts_left = ACTS;
    vk_short_io = SHORT;
    vk_env_at_poll = ATPOLL;
    switch (INNER) {
    case 0:
        ei = eo = ep_new (0, 2);
        c = HEV_TASK_CIO (hev_task_cio_socket_new (AF_UNIX, E[0].fd));
        break;
    case 1:
        ei = ep_new (1, 0);
        eo = ep_new (2, 2);
        c = HEV_TASK_CIO (hev_task_cio_fd_new (E[0].fd, E[1].fd));
        break;
    case 2:
        ei = eo = ep_new (0, 2);
        c = HEV_TASK_CIO (hev_task_cio_fd_new (E[0].fd, E[0].fd));
        break;
    }
    c = layers (c);
    t = h_task ();
    hev_task_run (t, stream_entry, NULL);
    stop ();
}

/* the null layer and chains without an innermost layer */
static void
dead_entry (void *data)
{
    unsigned char b[4] = { 9, 9, 9, 9 }, ad[128];
    struct iovec v[2] = { { b, 1 }, { b + 1, 2 } };
    int y, kind, r = 0, want, null = INNER == 3;

    while (finished < OPS) {
        HevTaskIOYielder yf;
        memset (&O, 0, sizeof (O));
        y = mc_choose (2, "with a yielder");
        yf = y ? yielder : NULL;
        kind = mc_choose (15, "operation");
        mc_ev1 ("operation %ld", kind);
        O.on = O.with_yielder = 1; /* nothing here may wait */
        want = null ? 0 : -1;
        switch (kind) {
        case 0:
            r = hev_task_cio_read (c, b, 3, yf, &O);
            break;
        case 1:
            r = hev_task_cio_read_exact (c, b, 3, yf, &O);
            break;
        case 2:
            r = hev_task_cio_readv (c, v, 2, yf, &O);
            break;
        case 3:
            r = hev_task_cio_readv_exact (c, v, 2, yf, &O);
            break;
        case 4:
            r = hev_task_cio_read_dgram (c, b, 3, ad, yf, &O);
            break;
        case 5:
            r = hev_task_cio_readv_dgram (c, v, 2, ad, yf, &O);
            break;
        case 6:
            r = hev_task_cio_flush (c, yf, &O);
            break;
        case 7:
            r = hev_task_cio_get_fd (c, 0);
            want = -1;
            break;
        case 8:
            r = hev_task_cio_get_fd (c, 1);
            want = -1;
            break;
        default:
            want = null ? 3 : -1;
            switch (kind) {
            case 9:
                r = hev_task_cio_write (c, b, 3, yf, &O);
                break;
            case 10:
                r = hev_task_cio_write_exact (c, b, 3, yf, &O);
                break;
            case 11:
                r = hev_task_cio_writev (c, v, 2, yf, &O);
                break;
            case 12:
                r = hev_task_cio_writev_exact (c, v, 2, yf, &O);
                break;
            case 13:
                r = hev_task_cio_write_dgram (c, b, 3, ad, yf, &O);
                break;
            case 14:
                r = hev_task_cio_writev_dgram (c, v, 2, ad, yf, &O);
                break;
            }
        }
        O.on = 0;
        MC_CHECK (r == want, "operation %d returned %d instead of %d", kind, r, want);
        MC_CHECK (b[0] == 9 && b[1] == 9 && b[2] == 9 && b[3] == 9, "the buffer changed");
        mc_outcome (null ? "null" : "no successor");
        finished++;
    }
    hev_object_unref (HEV_OBJECT (c));
    finished = 1;
}

static void
dead_block (void)
{
    MC_CHECK (!O.on, "an operation that can never complete waits");
}

static void
dead (void)
{
    start ();
    vk_on_block = dead_block;
    mc_on_idle = NULL;
    vk_env_count = NULL;
    c = INNER == 3 ? HEV_TASK_CIO (hev_task_cio_null_new ()) :
        mc_choose (2, "innermost layer") ? HEV_TASK_CIO (hev_task_cio_buffer_new (0, 0)) :
                                           cio_plain ();
    c = layers (c);
    t = h_task ();
    hev_task_run (t, dead_entry, NULL);
    stop ();
}

/* datagrams */
static int dg_len[8], dg_nin, dg_nread, dg_nout, dg_out[8], dg_taken;
static const int families[] = { AF_INET, AF_INET6, AF_UNIX }, dg_alens[] = { 16, 28, 110 };
static unsigned char dg_addr[110];
static int dg_alen;

static int
dg_count (void)
{
    struct vobj *o = vk_obj (E[0].fd);
    if (acts_left <= 0 || !o)
        return 0;
    return 4 + (o->nout > 0);
}

static void
dg_check_out (void)
{
    struct vobj *o = vk_obj (E[0].fd);
    struct vmsg *g = &o->out[0];
    int k;

    MC_CHECK (dg_taken < dg_nout, "a message was sent twice");
    MC_CHECK (g->len == dg_out[dg_taken] / 2, "message %d went out with %d bytes", dg_taken, g->len);
    MC_CHECK (g->alen == (dg_out[dg_taken] % 2 ? dg_alen : 0) && !memcmp (g->addr, dg_addr, g->alen),
              "message %d went to another address", dg_taken);
    for (k = 0; k < g->len; k++)
        MC_CHECK (g->d[k] == pout (dg_taken, k), "message %d was changed", dg_taken);
    for (k = 1; k < o->nout; k++)
        o->out[k - 1] = o->out[k];
    o->nout--;
    dg_taken++;
    vk_wake (o, POLLOUT);
}

static void
dg_do (int i)
{
    unsigned char d[4];
    int k;

    acts_left--;
    if (i == 4) {
        mc_ev ("a message is taken");
        dg_check_out ();
        return;
    }
    if (i == 3) {
        mc_ev ("error");
        E[0].err = ECONNREFUSED;
        vk_remote_err (E[0].fd, ECONNREFUSED);
        return;
    }
    mc_ev1 ("a message of %ld bytes arrives", i + 1);
    for (k = 0; k <= i; k++)
        d[k] = pin (dg_nin, k);
    dg_len[dg_nin] = i + 1;
    vk_remote_msg (E[0].fd, d, i + 1, dg_addr, dg_alen);
    dg_nin++;
}

static void
dg_block (void)
{
    if (!O.on)
        return;
    MC_CHECK (!O.with_yielder || O.yielding, "the task waits past its yielder");
    MC_CHECK (!(vk_poll_obj (vk_obj (E[0].fd)) & ((O.write ? POLLOUT : POLLIN) | POLLERR)),
              "the task waits although its operation would not block");
}

static void
dg_idle (void)
{
    dg_block ();
    mc_outcome ("waiting for ever");
    mc_done ();
}

static void
dg_entry (void *data)
{
    int k, j, y, a, kind, in0, out0;
    long r;

    MC_CHECK (hev_task_add_fd (t, E[0].fd, POLLIN | POLLOUT) == 0, "add_fd failed");
    for (k = 0; k < OPS; k++) {
        struct vobj *o = vk_obj (E[0].fd);
        unsigned char *b = hev_malloc (2), *ad = NULL;
        struct iovec v[2] = { { b, 1 }, { b + 1, 1 } };
        HevTaskIOYielder yf;

        kind = mc_choose (4, "operation");
        y = mc_choose (2, "with a yielder");
        a = mc_choose (2, "with an address");
        yf = y ? yielder : NULL;
        if (a) {
            ad = hev_malloc (dg_alen);
            memcpy (ad, dg_addr, dg_alen);
            if (kind < 2)
                memset (ad, 0, dg_alen);
        }
        for (j = 0; j < 2; j++)
            b[j] = kind < 2 ? 0xee : pout (dg_nout, j);
        memset (&O, 0, sizeof (O));
        O.write = kind >= 2;
        O.with_yielder = y;
        O.on = 1;
        in0 = dg_nin - o->nmsg;
        out0 = o->nout + dg_taken;
        mc_ev1 ("operation %ld", kind);
        switch (kind) {
        case 0:
            r = hev_task_cio_read_dgram (c, b, 2, ad, yf, &O);
            break;
        case 1:
            r = hev_task_cio_readv_dgram (c, v, 2, ad, yf, &O);
            break;
        case 2:
            r = hev_task_cio_write_dgram (c, b, 2, ad, yf, &O);
            break;
        default:
            r = hev_task_cio_writev_dgram (c, v, 2, ad, yf, &O);
        }
        O.on = 0;
        mc_ev2 ("returned %ld, err %ld", r, c->err);
        MC_CHECK (dg_nin - o->nmsg - in0 == (kind < 2 && r >= 0) &&
                      o->nout + dg_taken - out0 == (kind >= 2 && r >= 0),
                  "the messages moved do not match the result %ld", r);
        if (r >= 0 && kind < 2) {
            MC_CHECK (r == (dg_len[dg_nread] < 2 ? dg_len[dg_nread] : 2),
                      "a message of %d bytes was read as %ld", dg_len[dg_nread], r);
            for (j = 0; j < 2; j++)
                MC_CHECK (b[j] == (j < r ? pin (dg_nread, j) : 0xee), "byte %d is wrong", j);
            MC_CHECK (!a || !memcmp (ad, dg_addr, dg_alen), "the source address did not arrive");
            dg_nread++;
            mc_outcome ("received");
        }
        if (r >= 0 && kind >= 2) {
            MC_CHECK (r == 2, "a message of 2 bytes was sent as %ld", r);
            dg_out[dg_nout++] = 4 + a;
            mc_outcome ("sent");
        }
        if (r == -2) {
            MC_CHECK (O.stop, "-2 although the yielder did not ask to stop");
            mc_outcome ("stopped by the yielder");
        } else
            MC_CHECK (!O.stop, "the call went on after the yielder asked to stop");
        if (r == -1) {
            MC_CHECK (E[0].err && c->err == E[0].err, "the error is %d instead of %d", c->err,
                      E[0].err);
            E[0].err = 0;
            mc_outcome ("error");
        } else if (r >= 0)
            MC_CHECK (!E[0].err, "an error was not reported");
        hev_free (b);
        if (ad)
            hev_free (ad);
    }
    while (vk_obj (E[0].fd)->nout)
        dg_check_out ();
    MC_CHECK (dg_taken == dg_nout, "a message was lost");
    hev_object_unref (HEV_OBJECT (c));
    finished = 1;
}

static void
dgram (void)
{
    int k;

    start ();
    acts_left = ACTS;
    dg_nin = dg_nread = dg_nout = dg_taken = 0;
    vk_env_count = dg_count;
    vk_env_do = dg_do;
    vk_on_block = dg_block;
    mc_on_idle = dg_idle;
    ep_new (3, 1);
    dg_alen = dg_alens[FAMILY];
    for (k = 2; k < dg_alen; k++)
        dg_addr[k] = 'a' + k % 26;
    dg_addr[0] = families[FAMILY];
    dg_addr[1] = 0;
    c = layers (HEV_TASK_CIO (hev_task_cio_socket_new (families[FAMILY], E[0].fd)));
    t = h_task ();
    hev_task_run (t, dg_entry, NULL);
    stop ();
}

/* ---- long streams ---- */

#include "bulk.h"

static long
bulk_op (int write, struct iovec *v, int n)
{
    if (n == 1) {
        if (L.all)
            return write ? hev_task_cio_write_exact (c, v->iov_base, v->iov_len, NULL, NULL) :
                           hev_task_cio_read_exact (c, v->iov_base, v->iov_len, NULL, NULL);
        return write ? hev_task_cio_write (c, v->iov_base, v->iov_len, NULL, NULL) :
                       hev_task_cio_read (c, v->iov_base, v->iov_len, NULL, NULL);
    }
    if (L.all)
        return write ? hev_task_cio_writev_exact (c, v, n, NULL, NULL) :
                       hev_task_cio_readv_exact (c, v, n, NULL, NULL);
    return write ? hev_task_cio_writev (c, v, n, NULL, NULL) : hev_task_cio_readv (c, v, n, NULL, NULL);
}

static void
bulk_entry (void *data)
{
    int n = bulk_sizes[mc_choose (6, "size")], parts = bulk_parts[mc_choose (5, "parts")], k;

    L.all = mc_choose (2, "everything");
    c = mc_choose (2, "innermost layer") ? HEV_TASK_CIO (hev_task_cio_fd_new (E[0].fd, E[0].fd)) :
                                           HEV_TASK_CIO (hev_task_cio_socket_new (AF_INET, E[0].fd));
    MC_CHECK (c && hev_task_add_fd (L.t, E[0].fd, POLLIN | POLLOUT) == 0, "add_fd failed");
    L.in_total = 3l * n + 17;
    for (k = 0; k < 3; k++)
        bulk_one (1, n, parts);
    while (bulk_one (0, n, parts))
        ;
    MC_CHECK (E[0].got == L.in_total, "%ld bytes of input", E[0].got);
    bulk_take (0, VBUF_BIG);
    MC_CHECK (E[0].taken == E[0].put, "%ld of %ld bytes went out", E[0].taken, E[0].put);
    hev_object_unref (HEV_OBJECT (c));
    L.done = 1;
}

static void
bulk (void)
{
    bulk_start (bulk_entry, 1);
    bulk_end ();
}

const struct mc_scen mc_scenarios[] = {
    { "socket", stream, MC_BOTH, { 1, 5, 0, 2, 0, 0, 7 } },
    { "socket-two", stream, MC_BOTH, { 2, 3, 0, 0, 0, 0, 7 } },
    { "fds-two", stream, MC_BOTH, { 2, 3, 1, 1, 0, 0, 5 } },
    { "fds", stream, MC_BOTH, { 1, 4, 1, 1, 0, 0, 7 } },
    { "one-fd", stream, MC_BOTH, { 1, 4, 2, 0, 0, 0, 7 } },
    { "short", stream, MC_BOTH, { 1, 4, 0, 1, 1, 0, 7 }, .env_budget = 3 },
    { "ready", stream, MC_BOTH, { 1, 3, 0, 0, 0, 1, 5 }, .env_budget = 2 },
    { "null", dead, MC_BOTH, { 2, 0, 3, 2 } },
    { "no-successor", dead, MC_BOTH, { 2, 0, 4, 2 } },
    { "datagrams", dgram, MC_BOTH, { 3, 3, 0, 1 } },
    { "datagrams-inet6", dgram, MC_BOTH, { 2, 2, 0, 1, 1 } },
    { "datagrams-unix", dgram, MC_BOTH, { 2, 2, 0, 1, 2 } },
    { "socket-deep", stream, MC_THOROUGH, { 2, 4, 0, 1, 0, 0, 7 } },
    { "fds-deep", stream, MC_THOROUGH, { 2, 4, 1, 0, 1, 0, 5 }, .env_budget = 2 },
    { "datagrams-deep", dgram, MC_THOROUGH, { 3, 4, 0, 1 } },
    { "bulk", bulk, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
