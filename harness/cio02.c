/* O02: the buffer layer. P0 operations, P1 actions of the environment, P2 and
 * P3 sizes of the read and write buffer, P4 100 * r + w + 1: another buffer
 * layer with sizes r and w below, P5 1: transfers may be short, P6 operations:
 * 0 all 1 reads 2 writes, P7 bytes of input at the start. */
#include "cio.h"

const char mc_property[] = "O02";

#define OPS P (0)
#define ACTS P (1)
#define RSIZE P (2)
#define WSIZE P (3)
#define NESTED P (4)
#define SHORT P (5)
#define ALPH P (6)

static HevTaskCIO *c;
static int reset_noticed, lost;

static void
on_block (void)
{
    int m;

    if (!O.on)
        return;
    MC_CHECK (!O.with_yielder || O.yielding, "the task waits past its yielder");
    m = vk_poll_obj (vk_obj (E[0].fd));
    if (O.write) {
        MC_CHECK (!(m & (POLLOUT | POLLERR | POLLHUP)), "the task waits although output is possible");
        MC_CHECK (!O.flush || ep_produced (0) < E[0].put, "flush waits although nothing is pending");
        MC_CHECK (!O.flush || !E[0].gone, "flush waits although output failed");
    } else {
        MC_CHECK (!(m & (POLLIN | POLLERR | POLLHUP)), "the task waits although there is input");
        MC_CHECK (O.exact || ep_consumed (0) == E[0].got, "the task waits although %ld bytes are buffered",
                  ep_consumed (0) - E[0].got);
    }
}

static void
idle (void)
{
    on_block ();
    MC_CHECK (O.on, "the task is waiting outside of an operation");
    mc_outcome ("waiting for ever");
    mc_done ();
}

static void
check_sizes (void)
{
    long rb = RSIZE + (NESTED ? (NESTED - 1) / 100 : 0);
    long wb = WSIZE + (NESTED ? (NESTED - 1) % 100 : 0);
    long r = ep_consumed (0) - E[0].got, w = E[0].put - ep_produced (0);
    MC_CHECK (r >= 0 && r <= rb, "%ld bytes are held back from the reader", r);
    MC_CHECK (w >= 0 && w <= wb, "%ld bytes are held back from the inner layer", w);
}

/* an error that an operation met */
static int
met_error (void)
{
    struct vobj *o = vk_obj (E[0].fd);
    return E[0].err && !o->err;
}

static void
peek (int vec)
{
    unsigned char b[8];
    struct iovec v[2];
    long r, k, j, n = 0, arrived = E[0].arrived, had = ep_consumed (0) - E[0].got;
    struct vobj *o = vk_obj (E[0].fd);
    int cnt = 1 + 2 * mc_choose (2, "size");

    (void)arrived;
    memset (b, 0xee, sizeof (b));
    if (vec) {
        r = hev_task_cio_buffer_peekv (HEV_TASK_CIO_BUFFER (c), v);
        if (RSIZE) {
            MC_CHECK (r >= 0 && r <= 2, "peekv returned %ld", r);
            for (k = 0; k < r; k++)
                for (j = 0; j < (long)v[k].iov_len; j++, n++) {
                    MC_CHECK (n < 8, "peekv shows too much");
                    mc_mem_check (v[k].iov_base, v[k].iov_len, 0, "peekv");
                    b[n] = ((unsigned char *)v[k].iov_base)[j];
                }
            r = n;
            cnt = RSIZE;
        }
    } else
        r = hev_task_cio_buffer_peek (HEV_TASK_CIO_BUFFER (c), b, cnt);
    mc_ev2 ("peek of %ld returned %ld", cnt, r);
    if (!RSIZE) {
        MC_CHECK (r == -1, "peek without a buffer returned %ld", r);
        return;
    }
    MC_CHECK (r >= 0 && r <= cnt, "peek returned %ld", r);
    for (k = 0; k < 8; k++)
        MC_CHECK (b[k] == (k < r ? pin (0, E[0].got + k) : 0xee), "peeked byte %ld is wrong", k);
    if (NESTED && had > RSIZE)
        had = RSIZE;
    MC_CHECK (r >= (had < cnt ? had : cnt), "peek showed %ld of %ld buffered bytes", r, had);
    if (!SHORT && !NESTED && !E[0].errs)
        MC_CHECK (r == cnt || r == RSIZE || !o->rx->len, "peek showed %ld bytes although there are more",
                  r);
    if (met_error ())
        E[0].err = 0;
    mc_outcome (r ? "peeked" : "nothing to peek");
    check_sizes ();
}

static void
one (void)
{
    int kind, sh, k, j, wr, exact, vec, total, y = 0;
    struct iovec v[4], v0[4];
    unsigned char *buf[4];
    long r, n;
    HevTaskIOYielder yf;

    memset (&O, 0, sizeof (O));
    if (ALPH == 0)
        kind = mc_choose (11, "operation");
    else if (ALPH == 1)
        kind = mc_choose (6, "operation") * 2;
    else
        kind = mc_choose (5, "operation") * 2 + 1;
    if (kind == 8 || kind == 10) {
        peek (kind == 10);
        return;
    }
    y = mc_choose (2, "with a yielder");
    yf = y ? yielder : NULL;
    O.with_yielder = y;
    if (kind == 9) {
        O.flush = O.write = O.on = 1;
        mc_ev ("flush");
        r = hev_task_cio_flush (c, yf, &O);
        O.on = 0;
        mc_ev2 ("flush returned %ld, err %ld", r, r == -1 ? c->err : 0);
        check_sizes ();
        if (r == -2) {
            MC_CHECK (O.stop, "-2 although the yielder did not ask to stop");
            return;
        }
        MC_CHECK (!O.stop, "the call went on after the yielder asked to stop");
        if (r == 0) {
            MC_CHECK (ep_produced (0) == E[0].put, "flush succeeded with %ld bytes pending",
                      E[0].put - ep_produced (0));
            mc_outcome (O.p0 == ep_produced (0) ? "nothing to flush" : "flushed");
            return;
        }
        MC_CHECK (r == -1, "flush returned %ld", r);
        MC_CHECK (met_error () ? c->err == E[0].err : E[0].gone && c->err == EPIPE,
                  "flush failed with error %d", c->err);
        if (met_error ())
            E[0].err = 0;
        mc_outcome ("flush failed");
        return;
    }
    wr = kind & 1;
    exact = !!(kind & 2);
    vec = !!(kind & 4);
    sh = vec ? 2 + mc_choose (3, "vector") : mc_choose (2, "size");
    for (k = 0, n = 0; k < shapes[sh].n; k++) {
        v[k].iov_len = shapes[sh].v[k];
        v[k].iov_base = buf[k] = v[k].iov_len ? hev_malloc (v[k].iov_len) : NULL;
        for (j = 0; j < shapes[sh].v[k]; j++, n++)
            buf[k][j] = wr ? pout (0, E[0].put + n) : 0xee;
    }
    memcpy (v0, v, sizeof (v));
    total = n;
    O.write = wr;
    O.exact = exact;
    O.total = total;
    O.on = 1;
    mc_ev2 ("operation %ld of %ld bytes", kind, total);
    switch (kind) {
    case 0:
        r = hev_task_cio_read (c, buf[0], total, yf, &O);
        break;
    case 1:
        r = hev_task_cio_write (c, buf[0], total, yf, &O);
        break;
    case 2:
        r = hev_task_cio_read_exact (c, buf[0], total, yf, &O);
        break;
    case 3:
        r = hev_task_cio_write_exact (c, buf[0], total, yf, &O);
        break;
    case 4:
        r = hev_task_cio_readv (c, v, shapes[sh].n, yf, &O);
        break;
    case 5:
        r = hev_task_cio_writev (c, v, shapes[sh].n, yf, &O);
        break;
    case 6:
        r = hev_task_cio_readv_exact (c, v, shapes[sh].n, yf, &O);
        break;
    default:
        r = hev_task_cio_writev_exact (c, v, shapes[sh].n, yf, &O);
    }
    O.on = 0;
    mc_ev2 ("returned %ld, err %ld", r, r == -1 ? c->err : 0);

    MC_CHECK (r <= total, "the call returned %ld for %d bytes", r, total);
    MC_CHECK (!memcmp (v, v0, sizeof (v[0]) * shapes[sh].n), "the caller's vector changed");
    if (r != -2) {
        long x = 0;
        for (k = 0; k < shapes[sh].n; k++)
            for (j = 0; j < shapes[sh].v[k]; j++, x++) {
                unsigned char want = wr    ? pout (0, E[0].put + x) :
                                     x < r ? pin (0, E[0].got + x) :
                                             0xee;
                MC_CHECK (buf[k][j] == want, "byte %d of element %d is %d instead of %d", j, k,
                          buf[k][j], want);
            }
    }
    for (k = 0; k < shapes[sh].n; k++)
        if (buf[k])
            hev_free (buf[k]);
    if (r == -2) {
        MC_CHECK (O.stop, "-2 although the yielder did not ask to stop");
        mc_outcome ("stopped by the yielder");
        if (exact)
            lost = 1; /* how much was moved is not known */
        else
            check_sizes ();
        return;
    }
    MC_CHECK (!O.stop, "the call went on after the yielder asked to stop");
    if (r > 0) {
        if (wr)
            E[0].put += r;
        else
            E[0].got += r;
    }
    check_sizes ();
    if (r == -1) {
        if (met_error ()) {
            MC_CHECK (c->err == E[0].err, "the error is %d instead of %d", c->err, E[0].err);
            E[0].err = 0;
        } else
            MC_CHECK (wr && E[0].gone && c->err == EPIPE, "the call failed with error %d", c->err);
        MC_CHECK (wr || ep_consumed (0) == E[0].got, "an error came before the buffered data");
        mc_outcome ("error");
        return;
    }
    MC_CHECK (r >= 0, "the call returned %ld", r);
    if (exact && r < total) {
        MC_CHECK (met_error () || (wr ? E[0].gone : E[0].eof && ep_consumed (0) == E[0].got),
                  "only %ld of %d bytes although all were requested", r, total);
        mc_outcome ("cut short");
    } else if (r == 0) {
        MC_CHECK (!wr && E[0].eof && ep_consumed (0) == E[0].got,
                  "0 was returned before the end of input");
        mc_outcome ("end of input");
    } else
        mc_outcome (r < total ? "partial" : "complete");
    /* an error met after some bytes is not reported, what follows is the end */
    if (met_error ())
        E[0].err = 0;
}

static void
entry (void *data)
{
    int k;

    MC_CHECK (hev_task_add_fd (t, E[0].fd, POLLIN | POLLOUT) == 0, "add_fd failed");
    for (k = 0; k < OPS && !lost; k++)
        one ();
    if (!lost && !E[0].gone)
        io_take (0, VBUF_MAX);
    hev_object_unref (HEV_OBJECT (c));
    MC_CHECK (!vk_is_open (E[0].fd), "the descriptor of the innermost layer is still open");
    finished = 1;
}

static void
run (void)
{
    HevTaskCIO *x;

    io_reset ();
    resets = 1;
    memset (&O, 0, sizeof (O));
    finished = nplain = lost = reset_noticed = 0;
    vk_on_block = on_block;
    mc_on_idle = idle;
    acts_left = ACTS;
    vk_short_io = SHORT;
    h_init ();
    ep_new (0, 2);
    c = HEV_TASK_CIO (hev_task_cio_socket_new (AF_UNIX, E[0].fd));
    if (NESTED) {
        x = HEV_TASK_CIO (hev_task_cio_buffer_new ((NESTED - 1) / 100, (NESTED - 1) % 100));
        c = hev_task_cio_push (x, c);
    }
    x = HEV_TASK_CIO (hev_task_cio_buffer_new (RSIZE, WSIZE));
    c = hev_task_cio_push (x, c);
    if (P (7))
        io_arrive (0, P (7));
    t = h_task ();
    hev_task_run (t, entry, NULL);
    hev_task_system_run ();
    MC_CHECK (finished, "run returned before the task ended");
    h_fini ();
    mc_leak_check ("fini");
}

#define N(r, w) (100 * (r) + (w) + 1)

/* ---- long streams ---- */

#include "bulk.h"

static long
bulk_op (int write, struct iovec *v, int n)
{
    if (n == 1) {
        if (L.all)
            return write ? hev_task_cio_write_exact (c, v->iov_base, v->iov_len, NULL, NULL) :
                           hev_task_cio_read_exact (c, v->iov_base, v->iov_len, NULL, NULL);
        return write ? hev_task_cio_write (c, v->iov_base, v->iov_len, NULL, NULL) :
                       hev_task_cio_read (c, v->iov_base, v->iov_len, NULL, NULL);
    }
    if (L.all)
        return write ? hev_task_cio_writev_exact (c, v, n, NULL, NULL) :
                       hev_task_cio_readv_exact (c, v, n, NULL, NULL);
    return write ? hev_task_cio_writev (c, v, n, NULL, NULL) : hev_task_cio_readv (c, v, n, NULL, NULL);
}

static void
bulk_entry (void *data)
{
    static const int sizes[5][2] = { { 16, 256 }, { 257, 17 }, { 4096, 65536 }, { 65536, 4097 },
                                     { 70000, 70000 } };
    int pair = mc_choose (5, "buffers"), rsize = sizes[pair][0], wsize = sizes[pair][1], k;
    int n = bulk_sizes[pair < 2 ? mc_choose (3, "size") : mc_choose (6, "size")];
    int parts = bulk_parts[mc_choose (3, "parts")];
    HevTaskCIO *x;

    L.all = mc_choose (2, "everything");
    L.hold = 1;
    mc_ev2 ("buffers of %ld and %ld bytes", rsize, wsize);
    x = HEV_TASK_CIO (hev_task_cio_buffer_new (rsize, wsize));
    c = hev_task_cio_push (x, HEV_TASK_CIO (hev_task_cio_socket_new (AF_INET, E[0].fd)));
    MC_CHECK (c && hev_task_add_fd (L.t, E[0].fd, POLLIN | POLLOUT) == 0, "add_fd failed");
    L.in_total = 3l * n + 17;
    for (k = 0; k < 3; k++) {
        bulk_one (1, n, parts);
        MC_CHECK (E[0].put - ep_produced (0) >= 0 && E[0].put - ep_produced (0) <= wsize,
                  "%ld bytes are held back from the inner layer", E[0].put - ep_produced (0));
        if (k == 1) {
            MC_CHECK (hev_task_cio_flush (c, NULL, NULL) == 0, "flush failed");
            MC_CHECK (E[0].put == ep_produced (0), "flush left %ld bytes", E[0].put - ep_produced (0));
        }
    }
    MC_CHECK (hev_task_cio_flush (c, NULL, NULL) == 0, "flush failed");
    MC_CHECK (E[0].put == ep_produced (0), "flush left %ld bytes", E[0].put - ep_produced (0));
    for (k = 0; bulk_one (0, n, parts); k++) {
        long held = ep_consumed (0) - E[0].got;
        MC_CHECK (held >= 0 && held <= rsize, "%ld bytes are held back from the reader", held);
        if (k == 0 && held) {
            static unsigned char d[70000];
            long r = hev_task_cio_buffer_peek (HEV_TASK_CIO_BUFFER (c), d, held), j;
            MC_CHECK (r == held, "peek showed %ld of %ld buffered bytes", r, held);
            for (j = 0; j < r; j++)
                MC_CHECK (d[j] == bulk_byte (E[0].got + j), "peeked byte %ld is wrong", j);
        }
    }
    MC_CHECK (E[0].got == L.in_total, "%ld bytes of input", E[0].got);
    bulk_take (0, VBUF_BIG);
    MC_CHECK (E[0].taken == E[0].put, "%ld of %ld bytes went out", E[0].taken, E[0].put);
    hev_object_unref (HEV_OBJECT (c));
    L.done = 1;
}

static void
bulk (void)
{
    bulk_start (bulk_entry, 1);
    bulk_end ();
}

const struct mc_scen mc_scenarios[] = {
    { "both", run, MC_BOTH, { 2, 3, 2, 2, 0, 0, 0, 0 } },
    { "both-input", run, MC_BOTH, { 3, 1, 2, 2, 0, 0, 0, 3 } },
    { "reads", run, MC_BOTH, { 3, 2, 2, 0, 0, 0, 1, 0 } },
    { "reads-input", run, MC_BOTH, { 4, 1, 2, 0, 0, 0, 1, 5 } },
    { "reads-input-3", run, MC_BOTH, { 4, 1, 3, 0, 0, 0, 1, 5 } },
    { "writes", run, MC_BOTH, { 3, 3, 0, 2, 0, 0, 2, 0 } },
    { "writes-4", run, MC_BOTH, { 3, 3, 1, 4, 0, 0, 2, 0 } },
    { "writes-long", run, MC_BOTH, { 4, 1, 1, 3, 0, 0, 2, 0 } },
    { "nested-reads", run, MC_BOTH, { 3, 1, 2, 0, N (3, 0), 0, 1, 6 } },
    { "nested-reads-less", run, MC_BOTH, { 3, 1, 3, 0, N (2, 0), 0, 1, 6 } },
    { "nested-writes", run, MC_BOTH, { 3, 3, 0, 4, N (0, 2), 0, 2, 0 } },
    { "nested-writes-more", run, MC_BOTH, { 3, 3, 0, 2, N (0, 3), 0, 2, 0 } },
    { "nested-none", run, MC_BOTH, { 2, 2, 2, 2, N (0, 0), 0, 0, 0 } },
    { "no-buffers", run, MC_BOTH, { 2, 3, 0, 0, 0, 0, 0, 2 } },
    { "reads-none", run, MC_BOTH, { 3, 2, 0, 2, 0, 0, 1, 2 } },
    { "writes-none", run, MC_BOTH, { 3, 2, 2, 0, 0, 0, 2, 0 } },
    { "short", run, MC_BOTH, { 2, 3, 3, 3, 0, 1, 0, 2 }, .env_budget = 2 },
    { "short-nested", run, MC_BOTH, { 2, 2, 3, 3, N (2, 2), 1, 0, 2 }, .env_budget = 2 },
    { "both-deep", run, MC_THOROUGH, { 3, 4, 2, 2, 0, 0, 0, 1 } },
    { "reads-deep", run, MC_THOROUGH, { 4, 3, 3, 0, 0, 0, 1, 4 } },
    { "writes-deep", run, MC_THOROUGH, { 4, 4, 0, 3, 0, 0, 2, 0 } },
    { "nested-deep", run, MC_THOROUGH, { 3, 3, 3, 3, N (2, 2), 0, 0, 2 } },
    { "bulk", bulk, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
