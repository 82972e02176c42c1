/* Long streams and long vectors: sizes are taken from small alphabets in all
 * combinations, the far end sends and takes fixed portions. The harness gives
 * bulk_op. */
static struct bulk
{
    long in_total;           /* bytes the far end sends before the end */
    int in_chunk, out_chunk; /* its portions */
    int on, write, all;      /* the operation under way, 1: it transfers everything */
    int hold;                /* a layer may keep bytes */
    long c0, p0, total;
    HevTask *t;
    int done;
} L;

static int bulk_open[MAXE]; /* this input has no end */

static unsigned char
bulk_byte (long n)
{
    return (n * 2654435761ul) >> 13;
}

static int
bulk_rounds (int e)
{
    struct vobj *o = vk_obj (E[e].fd);
    if (!o)
        return 0;
    if (o->rx && !E[e].eof && o->rx->len < o->rx->cap &&
        (!bulk_open[e] || E[e].arrived < L.in_total / 2))
        return 1;
    return o->tx && o->tx->len;
}

static int
bulk_count (void)
{
    int e, n = 0;
    for (e = 0; e < ne; e++)
        n |= bulk_rounds (e);
    return n;
}

/* everything that the library wrote comes in order; forwarded or own output
 * has the same bytes */
static void
bulk_take (int e, int max)
{
    static unsigned char d[VBUF_BIG];
    int k, n = vk_remote_take (E[e].fd, d, max);

    for (k = 0; k < n; k++)
        MC_CHECK (d[k] == bulk_byte (E[e].taken + k), "output byte %ld is wrong", E[e].taken + k);
    E[e].taken += n;
}

static void
bulk_do (int i)
{
    static unsigned char d[VBUF_BIG];
    int e, k;

    for (e = 0; e < ne; e++) {
        struct vobj *o = vk_obj (E[e].fd);
        if (!o)
            continue;
        if (o->tx && o->tx->len)
            bulk_take (e, L.out_chunk);
        if (!o->rx || E[e].eof)
            continue;
        if (E[e].arrived < (bulk_open[e] ? L.in_total / 2 : L.in_total)) {
            int n = L.in_chunk;
            if (n > o->rx->cap - o->rx->len)
                n = o->rx->cap - o->rx->len;
            if (n > L.in_total - E[e].arrived)
                n = L.in_total - E[e].arrived;
            for (k = 0; k < n; k++)
                d[k] = bulk_byte (E[e].arrived + k);
            E[e].arrived += n;
            vk_remote_send (E[e].fd, d, n);
        } else if (!bulk_open[e]) {
            E[e].eof = 1;
            vk_remote_eof (E[e].fd);
        }
    }
}

static void
bulk_block (void)
{
    struct vobj *o = vk_obj (E[0].fd);
    long n;

    if (!L.on || !o)
        return;
    n = ep_consumed (0) - L.c0 + ep_produced (0) - L.p0;
    if (!L.hold)
        MC_CHECK (L.all ? n < L.total : !n, "the task waits after %ld of %ld bytes", n, L.total);
    MC_CHECK (!(vk_poll_obj (o) & (L.write ? POLLOUT : POLLIN)),
              "the task waits although its operation would not block");
}

static void
bulk_idle (void)
{
    mc_fail ("the task waits for ever");
}

static long bulk_op (int write, struct iovec *v, int n);

/* one operation on n bytes in so many parts */
static long
bulk_one (int write, long n, int parts)
{
    struct iovec *v = vk_malloc (sizeof (*v) * parts), *v0 = vk_malloc (sizeof (*v) * parts);
    long k, j, r, x = 0, at = write ? E[0].put : E[0].got;

    for (k = 0; k < parts; k++) {
        /* uneven parts, some of them empty */
        long left = n - x, s = k == parts - 1 ? left : n / parts * (k % 3);
        if (s > left)
            s = left;
        v[k].iov_len = s;
        v[k].iov_base = s ? vk_malloc (s) : NULL;
        for (j = 0; j < s; j++, x++)
            ((unsigned char *)v[k].iov_base)[j] = write ? bulk_byte (at + x) : 0xee;
    }
    memcpy (v0, v, sizeof (*v) * parts);
    L.write = write;
    L.total = n;
    L.c0 = ep_consumed (0);
    L.p0 = ep_produced (0);
    L.on = 1;
    r = bulk_op (write, v, parts);
    L.on = 0;
    mc_evx (write ? "write of %ld in %ld parts returned %ld" : "read of %ld in %ld parts returned %ld",
            n, parts, r);
    MC_CHECK (r >= 0 && r <= n, "%ld was returned for %ld bytes", r, n);
    if (!L.hold) {
        long m = write ? ep_produced (0) - L.p0 : ep_consumed (0) - L.c0;
        MC_CHECK (m == r, "%ld bytes were transferred, but the call returned %ld", m, r);
    }
    MC_CHECK (!memcmp (v, v0, sizeof (*v) * parts), "the caller's vector changed");
    for (k = 0, x = 0; k < parts; k++) {
        unsigned char *d = v[k].iov_base;
        for (j = 0; j < (long)v[k].iov_len; j++, x++)
            MC_CHECK (d[j] == (write || x < r ? bulk_byte (at + x) : 0xee),
                      "byte %ld of part %ld is wrong", j, k);
        if (d)
            vk_free (d);
    }
    vk_free (v);
    vk_free (v0);
    if (write) {
        MC_CHECK (r > 0 && (!L.all || r == n), "%ld of %ld bytes were written", r, n);
        E[0].put += r;
    } else {
        E[0].got += r;
        if (r < n && (L.all || !r))
            MC_CHECK (E[0].got == L.in_total && E[0].eof, "%ld of %ld bytes were read before the end",
                      r, n);
    }
    return r;
}

static const int bulk_sizes[] = { 100, 257, 4096, 65535, 65536, 70001 };
static const int bulk_parts[] = { 1, 2, 17, 64, 1024 };
static const int bulk_chunks[] = { 300, 4097, VBUF_BIG };

static void
bulk_start (HevTaskEntry entry, int ends)
{
    io_reset ();
    memset (&L, 0, sizeof (L));
    memset (bulk_open, 0, sizeof (bulk_open));
    vk_big = VBUF_BIG;
    vk_env_count = bulk_count;
    vk_env_do = bulk_do;
    vk_on_block = bulk_block;
    mc_on_idle = bulk_idle;
    L.in_chunk = bulk_chunks[mc_choose (3, "portion of input")];
    L.out_chunk = bulk_chunks[mc_choose (3, "portion of output")];
    mc_ev2 ("portions of %ld and %ld bytes", L.in_chunk, L.out_chunk);
    h_init ();
    if (ends)
        ep_new (0, mc_choose (2, "room for output") ? 1000 : 70000);
    L.t = hev_task_new (262144);
    MC_CHECK (L.t, "hev_task_new failed");
    hev_task_run (L.t, entry, NULL);
}

static void
bulk_end (void)
{
    int e;

    hev_task_system_run ();
    MC_CHECK (L.done, "run returned before the task ended");
    for (e = 0; e < ne; e++)
        if (vk_is_open (E[e].fd)) {
            if (vk_obj (E[e].fd)->tx)
                bulk_take (e, VBUF_BIG);
            vk_close_user (E[e].fd);
        }
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("bulk transfer");
}
