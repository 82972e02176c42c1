/* B01: circular buffer as a byte queue. Capacities P0..P1, P2 operations. P3 1:
 * a write may be finished after other operations. P4 1: huge capacities. */
#include "h.h"
#include <hev-circular-buffer.h>
#include <hev-memory-allocator.h>

const char mc_property[] = "B01";

#define CMIN P (0)
#define CMAX P (1)
#define OPS P (2)
#define OPEN P (3)
#define HUGE_CAP P (4)

static HevCircularBuffer *b;
static unsigned char q[64]; /* unread bytes */
static int nq, cap, refs;
static unsigned char seq;

static void
inside (struct iovec *v, int n)
{
    int i;
    MC_CHECK (n >= 0 && n <= 2, "%d segments", n);
    for (i = 0; i < n; i++) {
        MC_CHECK (v[i].iov_len > 0 && v[i].iov_len <= (size_t)cap, "a segment of %zu bytes",
                  v[i].iov_len);
        MC_CHECK (mc_mem_ok (v[i].iov_base, v[i].iov_len), "a segment outside of the buffer");
        MC_CHECK ((uintptr_t)v[i].iov_base > (uintptr_t)b, "a segment outside of the buffer");
    }
}

static size_t
total (struct iovec *v, int n)
{
    size_t s = 0;
    while (n--)
        s += v[n].iov_len;
    return s;
}

static unsigned char *
at (struct iovec *v, size_t k)
{
    if (k < v[0].iov_len)
        return (unsigned char *)v[0].iov_base + k;
    return (unsigned char *)v[1].iov_base + (k - v[0].iov_len);
}

static int
start_read (struct iovec *v)
{
    int n = hev_circular_buffer_reading (b, v), k;

    inside (v, n);
    MC_CHECK (total (v, n) == (size_t)nq, "%zu bytes can be read, not %d", total (v, n), nq);
    for (k = 0; k < nq; k++)
        MC_CHECK (*at (v, k) == q[k], "byte %d of the unread ones is wrong", k);
    return n;
}

static int
start_write (struct iovec *v)
{
    int n = hev_circular_buffer_writing (b, v), i, j, rn;
    struct iovec r[2];

    inside (v, n);
    MC_CHECK (total (v, n) == (size_t)(cap - nq), "%zu bytes can be written, not %d",
              total (v, n), cap - nq);
    rn = hev_circular_buffer_reading (b, r);
    for (i = 0; i < n; i++) {
        for (j = 0; j < rn; j++)
            MC_CHECK ((char *)v[i].iov_base + v[i].iov_len <= (char *)r[j].iov_base ||
                          (char *)r[j].iov_base + r[j].iov_len <= (char *)v[i].iov_base,
                      "free space and unread bytes overlap");
        for (j = 0; j < i; j++)
            MC_CHECK ((char *)v[i].iov_base + v[i].iov_len <= (char *)v[j].iov_base ||
                          (char *)v[j].iov_base + v[j].iov_len <= (char *)v[i].iov_base,
                      "the writing segments overlap");
    }
    return n;
}

static void
check (void)
{
    struct iovec v[2];
    MC_CHECK (hev_circular_buffer_get_use_size (b) == (size_t)nq, "use size is %zu, not %d",
              hev_circular_buffer_get_use_size (b), nq);
    MC_CHECK (hev_circular_buffer_get_max_size (b) == (size_t)cap, "max size is %zu, not %d",
              hev_circular_buffer_get_max_size (b), cap);
    start_read (v);
    start_write (v);
}

static void
run (void)
{
    int k, open = 0, on = 0, j;
    struct iovec ov[2];

    nq = 0;
    seq = 1;
    refs = 1;
    h_init ();
    if (HUGE_CAP) {
        static const size_t c[] = { (size_t)-1, (size_t)-16, (size_t)-32, (size_t)-33,
                                    (size_t)-40, (size_t)-64 };
        k = mc_choose (6, "capacity");
        b = hev_circular_buffer_new (c[k]);
        mc_ev2 ("new buffer of %lx: %ld", c[k], !!b);
        MC_CHECK (!b, "a buffer of %zu bytes was created", c[k]);
        h_fini ();
        mc_leak_check ("fini");
        return;
    }
    cap = CMIN + mc_choose (CMAX - CMIN + 1, "capacity");
    b = hev_circular_buffer_new (cap);
    MC_CHECK (b, "no buffer");
    mc_ev1 ("buffer of %ld bytes", cap);
    check ();
    for (k = 0; k < OPS; k++) {
        int op[64], a[64], n = 0, c;
        struct iovec v[2];
        for (j = 0; j <= (open ? -1 : cap - nq); j++)
            op[n] = 0, a[n++] = j;
        for (j = 0; j <= nq; j++)
            op[n] = 1, a[n++] = j;
        if (OPEN && !open)
            op[n] = 2, n++;
        for (j = 0; open && j <= on; j++)
            op[n] = 3, a[n++] = j;
        if (refs < 3)
            op[n] = 4, n++;
        if (refs > 1)
            op[n] = 5, n++;
        c = mc_choose (n, "operation");
        switch (op[c]) {
        case 0:
            mc_ev1 ("write %ld", a[c]);
            start_write (v);
            for (j = 0; j < a[c]; j++)
                q[nq + j] = *at (v, j) = seq++;
            hev_circular_buffer_write_finish (b, a[c]);
            nq += a[c];
            mc_outcome (a[c] ? "written" : "nothing written");
            break;
        case 1:
            mc_ev1 ("read %ld", a[c]);
            start_read (v);
            hev_circular_buffer_read_finish (b, a[c]);
            memmove (q, q + a[c], nq - a[c]);
            nq -= a[c];
            mc_outcome (a[c] ? "read" : "nothing read");
            break;
        case 2:
            mc_ev ("start to write");
            start_write (ov);
            on = cap - nq;
            open = 1;
            break;
        case 3:
            mc_ev1 ("finish the write of %ld", a[c]);
            for (j = 0; j < a[c]; j++)
                q[nq + j] = *at (ov, j) = seq++;
            hev_circular_buffer_write_finish (b, a[c]);
            nq += a[c];
            open = 0;
            mc_outcome ("written later");
            break;
        case 4:
            mc_ev ("ref");
            MC_CHECK (hev_circular_buffer_ref (b) == b, "ref returned another buffer");
            refs++;
            break;
        case 5:
            mc_ev ("unref");
            hev_circular_buffer_unref (b);
            refs--;
            break;
        }
        MC_CHECK (mc_mem_ok (b, 1), "the buffer was freed although it is referenced");
        check ();
    }
    while (refs--) {
        MC_CHECK (mc_mem_ok (b, 1), "the buffer was freed although it is referenced");
        hev_circular_buffer_unref (b);
    }
    MC_CHECK (!mc_mem_ok (b, 1), "the buffer was not freed");
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- larger buffers, filled and emptied in bursts ---- */

static unsigned char big[100001];

static int
burst (int c, int max)
{
    int n = c == 0 ? 1 : c == 1 ? cap / 3 : c == 2 ? cap - 1 : c == 3 ? cap : 7;
    return n < max ? n : max;
}

static void
check_large (void)
{
    struct iovec v[2];
    int n, k, o = 0;

    MC_CHECK (hev_circular_buffer_get_use_size (b) == (size_t)nq, "use size is %zu, not %d",
              hev_circular_buffer_get_use_size (b), nq);
    MC_CHECK (hev_circular_buffer_get_max_size (b) == (size_t)cap, "max size is %zu, not %d",
              hev_circular_buffer_get_max_size (b), cap);
    n = hev_circular_buffer_reading (b, v);
    inside (v, n);
    MC_CHECK (total (v, n) == (size_t)nq, "%zu bytes can be read, not %d", total (v, n), nq);
    for (k = 0; k < n; o += v[k++].iov_len)
        MC_CHECK (!memcmp (v[k].iov_base, big + o, v[k].iov_len), "the unread bytes are wrong");
    start_write (v);
}

static void
large (void)
{
    static const int caps[] = { 31, 64, 127, 128, 255, 256, 257, 4095, 4096, 4097, 65535, 65536,
                                65537, 100000 };
    int c[4], k, j;
    struct iovec v[2];

    nq = 0;
    seq = 1;
    cap = caps[mc_choose (14, "capacity")];
    for (k = 0; k < 4; k++)
        c[k] = mc_choose (5, "burst");
    mc_ev1 ("buffer of %ld bytes", cap);
    h_init ();
    b = hev_circular_buffer_new (cap);
    MC_CHECK (b, "no buffer");
    for (k = 0; k < 6; k++) {
        int n = burst (c[k % 4], cap - nq);
        mc_ev1 ("write %ld", n);
        start_write (v);
        for (j = 0; j < n; j++, seq += 1 + (j % 255 == 0))
            big[nq + j] = *at (v, j) = seq;
        hev_circular_buffer_write_finish (b, n);
        nq += n;
        check_large ();
        n = burst (c[(k + 1) % 4], nq);
        mc_ev1 ("read %ld", n);
        hev_circular_buffer_reading (b, v);
        hev_circular_buffer_read_finish (b, n);
        memmove (big, big + n, nq - n);
        nq -= n;
        check_large ();
    }
    hev_circular_buffer_unref (b);
    MC_CHECK (!mc_mem_ok (b, 1), "the buffer was not freed");
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("compared");
}

static void
many_refs (void)
{
    static const int counts[] = { 3, 127, 255, 256, 32767, 65535, 65536, 70000 };
    int n = counts[mc_choose (8, "references")], k;

    mc_ev1 ("%ld references", n);
    h_init ();
    b = hev_circular_buffer_new (4);
    for (k = 0; k < n; k++)
        hev_circular_buffer_ref (b);
    for (k = 0; k <= n; k++) {
        MC_CHECK (mc_mem_ok (b, 1), "the buffer was freed although it is referenced");
        hev_circular_buffer_unref (b);
    }
    MC_CHECK (!mc_mem_ok (b, 1), "the buffer was not freed");
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("released");
}

const struct mc_scen mc_scenarios[] = {
    { "tiny", run, MC_BOTH, { 0, 3, 7 } },
    { "small", run, MC_BOTH, { 2, 6, 6 } },
    { "late-finish", run, MC_BOTH, { 1, 4, 6, 1 } },
    { "huge", run, MC_BOTH, { 0, 0, 0, 0, 1 } },
    { "tiny-deep", run, MC_THOROUGH, { 0, 3, 9 } },
    { "small-deep", run, MC_THOROUGH, { 4, 8, 6 } },
    { "late-finish-deep", run, MC_THOROUGH, { 1, 4, 8, 1 } },
    { "large", large, MC_BOTH, { 0 }, .horizon = 100000000 },
    { "many-refs", many_refs, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
