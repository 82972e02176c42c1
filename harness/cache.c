/* M02: blocks the default allocator retains. P0 operations over P1 size
 * classes after up to P2 blocks of each class were allocated; LIMIT blocks may
 * be retained. P3 > 0: P3 blocks of each class, freed in all orders of classes. */
#include "h.h"
#include <hev-memory-allocator.h>

const char mc_property[] = "M02";

#define OPS P (0)
#define NC P (1)
#define PRE P (2)
#define BULK P (3)
#define MIXED P (4) /* sizes within a class vary, large blocks */

#ifdef MC_CONFIG_SMALL
#define LIMIT 3
#else
#define LIMIT 1000
#endif
#define MAXB 2600
#define MAXC 4

static const size_t sizes[MAXC][2] = { { 64, 1 }, { 4096, 4033 }, { 128, 100 }, { 1024, 1000 } };
static const size_t large[] = { 4097, 10000 };

static struct b
{
    unsigned char *p;
    int cls; /* -1 large */
    int freed;
} B[MAXB];
static int nb;
static int live[MAXC], held[MAXC]; /* blocks in use and retained */
static int order[MAXC], norder;    /* retained classes, least recently used first */

static int
total_held (void)
{
    int i, n = 0;
    for (i = 0; i < NC; i++)
        n += held[i];
    return n;
}

static void
order_del (int c)
{
    int i, j;
    for (i = j = 0; i < norder; i++)
        if (order[i] != c)
            order[j++] = order[i];
    norder = j;
}

static void
order_use (int c)
{
    order_del (c);
    order[norder++] = c;
}

/* blocks of each class that still exist although freed */
static void
compare (const char *when)
{
    int n[MAXC] = { 0 }, i, sum = 0;

    for (i = 0; i < nb; i++) {
        if (B[i].freed != 1)
            continue;
        if (!mc_mem_ok (B[i].p, 1)) {
            B[i].freed = 2; /* returned to the system */
            continue;
        }
        MC_CHECK (B[i].cls >= 0, "a large block is retained");
        n[B[i].cls]++;
        sum++;
    }
    MC_CHECK (sum <= LIMIT, "%d blocks are retained, the limit is %d", sum, LIMIT);
    for (i = 0; i < NC; i++)
        MC_CHECK (n[i] == held[i], "after %s %d blocks of %zu bytes are retained, not %d", when,
                  n[i], sizes[i][0], held[i]);
}

static void
took (unsigned char *p, int c, size_t n)
{
    int i;
    MC_CHECK (p, "an allocation failed");
    MC_CHECK (mc_mem_ok (p, n), "a block of %zu bytes does not provide them", n);
    for (i = 0; i < nb; i++)
        if (B[i].p == p) {
            MC_CHECK (B[i].freed == 1, "a block was handed out twice");
            break;
        }
    if (i == nb)
        nb++;
    B[i].p = p;
    B[i].cls = c;
    B[i].freed = 0;
    if (c >= 0)
        live[c]++;
}

static void
alloc (int c, int var)
{
    size_t n = c < 0 ? large[var] : sizes[c][var];
    long m = mc_total_mallocs;
    unsigned char *p = hev_malloc (n);

    mc_ev1 ("malloc %ld", n);
    if (c >= 0 && held[c]) {
        MC_CHECK (mc_total_mallocs == m,
                  "new memory was obtained although a block of this size was retained");
        held[c]--;
        order_del (c);
        if (held[c])
            order_use (c);
        mc_outcome ("retained block handed out");
    } else
        mc_outcome ("new block");
    took (p, c, n);
    memset (p, 0x5a, n);
}

static int
find (int c)
{
    int i;
    for (i = nb - 1; i >= 0; i--)
        if (!B[i].freed && B[i].cls == c)
            return i;
    return -1;
}

static void
release (int c)
{
    int i = find (c);
    mc_ev1 ("free a block of class %ld", c);
    hev_free (B[i].p);
    B[i].freed = 1;
    if (c < 0) {
        mc_outcome ("large block freed");
        return;
    }
    live[c]--;
    if (total_held () == LIMIT) {
        int v = order[0];
        held[v]--;
        if (!held[v])
            order_del (v);
        mc_outcome ("retained block given up");
    }
    if (!held[c]++)
        order_use (c);
}

static void
resize (int c, int d)
{
    int i = find (c);
    size_t n = d < 0 ? large[0] : sizes[d][0];
    unsigned char *p;
    mc_ev2 ("resize a block of class %ld to %ld", c, n);
    p = hev_realloc (B[i].p, n);
    if (c >= 0)
        live[c]--;
    if (p != B[i].p)
        B[i].freed = 2;
    else
        B[i].freed = 1; /* the same block again */
    took (p, d, n);
}

static void
run (void)
{
    int k, c, i, left;

    memset (live, 0, sizeof (live));
    memset (held, 0, sizeof (held));
    nb = norder = 0;
    h_init ();
    if (BULK) {
        int perm[MAXC], used = 0;
        for (c = 0; c < NC; c++)
            for (k = 0; k < BULK; k++)
                alloc (c, 0);
        for (k = 0; k < NC; k++) {
            int n = 0, o[MAXC];
            for (c = 0; c < NC; c++)
                if (!(used >> c & 1))
                    o[n++] = c;
            perm[k] = o[mc_choose (n, "order of classes")];
            used |= 1 << perm[k];
        }
        if (mc_choose (2, "class by class or in turn")) {
            for (k = 0; k < NC; k++)
                for (i = 0; i < BULK; i++)
                    release (perm[k]);
        } else {
            for (i = 0; i < BULK; i++)
                for (k = 0; k < NC; k++)
                    release (perm[k]);
        }
        compare ("freeing all blocks");
        for (k = 0; k < OPS; k++) {
            c = mc_choose (2 * NC, "operation");
            if (c < NC)
                alloc (c, 0);
            else if (live[c - NC])
                release (c - NC);
            else
                mc_prune ();
            compare ("an operation");
        }
    } else {
        for (c = 0; c < NC; c++)
            for (k = mc_choose (PRE + 1, "blocks of a class"); k > 0; k--)
                alloc (c, 0);
        for (left = OPS; left > 0; left--) {
            int op[64], a[64], v[64], n = 0;
            for (c = 0; c < NC; c++) {
                op[n] = 0, a[n] = c, v[n++] = 0;
                if (MIXED)
                    op[n] = 0, a[n] = c, v[n++] = 1;
                if (live[c])
                    op[n] = 1, a[n++] = c;
                if (live[c] && MIXED) {
                    op[n] = 2, a[n] = c, v[n++] = (c + 1) % NC;
                    op[n] = 2, a[n] = c, v[n++] = -1;
                }
            }
            if (MIXED) {
                op[n] = 0, a[n] = -1, v[n++] = 0;
                if (find (-1) >= 0) {
                    op[n] = 1, a[n++] = -1;
                    op[n] = 2, a[n] = -1, v[n++] = 0;
                }
            }
            k = mc_choose (n, "operation");
            if (op[k] == 0)
                alloc (a[k], v[k]);
            else if (op[k] == 1)
                release (a[k]);
            else
                resize (a[k], v[k]);
            compare ("an operation");
        }
    }
    for (i = 0; i < nb; i++)
        if (!B[i].freed)
            hev_free (B[i].p);
    h_fini ();
    mc_leak_check ("dropping the allocator");
}

const struct mc_scen mc_scenarios[] = {
#ifdef MC_CONFIG_SMALL
    { "two-sizes", run, MC_BOTH, { 8, 2, 4 } },
    { "three-sizes", run, MC_BOTH, { 7, 3, 2 } },
    { "four-sizes", run, MC_BOTH, { 5, 4, 2 } },
    { "mixed", run, MC_BOTH, { 4, 2, 2, 0, 1 } },
    { "two-sizes-deep", run, MC_THOROUGH, { 11, 2, 4 } },
    { "three-sizes-deep", run, MC_THOROUGH, { 8, 3, 2 } },
    { "mixed-deep", run, MC_THOROUGH, { 5, 2, 2, 0, 1 } },
#else
    { "bulk-one", run, MC_BOTH, { 3, 1, 0, 1003 }, .horizon = 20000000 },
    { "bulk-two", run, MC_BOTH, { 2, 2, 0, 600 }, .horizon = 20000000 },
    { "bulk-three", run, MC_BOTH, { 2, 3, 0, 400 }, .horizon = 20000000 },
    { "small", run, MC_BOTH, { 6, 2, 3 } },
    { "mixed", run, MC_BOTH, { 4, 2, 1, 0, 1 } },
#endif
    { 0 },
};
