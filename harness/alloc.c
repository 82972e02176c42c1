/* M01: contents of allocated memory. All histories of P0 operations on P1
 * slots, size alphabet P2, P3 1: only allocation and resize of huge sizes
 * besides the small ones. Failing allocations by the fault budget. */
#include "h.h"
#include <hev-memory-allocator.h>

const char mc_property[] = "M01";

#define OPS P (0)
#define SLOTS P (1)
#define ALPH P (2)
#define HUGE_OPS P (3)
#define MAXS 4

static const struct
{
    int n;
    size_t s[12];
} alph[] = {
    { 4, { 1, 64, 65, 4097 } },
    { 3, { 64, 128, 200 } },
    { 10, { 0, 1, 63, 64, 65, 4032, 4095, 4096, 4097, 8000 } },
    { 2, { 40, 64 } },
};

/* sizes nobody can provide */
static const size_t huge[] = {
    (size_t)-1, (size_t)-15, (size_t)-16, (size_t)-17, (size_t)-63, (size_t)-64,
    (size_t)-65, ((size_t)64 << 32) + 1, ((size_t)64 << 32) - 63, ((size_t)64 << 32) + 128,
    (size_t)1 << 63, ((size_t)1 << 63) + 64, (size_t)64 << 31, ((size_t)64 << 33) + 64,
    ((size_t)64 << 32) * 63 + 64,
};
#define NHUGE ((int)(sizeof (huge) / sizeof (huge[0])))

static const struct
{
    size_t n, s;
    long total; /* -1: overflows or is too large */
} arr[] = {
    { 1, 64, 64 },
    { 65, 1, 65 },
    { 3, 5, 15 },
    { 0, 5, 0 },
    { 5, 0, 0 },
    { 64, 64, 4096 },
    { 0x100000001ul, 0x100000000ul, -1 },
    { 0x8000000000000000ul, 2, -1 },
    { 0x2000000000000001ul, 8, -1 },
    { 8, 0x2000000000000001ul, -1 },
    { (size_t)-1, (size_t)-1, -1 },
    { (size_t)-1, 2, -1 },
    { 0x4000000000000010ul, 4, -1 },
    { 0x1000000, 0x1000000, -1 },
};
#define NARR ((int)(sizeof (arr) / sizeof (arr[0])))

static struct slot
{
    unsigned char *p;
    size_t n;
    unsigned key;
} S[MAXS];
static unsigned keys;

static unsigned char
pat (unsigned key, size_t k)
{
    return key * 37 + k * 11 + (k >> 8) + 1;
}

/* first, last and some bytes in between */
static size_t
next (size_t k, size_t n)
{
    if (k < 80 || n - k < 80)
        return k + 1;
    k += 61;
    return n - k < 80 ? n - 79 : k;
}

static void
check_slots (void)
{
    int i;
    size_t k;
    for (i = 0; i < SLOTS; i++)
        for (k = 0; S[i].p && k < S[i].n; k = next (k, S[i].n))
            MC_CHECK (S[i].p[k] == pat (S[i].key, k),
                      "byte %zu of a block of %zu bytes changed", k, S[i].n);
}

static void
fill (struct slot *s)
{
    size_t k;
    s->key = ++keys;
    for (k = 0; k < s->n; k = next (k, s->n))
        s->p[k] = pat (s->key, k);
}

static void
taken (struct slot *s, void *p, size_t n, int zero, size_t keep, unsigned key)
{
    int i;
    size_t k;
    unsigned char *c = p;

    MC_CHECK (((uintptr_t)p & 15) == 0, "a block of %zu bytes is not aligned", n);
    MC_CHECK (mc_mem_ok (p, n), "a block of %zu bytes does not provide them", n);
    for (i = 0; i < SLOTS; i++)
        if (S[i].p && &S[i] != s)
            MC_CHECK (c + n <= S[i].p || S[i].p + S[i].n <= c || !n || !S[i].n,
                      "two live blocks overlap");
    for (k = 0; zero && k < n; k = next (k, n))
        MC_CHECK (c[k] == 0, "byte %zu of a zeroed block of %zu is %d", k, n, c[k]);
    for (k = 0; k < keep && k < n; k++)
        if (k < 80 || k + 80 >= s->n || k % 61 == 0) {
            /* only the bytes that were written */
            size_t j;
            for (j = 0; j < s->n && j <= k; j = next (j, s->n))
                if (j == k)
                    MC_CHECK (c[k] == pat (key, k), "byte %zu was not kept by a resize", k);
        }
    s->p = p;
    s->n = n;
    fill (s);
}

static void
run (void)
{
    int k, i;

    memset (S, 0, sizeof (S));
    keys = 0;
    h_init ();
    mc_faults_on = 1;
    for (k = 0; k < OPS; k++) {
        int op[256], as[256], av[256], n = 0, c, fl = mc_fault_left, used = -1;
        void *p;
        size_t sz;

        for (i = 0; i < SLOTS; i++) {
            int v;
            if (!S[i].p && used < 0) {
                used = i; /* empty slots are alike */
                for (v = 0; v < alph[ALPH].n; v++) {
                    op[n] = 0, as[n] = i, av[n++] = v;
                    op[n] = 1, as[n] = i, av[n++] = v;
                }
                if (HUGE_OPS) {
                    for (v = 0; v < NHUGE; v++) {
                        op[n] = 2, as[n] = i, av[n++] = v;
                        if (v < 4)
                            op[n] = 3, as[n] = i, av[n++] = v;
                    }
                    for (v = 0; v < NARR; v++)
                        op[n] = 4, as[n] = i, av[n++] = v;
                }
                op[n] = 9, as[n] = i, av[n++] = 0;
                op[n] = 5, as[n] = i, av[n++] = 0;
            } else if (S[i].p) {
                for (v = 0; v < alph[ALPH].n; v++)
                    op[n] = 6, as[n] = i, av[n++] = v;
                for (v = 0; HUGE_OPS && v < NHUGE; v++)
                    op[n] = 7, as[n] = i, av[n++] = v;
                op[n] = 8, as[n] = i, n++;
            }
        }
        c = mc_choose (n, "operation");
        i = as[c];
        switch (op[c]) {
        case 0:
        case 1:
            sz = alph[ALPH].s[av[c]];
            p = op[c] ? hev_malloc0 (sz) : hev_malloc (sz);
            mc_evx (op[c] ? "malloc0 %ld in slot %ld: %ld" : "malloc %ld in slot %ld: %ld", sz,
                    i, !!p);
            if (!p) {
                MC_CHECK (!sz || mc_fault_left < fl, "an allocation of %zu bytes failed", sz);
                mc_outcome ("allocation failed");
                break;
            }
            taken (&S[i], p, sz, op[c], 0, 0);
            mc_outcome ("allocated");
            break;
        case 2:
        case 3:
            sz = huge[av[c]];
            p = op[c] == 3 ? hev_malloc0 (sz) : hev_malloc (sz);
            mc_ev2 ("malloc of %lx: %ld", sz, !!p);
            MC_CHECK (!p, "an allocation of 0x%zx bytes did not fail", sz);
            break;
        case 4:
            p = hev_calloc (arr[av[c]].n, arr[av[c]].s);
            mc_evx ("calloc %lx, %lx: %ld", arr[av[c]].n, arr[av[c]].s, !!p);
            if (arr[av[c]].total < 0)
                MC_CHECK (!p, "an allocation of 0x%zx times 0x%zx bytes did not fail",
                          arr[av[c]].n, arr[av[c]].s);
            if (!p) {
                MC_CHECK (arr[av[c]].total <= 0 || mc_fault_left < fl,
                          "an array allocation failed");
                break;
            }
            taken (&S[i], p, arr[av[c]].total, 1, 0, 0);
            mc_outcome ("array allocated");
            break;
        case 5:
            mc_ev ("free NULL");
            hev_free (NULL);
            break;
        case 9:
            sz = alph[ALPH].s[alph[ALPH].n - 1];
            p = hev_realloc (NULL, sz);
            mc_evx ("realloc of NULL to %ld in slot %ld: %ld", sz, i, !!p);
            if (!p) {
                MC_CHECK (mc_fault_left < fl, "an allocation by resizing NULL failed");
                break;
            }
            taken (&S[i], p, sz, 0, 0, 0);
            break;
        case 6:
            sz = alph[ALPH].s[av[c]];
            p = hev_realloc (S[i].p, sz);
            mc_evx ("realloc of slot %ld to %ld: %ld", i, sz, !!p);
            if (!sz) {
                if (p) /* a block without bytes */
                    hev_free (p);
                S[i].p = NULL;
                break;
            }
            if (!p) {
                MC_CHECK (mc_fault_left < fl, "a resize to %zu bytes failed", sz);
                mc_outcome ("resize failed");
                break;
            }
            taken (&S[i], p, sz, 0, S[i].n, S[i].key);
            mc_outcome ("resized");
            break;
        case 7:
            sz = huge[av[c]];
            p = hev_realloc (S[i].p, sz);
            mc_evx ("realloc of slot %ld to %lx: %ld", i, sz, !!p);
            MC_CHECK (!p, "a resize to 0x%zx bytes did not fail", sz);
            MC_CHECK (mc_mem_ok (S[i].p, S[i].n), "a failed resize lost the block");
            break;
        case 8:
            mc_ev1 ("free slot %ld", i);
            hev_free (S[i].p);
            S[i].p = NULL;
            break;
        }
        check_slots ();
    }
    mc_faults_on = 0;
    for (i = 0; i < SLOTS; i++)
        if (S[i].p)
            hev_free (S[i].p);
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- every size, and many blocks ---- */

static void
block (unsigned char *p, size_t n, int key, int check, const char *what)
{
    size_t k;

    MC_CHECK (p && ((uintptr_t)p & 15) == 0 && mc_mem_ok (p, n), "%s: no block of %zu bytes",
              what, n);
    for (k = 0; k < n; k++)
        if (check)
            MC_CHECK (p[k] == (key ? pat (key, k) : 0), "%s: byte %zu of a block of %zu bytes",
                      what, k, n);
        else
            p[k] = pat (key, k);
}

static void
every_size (void)
{
    size_t n = mc_choose (P (0), "size / 64") * 64 + mc_choose (64, "size % 64"), m;
    static const int to[] = { 1, -1, 64, -64, 5000, -5000 };
    int d = to[mc_choose (6, "resized by")], a;
    unsigned char *x, *y, *z;

    m = d < 0 && n <= (size_t)-d ? 1 : n + d;
    mc_ev2 ("blocks of %ld bytes, resized to %ld", n, m);
    h_init ();
    for (a = 0; a < 2; a++) { /* fresh, then recycled memory */
        x = hev_malloc (n);
        y = hev_malloc0 (n);
        z = hev_calloc (1, n);
        if (n) {
            block (x, n, 1, 0, "malloc");
            block (y, n, 0, 1, "malloc0");
            block (z, n, 0, 1, "calloc");
            block (y, n, 2, 0, "malloc0");
            block (z, n, 3, 0, "calloc");
            block (x, n, 1, 1, "malloc");
            block (y, n, 2, 1, "malloc0");
        }
        y = hev_realloc (y, m);
        block (y, m < n ? m : n, 2, 1, "realloc");
        block (y, m, 4, 0, "realloc");
        if (n) {
            block (x, n, 1, 1, "malloc");
            block (z, n, 3, 1, "calloc");
        }
        hev_free (z);
        block (y, m, 4, 1, "realloc");
        if (n)
            block (x, n, 1, 1, "malloc");
        hev_free (x);
        hev_free (y);
    }
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("compared");
}

static void
crowd (void)
{
    static const int counts[] = { 17, 139, 1031 }, strides[] = { 1, 3, 7 };
    static struct
    {
        unsigned char *p;
        size_t n;
        int key;
    } B[1031];
    int n = counts[mc_choose (3, "blocks")], stride = strides[mc_choose (3, "order")], r, k;
    int spread = mc_choose (3, "sizes"), part = 1 + mc_choose (3, "part");

    memset (B, 0, sizeof (B));
    mc_evx ("%ld blocks in order %ld, sizes %ld", n, stride, spread);
    mc_ev1 ("part %ld", part);
    h_init ();
    for (r = 0; r < 4; r++) {
        for (k = 0; k < n; k++) {
            int i = k * stride % n, zero = (i + r) % 3 == 0;
            size_t s = 1 + (spread == 0 ? i % 200 : spread == 1 ? i * 61 % 4500 : i * 7 % 130);
            if (B[i].p)
                continue;
            B[i].p = zero ? hev_malloc0 (s) : hev_malloc (s);
            block (B[i].p, s, 0, zero, "allocation");
            B[i].n = s;
            B[i].key = 1 + i + r * n;
            block (B[i].p, s, B[i].key, 0, "allocation");
        }
        for (k = 0; k < n; k += part) {
            int i = (k + r) * stride % n;
            size_t s = 1 + (B[i].n * 3 + r) % 4500;
            if (!B[i].p)
                continue;
            block (B[i].p, B[i].n, B[i].key, 1, "a block in use");
            if (k % 4 == r) {
                B[i].p = hev_realloc (B[i].p, s);
                block (B[i].p, s < B[i].n ? s : B[i].n, B[i].key, 1, "realloc");
                B[i].n = s;
                block (B[i].p, s, B[i].key, 0, "realloc");
            } else {
                hev_free (B[i].p);
                B[i].p = NULL;
            }
        }
        for (k = 0; k < n; k++)
            if (B[k].p)
                block (B[k].p, B[k].n, B[k].key, 1, "a block in use");
    }
    for (k = 0; k < n; k++)
        hev_free (B[k].p);
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("compared");
}

const struct mc_scen mc_scenarios[] = {
    { "classes", run, MC_BOTH, { 5, 3, 0 } },
    { "boundaries", run, MC_BOTH, { 4, 2, 2 } },
    { "huge", run, MC_BOTH, { 3, 2, 1, 1 } },
    { "huge-cached", run, MC_BOTH, { 4, 1, 3, 1 } },
    { "long", run, MC_BOTH, { 7, 2, 3 } },
    { "failing", run, MC_BOTH, { 4, 2, 0 }, .fault_budget = 2 },
    { "classes-deep", run, MC_THOROUGH, { 6, 4, 0 } },
    { "boundaries-deep", run, MC_THOROUGH, { 5, 2, 2 } },
    { "huge-deep", run, MC_THOROUGH, { 4, 2, 1, 1 } },
    { "long-deep", run, MC_THOROUGH, { 9, 2, 3 } },
    { "failing-deep", run, MC_THOROUGH, { 5, 3, 1 }, .fault_budget = 3 },
    { "every-size", every_size, MC_BOTH, { 70 }, .horizon = 100000000 },
    { "crowd", crowd, MC_BOTH, { 0 }, .horizon = 100000000 },
    { "every-size-deep", every_size, MC_THOROUGH, { 200 }, .horizon = 100000000 },
    { 0 },
};
