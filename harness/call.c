/* K01: calls on a new stack. P0 tasks with P1 operations each, nesting up to
 * P2, base/stack size alphabet P3. Objects are kept and used again. */
#include "h.h"
#include <hev-task-call.h>

const char mc_property[] = "K01";

#define NT P (0)
#define OPS P (1)
#define DEPTH P (2)
#define ALPH P (3)
#define MAXT 4
#define MAXC 4
#define SLACK 256
#define RESERVE 7168

static const struct
{
    int n;
    struct
    {
        int base, stack;
    } s[16];
} alph[] = {
    { 1, { { 64, 16384 } } },
    { 3, { { sizeof (HevTaskCall), 8192 }, { 57, 12001 }, { 200, 16392 } } },
    { 6,
      { { sizeof (HevTaskCall), 9000 },
        { 17, 9001 },
        { 24, 9007 },
        { 100, 12345 },
        { 4000, 9008 },
        { 33, 65536 } } },
    { 16,
      { { 24, 9000 }, { 25, 9000 }, { 24, 9002 }, { 27, 9000 }, { 24, 9004 }, { 29, 9000 },
        { 30, 9000 }, { 24, 9007 }, { 32, 9000 }, { 33, 9000 }, { 24, 9010 }, { 35, 9000 },
        { 36, 9000 }, { 24, 9013 }, { 38, 9000 }, { 24, 9015 } } },
};

static struct call
{
    HevTaskCall *c;
    int task, idx, base, stack, busy, runs, last;
    uintptr_t f, lo, hi;
    long key;
} C[MAXT][MAXC];
static struct tk
{
    HevTask *t;
    int nc, depth, left, ended;
    struct call *cur[8];
} T[MAXT];
static long seq;

static unsigned char
upat (struct call *c, int k)
{
    return c->task * 31 + c->idx * 7 + k * 3 + 1;
}

static void
check_call (struct call *c)
{
    int k;
    uintptr_t a;

    for (k = sizeof (HevTaskCall); k < c->base; k++)
        MC_CHECK (((unsigned char *)c->c)[k] == upat (c, k),
                  "byte %d of the user area of a call changed", k);
    if (!c->busy)
        return;
    for (a = c->lo; a + 8 <= c->hi; a += a - c->lo < 256 || c->hi - a < 256 ? 8 : 256)
        MC_CHECK (*(unsigned long *)a == a * 0x9e3779b97f4a7c15ul + c->key,
                  "the stack of a call changed while another ran");
}

static void
check_all (int i)
{
    int a, b;
    for (a = 0; a < NT; a++)
        for (b = 0; b < T[a].nc; b++)
            if (C[a][b].c)
                check_call (&C[a][b]);
    MC_CHECK (hev_task_self () == T[i].t, "hev_task_self is not the running task");
}

static int prog (int i);

static void
entry (HevTaskCall *hc)
{
    uintptr_t f = (uintptr_t)__builtin_frame_address (0), a;
    volatile unsigned long loc[8];
    struct call *c = NULL;
    int i, k, r;

    for (i = 0; i < NT; i++)
        if (T[i].t == hev_task_self ())
            break;
    MC_CHECK (i < NT && T[i].depth, "the entry runs in the wrong task");
    c = T[i].cur[T[i].depth - 1];
    MC_CHECK (c->c == hc, "the entry got another call object");
    MC_CHECK (f % 16 == 0, "the stack of the call is not aligned");
    c->runs++;
    c->f = f;
    MC_CHECK (f < (uintptr_t)hc + c->base + c->stack && f > (uintptr_t)hc + c->base,
              "the entry does not run on the stack of its call");
    MC_CHECK ((long)(f + SLACK - c->stack) >= (long)((uintptr_t)hc + c->base) &&
                  mc_mem_ok ((void *)(f + SLACK - c->stack), c->stack - SLACK - 64),
              "the stack of the call has less than %d bytes", c->stack);
    c->lo = (f + SLACK - c->stack + 7) & ~7ul;
    c->hi = f - RESERVE;
    if (c->hi < c->lo)
        c->hi = c->lo;
    for (a = c->lo; a + 8 <= c->hi; a += a - c->lo < 256 || c->hi - a < 256 ? 8 : 256)
        *(volatile unsigned long *)a = a * 0x9e3779b97f4a7c15ul + c->key;
    c->busy = 1;
    for (k = 0; k < 8; k++)
        loc[k] = c->key + k;
    mc_ev2 ("task %ld: entry of call %ld", i, c->idx);
    check_all (i);
    r = prog (i);
    for (k = 0; k < 8; k++)
        MC_CHECK (loc[k] == (unsigned long)c->key + k, "a local variable of a call changed");
    if (r) {
        mc_ev1 ("task %ld exits inside a call", i);
        T[i].ended = 1;
        for (k = 0; k < T[i].nc; k++)
            C[i][k].busy = 0;
        mc_outcome ("exit inside a call");
        hev_task_exit ();
        mc_fail ("hev_task_exit returned");
    }
    c->busy = 0;
    hev_task_call_set_retval (hc, (void *)(c->key * 3 + 1));
    mc_ev2 ("task %ld: end of call %ld", i, c->idx);
}

static void
jump (int i, struct call *c)
{
    volatile unsigned long loc[8];
    int k, runs = c->runs;
    void *r;

    c->key = ++seq * 0x1000193;
    for (k = 0; k < 8; k++)
        loc[k] = c->key * 5 + k;
    T[i].cur[T[i].depth++] = c;
    r = hev_task_call_jump (c->c, entry);
    T[i].depth--;
    for (k = 0; k < 8; k++)
        MC_CHECK (loc[k] == (unsigned long)c->key * 5 + k,
                  "a local variable of the caller changed");
    MC_CHECK (c->runs == runs + 1, "the entry ran %d times", c->runs - runs);
    MC_CHECK (!c->busy, "jump returned before the entry did");
    MC_CHECK (r == (void *)(c->key * 3 + 1), "jump returned another value");
    mc_ev2 ("task %ld: jump to call %ld returned", i, c->idx);
    mc_outcome (T[i].depth ? "nested jump" : "jump");
    check_all (i);
}

static void
new_call (int i)
{
    int n = mc_choose (alph[ALPH].n, "sizes of the call"), k;
    struct call *c = &C[i][T[i].nc];
    long blocks = mc_live_blocks;

    c->base = alph[ALPH].s[n].base;
    c->stack = alph[ALPH].s[n].stack;
    c->task = i;
    c->idx = T[i].nc++;
    c->c = hev_task_call_new (c->base, c->stack);
    MC_CHECK (c->c, "hev_task_call_new failed");
    (void)blocks;
    for (k = sizeof (HevTaskCall); k < c->base; k++)
        ((unsigned char *)c->c)[k] = upat (c, k);
    mc_evx ("task %ld: new call, base %ld stack %ld", i, c->base, c->stack);
    jump (i, c);
}

static int
prog (int i)
{
    while (T[i].left > 0) {
        int op[16], arg[16], n = 0, c, k;
        op[n++] = 0;
        op[n++] = 1;
        if (T[i].depth < DEPTH && T[i].nc < MAXC)
            op[n++] = 2;
        for (k = 0; k < T[i].nc; k++)
            if (C[i][k].c && !C[i][k].busy && T[i].depth < DEPTH)
                op[n] = 3, arg[n++] = k;
        if (T[i].depth)
            op[n++] = 4;
        for (k = 0; k < T[i].nc; k++)
            if (C[i][k].c && !C[i][k].busy)
                op[n] = 5, arg[n++] = k;
        if (T[i].depth)
            op[n++] = 6;
        T[i].left--;
        c = mc_choose (n, "operation");
        switch (op[c]) {
        case 0:
            mc_ev1 ("task %ld yields", i);
            hev_task_yield (HEV_TASK_YIELD);
            check_all (i);
            break;
        case 1:
            mc_ev1 ("task %ld sleeps", i);
            hev_task_sleep (1);
            check_all (i);
            break;
        case 2:
            new_call (i);
            break;
        case 3:
            mc_ev2 ("task %ld: jump again to call %ld", i, arg[c]);
            jump (i, &C[i][arg[c]]);
            break;
        case 4:
            return 0;
        case 5:
            mc_ev2 ("task %ld: destroy call %ld", i, arg[c]);
            hev_task_call_destroy (C[i][arg[c]].c);
            C[i][arg[c]].c = NULL;
            break;
        case 6:
            return 1;
        }
    }
    return 0;
}

static void
start (void *data)
{
    int i = (int)(intptr_t)data;
    prog (i);
    T[i].ended = 1;
}

static void
run (void)
{
    int k, j;

    memset (T, 0, sizeof (T));
    memset (C, 0, sizeof (C));
    seq = 0;
    h_init ();
    for (k = 0; k < NT; k++) {
        T[k].left = OPS;
        T[k].t = hev_task_new (16384);
        MC_CHECK (T[k].t, "hev_task_new failed");
        hev_task_run (T[k].t, start, (void *)(intptr_t)k);
    }
    hev_task_system_run ();
    for (k = 0; k < NT; k++) {
        MC_CHECK (T[k].ended, "task %d did not end", k);
        for (j = 0; j < T[k].nc; j++)
            if (C[k][j].c) {
                C[k][j].busy = 0;
                check_call (&C[k][j]);
                hev_task_call_destroy (C[k][j].c);
            }
    }
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- deep nesting and many jumps ---- */

static int depth_max, deepest, runs_done, sleepy;
static struct
{
    HevTaskCall *c;
    long key;
} D[2][40];

static void
deep_entry (HevTaskCall *hc)
{
    volatile unsigned long loc[8];
    int me = hev_task_self () == T[1].t, at = T[me].depth, k;

    runs_done++;
    MC_CHECK (hev_task_self () == T[me].t, "the entry runs in the wrong task");
    MC_CHECK (D[me][at].c == hc, "the entry got another call object");
    for (k = 0; k < 8; k++)
        loc[k] = D[me][at].key * 7 + k;
    if (sleepy)
        hev_task_yield (HEV_TASK_YIELD);
    if (at + 1 < depth_max) {
        void *r;
        T[me].depth++;
        D[me][at + 1].key = ++seq;
        r = hev_task_call_jump (D[me][at + 1].c, deep_entry);
        MC_CHECK (r == (void *)(D[me][at + 1].key * 3), "jump %d deep returned another value", at + 1);
        T[me].depth--;
        if (sleepy)
            hev_task_sleep (1);
    } else
        deepest++;
    MC_CHECK (T[me].depth == at, "a jump %d deep returned to the wrong place", at);
    for (k = 0; k < 8; k++)
        MC_CHECK (loc[k] == (unsigned long)D[me][at].key * 7 + k, "a local variable of a call changed");
    hev_task_call_set_retval (hc, (void *)(D[me][at].key * 3));
}

static void
deep_start (void *data)
{
    int me = (int)(intptr_t)data, k, n = P (1);

    for (k = 0; k < depth_max; k++) {
        D[me][k].c = hev_task_call_new (sizeof (HevTaskCall), 8192 + 16 * k);
        MC_CHECK (D[me][k].c, "hev_task_call_new failed");
    }
    for (k = 0; k < n; k++) {
        void *r;
        D[me][0].key = ++seq;
        r = hev_task_call_jump (D[me][0].c, deep_entry);
        MC_CHECK (r == (void *)(D[me][0].key * 3), "jump %d returned another value", k);
    }
    for (k = 0; k < depth_max; k++)
        hev_task_call_destroy (D[me][k].c);
    T[me].ended = 1;
}

static void
deep (void)
{
    static const int depths[] = { 1, 5, 17, 40 };
    int k;

    memset (T, 0, sizeof (T));
    memset (D, 0, sizeof (D));
    seq = deepest = runs_done = 0;
    depth_max = depths[mc_choose (4, "depth")];
    sleepy = mc_choose (2, "sleeps");
    mc_ev2 ("%ld calls deep, sleeping: %ld", depth_max, sleepy);
    h_init ();
    for (k = 0; k < NT; k++) {
        T[k].t = hev_task_new (16384);
        MC_CHECK (T[k].t, "hev_task_new failed");
        hev_task_run (T[k].t, deep_start, (void *)(intptr_t)k);
    }
    hev_task_system_run ();
    for (k = 0; k < NT; k++)
        MC_CHECK (T[k].ended, "task %d did not end", k);
    MC_CHECK (deepest == NT * P (1) && runs_done == NT * P (1) * depth_max, "%d entries ran", runs_done);
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("returned");
}

const struct mc_scen mc_scenarios[] = {
    { "sizes", run, MC_BOTH, { 1, 5, 2, 2 } },
    { "edges", run, MC_BOTH, { 1, 3, 2, 3 } },
    { "one", run, MC_BOTH, { 1, 7, 3, 0 } },
    { "two", run, MC_BOTH, { 2, 5, 3, 0 } },
    { "two-sizes", run, MC_BOTH, { 2, 3, 2, 1 } },
    { "three", run, MC_BOTH, { 3, 3, 2, 0 } },
    { "two-deep", run, MC_THOROUGH, { 2, 6, 3, 0 } },
    { "two-sizes-deep", run, MC_THOROUGH, { 2, 4, 2, 1 } },
    { "one-deep", run, MC_THOROUGH, { 1, 9, 4, 0 } },
    { "nested", deep, MC_BOTH, { 2, 3 }, .horizon = 100000000 },
    { "repeated", deep, MC_BOTH, { 2, 1000 }, .horizon = 100000000 },
    { 0 },
};
