/* T04: private stacks. P0 tasks at the start (P1 may be started later by other
 * tasks), P2 operations each, P3 size alphabet, P4 1: overrun the stack, P5 1:
 * tasks that run already are run again (documented to have no effect). */
#include "h.h"
#include <hev-memory-allocator.h>

const char mc_property[] = "T04";

#define NT P (0)
#define NSPAWN P (1)
#define OPS P (2)
#define ALPH P (3)
#define TRAP P (4)
#define MAXT 6
#define SLACK 1024   /* frames of the library above the entry */
#define RESERVE 7168 /* frames of the engine below the entry */
#define MAXDEPTH 3

#ifdef MC_CONFIG_HEAP
static const int sizes[][6] = {
    { 8192, 16384, 0 },
    { 8192, 9999, 12000, 16001, -1, 0 },
    { 16384, 0 },
    { 8191, 8192, 8193, 8200, 24000, 0 },
    { 1048576, 1048577, 2100000, 9000001, 0 },
};
#else
static const int sizes[][6] = {
    { 8192, 16384, 0 },
    { 1, 4096, 4097, 12288, -1, 0 },
    { 16384, 0 },
    { 8191, 8192, 8193, 100000, 20480, 0 },
    { 1048576, 1048577, 2100000, 9000001, 0 },
};
#endif

static struct st
{
    HevTask *t;
    int live, size, depth, started, ended;
    uintptr_t top, lo, hi; /* frame of the entry, filled area */
    uintptr_t mlo, mhi;
    unsigned char pat;
} T[MAXT];
static int nt, spawned;
static unsigned char *blk[MAXT];

/* runs fn (arg) with known values in the preserved registers, returns the
 * registers that changed */
long regs_call (void (*fn) (int), int arg, unsigned long seed);
__asm__ (".text\n.globl regs_call\n.type regs_call,@function\nregs_call:\n"
         "push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n"
         "push %rdx\n"
         "lea 1(%rdx),%rbx\n lea 2(%rdx),%rbp\n lea 3(%rdx),%r12\n"
         "lea 4(%rdx),%r13\n lea 5(%rdx),%r14\n lea 6(%rdx),%r15\n"
         "mov %rdi,%rax\n mov %esi,%edi\n call *%rax\n"
         "pop %rdx\n"
         "sub %rdx,%rbx\n sub %rdx,%rbp\n sub %rdx,%r12\n"
         "sub %rdx,%r13\n sub %rdx,%r14\n sub %rdx,%r15\n"
         "xor $1,%rbx\n xor $2,%rbp\n xor $3,%r12\n xor $4,%r13\n"
         "xor $5,%r14\n xor $6,%r15\n"
         "mov %rbx,%rax\n or %rbp,%rax\n or %r12,%rax\n or %r13,%rax\n"
         "or %r14,%rax\n or %r15,%rax\n"
         "pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");

static int
trapped (int sig, void *addr)
{
    struct st *s = &T[0];
    if ((uintptr_t)addr < s->mlo && (uintptr_t)addr >= s->mlo - 4096) {
        mc_ev ("the access is trapped");
        mc_outcome ("overrun trapped");
        mc_done ();
    }
    return 0;
}

/* every byte of the area is compared; areas are sampled by address only when
 * written, so the same bytes are compared */
#define STEP 8
static void
fill (struct st *s)
{
    uintptr_t a;
    for (a = s->lo; a + STEP <= s->hi; a += a - s->lo < 512 || s->hi - a < 512 ? STEP : 256)
        *(volatile unsigned long *)a = a * 0x9e3779b97f4a7c15ul + s->pat;
}

static void
verify_all (void)
{
    int i, k;
    for (i = 0; i < nt; i++) {
        struct st *s = &T[i];
        uintptr_t a;
        if (!s->live)
            continue;
        for (a = s->lo; a + STEP <= s->hi;
             a += a - s->lo < 512 || s->hi - a < 512 ? STEP : 256)
            MC_CHECK (*(volatile unsigned long *)a ==
                          a * 0x9e3779b97f4a7c15ul + s->pat,
                      "stack of task %d changed %ld bytes below its entry", i,
                      (long)(s->top - a));
    }
    for (i = 0; i < MAXT; i++)
        for (k = 0; blk[i] && k < 256; k += 5)
            MC_CHECK (blk[i][k] == (unsigned char)(i * 7 + k),
                      "an allocated block changed while tasks switched");
}

static void
me_check (int i)
{
    MC_CHECK (hev_task_self () == T[i].t, "hev_task_self is not the running task");
    MC_CHECK (hev_task_get_data (T[i].t) == &T[i], "task %d has lost its data", i);
    verify_all ();
}

static void start (void *data);

static int
size_of (int i)
{
    return T[i].size < 0 ? 65536 : T[i].size;
}

static void
new_task (void)
{
    int n = 0;
    struct st *s = &T[nt];
    while (sizes[ALPH][n])
        n++;
    s->size = sizes[ALPH][mc_choose (n, "stack size")];
    s->t = hev_task_new (s->size);
    MC_CHECK (s->t, "hev_task_new failed");
    s->pat = 17 * nt + 3;
    mc_ev2 ("task %ld created with %ld bytes of stack", nt, s->size);
    nt++;
    hev_task_run (s->t, start, s);
}

static void
do_yield (int how)
{
    if (how == 0)
        hev_task_yield (HEV_TASK_YIELD);
    else
        hev_task_sleep (1);
}

static void
sw (int i, int how)
{
    long r;
    mc_ev2 (how ? "task %ld sleeps" : "task %ld yields", i, how);
    r = regs_call (do_yield, how, 0x1122334455667700ul * (i + 1));
    MC_CHECK (!r, "a preserved register of task %d changed across a switch", i);
    mc_ev1 ("task %ld continues", i);
    me_check (i);
}

static int prog (int i, int *left);

static __attribute__ ((noinline)) int
deeper (int i, int *left)
{
    volatile unsigned long l[24];
    int k, r;
    long key = 1000 * i + T[i].depth;

    T[i].depth++;
    for (k = 0; k < 24; k++)
        l[k] = key * 0x10001 + k;
    mc_ev1 ("task %ld calls a function", i);
    r = prog (i, left);
    for (k = 0; k < 24; k++)
        MC_CHECK (l[k] == (unsigned long)key * 0x10001 + k,
                  "a local variable of task %d changed", i);
    T[i].depth--;
    mc_ev1 ("task %ld returns from a function", i);
    return r;
}

static void
other (void *data)
{
    mc_fail ("running a task that runs already replaced its entry");
}

static void
run_again (void)
{
    int k;

    mc_ev ("all tasks are run again");
    for (k = 0; k < nt; k++)
        if (!T[k].ended)
            hev_task_run (T[k].t, other, blk);
    mc_outcome ("run again");
}

static int
prog (int i, int *left)
{
    while (*left > 0) {
        int op[8], n = 0, c;
        op[n++] = 0;
        op[n++] = 1;
        if (T[i].depth < MAXDEPTH)
            op[n++] = 2;
        if (T[i].depth)
            op[n++] = 3;
        if (nt < NT + NSPAWN)
            op[n++] = 4;
        op[n++] = 5;
        if (P (5))
            op[n++] = 6;
        (*left)--;
        c = op[mc_choose (n, "operation")];
        switch (c) {
        case 0:
        case 1:
            sw (i, c);
            break;
        case 2:
            if (deeper (i, left))
                return 1;
            break;
        case 3:
            return 0;
        case 4:
            new_task ();
            me_check (i);
            break;
        case 5:
            return 1;
        case 6:
            run_again ();
            me_check (i);
            break;
        }
    }
    return 0;
}

static void
entry_checks (int i)
{
    struct st *s = &T[i];
    uintptr_t f = s->top, a;
    int k, size = size_of (i);

    if (size > SLACK) {
        MC_CHECK (mc_mem_ok ((void *)(f + SLACK - size), size - SLACK),
                  "the stack of task %d has less than %d bytes", i, size);
    }
#if !defined(MC_CONFIG_HEAP) && !defined(MC_CONFIG_NOGUARD)
    MC_CHECK (mc_map_of ((void *)f, &s->mlo, &s->mhi),
              "task %d does not run on a stack of its own", i);
    MC_CHECK (s->mhi - f <= SLACK, "the stack of task %d is used from the middle", i);
    MC_CHECK (f - s->mlo + SLACK >= size, "the stack of task %d has less than %d bytes", i,
              size);
    MC_CHECK (mc_page_state ((void *)(s->mlo - 1)) != 1 &&
                  mc_page_state ((void *)(s->mlo - 1)) == 2,
              "no guard page below the stack of task %d", i);
#endif
    for (k = 0; k < nt; k++) {
        struct st *o = &T[k];
        if (k == i || !o->live)
            continue;
        a = f > o->top ? f - size + SLACK : o->top - size_of (k) + SLACK;
        MC_CHECK ((f > o->top ? o->top : f) < a, "stacks of tasks %d and %d overlap", i, k);
    }
    s->lo = f + SLACK - size;
    s->hi = f - RESERVE;
    if (size < SLACK || s->hi < s->lo || s->hi > f)
        s->hi = s->lo;
    s->lo = (s->lo + 7) & ~7ul;
    s->live = 1;
    fill (s);
}

static void
start (void *data)
{
    struct st *s = data;
    int i = s - T, left = OPS, e;

    s->top = (uintptr_t)__builtin_frame_address (0);
    MC_CHECK (!s->started, "task %d started twice", i);
    s->started = 1;
    mc_ev1 ("task %ld starts", i);
    MC_CHECK (s->top % 16 == 0, "the stack of task %d is not aligned", i);
    entry_checks (i);
    me_check (i);
    if (TRAP) {
        volatile char *p = (char *)s->mlo - 1;
        mc_ev ("task 0 writes below its stack");
        *p = 1;
        mc_fail ("writing below the stack was not trapped");
    }
    e = prog (i, &left);
    MC_CHECK (hev_task_self () == s->t, "hev_task_self is not the running task");
    mc_ev1 ("task %ld ends", i);
    s->live = 0;
    s->ended = 1;
    if (e) {
        mc_outcome ("exit called");
        hev_task_exit ();
        mc_fail ("hev_task_exit returned");
    }
    mc_outcome ("entry returned");
}

static void
run (void)
{
    int k, j;

    memset (T, 0, sizeof (T));
    memset (blk, 0, sizeof (blk));
    nt = 0;
    mc_on_signal = trapped;
    h_init ();
    mc_real_mprotect = TRAP;
    for (k = 0; k < NT; k++) {
        new_task ();
        blk[k] = hev_malloc (256);
        for (j = 0; j < 256; j++)
            blk[k][j] = k * 7 + j;
    }
    hev_task_system_run ();
    for (k = 0; k < nt; k++)
        MC_CHECK (T[k].ended, "task %d did not end", k);
    verify_all ();
    for (k = 0; k < MAXT; k++)
        if (blk[k])
            hev_free (blk[k]);
    h_fini ();
    mc_leak_check ("fini");
}

const struct mc_scen mc_scenarios[] = {
    { "sizes", run, MC_BOTH, { 2, 1, 2, 1 } },
    { "sizes-big", run, MC_BOTH, { 2, 1, 2, 3 } },
    { "sizes-large", run, MC_BOTH, { 1, 1, 1, 4 } },
    { "three", run, MC_BOTH, { 3, 0, 3, 2 } },
    { "spawn", run, MC_BOTH, { 1, 3, 2, 2 } },
    { "spawn-two", run, MC_BOTH, { 2, 1, 3, 2 } },
    { "again", run, MC_BOTH, { 2, 1, 2, 2, 0, 1 } },
    { "two-long", run, MC_BOTH, { 2, 0, 5, 2 } },
#if !defined(MC_CONFIG_HEAP) && !defined(MC_CONFIG_NOGUARD)
    { "overrun", run, MC_BOTH, { 1, 0, 0, 1, 1 } },
    { "overrun-large", run, MC_BOTH, { 1, 0, 0, 4, 1 } },
    { "overrun-more", run, MC_BOTH, { 1, 0, 0, 3, 1 } },
#endif
    { "sizes-deep", run, MC_THOROUGH, { 2, 1, 3, 1 } },
    { "spawn-deep", run, MC_THOROUGH, { 1, 3, 3, 2 } },
    { "two-deep", run, MC_THOROUGH, { 2, 1, 4, 0 } },
    { "three-deep", run, MC_THOROUGH, { 3, 1, 3, 0 } },
    { "two-longer", run, MC_THOROUGH, { 2, 0, 7, 2 } },
    { 0 },
};
