/*
 * Explorer. Depth-first enumeration of all choice sequences, split over worker
 * processes by handing out prefixes. See DESIGN.md section 1.3.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdatomic.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include "mc.h"
#include <sys/time.h>
#include "vk.h"

#define MAXD 20000
#define QCAP 512
#define QLEN 1500
#define MAXW 64
#define MSGLEN 1024
#define TAB_BITS 23
#define MAXOUT 128
#define DEF_HORIZON 3000000L

struct item
{
    int len;
    unsigned char c[QLEN];
};

struct worker
{
    _Atomic long beat;
    _Atomic int busy;
    int base;
    int len; /* entries valid */
    int pos; /* entries consumed by the current execution */
    unsigned char c[MAXD];
    unsigned char n[MAXD];
};

struct outcome
{
    char label[48];
    _Atomic long count;
};

struct shared
{
    atomic_flag lock;
    int qcount;
    int active;
    _Atomic int waiting;
    _Atomic int stop;
    _Atomic int nondet;
    _Atomic int capped;
    struct item q[QCAP];
    /* statistics */
    _Atomic long execs, transitions, states, pruned, maxdepth;
    _Atomic int tab_full;
    _Atomic long devs[8];
    /* violation */
    _Atomic int found;
    int v_len;
    unsigned char v_c[MAXD];
    unsigned char v_n[MAXD];
    char v_msg[MSGLEN];
    char nd_msg[MSGLEN];
    int nout;
    struct outcome out[MAXOUT];
    /* sample history */
    int s_len;
    unsigned char s_c[64];
    struct worker w[MAXW];
};

static struct shared *S;
static _Atomic uint64_t *T; /* state table */
static struct worker *W;

const struct mc_scen *mc_cur;
int mc_env_left, mc_fault_left, mc_preempt_left;
int mc_faults_on;
int mc_tracing;
long mc_steps;
static long mc_horizon;
void (*mc_on_idle) (void);

static int mode_replay; /* strict replay of a recorded vector */
static jmp_buf mc_top;
static volatile int mc_in_exec;
static uint64_t hist;
static char fail_msg[MSGLEN];
static int exec_result; /* 0 done, 1 fail, 2 nondet, 3 pruned */
static FILE *trace_fp;
static long l_trans, l_devs;
static int used_dev;

/* ---- choices ------------------------------------------------------------- */

static void
nondet (const char *fmt, ...)
{
    va_list ap;
    va_start (ap, fmt);
    vsnprintf (fail_msg, sizeof (fail_msg), fmt, ap);
    va_end (ap);
    exec_result = 2;
    _longjmp (mc_top, 1);
}

static void
state_seen (void)
{
    uint64_t h = hist * 0x9E3779B97F4A7C15ull;
    uint64_t i;
    int k;

    if (S->tab_full)
        return;
    h ^= h >> 29;
    if (!h)
        h = 1;
    i = h & ((1ull << TAB_BITS) - 1);
    for (k = 0; k < 64; k++) {
        uint64_t v = T[i];
        if (v == h)
            return;
        if (v == 0) {
            uint64_t z = 0;
            if (atomic_compare_exchange_strong (&T[i], &z, h)) {
                S->states++;
                return;
            }
            if (z == h)
                return;
        }
        i = (i + 1) & ((1ull << TAB_BITS) - 1);
    }
    S->tab_full = 1;
}

static int
pick (int n, const char *what)
{
    int c, p = W->pos;

    if (p >= MAXD)
        mc_fail ("execution too long: more than %d choices (no progress?)", MAXD);
    if (p < W->len) {
        if (W->n[p] == 0) /* donated prefix: alternatives not known here */
            W->n[p] = n;
        if (W->n[p] != n)
            nondet ("choice %d (%s): %d alternatives, recorded %d", p, what, n,
                    W->n[p]);
        c = W->c[p];
        if (c >= n)
            nondet ("choice %d (%s): recorded %d of %d", p, what, c, n);
    } else {
        W->c[p] = c = 0;
        W->n[p] = n;
        W->len = p + 1;
    }
    W->pos = p + 1;
    l_trans++;
    state_seen ();
    if (mc_tracing && trace_fp)
        fprintf (trace_fp, "    [choice %d: %s = %d of %d]\n", p, what, c, n);
    return c;
}

int
mc_choose (int n, const char *what)
{
    if (n <= 1)
        return 0;
    if (n > 255)
        mc_fail ("harness error: too many alternatives %d for %s", n, what);
    return pick (n, what);
}

int
mc_env (int n, const char *what)
{
    int c;

    if (n <= 1 || mc_env_left <= 0)
        return 0;
    c = pick (n, what);
    if (c) {
        mc_env_left--;
        used_dev++;
    }
    return c;
}

int
mc_fault (const char *what)
{
    int c;

    if (!mc_faults_on || mc_fault_left <= 0)
        return 0;
    c = pick (2, what);
    if (c) {
        mc_fault_left--;
        used_dev++;
        mc_ev ("FAULT injected");
    }
    return c;
}

int
mc_preempt (int n, const char *what)
{
    int c;

    if (n <= 1 || mc_preempt_left <= 0)
        return 0;
    c = pick (n, what);
    if (c) {
        mc_preempt_left--;
        used_dev++;
    }
    return c;
}

/* ---- verdicts ------------------------------------------------------------ */

static void
leave (int res)
{
    exec_result = res;
    mc_in_exec = 0;
    _longjmp (mc_top, 1);
}

void
mc_fail (const char *fmt, ...)
{
    va_list ap;

    if (!mc_in_exec) {
        va_start (ap, fmt);
        vfprintf (stderr, fmt, ap);
        va_end (ap);
        fprintf (stderr, " (outside an execution)\n");
        _exit (2);
    }
    va_start (ap, fmt);
    vsnprintf (fail_msg, sizeof (fail_msg), fmt, ap);
    va_end (ap);
    leave (1);
}

void
mc_done (void)
{
    leave (0);
}

void
mc_prune (void)
{
    leave (3);
}

void
mc_ev3 (const char *fmt, long a, long b, long c)
{
    uint64_t h = hist;
    h = (h ^ (uint64_t)(uintptr_t)fmt) * 0x100000001b3ull;
    h = (h ^ (uint64_t)a) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 31;
    h = (h ^ (uint64_t)b) * 0xBF58476D1CE4E5B9ull;
    h ^= h >> 27;
    h = (h ^ (uint64_t)c) * 0x94D049BB133111EBull;
    h ^= h >> 33;
    hist = h;
    if (mc_tracing && trace_fp) {
        fprintf (trace_fp, "  ");
        fprintf (trace_fp, fmt, a, b, c);
        fprintf (trace_fp, "\n");
        fflush (trace_fp);
    }
}

static void
slock (void)
{
    while (atomic_flag_test_and_set (&S->lock))
        __builtin_ia32_pause ();
}

static void
sunlock (void)
{
    atomic_flag_clear (&S->lock);
}

void
mc_outcome (const char *label)
{
    static const char *cache_k[256];
    static int cache_v[256];
    unsigned h = ((uintptr_t)label >> 2) & 255;
    int i;

    if (cache_k[h] == label) {
        S->out[cache_v[h]].count++;
        return;
    }
    slock ();
    for (i = 0; i < S->nout; i++)
        if (!strncmp (S->out[i].label, label, 47))
            break;
    if (i == S->nout && i < MAXOUT) {
        strncpy (S->out[i].label, label, 47);
        S->nout++;
    }
    sunlock ();
    if (i < MAXOUT) {
        cache_k[h] = label;
        cache_v[h] = i;
        S->out[i].count++;
    }
}

/* ---- library memory accesses (the __tsan_* interface) --------------------- */

#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (1ull << 30)
#define STK_BASE 0x140000000000ull
#define STK_SIZE (1ull << 30)
#define SHAD_BASE 0x180000000000ull
#define MAIN_BASE 0x1c0000000000ull
#define MAIN_SIZE (1ull << 20)
#define MAIN_CLEAR 24576

enum
{
    SH_NONE = 0xfa,  /* never allocated or red zone */
    SH_FREED = 0xfd,
};
enum
{
    PG_NONE = 0,
    PG_RW = 1,
    PG_GUARD = 2,
    PG_FREED = 3,
};

struct blk
{
    uint64_t magic;
    uint64_t size;
};
#define BLK_LIVE 0x4c6976654c697665ull
#define BLK_DEAD 0x4465616444656164ull
#define BLK_EDGE 0xeb

static unsigned char *const shadow = (unsigned char *)SHAD_BASE;
#define MAXMAP 4096
static unsigned char pages[STK_SIZE / 4096];
static uint16_t page_map[STK_SIZE / 4096];
/* where each mapping that is used as a stack was last seen in use */
static uintptr_t map_sp[MAXMAP];
static uintptr_t arena_top, stk_top;
long mc_live_blocks, mc_live_maps, mc_live_fds, mc_live_bytes;
long mc_total_mallocs, mc_total_frees;
int mc_real_mprotect;
static int mprotected;
unsigned char mc_fill = 0xa5;

static void
mem_bad (uintptr_t a, size_t n, int write, const char *who)
{
    if (a - ARENA_BASE < ARENA_SIZE) {
        unsigned char s = shadow[(a - ARENA_BASE) >> 3];
        mc_fail ("memory: %s of %zu bytes %s (%s)", write ? "write" : "read", n,
                 s == SH_FREED ? "in freed memory" :
                                 "outside any allocated block",
                 who);
    }
    mc_fail ("memory: %s of %zu bytes %s (%s)", write ? "write" : "read", n,
             "in an unmapped or guard page of a stack", who);
}

int
mc_mem_ok (const void *p, size_t n)
{
    uintptr_t a = (uintptr_t)p;

    if (!n)
        return 1;
    if (a - ARENA_BASE < ARENA_SIZE) {
        uintptr_t i = (a - ARENA_BASE) >> 3, e = (a + n - 1 - ARENA_BASE) >> 3;
        for (; i < e; i++)
            if (shadow[i])
                return 0;
        if (shadow[e]) {
            if (shadow[e] > 7)
                return 0;
            if (((a + n - 1) & 7) >= shadow[e])
                return 0;
        }
    } else if (a - STK_BASE < STK_SIZE) {
        uintptr_t i = (a - STK_BASE) >> 12, e = (a + n - 1 - STK_BASE) >> 12;
        for (; i <= e; i++)
            if (pages[i] != PG_RW)
                return 0;
    }
    return 1;
}

static inline __attribute__ ((always_inline)) void
stack_seen (uintptr_t sp)
{
    if (sp - STK_BASE < STK_SIZE)
        map_sp[page_map[(sp - STK_BASE) >> 12]] = sp;
}

static inline __attribute__ ((always_inline)) int
stack_dead (uintptr_t a)
{
    return a < map_sp[page_map[(a - STK_BASE) >> 12]];
}

static void horizon (void);

void
mc_mem_check (const void *p, size_t n, int write, const char *who)
{
    uintptr_t a = (uintptr_t)p;

    if (++mc_steps > mc_horizon)
        horizon ();
    if (!mc_mem_ok (p, n))
        mem_bad (a, n, write, who);
    stack_seen ((uintptr_t)__builtin_frame_address (0));
    if (n && a - STK_BASE < STK_SIZE && stack_dead (a))
        mc_fail ("memory: %s of %ld bytes in a part of a stack that is not in use any more (%s)",
                 write ? "write" : "read", (long)n, who);
}

void
mc_step (void)
{
    if (++mc_steps > mc_horizon)
        horizon ();
}

static void
horizon (void)
{
    mc_fail ("no progress: the execution exceeds %ld library memory accesses",
             mc_horizon);
}

static inline __attribute__ ((always_inline)) void
access_ (void *p, size_t n, int write, uintptr_t pc)
{
    uintptr_t a = (uintptr_t)p;

    if (++mc_steps > mc_horizon)
        horizon ();
    stack_seen ((uintptr_t)__builtin_frame_address (0));
    if (a - ARENA_BASE < ARENA_SIZE) {
        uintptr_t o = a - ARENA_BASE;
        unsigned char s = shadow[o >> 3];
        if (__builtin_expect (s || ((o & 7) + n > 8), 0)) {
            if (!mc_mem_ok (p, n))
                mem_bad (a, n, write, "library access");
        }
    } else if (a - STK_BASE < STK_SIZE) {
        if (__builtin_expect (pages[(a - STK_BASE) >> 12] != PG_RW, 0))
            mem_bad (a, n, write, "library access");
        if (__builtin_expect (stack_dead (a), 0))
            mc_fail ("memory: %s of %ld bytes in a part of a stack that is not in use any more",
                     write ? "write" : "read", (long)n);
    }
    if (vt_active)
        vt_access (a, n, write, pc);
}

#define PC ((uintptr_t)__builtin_return_address (0))
#define ACC(n)                                                  \
    void __tsan_read##n (void *p) { access_ (p, n, 0, PC); }    \
    void __tsan_write##n (void *p) { access_ (p, n, 1, PC); }   \
    void __tsan_unaligned_read##n (void *p) { access_ (p, n, 0, PC); } \
    void __tsan_unaligned_write##n (void *p) { access_ (p, n, 1, PC); } \
    void __tsan_volatile_read##n (void *p) { access_ (p, n, 0, PC); } \
    void __tsan_volatile_write##n (void *p) { access_ (p, n, 1, PC); }
ACC (1)
ACC (2)
ACC (4)
ACC (8)
ACC (16)

static void
range (void *p, size_t n, int write, uintptr_t pc)
{
    if (++mc_steps > mc_horizon)
        horizon ();
    if (!n)
        return;
    mc_mem_check (p, n, write, "library access");
    if (vt_active)
        vt_access ((uintptr_t)p, n, write, pc);
}

void __tsan_read_range (void *p, unsigned long n) { range (p, n, 0, PC); }
void __tsan_write_range (void *p, unsigned long n) { range (p, n, 1, PC); }
void __tsan_func_entry (void *pc)
{
    if (++mc_steps > mc_horizon)
        horizon ();
}
void __tsan_func_exit (void) {}
void __tsan_init (void) {}
void __tsan_vptr_update (void **a, void *b) { access_ (a, 8, 1, PC); }
void __tsan_vptr_read (void **a) { access_ (a, 8, 0, PC); }

/* atomics: checked like other accesses, ordered by vt_atomic */
enum
{
    AT_LOAD = 0,
    AT_STORE = 1,
    AT_RMW = 2,
};

static inline void
atomic_ (volatile void *p, size_t n, int kind, int order)
{
    if (++mc_steps > mc_horizon)
        horizon ();
    mc_mem_check ((void *)p, n, kind != AT_LOAD, "atomic access");
    if (vt_active)
        vt_atomic ((uintptr_t)p, n, kind, order);
}

#define ATOMICS(bits, T)                                                     \
    T __tsan_atomic##bits##_load (const volatile T *a, int mo)               \
    {                                                                        \
        atomic_ ((volatile void *)a, sizeof (T), AT_LOAD, mo);               \
        return *a;                                                           \
    }                                                                        \
    void __tsan_atomic##bits##_store (volatile T *a, T v, int mo)            \
    {                                                                        \
        atomic_ (a, sizeof (T), AT_STORE, mo);                               \
        *a = v;                                                              \
    }                                                                        \
    T __tsan_atomic##bits##_exchange (volatile T *a, T v, int mo)            \
    {                                                                        \
        T o;                                                                 \
        atomic_ (a, sizeof (T), AT_RMW, mo);                                 \
        o = *a;                                                              \
        *a = v;                                                              \
        return o;                                                            \
    }                                                                        \
    T __tsan_atomic##bits##_fetch_add (volatile T *a, T v, int mo)           \
    {                                                                        \
        T o;                                                                 \
        atomic_ (a, sizeof (T), AT_RMW, mo);                                 \
        o = *a;                                                              \
        *a = o + v;                                                          \
        return o;                                                            \
    }                                                                        \
    T __tsan_atomic##bits##_fetch_sub (volatile T *a, T v, int mo)           \
    {                                                                        \
        T o;                                                                 \
        atomic_ (a, sizeof (T), AT_RMW, mo);                                 \
        o = *a;                                                              \
        *a = o - v;                                                          \
        return o;                                                            \
    }                                                                        \
    T __tsan_atomic##bits##_fetch_and (volatile T *a, T v, int mo)           \
    {                                                                        \
        T o;                                                                 \
        atomic_ (a, sizeof (T), AT_RMW, mo);                                 \
        o = *a;                                                              \
        *a = o & v;                                                          \
        return o;                                                            \
    }                                                                        \
    T __tsan_atomic##bits##_fetch_or (volatile T *a, T v, int mo)            \
    {                                                                        \
        T o;                                                                 \
        atomic_ (a, sizeof (T), AT_RMW, mo);                                 \
        o = *a;                                                              \
        *a = o | v;                                                          \
        return o;                                                            \
    }                                                                        \
    T __tsan_atomic##bits##_fetch_xor (volatile T *a, T v, int mo)           \
    {                                                                        \
        T o;                                                                 \
        atomic_ (a, sizeof (T), AT_RMW, mo);                                 \
        o = *a;                                                              \
        *a = o ^ v;                                                          \
        return o;                                                            \
    }                                                                        \
    T __tsan_atomic##bits##_fetch_nand (volatile T *a, T v, int mo)          \
    {                                                                        \
        T o;                                                                 \
        atomic_ (a, sizeof (T), AT_RMW, mo);                                 \
        o = *a;                                                              \
        *a = ~(o & v);                                                       \
        return o;                                                            \
    }                                                                        \
    int __tsan_atomic##bits##_compare_exchange_strong (volatile T *a, T *c,  \
                                                       T v, int mo, int fmo) \
    {                                                                        \
        atomic_ (a, sizeof (T), AT_RMW, mo);                                 \
        if (*a == *c) {                                                      \
            *a = v;                                                          \
            return 1;                                                        \
        }                                                                    \
        *c = *a;                                                             \
        return 0;                                                            \
    }                                                                        \
    int __tsan_atomic##bits##_compare_exchange_weak (volatile T *a, T *c,    \
                                                     T v, int mo, int fmo)   \
    {                                                                        \
        return __tsan_atomic##bits##_compare_exchange_strong (a, c, v, mo,   \
                                                              fmo);          \
    }                                                                        \
    T __tsan_atomic##bits##_compare_exchange_val (volatile T *a, T c, T v,   \
                                                  int mo, int fmo)           \
    {                                                                        \
        __tsan_atomic##bits##_compare_exchange_strong (a, &c, v, mo, fmo);   \
        return c;                                                            \
    }

ATOMICS (8, uint8_t)
ATOMICS (16, uint16_t)
ATOMICS (32, uint32_t)
ATOMICS (64, uint64_t)
void __tsan_atomic_thread_fence (int mo)
{
    if (vt_active)
        vt_atomic (0, 0, AT_RMW, mo);
}
void __tsan_atomic_signal_fence (int mo) {}

/* ---- heap ---------------------------------------------------------------- */

static void *
blk_new (size_t n)
{
    uintptr_t h = arena_top, u = h + sizeof (struct blk), e;
    struct blk *b;
    size_t i;

    if (n > (64u << 20))
        return NULL;
    e = (u + n + 16 + 15) & ~15ul;
    if (e - ARENA_BASE > ARENA_SIZE)
        mc_fail ("arena exhausted (unbounded allocation?)");
    arena_top = e;
    b = (struct blk *)h;
    b->magic = BLK_LIVE;
    b->size = n;
    i = (u - ARENA_BASE) >> 3;
    memset (shadow + i, 0, n >> 3);
    if (n & 7)
        shadow[i + (n >> 3)] = n & 7;
    memset ((void *)u, mc_fill, n);
    memset ((void *)(u + n), BLK_EDGE, e - u - n);
    return (void *)u;
}

/* writes that are not instrumented, from assembly */
static void
blk_edge (struct blk *b)
{
    unsigned char *p = (unsigned char *)(b + 1) + b->size;
    unsigned char *e = (unsigned char *)(((uintptr_t)p + 16 + 15) & ~15ul);

    for (; p < e; p++)
        if (*p != BLK_EDGE)
            mc_fail ("memory: something was written behind a block of %ld bytes", (long)b->size);
}

void *
vk_malloc (size_t n)
{
    void *p;

    if (mc_fault ("malloc fails")) {
        errno = ENOMEM;
        return NULL;
    }
    p = blk_new (n);
    if (!p) {
        errno = ENOMEM;
        return NULL;
    }
    mc_live_blocks++;
    mc_live_bytes += n;
    mc_total_mallocs++;
    return p;
}

static struct blk *
blk_of (const void *p)
{
    uintptr_t a = (uintptr_t)p;
    struct blk *b;

    if ((a & 15) || a < ARENA_BASE + sizeof (struct blk) || a >= arena_top)
        return NULL;
    b = (struct blk *)(a - sizeof (struct blk));
    if (b->magic != BLK_LIVE && b->magic != BLK_DEAD)
        return NULL;
    return b;
}

size_t
mc_block_size (const void *p)
{
    struct blk *b = blk_of (p);
    return b && b->magic == BLK_LIVE ? b->size : 0;
}

void
vk_free (void *p)
{
    struct blk *b;
    size_t n, i;

    if (!p)
        return;
    b = blk_of (p);
    if (!b)
        mc_fail ("memory: free of an address that is not an allocated block");
    if (b->magic == BLK_DEAD)
        mc_fail ("memory: block freed twice");
    blk_edge (b);
    b->magic = BLK_DEAD;
    n = b->size;
    i = ((uintptr_t)p - ARENA_BASE) >> 3;
    if (vt_active)
        vt_access ((uintptr_t)p, n ? n : 1, 2, PC);
    memset (shadow + i, SH_FREED, (n + 7) >> 3);
    memset (p, 0xdd, n);
    mc_live_blocks--;
    mc_live_bytes -= n;
    mc_total_frees++;
}

void *
vk_calloc (size_t a, size_t b)
{
    size_t n;
    void *p;

    if (__builtin_mul_overflow (a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    p = vk_malloc (n);
    if (p)
        memset (p, 0, n);
    return p;
}

void *
vk_realloc (void *p, size_t n)
{
    struct blk *b;
    void *q;

    if (!p)
        return vk_malloc (n);
    b = blk_of (p);
    if (!b || b->magic != BLK_LIVE)
        mc_fail ("memory: realloc of an address that is not a live block");
    if (!n) {
        vk_free (p);
        return NULL;
    }
    q = vk_malloc (n);
    if (!q)
        return NULL;
    memcpy (q, p, b->size < n ? b->size : n);
    vk_free (p);
    return q;
}

void *
vk_reallocarray (void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow (a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return vk_realloc (p, n);
}

static void *
aligned_new (size_t al, size_t n)
{
    void *p;

    if (al <= 16)
        return vk_malloc (n);
    /* place the block so that its user address is aligned */
    while ((arena_top + sizeof (struct blk)) & (al - 1))
        arena_top += 16;
    p = vk_malloc (n);
    return p;
}

void *vk_aligned_alloc (size_t al, size_t n) { return aligned_new (al, n); }
void *vk_memalign (size_t al, size_t n) { return aligned_new (al, n); }
int
vk_posix_memalign (void **p, size_t al, size_t n)
{
    void *q = aligned_new (al, n);
    if (!q)
        return ENOMEM;
    *p = q;
    return 0;
}

char *
vk_strdup (const char *s)
{
    size_t n = strlen (s) + 1;
    char *p = vk_malloc (n);
    if (p)
        memcpy (p, s, n);
    return p;
}

void *
vk_memcpy (void *d, const void *s, size_t n)
{
    range ((void *)s, n, 0, PC);
    range (d, n, 1, PC);
    if ((char *)d < (char *)s + n && (char *)s < (char *)d + n && d != s && n)
        mc_fail ("memory: memcpy with overlapping areas");
    return memmove (d, s, n);
}
void *vk_mempcpy (void *d, const void *s, size_t n) { return (char *)vk_memcpy (d, s, n) + n; }
void *
vk_memmove (void *d, const void *s, size_t n)
{
    range ((void *)s, n, 0, PC);
    range (d, n, 1, PC);
    return memmove (d, s, n);
}
void *
vk_memset (void *d, int c, size_t n)
{
    range (d, n, 1, PC);
    return memset (d, c, n);
}
void vk_bzero (void *d, size_t n) { vk_memset (d, 0, n); }
int
vk_memcmp (const void *a, const void *b, size_t n)
{
    range ((void *)a, n, 0, PC);
    range ((void *)b, n, 0, PC);
    return memcmp (a, b, n);
}

/* ---- mappings ------------------------------------------------------------ */

struct map
{
    uintptr_t a;
    size_t n;
    int live;
};
static struct map maps[MAXMAP];
static int nmaps;

void *
vk_mmap (void *addr, size_t n, int prot, int flags, int fd, long off)
{
    uintptr_t a;
    size_t i;

    if (mc_fault ("mmap fails")) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    if (!n || (long)n < 0) {
        errno = EINVAL;
        return MAP_FAILED;
    }
    n = (n + 4095) & ~4095ul;
    if (n > (64u << 20)) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    if (nmaps == MAXMAP)
        mc_fail ("too many mappings (unbounded?)");
    a = stk_top;
    if (a + n + 4096 - STK_BASE > STK_SIZE)
        mc_fail ("mapping area exhausted (unbounded?)");
    stk_top = a + n + 4096; /* one unmapped page between mappings */
    for (i = 0; i < n; i += 4096) {
        pages[(a + i - STK_BASE) >> 12] =
            (prot & PROT_WRITE) ? PG_RW : PG_GUARD;
        page_map[(a + i - STK_BASE) >> 12] = nmaps;
    }
    map_sp[nmaps] = 0;
    memset ((void *)a, 0, n);
    if (mc_real_mprotect && !(prot & PROT_WRITE)) {
        mprotect ((void *)a, n, prot);
        mprotected = 1;
    }
    maps[nmaps].a = a;
    maps[nmaps].n = n;
    maps[nmaps].live = 1;
    nmaps++;
    mc_live_maps += n >> 12;
    return (void *)a;
}

int
vk_munmap (void *p, size_t n)
{
    uintptr_t a = (uintptr_t)p;
    size_t i;

    if ((a & 4095) || !n) {
        errno = EINVAL;
        return -1;
    }
    n = (n + 4095) & ~4095ul;
    if (a < STK_BASE || a + n > stk_top)
        mc_fail ("munmap of an area that was not mapped");
    for (i = 0; i < n; i += 4096) {
        unsigned char *g = &pages[(a + i - STK_BASE) >> 12];
        if (*g == PG_NONE || *g == PG_FREED)
            mc_fail ("munmap of an area that is not mapped now");
        *g = PG_FREED;
    }
    if (mc_real_mprotect) {
        mprotect (p, n, PROT_NONE);
        mprotected = 1;
    }
    mc_live_maps -= n >> 12;
    return 0;
}

int
vk_mprotect (void *p, size_t n, int prot)
{
    uintptr_t a = (uintptr_t)p;
    size_t i;

    if (mc_fault ("mprotect fails")) {
        errno = ENOMEM;
        return -1;
    }
    if (a & 4095) {
        errno = EINVAL;
        return -1;
    }
    n = (n + 4095) & ~4095ul;
    if (a < STK_BASE || a + n > stk_top) {
        /* not one of our mappings (e.g. heap memory) */
        errno = ENOMEM;
        return -1;
    }
    for (i = 0; i < n; i += 4096) {
        unsigned char *g = &pages[(a + i - STK_BASE) >> 12];
        if (*g == PG_NONE || *g == PG_FREED) {
            errno = ENOMEM;
            return -1;
        }
        *g = (prot & PROT_WRITE) ? PG_RW : PG_GUARD;
    }
    if (mc_real_mprotect) {
        mprotect (p, n, prot);
        mprotected = 1;
    }
    return 0;
}

int vk_madvise (void *p, size_t n, int a) { return 0; }

int
vk_posix_madvise (void *p, size_t n, int a)
{
    return 0;
}

/* address range of the mapping that contains p; 0 if none is live */
int
mc_map_of (const void *p, uintptr_t *lo, uintptr_t *hi)
{
    uintptr_t a = (uintptr_t)p, l, h;

    if (a - STK_BASE >= STK_SIZE)
        return 0;
    if (pages[(a - STK_BASE) >> 12] != PG_RW)
        return 0;
    l = a & ~4095ul;
    while (l > STK_BASE && pages[(l - 4096 - STK_BASE) >> 12] == PG_RW)
        l -= 4096;
    h = (a & ~4095ul) + 4096;
    while (pages[(h - STK_BASE) >> 12] == PG_RW)
        h += 4096;
    *lo = l;
    *hi = h;
    return 1;
}

/* page below: guard or unmapped? */
int
mc_page_state (const void *p)
{
    uintptr_t a = (uintptr_t)p;
    if (a - STK_BASE >= STK_SIZE)
        return -1;
    return pages[(a - STK_BASE) >> 12];
}

void
mc_leak_check (const char *when)
{
    MC_CHECK (mc_live_blocks == 0, "leak: %ld memory blocks left after %s",
              mc_live_blocks, when);
    MC_CHECK (mc_live_maps == 0, "leak: %ld mapped pages left after %s",
              mc_live_maps, when);
    MC_CHECK (mc_live_fds == 0, "leak: %ld descriptors left after %s",
              mc_live_fds, when);
}

extern char __start_libdata[], __stop_libdata[];
extern char __start_libbss[], __stop_libbss[];
__asm__ (".weak __start_libdata\n.weak __stop_libdata\n"
         ".weak __start_libbss\n.weak __stop_libbss\n");
static char *data_copy, *bss_copy;

int
mc_is_libdata (uintptr_t a)
{
    return (a >= (uintptr_t)__start_libdata && a < (uintptr_t)__stop_libdata) ||
           (a >= (uintptr_t)__start_libbss && a < (uintptr_t)__stop_libbss);
}

static void
mem_setup (void)
{
    size_t d = __stop_libdata - __start_libdata;
    size_t b = __stop_libbss - __start_libbss;
    struct
    {
        uintptr_t a;
        size_t n;
    } r[] = { { ARENA_BASE, ARENA_SIZE },
              { STK_BASE, STK_SIZE },
              { SHAD_BASE, ARENA_SIZE >> 3 },
              { MAIN_BASE, MAIN_SIZE } };
    unsigned i;

    for (i = 0; i < sizeof (r) / sizeof (r[0]); i++) {
        void *p = mmap ((void *)r[i].a, r[i].n, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                            MAP_FIXED_NOREPLACE,
                        -1, 0);
        if (p != (void *)r[i].a) {
            perror ("mmap of the arena");
            exit (2);
        }
        madvise (p, r[i].n, MADV_NOHUGEPAGE);
    }
    data_copy = malloc (d + 1);
    memcpy (data_copy, __start_libdata, d);
    bss_copy = malloc (b + 1);
    memcpy (bss_copy, __start_libbss, b);
    arena_top = ARENA_BASE;
    stk_top = STK_BASE + 4096;
    memset (shadow, SH_NONE, 1 << 16);
}

static uintptr_t shadow_init = ARENA_BASE + (8 << 16);

void
mc_mem_reset (void)
{
    uintptr_t used = (arena_top - ARENA_BASE) >> 3;

    memset (shadow, SH_NONE, used + 64);
    if (arena_top + (4 << 20) > shadow_init) {
        /* keep everything above the current top marked */
        memset (shadow + ((shadow_init - ARENA_BASE) >> 3), SH_NONE,
                (64 << 20) >> 3);
        shadow_init += 64 << 20;
    }
    arena_top = ARENA_BASE + 64;
    memset (pages, PG_NONE, ((stk_top - STK_BASE) >> 12) + 2);
    if (mprotected) {
        mprotect ((void *)STK_BASE, stk_top - STK_BASE,
                  PROT_READ | PROT_WRITE);
        mprotected = 0;
    }
    stk_top = STK_BASE + 4096;
    nmaps = 0;
    memcpy (__start_libdata, data_copy, __stop_libdata - __start_libdata);
    memcpy (__start_libbss, bss_copy, __stop_libbss - __start_libbss);
    mc_live_blocks = mc_live_maps = mc_live_fds = mc_live_bytes = 0;
    mc_total_mallocs = mc_total_frees = 0;
    mc_real_mprotect = 0;
    mc_fill = 0xa5;
}

/* ---- one execution --------------------------------------------------------- */

static void
exec_body (void)
{
    mc_cur->run ();
    leave (0);
}

static void
sig_handler (int sig, siginfo_t *si, void *uc)
{
    if (mc_in_exec) {
        extern int (*mc_on_signal) (int, void *);
        if (mc_on_signal && mc_on_signal (sig, si->si_addr))
            ;
        mc_fail ("fatal signal %d (%s)", sig,
                 sig == SIGSEGV ? ((uintptr_t)si->si_addr < 4096 ?
                                       "null pointer" :
                                       "invalid address") :
                                  strsignal (sig));
    }
    signal (sig, SIG_DFL);
    raise (sig);
}
int (*mc_on_signal) (int, void *);

static unsigned long exec_no;

static void
run_one (void)
{
    char *top = (char *)MAIN_BASE + MAIN_SIZE;

    exec_no++;
    W->pos = 0;
    l_trans = 0;
    used_dev = 0;
    hist = 0xcbf29ce484222325ull;
    mc_steps = 0;
    mc_horizon = mc_cur->horizon ? mc_cur->horizon : DEF_HORIZON;
    mc_env_left = mc_cur->env_budget;
    mc_fault_left = mc_cur->fault_budget;
    mc_faults_on = 0; /* switched on by the harness */
    mc_preempt_left = mc_cur->preempt;
    mc_on_idle = NULL;
    mc_on_signal = NULL;
    mc_mem_reset ();
    vk_reset ();
    vt_reset ();
    memset (top - MAIN_CLEAR, 0, MAIN_CLEAR);
    exec_result = -1;
    if (_setjmp (mc_top) == 0) {
        mc_in_exec = 1;
        __asm__ volatile ("movq %0, %%rsp\n\txorl %%ebp, %%ebp\n\tcall *%1\n\tud2"
                          :
                          : "r"(top - 64), "r"(exec_body)
                          : "memory");
        __builtin_unreachable ();
    }
    mc_in_exec = 0;
    vt_active = 0;
}

/* ---- work sharing ----------------------------------------------------------- */

static int
q_get (struct item *it)
{
    int waited = 0;

    for (;;) {
        if (S->stop)
            return 0;
        slock ();
        if (S->qcount) {
            *it = S->q[--S->qcount];
            S->active++;
            if (waited)
                S->waiting--;
            sunlock ();
            return 1;
        }
        if (S->active == 0) {
            if (waited)
                S->waiting--;
            sunlock ();
            return 0;
        }
        if (!waited) {
            waited = 1;
            S->waiting++;
        }
        sunlock ();
        usleep (100);
    }
}

static void
q_done (void)
{
    slock ();
    S->active--;
    sunlock ();
}

static void
donate (void)
{
    int i, a;

    for (i = W->base; i < W->pos && i < QLEN - 1; i++) {
        if (W->c[i] + 1 >= W->n[i])
            continue;
        slock ();
        if (S->qcount + (W->n[i] - W->c[i] - 1) >= QCAP) {
            sunlock ();
            return;
        }
        for (a = W->n[i] - 1; a > W->c[i]; a--) {
            struct item *it = &S->q[S->qcount++];
            it->len = i + 1;
            memcpy (it->c, W->c, i);
            it->c[i] = a;
        }
        sunlock ();
        W->base = i + 1;
        return;
    }
}

static void
report (void)
{
    slock ();
    if (!S->found) {
        S->v_len = W->pos;
        memcpy (S->v_c, W->c, W->pos);
        memcpy (S->v_n, W->n, W->pos);
        snprintf (S->v_msg, MSGLEN, "%s", fail_msg);
        S->found = 1;
    }
    S->stop = 1;
    sunlock ();
}

static void
explore (struct item *it)
{
    int i;

    W->base = it->len;
    W->len = it->len;
    memcpy (W->c, it->c, it->len);
    memset (W->n, 0, it->len);

    for (;;) {
        run_one ();
        W->beat++;
        S->execs++;
        S->transitions += l_trans;
        S->devs[used_dev < 7 ? used_dev : 7]++;
        if (W->pos > S->maxdepth)
            S->maxdepth = W->pos;
        if (exec_result == 2) {
            slock ();
            if (!S->nondet)
                snprintf (S->nd_msg, MSGLEN, "%s", fail_msg);
            S->nondet = 1;
            S->stop = 1;
            sunlock ();
            return;
        }
        if (exec_result == 1) {
            report ();
            return;
        }
        if (exec_result == 3)
            S->pruned++;
        else {
            mc_ev ("end of execution");
            state_seen ();
        }
        if (W->pos < W->len) {
            if (W->pos < W->base) {
                slock ();
                if (!S->nondet)
                    snprintf (S->nd_msg, MSGLEN,
                              "execution ended after %d choices, prefix has %d",
                              W->pos, W->base);
                S->nondet = 1;
                S->stop = 1;
                sunlock ();
                return;
            }
            W->len = W->pos;
        }
        if (S->stop)
            return;
        if (S->waiting > 0 && S->qcount < S->waiting)
            donate ();
        for (i = W->len - 1; i >= W->base; i--)
            if (W->c[i] + 1 < W->n[i])
                break;
        if (i < W->base)
            return;
        W->c[i]++;
        W->len = i + 1;
    }
}

/* an execution that computes for TICKS periods without a library access */
#define TICK 5
#define TICKS 6
static void
tick (int sig)
{
    static unsigned long last_exec;
    static long last_steps;
    static int n;

    if (!mc_in_exec || last_exec != exec_no || last_steps != mc_steps) {
        last_exec = exec_no;
        last_steps = mc_steps;
        n = 0;
    } else if (++n == TICKS) {
        n = 0;
        mc_fail ("no progress: the execution loops without end");
    }
}

static void
signals (void)
{
    struct itimerval tv = { { TICK, 0 }, { TICK, 0 } };
    static char alt[65536];
    stack_t ss = { .ss_sp = alt, .ss_size = sizeof (alt) };
    struct sigaction sa;
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP };
    unsigned i;

    sigaltstack (&ss, NULL);
    memset (&sa, 0, sizeof (sa));
    sa.sa_sigaction = sig_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (i = 0; i < sizeof (sigs) / sizeof (sigs[0]); i++)
        sigaction (sigs[i], &sa, NULL);
    signal (SIGPIPE, SIG_IGN);
    sa.sa_handler = tick;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
    sigaction (SIGPROF, &sa, NULL);
    setitimer (ITIMER_PROF, &tv, NULL);
}

static void
worker_main (int id)
{
    static struct item it;

    prctl (PR_SET_PDEATHSIG, SIGKILL);
    W = &S->w[id];
    signals ();
    while (q_get (&it)) {
        W->busy = 1;
        explore (&it);
        W->busy = 0;
        q_done ();
        if (S->stop)
            break;
    }
    _exit (0);
}

static double
now_s (void)
{
    struct timespec ts;
    clock_gettime (CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

/* Run one recorded vector in a new process. Result: 0 fine, 1 fail (message in
 * msg), 2 nondeterministic, 3 no answer within the limit. */
static int
replay (const unsigned char *c, const unsigned char *n, int len,
        const char *tracefile, char *msg, double limit)
{
    struct
    {
        int res;
        char msg[MSGLEN];
    } *sh = mmap (NULL, 65536, PROT_READ | PROT_WRITE,
                  MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int st;
    pid_t pid;
    double t0 = now_s ();

    sh->res = 3;
    fflush (stdout);
    pid = fork ();
    if (pid == 0) {
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        W = calloc (1, sizeof (*W));
        memcpy (W->c, c, len);
        if (n)
            memcpy (W->n, n, len);
        W->len = len;
        W->base = len;
        mode_replay = 1;
        signals ();
        if (tracefile) {
            trace_fp = fopen (tracefile, "a");
            mc_tracing = 1;
        }
        run_one ();
        if (exec_result == 1)
            snprintf (sh->msg, MSGLEN, "%s", fail_msg);
        else if (exec_result == 2)
            snprintf (sh->msg, MSGLEN, "nondeterminism: %s", fail_msg);
        if (trace_fp) {
            fprintf (trace_fp, "%s\n", exec_result == 1 ? fail_msg : "(ended without violation)");
            fclose (trace_fp);
        }
        sh->res = exec_result == 3 ? 0 : exec_result;
        _exit (0);
    }
    for (;;) {
        pid_t r = waitpid (pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (now_s () - t0 > limit) {
            kill (pid, SIGKILL);
            waitpid (pid, &st, 0);
            snprintf (msg, MSGLEN,
                      "no progress: the execution does not end (endless loop)");
            munmap (sh, 65536);
            return 1;
        }
        usleep (200);
    }
    if (sh->res == 3) { /* process died */
        snprintf (msg, MSGLEN, "the process running the execution died (status %d)", st);
        munmap (sh, 65536);
        return 1;
    }
    snprintf (msg, MSGLEN, "%s", sh->msg);
    st = sh->res;
    munmap (sh, 65536);
    return st;
}

static void
json_str (FILE *f, const char *s)
{
    fputc ('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\')
            fprintf (f, "\\%c", *s);
        else if ((unsigned char)*s < 32)
            fprintf (f, " ");
        else
            fputc (*s, f);
    }
    fputc ('"', f);
}

static const char *
arg (int argc, char **argv, const char *k, const char *def)
{
    int i;
    for (i = 1; i + 1 < argc; i++)
        if (!strcmp (argv[i], k))
            return argv[i + 1];
    return def;
}

int
main (int argc, char **argv)
{
    const char *tier = arg (argc, argv, "--tier", "quick");
    const char *out = arg (argc, argv, "--out", "/dev/null");
    const char *only = arg (argc, argv, "--scenario", NULL);
    const char *rep = arg (argc, argv, "--replay", NULL);
    const char *repdir = arg (argc, argv, "--replay-dir", ".");
    const char *config = arg (argc, argv, "--config", "default");
    int jobs = atoi (arg (argc, argv, "--jobs", "8"));
    double cap = atof (arg (argc, argv, "--cap", "600"));
    double hang = atof (arg (argc, argv, "--hang", "20"));
    int tmask = !strcmp (tier, "thorough") ? MC_THOROUGH : MC_QUICK;
    double t0 = now_s ();
    const struct mc_scen *sc;
    FILE *o;
    int first = 1, violated = 0, err = 0;

    if (jobs > MAXW)
        jobs = MAXW;
    mem_setup ();
    S = mmap (NULL, sizeof (*S), PROT_READ | PROT_WRITE,
              MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    T = mmap (NULL, sizeof (uint64_t) << TAB_BITS, PROT_READ | PROT_WRITE,
              MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED || T == MAP_FAILED) {
        perror ("mmap");
        return 2;
    }

    if (rep) { /* replay file: "scenario <name>" and "choices a b c ..." lines */
        static unsigned char c[MAXD];
        char line[1 << 16], scn[128] = "", msg[MSGLEN] = "";
        int len = 0, r;
        FILE *f = fopen (rep, "r");
        if (!f) {
            perror (rep);
            return 2;
        }
        while (fgets (line, sizeof (line), f)) {
            if (!strncmp (line, "scenario ", 9))
                sscanf (line + 9, "%127s", scn);
            else if (!strncmp (line, "choices", 7)) {
                char *p = line + 7, *e;
                for (;;) {
                    long v = strtol (p, &e, 10);
                    if (e == p)
                        break;
                    c[len++] = v;
                    p = e;
                }
            }
        }
        fclose (f);
        for (sc = mc_scenarios; sc->name; sc++)
            if (!strcmp (sc->name, scn))
                break;
        if (!sc->name) {
            fprintf (stderr, "unknown scenario %s\n", scn);
            return 2;
        }
        mc_cur = sc;
        r = replay (c, NULL, len, "/dev/stdout", msg, 60);
        printf ("result %d: %s\n", r, msg);
        return r;
    }

    o = fopen (out, "w");
    if (!o) {
        perror (out);
        return 2;
    }
    fprintf (o, "{\"config\":\"%s\",\"scenarios\":[", config);
    for (sc = mc_scenarios; sc->name && !violated && !err; sc++) {
        pid_t pids[MAXW];
        long lastbeat[MAXW];
        double lastt[MAXW], ts;
        int i, alive, hung = -1;

        if (only ? strcmp (only, sc->name) != 0 : !(sc->tiers & tmask))
            continue;
        if (now_s () - t0 > cap) {
            fprintf (o, "%s{\"name\":", first ? "" : ",");
            json_str (o, sc->name);
            fprintf (o, ",\"skipped\":true,\"capped\":true}");
            first = 0;
            continue;
        }
        mc_cur = sc;
        ts = now_s ();
        {
            /* new table contents per scenario */
            memset (S, 0, offsetof (struct shared, w));
            for (i = 0; i < jobs; i++)
                memset (&S->w[i], 0, offsetof (struct worker, c));
            madvise ((void *)T, sizeof (uint64_t) << TAB_BITS, MADV_REMOVE);
        }
        S->q[0].len = 0;
        S->qcount = 1;
        fflush (stdout);
        fflush (o);
        for (i = 0; i < jobs; i++) {
            pids[i] = fork ();
            if (pids[i] == 0)
                worker_main (i);
            lastbeat[i] = -1;
            lastt[i] = now_s ();
        }
        for (alive = jobs; alive;) {
            double t = now_s ();
            for (i = 0; i < jobs; i++) {
                int st;
                if (pids[i] <= 0)
                    continue;
                if (waitpid (pids[i], &st, WNOHANG) == pids[i]) {
                    pids[i] = -1;
                    alive--;
                    if (!(WIFEXITED (st) && WEXITSTATUS (st) == 0)) {
                        if (hung < 0)
                            hung = i;
                        S->stop = 1;
                    }
                    continue;
                }
                if (S->w[i].beat != lastbeat[i] || !S->w[i].busy) {
                    lastbeat[i] = S->w[i].beat;
                    lastt[i] = t;
                } else if (t - lastt[i] > hang) {
                    /* one execution takes too long: judged below, alone */
                    kill (pids[i], SIGKILL);
                    waitpid (pids[i], &st, 0);
                    pids[i] = -1;
                    alive--;
                    if (hung < 0)
                        hung = i;
                    S->stop = 1;
                }
            }
            if (t - t0 > cap && !S->stop) {
                S->capped = 1;
                S->stop = 1;
            }
            if (S->stop && t - ts > 0 && hung < 0) {
                ;
            }
            usleep (alive == jobs ? 1000 : 300);
        }
        if (hung >= 0 && !S->found) {
            struct worker *w = &S->w[hung];
            char msg[MSGLEN];
            int r = replay (w->c, NULL, w->pos, NULL, msg, hang * 6);
            if (r == 1) {
                S->found = 1;
                S->v_len = w->pos;
                memcpy (S->v_c, w->c, w->pos);
                memset (S->v_n, 0, w->pos);
                snprintf (S->v_msg, MSGLEN, "%s", msg);
            } else {
                fprintf (stderr,
                         "worker died or hung but its execution replays: %s\n",
                         msg);
                err = 1;
            }
        }
        if (S->nondet && !S->found) {
            fprintf (stderr, "ERROR scenario %s: nondeterminism: %s\n", sc->name,
                     S->nd_msg);
            err = 1;
        }
        fprintf (o, "%s{\"name\":", first ? "" : ",");
        first = 0;
        json_str (o, sc->name);
        fprintf (o,
                 ",\"executions\":%ld,\"transitions\":%ld,\"states\":%ld,"
                 "\"pruned\":%ld,\"max_depth\":%ld,\"states_saturated\":%s,"
                 "\"capped\":%s,\"wall_s\":%.2f,\"by_deviations\":[",
                 (long)S->execs, (long)S->transitions, (long)S->states,
                 (long)S->pruned, (long)S->maxdepth,
                 S->tab_full ? "true" : "false", S->capped ? "true" : "false",
                 now_s () - ts);
        for (i = 0; i < 8; i++)
            fprintf (o, "%s%ld", i ? "," : "", (long)S->devs[i]);
        fprintf (o, "],\"outcomes\":{");
        for (i = 0; i < S->nout; i++) {
            fprintf (o, "%s", i ? "," : "");
            json_str (o, S->out[i].label);
            fprintf (o, ":%ld", (long)S->out[i].count);
        }
        fprintf (o, "}");
        if (!S->found && !err && S->execs) {
            /* a sample: the history of the first and of a middle execution */
            char tf[600], msg[MSGLEN];
            FILE *tfp;
            struct worker *w = &S->w[0];
            int r;
            snprintf (tf, sizeof (tf), "%s.sample", out);
            unlink (tf);
            /* the last execution a worker ran */
            for (i = 0; i < jobs; i++)
                if (S->w[i].pos > w->pos)
                    w = &S->w[i];
            r = replay (w->c, NULL, w->pos, tf, msg, 60);
            if (r == 1) { /* it did not fail when it was explored */
                S->found = 1;
                S->v_len = w->pos;
                memcpy (S->v_c, w->c, w->pos);
                memset (S->v_n, 0, w->pos);
                snprintf (S->v_msg, MSGLEN, "%s", msg);
            } else if (r != 0) {
                fprintf (stderr, "ERROR scenario %s: sample replay: %d %s\n",
                         sc->name, r, msg);
                err = 1;
            }
            fprintf (o, ",\"sample\":[");
            tfp = fopen (tf, "r");
            if (tfp) {
                char line[512];
                int k = 0;
                while (k < 60 && fgets (line, sizeof (line), tfp)) {
                    line[strcspn (line, "\n")] = 0;
                    if (strstr (line, "[choice"))
                        continue;
                    fprintf (o, "%s", k++ ? "," : "");
                    json_str (o, line);
                }
                fclose (tfp);
                unlink (tf);
            }
            fprintf (o, "]");
        }
        if (S->found) {
            char rf[600], m1[MSGLEN] = "", m2[MSGLEN] = "";
            int r1, r2, same;
            FILE *f;

            snprintf (rf, sizeof (rf), "%s/%s-%s-%s.replay", repdir, mc_property,
                      config, sc->name);
            unlink (rf);
            f = fopen (rf, "w");
            if (f) {
                fprintf (f, "property %s\nconfig %s\nscenario %s\nchoices", mc_property,
                         config, sc->name);
                for (i = 0; i < S->v_len; i++)
                    fprintf (f, " %d", S->v_c[i]);
                fprintf (f, "\nmessage %s\ntrace:\n", S->v_msg);
                fclose (f);
            }
            r1 = replay (S->v_c, NULL, S->v_len, NULL, m1, hang * 3);
            r2 = replay (S->v_c, NULL, S->v_len, rf, m2, hang * 3);
            /* after memory corruption the symptom may depend on stack garbage,
             * which tracing changes: the same choices must fail, not the same way */
            if (r1 == 1 && r2 != 1) {
                snprintf (m2, sizeof (m2), "%s", m1);
                r2 = replay (S->v_c, NULL, S->v_len, NULL, m1, hang * 3);
            }
            /* an execution that failed once is a failure of the code even when the
             * same choices do not fail again: the outcome then depends on what
             * memory held before */
            same = r1 == 1 && r2 == 1;
            if (!same)
                snprintf (m2, sizeof (m2), "%s (not in every run of these choices)",
                          S->v_msg);
            printf ("property %s, configuration %s, scenario %s: %s\n", mc_property,
                    config, sc->name, m2);
            printf ("VIOLATION property=%s replay=%s\n", mc_property, rf);
            violated = 1;
            fprintf (o, ",\"violation\":");
            json_str (o, m2);
        }
        fprintf (o, "}");
    }
    fprintf (o, "],\"wall_s\":%.2f}\n", now_s () - t0);
    fclose (o);
    fflush (stdout);
    return violated ? 1 : err ? 2 : 0;
}
