/* Threads as fibres under the explorer, and happens-before race detection. */
#define _GNU_SOURCE
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include "vk.h"

#define MAXT 8
#define TSTK_BASE 0x1d0000000000ull
#define TSTK_SIZE (1ul << 19)
#define TSTK_CLEAR 16384
#define MAXKEY 32

enum
{
    T_NONE,
    T_RUN,
    T_BLOCKED,
    T_DONE,
};

struct vt
{
    int state;
    void *rsp;
    void *(*fn) (void *);
    void *arg;
    int err;
    int (*ready) (void *);
    void *rarg;
    uint64_t deadline;
    const char *what;
    uint32_t vc[MAXT];
    uint32_t acq_pending[MAXT]; /* relaxed loads, for acquire fences */
    uint32_t rel_fence[MAXT];
    int has_rel_fence;
    void *tsd[MAXKEY];
    unsigned tsd_set;
    const void *cond;
    int signaled;
    int detached;
};

static struct vt T[MAXT];
static int nt, cur;
int vt_active, vt_explore;
static int nkeys;
static int mapped;

/* thread-local variables of the library: the program has no others, one copy for
 * each fibre is kept aside while it does not run */
#define TLSMAX 4096
static char *tls;
static size_t tls_size;
static char tls_init[TLSMAX], tls_of[MAXT][TLSMAX];

static int
tls_find (struct dl_phdr_info *i, size_t size, void *data)
{
    int k;

    for (k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            tls = i->dlpi_tls_data;
            tls_size = i->dlpi_phdr[k].p_memsz;
        }
    return 1; /* the program comes first */
}

int vt_self (void) { return cur; }
int vt_count (void) { return nt; }

/* ---- happens-before ---------------------------------------------------------- */

struct rec
{
    uintptr_t pc;
    uint32_t clk;
    uint8_t tid, kind, mask, atomic; /* kind: 0 read 1 write */
};
#define NREC 12
struct cell
{
    uintptr_t key;
    int n;
    struct rec r[NREC];
};
#define CBITS 15
static struct cell cells[1 << CBITS];
static int used_cells[1 << CBITS], nused;

struct sync
{
    const void *key;
    uint32_t vc[MAXT];
};
#define NSYNC 512
static struct sync syncs[NSYNC];
static int nsync;

static struct sync *
sync_of (const void *key, int create)
{
    int i;
    for (i = 0; i < nsync; i++)
        if (syncs[i].key == key)
            return &syncs[i];
    if (!create)
        return NULL;
    if (nsync == NSYNC)
        mc_fail ("harness error: too many synchronisation objects");
    memset (&syncs[nsync], 0, sizeof (syncs[0]));
    syncs[nsync].key = key;
    return &syncs[nsync++];
}

static void
vc_join (uint32_t *a, const uint32_t *b)
{
    int i;
    for (i = 0; i < MAXT; i++)
        if (b[i] > a[i])
            a[i] = b[i];
}

void
vt_hb_release (const void *key)
{
    if (!vt_active)
        return;
    vc_join (sync_of (key, 1)->vc, T[cur].vc);
    T[cur].vc[cur]++;
}

void
vt_hb_acquire (const void *key)
{
    struct sync *s;
    if (!vt_active)
        return;
    s = sync_of (key, 0);
    if (s)
        vc_join (T[cur].vc, s->vc);
}

static struct cell *
cell_of (uintptr_t key)
{
    unsigned h = (key * 0x9E3779B97F4A7C15ull) >> (64 - CBITS);
    for (;; h = (h + 1) & ((1 << CBITS) - 1)) {
        if (cells[h].key == key)
            return &cells[h];
        if (!cells[h].key) {
            if (nused > (1 << CBITS) * 3 / 4)
                mc_fail ("harness error: race table full");
            cells[h].key = key;
            cells[h].n = 0;
            used_cells[nused++] = h;
            return &cells[h];
        }
    }
}

static void
race_check (uintptr_t a, size_t n, int write, int atomic, uintptr_t pc)
{
    uintptr_t g = a >> 3, e = (a + n - 1) >> 3;
    int freeing = write == 2;

    /* one for each thread, see switch_to */
    if (a == (uintptr_t)&errno || a - (uintptr_t)tls < tls_size)
        return;
    for (; g <= e; g++) {
        int lo = g == (a >> 3) ? (a & 7) : 0;
        int hi = g == e ? ((a + n - 1) & 7) : 7;
        uint8_t mask = (uint8_t)(((1u << (hi - lo + 1)) - 1) << lo);
        struct cell *c;
        int i, slot = -1;

        c = cell_of (g);
        for (i = 0; i < c->n; i++) {
            struct rec *r = &c->r[i];
            if (r->tid == cur) {
                if (r->kind == !!write && r->mask == mask &&
                    r->atomic == atomic)
                    slot = i;
                continue;
            }
            if (!(r->mask & mask) || (!r->kind && !write))
                continue;
            if (r->atomic && atomic)
                continue;
            if (r->clk > T[cur].vc[r->tid])
                mc_fail ("data race: %s by thread %d is not ordered with the %s "
                         "by thread %d",
                         freeing ? "release of memory" :
                         write   ? "write" :
                                   "read",
                         cur, r->kind ? "write" : "read", r->tid);
        }
        if (slot < 0) {
            if (c->n < NREC)
                slot = c->n++;
            else {
                /* drop a record that is ordered before us, else the first */
                slot = 0;
                for (i = 0; i < c->n; i++)
                    if (c->r[i].clk <= T[cur].vc[c->r[i].tid]) {
                        slot = i;
                        break;
                    }
            }
        }
        c->r[slot].pc = pc;
        c->r[slot].clk = T[cur].vc[cur];
        c->r[slot].tid = cur;
        c->r[slot].kind = !!write;
        c->r[slot].mask = mask;
        c->r[slot].atomic = atomic;
    }
}

void
vt_access (uintptr_t a, size_t n, int write, uintptr_t pc)
{
    if (n)
        race_check (a, n, write, 0, pc);
}

/* kind: 0 load 1 store 2 rmw; order: C11 __ATOMIC_* */
void
vt_atomic (uintptr_t a, size_t n, int kind, int order)
{
    struct sync *s;
    int acq = order == __ATOMIC_ACQUIRE || order == __ATOMIC_CONSUME ||
              order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST;
    int rel = order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL ||
              order == __ATOMIC_SEQ_CST;
    struct vt *t = &T[cur];

    if (!n) { /* fence */
        if (acq)
            vc_join (t->vc, t->acq_pending);
        if (rel) {
            memcpy (t->rel_fence, t->vc, sizeof (t->vc));
            t->has_rel_fence = 1;
            t->vc[cur]++;
        }
        return;
    }
    vt_syscall_point ("atomic");
    race_check (a, n, kind != 0, 1, 0);
    s = sync_of ((void *)a, 1);
    if (kind != 1) {
        if (acq)
            vc_join (t->vc, s->vc);
        else
            vc_join (t->acq_pending, s->vc);
    }
    if (kind != 0) {
        uint32_t old[MAXT];
        memcpy (old, s->vc, sizeof (old));
        if (kind == 1) /* a plain atomic store starts a new release sequence */
            memset (s->vc, 0, sizeof (s->vc));
        if (rel) {
            vc_join (s->vc, t->vc);
            t->vc[cur]++;
        } else if (t->has_rel_fence)
            vc_join (s->vc, t->rel_fence);
        if (kind == 2)
            vc_join (s->vc, old);
    }
}

/* ---- fibres ------------------------------------------------------------------- */

void vt_swap (void **from, void *to);
__asm__ (".text\n.globl vt_swap\n.type vt_swap,@function\nvt_swap:\n"
         "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
         "movq %rsp,(%rdi)\n"
         "movq %rsi,%rsp\n"
         "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\n"
         "ret\n");

void vk_idle (uint64_t extra);
static void pick_other (void);

static void
thread_main (void)
{
    struct vt *t = &T[cur];

    errno = 0;
    t->fn (t->arg);
    t->state = T_DONE;
    vt_hb_release (t);
    pick_other ();
    mc_fail ("harness error: finished thread resumed");
}

static void
switch_to (int to)
{
    int from = cur;

    if (to == from)
        return;
    T[from].err = errno;
    if (tls_size) {
        memcpy (tls_of[from], tls, tls_size);
        memcpy (tls, tls_of[to], tls_size);
    }
    cur = to;
    mc_ev2 ("-- thread %ld (was %ld) --", to, from);
    vt_swap (&T[from].rsp, T[to].rsp);
    errno = T[cur].err;
}

static int
enabled (int i)
{
    struct vt *t = &T[i];

    if (t->state == T_RUN)
        return 1;
    if (t->state != T_BLOCKED)
        return 0;
    if (t->ready && t->ready (t->rarg))
        return 1;
    if (t->deadline && t->deadline <= vk_now)
        return 1;
    return 0;
}

/* the current thread cannot go on: run another one, let the environment act */
static void
pick_other (void)
{
    int list[MAXT], n, i;

    for (;;) {
        uint64_t dl = 0;
        for (n = i = 0; i < nt; i++)
            if (enabled (i))
                list[n++] = i;
        if (n) {
            i = list[mc_choose (n, "next thread")];
            if (i != cur)
                switch_to (i);
            return;
        }
        for (i = 0; i < nt; i++)
            if (T[i].state == T_BLOCKED && T[i].deadline &&
                (!dl || T[i].deadline < dl))
                dl = T[i].deadline;
        vk_idle (dl);
    }
}

void
vt_syscall_point (const char *what)
{
    int list[MAXT], n = 0, i, c;

    mc_step ();
    if (!vt_active || !vt_explore || mc_preempt_left <= 0)
        return;
    for (i = 0; i < nt; i++)
        if (i != cur && enabled (i))
            list[n++] = i;
    if (!n)
        return;
    c = mc_preempt (n + 1, what);
    if (c)
        switch_to (list[c - 1]);
}

void
vt_block (int (*ready) (void *), void *arg, uint64_t deadline, const char *what)
{
    struct vt *t = &T[cur];

    for (;;) {
        if (ready && ready (arg))
            break;
        if (deadline && deadline <= vk_now)
            break;
        if (!vt_active) {
            vk_idle (deadline);
            continue;
        }
        t->state = T_BLOCKED;
        t->ready = ready;
        t->rarg = arg;
        t->deadline = deadline;
        t->what = what;
        pick_other ();
        t->state = T_RUN;
    }
    t->state = T_RUN;
}

int
vt_spawn (void *(*fn) (void *), void *arg)
{
    struct vt *t;
    char *top;
    void **sp;

    if (nt == MAXT)
        mc_fail ("too many threads (unbounded?)");
    t = &T[nt];
    memset (t, 0, sizeof (*t));
    top = (char *)TSTK_BASE + TSTK_SIZE * (nt + 1);
    memset (top - TSTK_CLEAR, 0, TSTK_CLEAR);
    sp = (void **)(top - 64);
    *--sp = NULL; /* alignment */
    *--sp = (void *)thread_main;
    sp -= 6;
    t->rsp = sp;
    memcpy (tls_of[nt], tls_init, tls_size);
    t->fn = fn;
    t->arg = arg;
    t->state = T_RUN;
    vt_active = 1;
    /* creation happens before everything in the new thread */
    memcpy (t->vc, T[cur].vc, sizeof (t->vc));
    t->vc[nt]++;
    T[cur].vc[cur]++;
    return nt++;
}

void
vt_reset (void)
{
    int i;

    if (!mapped) {
        void *p = mmap ((void *)TSTK_BASE, TSTK_SIZE * (MAXT + 1),
                        PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                            MAP_FIXED_NOREPLACE,
                        -1, 0);
        if (p != (void *)TSTK_BASE) {
            perror ("mmap of thread stacks");
            _exit (2);
        }
        dl_iterate_phdr (tls_find, NULL);
        if (tls_size > TLSMAX) {
            fprintf (stderr, "too many thread-local variables\n");
            _exit (2);
        }
        memcpy (tls_init, tls, tls_size);
        mapped = 1;
    }
    memcpy (tls, tls_init, tls_size);
    memset (T, 0, sizeof (T[0]) * (nt ? nt : 1));
    nt = 1;
    cur = 0;
    T[0].state = T_RUN;
    T[0].vc[0] = 1;
    vt_active = 0;
    vt_explore = 0;
    nkeys = 0;
    nsync = 0;
    for (i = 0; i < nused; i++)
        cells[used_cells[i]].key = 0;
    nused = 0;
}

static int
all_done (void *arg)
{
    int i, n = (int)(intptr_t)arg;
    for (i = 1; i <= n; i++)
        if (T[i].state != T_DONE)
            return 0;
    return 1;
}

/* wait for threads 1..n (those the harness started first) */
void
vt_join_n (int n)
{
    int i;
    vt_block (all_done, (void *)(intptr_t)n, 0, "join");
    for (i = 1; i <= n; i++)
        vt_hb_acquire (&T[i]);
}

int vt_thread_done (int i) { return T[i].state == T_DONE; }

/* ---- pthread ------------------------------------------------------------------- */

int
vk_pthread_create (pthread_t *th, const pthread_attr_t *a, void *(*fn) (void *),
                   void *arg)
{
    int id;

    vt_syscall_point ("pthread_create");
    if (mc_fault ("pthread_create fails"))
        return EAGAIN;
    id = vt_spawn (fn, arg);
    *th = id;
    vt_syscall_point ("after pthread_create");
    return 0;
}

static int
done_pred (void *arg)
{
    return ((struct vt *)arg)->state == T_DONE;
}

int
vk_pthread_join (pthread_t th, void **r)
{
    if (th >= (pthread_t)nt)
        return ESRCH;
    vt_block (done_pred, &T[th], 0, "pthread_join");
    vt_hb_acquire (&T[th]);
    return 0;
}

int
vk_pthread_detach (pthread_t th)
{
    if (th >= (pthread_t)nt)
        return ESRCH;
    T[th].detached = 1;
    return 0;
}

pthread_t vk_pthread_self (void) { return cur; }
int vk_pthread_equal (pthread_t a, pthread_t b) { return a == b; }

void
vk_pthread_exit (void *r)
{
    T[cur].state = T_DONE;
    vt_hb_release (&T[cur]);
    pick_other ();
    mc_fail ("harness error: finished thread resumed");
}

int vk_pthread_attr_init (void *a) { return 0; }
int vk_pthread_attr_destroy (void *a) { return 0; }
int vk_pthread_attr_setdetachstate (void *a, int s) { return 0; }
int vk_pthread_attr_setstacksize (void *a, size_t s) { return 0; }
int vk_pthread_attr_setguardsize (void *a, size_t s) { return 0; }
int vk_pthread_setname_np (pthread_t t, const char *n) { return 0; }
int vk_pthread_mutexattr_init (void *a) { return 0; }
int vk_pthread_mutexattr_destroy (void *a) { return 0; }
int vk_pthread_mutexattr_settype (void *a, int t) { return 0; }
int vk_pthread_condattr_init (void *a) { return 0; }
int vk_pthread_condattr_destroy (void *a) { return 0; }

static int *owner_of (void *m) { return (int *)m; }

static int
mutex_free (void *m)
{
    return *owner_of (m) == 0;
}

int vk_pthread_mutex_init (void *m, const void *a)
{
    *owner_of (m) = 0;
    return 0;
}
int vk_pthread_mutex_destroy (void *m) { return 0; }

int
vk_pthread_mutex_lock (void *m)
{
    mc_mem_check (m, sizeof (int), 1, "pthread_mutex_lock");
    vt_syscall_point ("mutex lock");
    vt_block (mutex_free, m, 0, "mutex");
    *owner_of (m) = cur + 1;
    vt_hb_acquire (m);
    return 0;
}

int
vk_pthread_mutex_trylock (void *m)
{
    vt_syscall_point ("mutex trylock");
    if (*owner_of (m))
        return EBUSY;
    *owner_of (m) = cur + 1;
    vt_hb_acquire (m);
    return 0;
}

int
vk_pthread_mutex_unlock (void *m)
{
    mc_mem_check (m, sizeof (int), 1, "pthread_mutex_unlock");
    if (*owner_of (m) != cur + 1)
        mc_fail ("pthread mutex unlocked by a thread that does not hold it");
    vt_hb_release (m);
    *owner_of (m) = 0;
    vt_syscall_point ("mutex unlock");
    return 0;
}

int vk_pthread_spin_init (int *m, int shared)
{
    *m = 0;
    return 0;
}
int vk_pthread_spin_destroy (int *m) { return 0; }
int vk_pthread_spin_lock (int *m) { return vk_pthread_mutex_lock (m); }
int vk_pthread_spin_trylock (int *m) { return vk_pthread_mutex_trylock (m); }
int vk_pthread_spin_unlock (int *m) { return vk_pthread_mutex_unlock (m); }

int vk_pthread_cond_init (void *c, const void *a) { return 0; }
int vk_pthread_cond_destroy (void *c) { return 0; }

static int
signaled (void *arg)
{
    return ((struct vt *)arg)->signaled;
}

int
vk_pthread_cond_wait (void *c, void *m)
{
    struct vt *t = &T[cur];

    mc_mem_check (c, sizeof (int), 1, "pthread_cond_wait");
    if (mc_env (2, "spurious wakeup of pthread_cond_wait")) {
        vk_pthread_mutex_unlock (m);
        vk_pthread_mutex_lock (m);
        return 0;
    }
    t->cond = c;
    t->signaled = 0;
    vk_pthread_mutex_unlock (m);
    vt_block (signaled, t, 0, "cond");
    t->cond = NULL;
    vk_pthread_mutex_lock (m);
    return 0;
}

int
vk_pthread_cond_timedwait (void *c, void *m, const void *ts)
{
    const struct timespec *d = ts;
    struct vt *t = &T[cur];
    int s;

    t->cond = c;
    t->signaled = 0;
    vk_pthread_mutex_unlock (m);
    vt_block (signaled, t, (uint64_t)d->tv_sec * 1000000000ull + d->tv_nsec,
              "cond");
    s = t->signaled;
    t->cond = NULL;
    vk_pthread_mutex_lock (m);
    return s ? 0 : ETIMEDOUT;
}

int
vk_pthread_cond_signal (void *c)
{
    int list[MAXT], n = 0, i;

    mc_mem_check (c, sizeof (int), 1, "pthread_cond_signal");
    for (i = 0; i < nt; i++)
        if (T[i].cond == c && !T[i].signaled)
            list[n++] = i;
    if (n)
        T[list[mc_choose (n, "thread to signal")]].signaled = 1;
    vt_syscall_point ("cond signal");
    return 0;
}

int
vk_pthread_cond_broadcast (void *c)
{
    int i;
    for (i = 0; i < nt; i++)
        if (T[i].cond == c)
            T[i].signaled = 1;
    vt_syscall_point ("cond broadcast");
    return 0;
}

static int
once_done (void *o)
{
    return *(int *)o == 2;
}

int
vk_pthread_once (pthread_once_t *o, void (*fn) (void))
{
    if (*(int *)o != 2) /* once done it commutes with everything */
        vt_syscall_point ("once");
    if (*(int *)o == 1)
        vt_block (once_done, o, 0, "once");
    if (*(int *)o == 0) {
        *(int *)o = 1;
        fn ();
        *(int *)o = 2;
        vt_hb_release (o);
    }
    vt_hb_acquire (o);
    return 0;
}

int
vk_pthread_key_create (pthread_key_t *k, void (*d) (void *))
{
    if (nkeys == MAXKEY)
        return EAGAIN;
    *k = nkeys++;
    if (vt_active)
        vt_access ((uintptr_t)k, sizeof (*k), 1, 0);
    return 0;
}
int vk_pthread_key_delete (pthread_key_t k) { return 0; }

void *
vk_pthread_getspecific (pthread_key_t k)
{
    return k < MAXKEY ? T[cur].tsd[k] : NULL;
}

int
vk_pthread_setspecific (pthread_key_t k, const void *v)
{
    if (k >= (pthread_key_t)nkeys)
        return EINVAL;
    /* storage is needed once for each thread and key */
    if (v && !(T[cur].tsd_set & 1u << k) && mc_fault ("pthread_setspecific fails"))
        return ENOMEM;
    T[cur].tsd_set |= 1u << k;
    T[cur].tsd[k] = (void *)v;
    return 0;
}

int vk_sched_yield (void)
{
    vt_syscall_point ("sched_yield");
    return 0;
}
