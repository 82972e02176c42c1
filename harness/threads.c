/* C02: task systems in several threads. P0 threads, P1 systems per thread, one
 * after the other, P2 workloads to choose from, P3 1: a second initialisation,
 * P4 1: fault signals, 2: also in threads without a system, P5 first workload, P6 1: main runs a system too. */
#include "cio.h"
#include <hev-circular-buffer.h>
#include <hev-task-call.h>
#include <hev-task-channel.h>
#include <hev-task-cond.h>
#include <hev-task-io-pipe.h>
#include <hev-task-io-socket.h>
#include <hev-task-mutex.h>
#include <signal.h>

const char mc_property[] = "C02";

#define N P (0)
#define ROUNDS P (1)
#define LOADS P (2)
#define TWICE P (3)
#define SIGNALS P (4)
#define MAXTH 4

extern struct sigaction vk_sa[65];

static struct th
{
    int me;
    int load[3];
    HevTask *t[2];
    int steps, done;
    int order[8], no;
    uint64_t t0;
    HevTaskMutex m;
    HevTaskCond c;
    HevTaskChannel *ch[2];
    int fd[2];
    int flag;
    int faults;
} H[MAXTH];

static struct th *
self (void *data)
{
    struct th *h = data;
    MC_CHECK (vt_self () == h->me, "a task of thread %d runs in thread %d", h->me, vt_self ());
    return h;
}

static void
mark (struct th *h, int who)
{
    MC_CHECK (vt_self () == h->me, "a task of thread %d runs in thread %d", h->me, vt_self ());
    MC_CHECK (hev_task_self () == h->t[who], "the current task of thread %d is wrong", h->me);
    MC_CHECK (hev_task_get_state (h->t[who]) == HEV_TASK_RUNNING, "state of the current task");
    h->order[h->no++] = who;
}

static void
fault (struct th *h, int system)
{
    if (SIGNALS > !system) {
        static char outside;
        int n = h->faults;
        MC_CHECK (!system || vk_sigstacks[vt_self ()], "the thread has no signal stack");
        vk_deliver (SIGSEGV, &outside, SEGV_MAPERR, 0);
        MC_CHECK (h->faults == n + 1, "a fault was passed on %d times", h->faults - n);
    }
}

static void
user_handler (int s, siginfo_t *si, void *ctx)
{
    vk_fault_gone = 1;
    MC_CHECK (s == SIGSEGV && si->si_signo == s, "wrong signal");
    H[vt_self () == 0 ? N : vt_self () - 1].faults++;
    MC_CHECK (H[vt_self () == 0 ? N : vt_self () - 1].faults < 8, "the handler is called again and again");
}

/* ---- workloads: two tasks, a and b ---- */

static void
yield_a (void *d)
{
    struct th *h = self (d);
    mark (h, 0);
    hev_task_yield (HEV_TASK_YIELD);
    mark (h, 0);
    fault (h, 1);
    h->done++;
}

static void
yield_b (void *d)
{
    struct th *h = self (d);
    mark (h, 1);
    hev_task_yield (HEV_TASK_YIELD);
    mark (h, 1);
    h->done++;
}

static void
sleep_a (void *d)
{
    struct th *h = self (d);
    uint64_t t = vk_now;
    MC_CHECK (hev_task_sleep (2) == 0, "sleep was cut short");
    MC_CHECK (vk_now >= t + 2000000, "sleep ended early");
    mark (h, 0);
    h->done++;
}

static void
sleep_b (void *d)
{
    struct th *h = self (d);
    uint64_t t = vk_now;
    MC_CHECK (hev_task_sleep (1) == 0, "sleep was cut short");
    MC_CHECK (vk_now >= t + 1000000, "sleep ended early");
    mark (h, 1);
    h->done++;
}

static void
chan_a (void *d)
{
    struct th *h = self (d);
    int v = 100 + h->me;
    MC_CHECK (hev_task_channel_write (h->ch[0], &v, sizeof (v)) == sizeof (v), "channel write");
    mark (h, 0);
    hev_task_channel_destroy (h->ch[0]);
    h->done++;
}

static void
chan_b (void *d)
{
    struct th *h = self (d);
    int v = 0;
    MC_CHECK (hev_task_channel_read (h->ch[1], &v, sizeof (v)) == sizeof (v), "channel read");
    MC_CHECK (v == 100 + h->me, "thread %d received %d", h->me, v);
    mark (h, 1);
    hev_task_channel_destroy (h->ch[1]);
    h->done++;
}

static void
pipe_a (void *d)
{
    struct th *h = self (d);
    unsigned char b = 50 + h->me;
    MC_CHECK (hev_task_io_pipe_pipe (h->fd) == 0, "pipe");
    MC_CHECK (hev_task_add_fd (h->t[0], h->fd[1], POLLOUT) == 0, "add_fd");
    h->flag = 1;
    hev_task_wakeup (h->t[1]);
    hev_task_yield (HEV_TASK_YIELD);
    MC_CHECK (hev_task_io_write (h->fd[1], &b, 1, NULL, NULL) == 1, "write");
    mark (h, 0);
    hev_task_del_fd (h->t[0], h->fd[1]);
    vk_close_user (h->fd[1]);
    h->done++;
}

static void
pipe_b (void *d)
{
    struct th *h = self (d);
    unsigned char b = 0;
    while (!h->flag)
        hev_task_yield (HEV_TASK_WAITIO);
    MC_CHECK (hev_task_add_fd (h->t[1], h->fd[0], POLLIN) == 0, "add_fd");
    MC_CHECK (hev_task_io_read (h->fd[0], &b, 1, NULL, NULL) == 1 && b == 50 + h->me, "read");
    mark (h, 1);
    hev_task_del_fd (h->t[1], h->fd[0]);
    vk_close_user (h->fd[0]);
    h->done++;
}

static void
sync_a (void *d)
{
    struct th *h = self (d);
    hev_task_mutex_lock (&h->m);
    while (!h->flag)
        MC_CHECK (hev_task_cond_wait (&h->c, &h->m) == 0, "cond wait");
    mark (h, 0);
    hev_task_mutex_unlock (&h->m);
    h->done++;
}

static void
sync_b (void *d)
{
    struct th *h = self (d);
    hev_task_mutex_lock (&h->m);
    h->flag = 1;
    mark (h, 1);
    hev_task_cond_signal (&h->c);
    hev_task_mutex_unlock (&h->m);
    MC_CHECK (hev_task_join (h->t[0]) == 0, "join");
    mark (h, 1);
    hev_task_unref (h->t[0]);
    h->done++;
}

static void
call_entry (HevTaskCall *c)
{
    hev_task_yield (HEV_TASK_YIELD);
    hev_task_call_set_retval (c, (void *)0x77);
}

static void
mem_a (void *d)
{
    struct th *h = self (d);
    unsigned char *p = hev_malloc (40), *q = hev_malloc0 (100);
    HevTaskCall *c = hev_task_call_new (sizeof (HevTaskCall), 4096);
    int k;
    MC_CHECK (p && q && c, "allocation failed");
    memset (p, h->me, 40);
    MC_CHECK (hev_task_call_jump (c, call_entry) == (void *)0x77, "call");
    hev_task_call_destroy (c);
    for (k = 0; k < 40; k++)
        MC_CHECK (p[k] == h->me, "memory of another thread");
    for (k = 0; k < 100; k++)
        MC_CHECK (q[k] == 0, "memory of another thread");
    hev_free (p);
    hev_free (q);
    mark (h, 0);
    h->done++;
}

static void
cio_b (void *d)
{
    struct th *h = self (d);
    HevTaskCIO *c = HEV_TASK_CIO (hev_task_cio_buffer_new (4, 4));
    HevTaskCIO *n = HEV_TASK_CIO (hev_task_cio_null_new ());
    MC_CHECK (c && n, "no layers");
    c = hev_task_cio_push (c, n);
    MC_CHECK (hev_task_cio_write_exact (c, "abcdef", 6, NULL, NULL) == 6, "write");
    MC_CHECK (hev_task_cio_flush (c, NULL, NULL) == 0, "flush");
    hev_object_unref (HEV_OBJECT (c));
    mark (h, 1);
    h->done++;
}

static const HevTaskEntry first[] = { yield_a, sleep_a, chan_a, pipe_a, sync_a, mem_a };
static const HevTaskEntry second[] = { yield_b, sleep_b, chan_b, pipe_b, sync_b, cio_b };
#define NLOADS 6

static void
one_system (struct th *h, int round)
{
    int l = h->load[round], k, want = 0;
    void *old = NULL;

    h->done = h->no = h->flag = 0;
    memset (&h->m, 0, sizeof (h->m));
    memset (&h->c, 0, sizeof (h->c));
    MC_CHECK (hev_task_system_init () == 0, "init failed in thread %d", h->me);
    if (TWICE) {
        old = hev_malloc (24);
        memset (old, 7, 24);
        MC_CHECK (hev_task_system_init () == -1, "a second init succeeded");
    }
    MC_CHECK (hev_task_self () == NULL, "a current task outside of run");
    if (l == 2)
        MC_CHECK (hev_task_channel_new (&h->ch[0], &h->ch[1]) == 0, "channel_new failed");
    for (k = 0; k < 2; k++) {
        h->t[k] = hev_task_new (STK);
        MC_CHECK (h->t[k], "task_new failed");
        if (l == 4 && k == 0)
            hev_task_ref (h->t[k]);
        hev_task_run (h->t[k], (k ? second : first)[l], h);
    }
    hev_task_system_run ();
    MC_CHECK (vt_self () == h->me, "run of thread %d returned in thread %d", h->me, vt_self ());
    MC_CHECK (h->done == 2, "run returned with %d of 2 tasks done in thread %d", h->done, h->me);
    for (k = 0; k < h->no; k++)
        want = want * 2 + h->order[k] + (k == 0);
    MC_CHECK (l == 0 ? h->no == 4 && h->order[0] == 0 && h->order[1] == 1 && h->order[2] == 0 :
              l == 1 ? h->no == 2 && h->order[0] == 1 :
              l == 4 ? h->no == 3 && h->order[0] == 1 && h->order[1] == 0 :
                       h->no == 2,
              "thread %d: the tasks ran in another order", h->me);
    if (TWICE) {
        for (k = 0; k < 24; k++)
            MC_CHECK (((unsigned char *)old)[k] == 7, "memory changed");
        hev_free (old);
    }
    hev_task_system_fini ();
    MC_CHECK (!vk_sigstacks[vt_self ()], "the signal stack of thread %d is left behind", h->me);
}

static void *
thread (void *arg)
{
    struct th *h = arg;
    int r;

    for (r = 0; r < ROUNDS; r++) {
        fault (h, 0);
        one_system (h, r);
    }
    fault (h, 0);
    return NULL;
}

static void
run (void)
{
    int k, r;

    memset (H, 0, sizeof (H));
    for (k = 0; k < N + P (6); k++)
        for (r = 0; r < ROUNDS; r++) {
            H[k].load[r] = P (5) + (LOADS > 1 ? mc_choose (LOADS, "workload") : 0);
            mc_evx ("thread %ld system %ld: workload %ld", k, r, H[k].load[r]);
        }
    vk_sa[SIGSEGV].sa_sigaction = user_handler;
    vk_sa[SIGSEGV].sa_flags = SA_SIGINFO;
    vk_sa[SIGBUS].sa_handler = SIG_IGN;
    vt_explore = 1;
    for (k = 0; k < N; k++)
        H[k].me = vt_spawn (thread, &H[k]);
    if (P (6))
        thread (&H[N]);
    vt_join_n (N);
    mc_outcome ("done");
    MC_CHECK (vk_sa[SIGSEGV].sa_sigaction == user_handler && vk_sa[SIGBUS].sa_handler == SIG_IGN,
              "a signal handler of a finalised system is left behind");
    mc_leak_check ("end");
}

const struct mc_scen mc_scenarios[] = {
    { "two", run, MC_BOTH, { 2, 1, NLOADS }, .preempt = 3 },
    { "main", run, MC_BOTH, { 1, 1, NLOADS, 0, 0, 0, 1 }, .preempt = 2 },
    { "twice", run, MC_BOTH, { 2, 2, 2 }, .preempt = 2 },
    { "again", run, MC_BOTH, { 2, 1, NLOADS, 1 }, .preempt = 2 },
    { "faults", run, MC_BOTH, { 2, 2, 1, 0, 1 }, .preempt = 3 },
    { "faults-anywhere", run, MC_BOTH, { 2, 1, 1, 0, 2 }, .preempt = 3 },
    { "three", run, MC_BOTH, { 3, 1, 3 }, .preempt = 1 },
    { "three-other", run, MC_BOTH, { 3, 1, 3, 0, 0, 3 }, .preempt = 1 },
    { "two-deep", run, MC_THOROUGH, { 2, 1, NLOADS }, .preempt = 4 },
    { "twice-deep", run, MC_THOROUGH, { 2, 2, 3 }, .preempt = 3 },
    { "three-deep", run, MC_THOROUGH, { 3, 1, NLOADS }, .preempt = 2 },
    { 0 },
};
