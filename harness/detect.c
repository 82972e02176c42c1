/* S01: faults. P0 tasks, P1 systems one after the other, P2 1: another thread runs a
 * system meanwhile 2: another thread without a system faults, P3 operations of a task. */
#include "h.h"
#include <hev-memory-allocator.h>
#include <signal.h>
#include <stdlib.h>

const char mc_property[] = "S01";

#define N P (0)
#define ROUNDS P (1)
#define OTHER P (2)
#define OPS P (3)
#define MAXT 4

extern struct sigaction vk_sa[65];

static struct tk
{
    HevTask *t;
    int live, ended;
    uintptr_t lo, hi;
} T[MAXT];
static struct sigaction before[65];
static void *stack_before[8];
static char own_stack[32768];
static int calls_[8]; /* of the handlers of the program */
#define calls calls_[vt_self ()]
static struct
{
    int sig, code, reported, on;
    void *addr;
} faults[8]; /* the fault that is raised, by thread */
#define F faults[vt_self ()]
static int other_done;

static const int sigs[] = { SIGSEGV, SIGBUS };

static void
end_of_fault (void)
{
    MC_CHECK (!F.reported || vk_printed_by[vt_self ()], "a stack overflow is not reported");
    MC_CHECK (F.reported || !vk_printed_by[vt_self ()], "something else is reported as a stack overflow");
    F.on = 0;
}

static void
info_handler (int s, siginfo_t *si, void *ctx)
{
    MC_CHECK (F.on, "the program's handler is called without a fault");
    MC_CHECK (s == F.sig && si && si->si_signo == s,
              "the program's handler is called for signal %d instead of %d", s, F.sig);
    MC_CHECK (si->si_addr == F.addr && si->si_code == F.code,
              "the program's handler gets other information");
    MC_CHECK (before[s].sa_sigaction == info_handler, "a handler that is not installed runs");
    vk_fault_gone = 1;
    calls++;
}

static void
plain_handler (int s)
{
    MC_CHECK (F.on, "the program's handler is called without a fault");
    MC_CHECK (s == F.sig, "the program's handler is called for signal %d instead of %d", s, F.sig);
    MC_CHECK (before[s].sa_handler == plain_handler, "a handler that is not installed runs");
    vk_fault_gone = 1;
    calls++;
}

static int
defaulted (int s, int code)
{
    return before[s].sa_handler == SIG_DFL || (before[s].sa_handler == SIG_IGN && code > 0);
}

static void
killed (int s)
{
    MC_CHECK (F.on, "the process ends without a fault");
    MC_CHECK (defaulted (F.sig, F.code), "the process ends instead of the program's handler being called");
    MC_CHECK (s == F.sig, "the process ends by signal %d instead of %d", s, F.sig);
    end_of_fault ();
    mc_outcome (F.reported ? "reported, process ended" : "process ended");
    mc_done ();
}

static void
fault (int sig, void *addr, int code, int overflow, int own)
{
    int n = calls;

    F.sig = sig;
    F.addr = addr;
    F.code = code;
    F.reported = overflow;
    F.on = 1;
    vk_printed_by[vt_self ()] = 0;
    mc_evx (overflow ? "fault %ld in a guard area, code %ld" : "fault %ld, code %ld", sig, code, 0);
    vk_deliver (sig, addr, code, own);
    MC_CHECK (!defaulted (sig, code), "the process goes on after a fault nobody handles");
    if (before[sig].sa_handler == SIG_IGN)
        MC_CHECK (calls == n, "an ignored signal is handled");
    else
        MC_CHECK (calls == n + 1, "the program's handler was called %d times", calls - n);
    end_of_fault ();
    mc_outcome (before[sig].sa_handler == SIG_IGN ? "ignored" : overflow ? "reported, handled" : "handled");
}

/* me: task, -1 none */
static void
some_fault (int me, int i_have_system)
{
    int kind = mc_choose (6, "kind of fault");
    int sig = sigs[mc_choose (2, "signal")], k;
    uintptr_t a;

    switch (kind) {
    case 0:
        fault (sig, NULL, SEGV_MAPERR, 0, 0);
        return;
    case 1:
        fault (sig, own_stack, SEGV_ACCERR, 0, 0);
        return;
    case 2: /* sent by a program */
        fault (sig, (void *)0x1234l, SI_USER, 0, 0);
        return;
    case 3:
    case 4: /* a guard area, or what was one */
        if (!N || !i_have_system)
            mc_prune ();
        k = mc_choose (N, "whose guard");
        if (!T[k].live && !T[k].ended)
            mc_prune ();
        a = kind == 3 ? T[k].lo - 1 : T[k].lo - 4096;
        if (T[k].ended && mc_page_state ((void *)a) == 2)
            mc_prune (); /* used again */
        if (!T[k].ended)
            MC_CHECK (mc_page_state ((void *)a) == 2, "no guard area below the stack");
        fault (sig, (void *)a, SEGV_ACCERR, !T[k].ended, k == me);
        return;
    case 5: /* above a stack */
        if (!N || !i_have_system)
            mc_prune ();
        k = mc_choose (N, "whose stack");
        if (!T[k].live || mc_page_state ((void *)(T[k].hi + 64)) == 2 ||
            mc_page_state ((void *)(T[k].hi + 64)) == 1)
            mc_prune ();
        fault (sig, (void *)(T[k].hi + 64), SEGV_MAPERR, 0, 0);
        return;
    }
}

static void
entry (void *data)
{
    struct tk *s = data;
    int j, i = s - T;

    MC_CHECK (mc_map_of (__builtin_frame_address (0), &s->lo, &s->hi), "no stack of its own");
    s->live = 1;
    mc_ev1 ("task %ld starts", i);
    for (j = 0; j < OPS; j++)
        switch (mc_choose (3, "operation")) {
        case 0:
            hev_task_yield (HEV_TASK_YIELD);
            mc_ev1 ("task %ld goes on", i);
            break;
        case 1:
            some_fault (i, 1);
            break;
        case 2:
            j = OPS;
            break;
        }
    mc_ev1 ("task %ld ends", i);
    s->live = 0;
    s->ended = 1;
}

static void
other_entry (void *data)
{
    hev_task_yield (HEV_TASK_YIELD);
}

static void *
other (void *data)
{
    if (OTHER == 1) {
        HevTask *t;
        h_init ();
        t = h_task ();
        hev_task_run (t, other_entry, NULL);
        hev_task_system_run ();
        h_fini ();
        MC_CHECK (vk_sigstacks[vt_self ()] == NULL, "a signal stack is left behind");
    } else {
        some_fault (-1, 0);
    }
    other_done = 1;
    return NULL;
}

static void
restored (void)
{
    int k;
    for (k = 0; k < 2; k++)
        MC_CHECK (vk_sa[sigs[k]].sa_handler == before[sigs[k]].sa_handler &&
                      vk_sa[sigs[k]].sa_flags == before[sigs[k]].sa_flags &&
                      !memcmp (&vk_sa[sigs[k]].sa_mask, &before[sigs[k]].sa_mask, 8),
                  "the program's handler of signal %d is not restored", sigs[k]);
}

static void
run (void)
{
    int k, r, c;

    memset (T, 0, sizeof (T));
    memset (faults, 0, sizeof (faults));
    memset (before, 0, sizeof (before));
    memset (calls_, 0, sizeof (calls_));
    other_done = 0;
    vk_next_fd = 3;
    vk_on_kill = killed;
    for (k = 0; k < 2; k++) {
        c = mc_choose (4, "handled before");
        before[sigs[k]].sa_flags = c == 2 ? SA_SIGINFO : 0;
        if (c == 2)
            before[sigs[k]].sa_sigaction = info_handler;
        else
            before[sigs[k]].sa_handler = c == 0 ? SIG_DFL : c == 1 ? SIG_IGN : plain_handler;
        if (c > 1 && mc_choose (2, "signal mask"))
            sigaddset (&before[sigs[k]].sa_mask, SIGUSR1);
        vk_sa[sigs[k]] = before[sigs[k]];
        mc_ev2 ("signal %ld: %ld", sigs[k], c);
    }
    if (mc_choose (2, "signal stack of the program")) {
        vk_sigstacks[0] = own_stack;
        vk_sigstack_size[0] = sizeof (own_stack);
    }
    stack_before[0] = vk_sigstacks[0];
    if (OTHER) {
        vt_explore = 1;
        vt_spawn (other, NULL);
    }
    for (r = 0; r < ROUNDS; r++) {
        h_init ();
        memset (T, 0, sizeof (T));
        for (k = 0; k < N; k++) {
            T[k].t = h_task ();
            hev_task_run (T[k].t, entry, &T[k]);
        }
        hev_task_system_run ();
        h_fini ();
        memset (T, 0, sizeof (T));
        if (!OTHER)
            restored ();
        MC_CHECK (vk_sigstacks[0] == stack_before[0] &&
                      vk_sigstack_size[0] == (stack_before[0] ? sizeof (own_stack) : 0),
                  "the thread's signal stack is not restored");
    }
    if (OTHER)
        vt_join_n (1);
    restored ();
    mc_leak_check ("fini");
    mc_outcome ("done");
}

const struct mc_scen mc_scenarios[] = {
    { "one", run, MC_BOTH, { 1, 1, 0, 3 } },
    { "two", run, MC_BOTH, { 2, 1, 0, 2 } },
    { "again", run, MC_BOTH, { 1, 2, 0, 2 } },
    { "threads", run, MC_BOTH, { 1, 1, 1, 1 }, .preempt = 2 },
    { "no-system", run, MC_BOTH, { 1, 1, 2, 1 }, .preempt = 2 },
    { "two-deep", run, MC_THOROUGH, { 2, 1, 0, 3 } },
    { "three-deep", run, MC_THOROUGH, { 3, 1, 0, 2 } },
    { "threads-deep", run, MC_THOROUGH, { 2, 1, 1, 1 }, .preempt = 3 },
    { 0 },
};
