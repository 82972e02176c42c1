/* Explorer: exhaustive enumeration of bounded executions of the real library. */
#ifndef MC_H
#define MC_H

#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>

/* ---- scenarios -------------------------------------------------------- */
#define MC_QUICK 1
#define MC_THOROUGH 2
#define MC_BOTH 3

struct mc_scen
{
    const char *name;
    void (*run) (void);
    int tiers;
    int p[8];        /* harness parameters */
    int env_budget;  /* deviations of the environment per execution */
    int fault_budget; /* injected resource failures per execution */
    int preempt;     /* preemptive thread switches per execution */
    long horizon;    /* library memory accesses per execution, 0 = default */
};

extern const struct mc_scen mc_scenarios[];
extern const char mc_property[];
/* run before each execution / called when nothing can ever happen again */
extern const struct mc_scen *mc_cur;
#define P(i) (mc_cur->p[i])

/* ---- choices ---------------------------------------------------------- */
int mc_choose (int n, const char *what);       /* all alternatives */
int mc_env (int n, const char *what);          /* 0 is the default answer */
int mc_fault (const char *what);               /* 1: fail this request */
int mc_preempt (int n, const char *what);      /* 0: go on with this thread */
extern int mc_faults_on; /* failures are injected while set */
extern int mc_env_left, mc_fault_left, mc_preempt_left;

/* ---- verdicts --------------------------------------------------------- */
void mc_fail (const char *fmt, ...) __attribute__ ((noreturn, format (printf, 1, 2)));
void mc_done (void) __attribute__ ((noreturn)); /* end of this execution, fine */
void mc_prune (void) __attribute__ ((noreturn)); /* not a behaviour of interest */
#define MC_CHECK(c, ...)            \
    do {                            \
        if (!(c))                   \
            mc_fail (__VA_ARGS__);  \
    } while (0)

/* ---- history ---------------------------------------------------------- */
/* observable event: part of the history that identifies a state */
void mc_ev3 (const char *fmt, long a, long b, long c);
#define mc_ev(f) mc_ev3 (f, 0, 0, 0)
#define mc_ev1(f, a) mc_ev3 (f, (long)(a), 0, 0)
#define mc_ev2(f, a, b) mc_ev3 (f, (long)(a), (long)(b), 0)
#define mc_evx(f, a, b, c) mc_ev3 (f, (long)(a), (long)(b), (long)(c))
void mc_outcome (const char *label); /* counted, shown in the evidence */
extern int mc_tracing;

/* called by the engine at the start of an execution, after reset */
extern void (*mc_on_idle) (void); /* nothing will ever happen: judge, then mc_done */

/* ---- memory ----------------------------------------------------------- */
void *vk_malloc (size_t n);
void vk_free (void *p);
int mc_mem_ok (const void *p, size_t n);   /* addressable now? */
size_t mc_block_size (const void *p);      /* 0 if not a live block */
void mc_mem_check (const void *p, size_t n, int write, const char *who);
extern long mc_live_blocks, mc_live_maps, mc_live_fds, mc_live_bytes;
extern long mc_total_mallocs, mc_total_frees;
void mc_leak_check (const char *when);
int mc_map_of (const void *p, uintptr_t *lo, uintptr_t *hi);
int mc_page_state (const void *p); /* 0 none 1 usable 2 guard 3 unmapped again */
extern int (*mc_on_signal) (int sig, void *addr);
extern int mc_real_mprotect;
extern unsigned char mc_fill; /* pattern of fresh memory */
extern long mc_steps;
void mc_step (void);

/* engine internals shared with vk.c / vt.c */
void mc_mem_reset (void);
void vk_reset (void);
void vt_reset (void);
extern int vt_active;             /* more than one thread exists */
void vt_access (uintptr_t a, size_t n, int write, uintptr_t pc);
void vt_atomic (uintptr_t a, size_t n, int kind, int order);

#endif
