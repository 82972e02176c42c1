/* D01: name lookups. P0 threads with a system each, P1 calling tasks per system,
 * P2 calls per task, P3 systems per thread, one after the other, P4 1: lookups
 * take time, and a ticking task runs meanwhile, P5 1: two more systems afterwards,
 * P6 1: failures are injected during the calls, P7 kinds of calls (1 or 2). */
#include "h.h"
#include <hev-task-dns.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdio.h>
#include <stdlib.h>

const char mc_property[] = "D01";

#define N P (0)
#define TASKS P (1)
#define CALLS P (2)
#define ROUNDS P (3)
#define SLOW P (4)
#define WARM P (5)
#define FAULTS P (6)
#define KINDS P (7)

static struct th
{
    int me, done, ticks, calls;
    HevTask *t[4];
    struct call
    {
        struct th *h;
        int id, kind, ret, err, in, runs;
        uint64_t dur;
        struct addrinfo ai, hints, *res;
        union
        {
            struct sockaddr_in sa;
            unsigned char raw[110];
        };
        int sl, hl, pl, flags, no_node, no_serv, no_hints;
        char node[1100], serv[300], host[1100], port[40];
    } c[2][3][2];
} H[4];
static int ncall;
static struct call *calls[400];

static int
never (void *arg)
{
    return 0;
}

static struct call *
lookup (const char *node)
{
    int id;

    if (!node) {
        for (id = 0; id < ncall; id++)
            if (calls[id]->in && calls[id]->no_node)
                return calls[id];
        mc_fail ("the resolver got no name");
    }
    id = atoi (node + 1);
    MC_CHECK (node[0] == 'n' && id >= 0 && id < ncall, "the resolver got the name '%s'", node);
    return calls[id];
}

static void
resolving (struct call *c)
{
    MC_CHECK (vt_self () > N && vt_self () != c->h->me, "the lookup runs in the thread of the caller");
    MC_CHECK (c->in, "lookup of a call that is not in progress");
    c->runs++;
    MC_CHECK (c->runs == 1, "lookup of the same call again");
    mc_ev1 ("lookup %ld", c->id);
    if (c->dur)
        vt_block (never, NULL, vk_now + c->dur, "lookup");
    mc_ev1 ("lookup %ld is done", c->id);
}

static int
resolver (const char *node, const char *service, const void *hints, void **res)
{
    struct call *c = lookup (node);

    MC_CHECK (c->kind == 0 && (c->no_node ? !node : !strcmp (node, c->node)), "another name");
    MC_CHECK (c->no_serv ? !service : service && !strcmp (service, c->serv), "another service");
    MC_CHECK (c->no_hints ? !hints : hints && !memcmp (hints, &c->hints, sizeof (c->hints)),
              "other hints");
    resolving (c);
    if (c->ret == 0)
        *res = &c->ai;
    errno = c->err;
    return c->ret;
}

static int
name_resolver (const void *sa, unsigned sl, char *h, unsigned hl, char *s, unsigned l, int f)
{
    struct call *c;
    int id = ntohs (((struct sockaddr_in *)sa)->sin_port);

    MC_CHECK (id < ncall, "the resolver got another address");
    c = calls[id];
    MC_CHECK (c->kind == 1 && sl == (unsigned)c->sl && !memcmp (sa, c->raw, sl), "another address");
    MC_CHECK (hl == (unsigned)c->hl && (h || !hl) && l == (unsigned)c->pl && (s || !l),
              "room for %d and %d bytes", hl, l);
    MC_CHECK (f == c->flags, "other flags");
    resolving (c);
    if (hl)
        snprintf (h, hl, "h%0*d", hl > 12 ? (int)hl - 2 : 1, id);
    if (l)
        snprintf (s, l, "p%0*d", l > 7 ? (int)l - 2 : 1, id);
    errno = c->err;
    return c->ret;
}

static void
one (struct call *c)
{
    int r, e, fl = N > 1 ? mc_cur->fault_budget : mc_fault_left;

    c->in = 1;
    c->res = NULL;
    mc_ev2 ("thread %ld: call %ld", c->h->me, c->id);
    errno = 33;
    if (FAULTS)
        mc_faults_on++;
    if (c->kind == 0)
        r = hev_task_dns_getaddrinfo (c->no_node ? NULL : c->node, c->no_serv ? NULL : c->serv,
                                      c->no_hints ? NULL : &c->hints, &c->res);
    else
        r = hev_task_dns_getnameinfo ((struct sockaddr *)c->raw, c->sl, c->hl ? c->host : NULL, c->hl,
                                      c->pl ? c->port : NULL, c->pl, c->flags);
    e = errno;
    if (FAULTS)
        mc_faults_on--;
    mc_evx ("call %ld returned %ld, errno %ld", c->id, r, e);
    c->in = 0;
    MC_CHECK (vt_self () == c->h->me, "the call returned in another thread");
    if (!c->runs) {
        MC_CHECK (FAULTS && mc_fault_left < fl, "call %d returned %d without a lookup", c->id, r);
        MC_CHECK (r == EAI_SYSTEM && e, "a failed call returned %d, errno %d", r, e);
        mc_outcome ("failed for lack of resources");

        c->h->calls++;
        return;
    }
    MC_CHECK (r == c->ret && e == c->err, "call %d returned %d, errno %d instead of %d, errno %d", c->id, r, e,
              c->ret, c->err);
    if (c->kind == 0)
        MC_CHECK (c->res == (c->ret ? NULL : &c->ai), "result of call %d", c->id);
    else {
        char x[1100] = "", y[40] = "";
        int k;
        if (c->hl)
            snprintf (x, sizeof (x), "h%0*d", c->hl > 12 ? c->hl - 2 : 1, c->id);
        if (c->pl)
            snprintf (y, sizeof (y), "p%0*d", c->pl > 7 ? c->pl - 2 : 1, c->id);
        MC_CHECK (!strcmp (x, c->host) && !strcmp (y, c->port), "result of call %d", c->id);
        for (k = c->hl; k < (int)sizeof (c->host); k++)
            MC_CHECK (!c->host[k], "the room for the name was exceeded");
        for (k = c->pl; k < (int)sizeof (c->port); k++)
            MC_CHECK (!c->port[k], "the room for the service was exceeded");
    }
    mc_outcome (c->ret ? "error" : "found");
    c->h->calls++;
}

static void
caller (void *data)
{
    struct call *c = data;
    int k;

    for (k = 0; k < CALLS; k++)
        one (&c[k]);
    c->h->done++;
}

/* must run on time while lookups are in progress */
static void
ticker (void *data)
{
    struct th *h = data;
    int k;
    for (k = 0; k < 3; k++) {
        uint64_t t = vk_now;
        hev_task_sleep (1);
        MC_CHECK (vk_now == t + 1000000, "another task was held up by %ld us",
                  (long)(vk_now - t - 1000000) / 1000);
        h->ticks++;
    }
}

static int ready;

static int
all_ready (void *arg)
{
    return ready == N;
}

static void
one_system (struct th *h, int r)
{
    int k;

    MC_CHECK (hev_task_system_init () == 0, "init failed");
    h->done = h->ticks = 0;
    for (k = 0; k < TASKS; k++)
        hev_task_run (h->t[k] = h_task (), caller, h->c[r][k]);
    if (SLOW)
        hev_task_run (h_task (), ticker, h);
    /* creating systems at the same time is the subject of C02 */
    if (r == 0) {
        ready++;
        vt_block (all_ready, NULL, 0, "start");
        vt_explore = 1;
    }
    hev_task_system_run ();
    MC_CHECK (h->done == TASKS && h->ticks == 3 * SLOW, "run returned early");
    hev_task_system_fini ();
}

static void *
thread (void *arg)
{
    struct th *h = arg;
    int r;

    for (r = 0; r < ROUNDS; r++)
        one_system (h, r);
    return NULL;
}

static struct th W; /* the warm-up */
static const int rets[] = { 0, EAI_SYSTEM, EAI_AGAIN, EAI_NONAME };
static const int errs[] = { 0, 77, EAGAIN };
#define ALONE (N == 1 && TASKS == 1 && !SLOW && !FAULTS && ROUNDS == 1)

static void
warm_task (void *data)
{
    one (&W.c[0][0][0]);
}

/* all kinds of arguments */
static void
arguments (struct call *c)
{
    static const int lens[] = { 3, 63, 64, 127, 128, 254, 255, 256, 299, 1024, 1099 };
    int k;

    if (c->kind) {
        k = mc_choose (4, "address");
        c->sl = k == 0 ? 16 : k == 1 ? 28 : k == 2 ? 110 : 4;
        k = mc_choose (12, "room for the name");
        c->hl = k ? lens[k - 1] : 0;
        k = mc_choose (3, "room for the service");
        c->pl = k * 16;
        c->flags = mc_choose (2, "flags") * 0x1f;
    } else {
        k = mc_choose (12, "name");
        if (k) {
            memset (c->node, 'x', lens[k - 1]);
            c->node[lens[k - 1]] = 0;
            c->node[0] = 'n';
            c->node[1] = '0' + c->id;
        } else
            c->no_node = 1;
        k = mc_choose (4, "service");
        if (k == 3)
            c->no_serv = 1;
        else {
            memset (c->serv, 's', k * 128);
            c->serv[k * 128] = 0;
        }
        c->no_hints = mc_choose (2, "hints");
    }
}

static void
setup (struct call *c, struct th *h, int choose)
{
    int k;

    memset (c, 0, sizeof (*c));
    c->h = h;
    c->id = ncall;
    calls[ncall++] = c;
    c->kind = choose && KINDS > 1 ? mc_choose (2, "kind of lookup") : 0;
    /* the errno of a lookup is any, also one the transport of the call uses */
    k = choose && ALONE ? mc_choose (3, "result") : c->id % 4;
    c->ret = rets[k];
    c->err = choose && ALONE ? errs[k] : 10 + c->id;
    if (choose && SLOW)
        c->dur = 2500000ull * mc_choose (2, "duration");
    snprintf (c->node, sizeof (c->node), "n%d", c->id);
    snprintf (c->serv, sizeof (c->serv), "s%d", c->id);
    for (k = 0; k < (int)sizeof (c->raw); k++)
        c->raw[k] = 3 * k;
    c->sa.sin_port = htons (c->id);
    c->sl = sizeof (c->sa);
    c->hl = 12;
    c->pl = 7;
    c->flags = 5;
    memset (&c->hints, 0, sizeof (c->hints));
    c->hints.ai_family = 2 + c->id % 5;
    if (choose && KINDS == 3)
        arguments (c);
    mc_evx ("call %ld: kind %ld, duration %ld us", c->id, c->kind, c->dur / 1000);
}

static void
warm (void)
{
    W.me = 0;
    setup (&W.c[0][0][0], &W, 0);
    h_init ();
    hev_task_run (h_task (), warm_task, NULL);
    hev_task_system_run ();
    h_fini ();
}

static void
rest (void)
{
    vt_block (never, NULL, vk_now + 1000000000, "rest");
}

static void
run (void)
{
    int k, r, j, i;

    memset (H, 0, sizeof (H));
    memset (&W, 0, sizeof (W));
    ncall = ready = 0;
    vk_resolver = resolver;
    vk_name_resolver = name_resolver;
    for (k = 0; k < N; k++)
        for (r = 0; r < ROUNDS; r++)
            for (j = 0; j < TASKS; j++)
                for (i = 0; i < CALLS; i++)
                    setup (&H[k].c[r][j][i], &H[k], 1);
    /* harness threads get the numbers 1..N, the helper a later one */
    for (k = 0; k < N; k++)
        H[k].me = vt_spawn (thread, &H[k]);
    vt_join_n (N);
    for (k = 0; k < N; k++)
        MC_CHECK (H[k].calls == TASKS * CALLS * ROUNDS, "calls are missing");
    mc_outcome ("all calls returned");
    vt_explore = 0;
    rest ();
    /* a helper thread that failed leaves the allocator of its thread */
    MC_CHECK (mc_live_fds <= 1 && mc_live_blocks <= 2 + mc_cur->fault_budget - mc_fault_left && !mc_live_maps,
              "the library keeps %ld blocks, %ld descriptors and %ld mappings", mc_live_blocks, mc_live_fds,
              mc_live_maps);
    if (WARM) {
        /* whatever happened, the service works, and using it costs nothing */
        long b, f;
        warm ();
        rest ();
        b = mc_live_blocks;
        f = mc_live_fds;
        warm ();
        rest ();
        MC_CHECK (mc_live_blocks == b && mc_live_fds == f && !mc_live_maps,
                  "%ld blocks, %ld descriptors and %ld mappings are left behind", mc_live_blocks - b,
                  mc_live_fds - f, mc_live_maps);
    }
    mc_done ();
}

/* ---- many callers ---- */

static struct call pool[300];
static int per;

static void *
crowd_thread (void *arg)
{
    struct th *h = arg;
    int k;

    MC_CHECK (hev_task_system_init () == 0, "init failed");
    for (k = 0; k < per; k++)
        hev_task_run (h_task (), caller, &pool[(h - H) * per + k]);
    ready++;
    vt_block (all_ready, NULL, 0, "start");
    vt_explore = 1;
    hev_task_system_run ();
    MC_CHECK (h->done == per, "run returned early");
    hev_task_system_fini ();
    return NULL;
}

static void
crowd (void)
{
    static const int counts[] = { 5, 17, 139 };
    int k, kinds, slow;

    memset (H, 0, sizeof (H));
    ncall = ready = 0;
    vk_resolver = resolver;
    vk_name_resolver = name_resolver;
    per = counts[mc_choose (N > 1 ? 2 : 3, "callers")];
    kinds = mc_choose (3, "kinds");
    slow = mc_choose (3, "durations");
    mc_evx ("%ld callers, kinds %ld, durations %ld", per, kinds, slow);
    for (k = 0; k < N * per; k++) {
        setup (&pool[k], &H[k / per], 0);
        pool[k].kind = kinds == 2 ? k % 2 : kinds;
        pool[k].dur = slow == 1 ? k % 3 * 1000000 : slow == 2 ? (k * 7 % 5) * 300000 : 0;
    }
    for (k = 0; k < N; k++)
        H[k].me = vt_spawn (crowd_thread, &H[k]);
    vt_join_n (N);
    for (k = 0; k < N; k++)
        MC_CHECK (H[k].calls == per, "calls are missing");
    mc_outcome ("all calls returned");
    mc_done ();
}

const struct mc_scen mc_scenarios[] = {
    { "one", run, MC_BOTH, { 1, 1, 2, 1, 0, 0, 0, 2 }, .preempt = 3 },
    { "tasks", run, MC_BOTH, { 1, 3, 1, 1, 0, 0, 0, 2 }, .preempt = 2 },
    { "slow", run, MC_BOTH, { 1, 2, 1, 1, 1, 0, 0, 2 }, .preempt = 2 },
    { "threads", run, MC_BOTH, { 2, 1, 1, 1, 0, 0, 0, 1 }, .preempt = 2 },
    { "three-threads", run, MC_BOTH, { 3, 1, 1, 1, 0, 0, 0, 1 }, .preempt = 0 },
    { "threads-slow", run, MC_BOTH, { 2, 1, 1, 1, 1, 0, 0, 1 }, .preempt = 1 },
    { "systems", run, MC_BOTH, { 1, 1, 1, 2, 0, 0, 0, 1 }, .preempt = 3 },
    { "spurious", run, MC_BOTH, { 2, 1, 1, 1, 0, 0, 0, 1 }, .preempt = 1, .env_budget = 1 },
    { "after", run, MC_BOTH, { 1, 1, 1, 1, 0, 1, 0, 1 }, .preempt = 1 },
    { "faults", run, MC_BOTH, { 1, 2, 1, 1, 0, 1, 1, 1 }, .fault_budget = 2, .preempt = 0 },
    { "faults-threads", run, MC_BOTH, { 2, 1, 1, 1, 0, 1, 1, 1 }, .fault_budget = 1, .preempt = 1 },
    { "arguments", run, MC_BOTH, { 1, 1, 1, 1, 0, 0, 0, 3 }, .preempt = 0 },
    { "crowd", crowd, MC_BOTH, { 1, 0, 1, 1 }, .preempt = 0, .horizon = 100000000 },
    { "tasks-deep", run, MC_THOROUGH, { 1, 3, 2, 1, 0, 0, 0, 1 }, .preempt = 2 },
    { "threads-deep", run, MC_THOROUGH, { 2, 2, 1, 1, 0, 0, 0, 1 }, .preempt = 1 },
    { "three-deep", run, MC_THOROUGH, { 3, 1, 1, 1, 0, 0, 0, 1 }, .preempt = 1 },
    { "systems-deep", run, MC_THOROUGH, { 2, 1, 1, 2, 0, 0, 0, 1 }, .preempt = 1 },
    { 0 },
};
