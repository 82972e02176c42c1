/* I03: hev_task_io_poll. P0 calls on P1 entries, P2 actions of the environment,
 * P3 steps of another task, P4 kinds of entries, P5 1: the environment acts
 * also while tasks are ready. */
#include "io.h"
#include <limits.h>
#include <hev-task-io-poll.h>

const char mc_property[] = "I03";

#define CALLS P (0)
#define NE P (1)
#define ACTS P (2)
#define STEPS P (3)
#define KINDS P (4)
#define ATPOLL P (5)

static HevTask *t;
static HevTaskIOPollFD fds[4];
static int on, timeout, finished, nstray, moves_of_time;
static uint64_t start, ready_time;

static int
expect (int k)
{
    struct vobj *o;
    if (fds[k].fd < 0)
        return 0;
    o = vk_obj (fds[k].fd);
    if (!o)
        return POLLNVAL;
    return vk_poll_obj (o) & (fds[k].events | POLLERR | POLLHUP);
}

static void
on_block (void)
{
    int k;
    if (!on)
        return;
    MC_CHECK (timeout, "the task waits although the timeout is zero");
    for (k = 0; k < NE; k++)
        MC_CHECK (!expect (k), "the task waits although entry %d is ready", k);
}

static void
idle (void)
{
    on_block ();
    MC_CHECK (on, "the task waits outside of poll");
    MC_CHECK (timeout < 0, "the task waits for ever with a timeout of %d", timeout);
    mc_outcome ("waiting for ever");
    mc_done ();
}

static int
env_count (void)
{
    uint64_t d = vk_next_deadline ();
    int n = io_env_count ();
    return n + (acts_left > 0 && d && d > vk_now + 400000 && moves_of_time < 2);
}

/* Time that passes while the task is ready but others run is not poll's. */
static void
time_passes (uint64_t ns)
{
    if (on && hev_task_get_state (t) == HEV_TASK_RUNNING)
        ready_time += ns;
}

static void
env_do (int i)
{
    if (i < na) {
        io_env_do (i);
        return;
    }
    acts_left--;
    moves_of_time++;
    mc_ev ("0.4 ms pass");
    vk_advance (400000);
}

static void
one (void)
{
    static const int tos[7] = { 2, -1, 0, 1, 5, -2, INT_MIN };
    int k, r, cnt = 0;
    uint64_t d;

    timeout = tos[mc_choose (CALLS > 1 ? 3 : 7, "timeout")];
    for (k = 0; k < NE; k++)
        fds[k].revents = 0x55;
    start = vk_now;
    nstray = ready_time = 0;
    mc_ev1 ("poll with timeout %ld", timeout);
    on = 1;
    r = hev_task_io_poll (fds, NE, timeout);
    on = 0;
    d = vk_now - start;
    mc_ev2 ("poll returned %ld after %ld us", r, d / 1000);
    for (k = 0; k < NE; k++) {
        MC_CHECK (fds[k].revents == expect (k), "entry %d reports %x instead of %x", k,
                  fds[k].revents, expect (k));
        cnt += !!fds[k].revents;
    }
    MC_CHECK (r == cnt, "poll returned %d for %d ready entries", r, cnt);
    if (r == 0) {
        MC_CHECK (timeout >= 0, "poll returned 0 without a timeout");
        MC_CHECK (d >= timeout * 1000000ull, "poll returned 0 after %ld us instead of %d ms",
                  (long)d / 1000, timeout);
        mc_outcome ("timed out");
    } else
        mc_outcome ("ready");
    if (timeout >= 0)
        MC_CHECK (d <= (timeout + nstray + (moves_of_time > 0)) * 1000000ull + ready_time,
                  "poll took %ld us with a timeout of %d ms", (long)d / 1000, timeout);
}

static void
entry (void *data)
{
    int k;
    for (k = 0; k < CALLS; k++)
        one ();
    /* poll leaves its descriptors registered */
    for (k = 0; k < NE; k++)
        hev_task_del_fd (t, fds[k].fd);
    finished = 1;
}

static void
other (void *data)
{
    int k;
    for (k = 0; k < STEPS; k++) {
        switch (mc_choose (on ? 3 : 2, "other task")) {
        case 0:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 1:
            hev_task_sleep (1);
            break;
        case 2:
            mc_ev ("stray wakeup");
            nstray++;
            hev_task_wakeup (t);
            break;
        }
    }
}

static void
run (void)
{
    static const int ev[3] = { POLLIN, POLLOUT, POLLIN | POLLOUT };
    HevTask *s;
    int k;

    io_reset ();
    memset (fds, 0, sizeof (fds));
    on = finished = nstray = moves_of_time = 0;
    errs_on = KINDS > 1;
    max_chunk = 1;
    acts_left = ACTS;
    vk_env_count = env_count;
    vk_env_do = env_do;
    vk_env_at_poll = ATPOLL;
    vk_on_pass = time_passes;
    vk_on_block = on_block;
    mc_on_idle = idle;
    h_init ();
    t = h_task ();
    for (k = 0; k < NE; k++) {
        int kind = KINDS == 3 ? k > 1 : mc_choose ((KINDS == 0 ? 2 : 7) + (k > 0), "kind of entry"), e;
        if (KINDS == 0 && kind == 2)
            kind = 7;
        switch (kind) {
        case 0: /* input */
            fds[k].fd = E[ep_new (1, 0)].fd;
            fds[k].events = POLLIN;
            break;
        case 1: /* stream with full output */
            e = ep_new (0, 1);
            fds[k].fd = E[e].fd;
            fds[k].events = ev[mc_choose (3, "events")];
            {
                ssize_t vk_write (int, const void *, size_t);
                unsigned char c = pout (e, 0);
                vk_write (fds[k].fd, &c, 1);
            }
            if (mc_choose (2, "registered before"))
                hev_task_add_fd (t, fds[k].fd, ev[mc_choose (2, "registered events")]);
            break;
        case 2: /* file */
            {
                int vk_open (const char *, int, ...);
                fds[k].fd = vk_open ("/f", 0);
            }
            fds[k].events = POLLIN;
            break;
        case 3: /* not open */
            fds[k].fd = 150;
            fds[k].events = POLLIN;
            break;
        case 4: /* ignored */
            fds[k].fd = -1;
            fds[k].events = POLLIN;
            break;
        case 5: /* output */
            fds[k].fd = E[ep_new (2, 1)].fd;
            fds[k].events = POLLOUT;
            break;
        case 6: /* errors only */
            fds[k].fd = E[ep_new (0, 1)].fd;
            fds[k].events = 0;
            break;
        case 7: /* the first descriptor again */
            fds[k].fd = fds[0].fd;
            fds[k].events = ev[mc_choose (3, "events")];
            break;
        }
        mc_ev2 ("entry %ld is of kind %ld", k, kind);
    }
    hev_task_run (t, entry, NULL);
    s = h_task ();
    hev_task_run (s, other, NULL);
    hev_task_system_run ();
    MC_CHECK (finished, "run returned before the task ended");
    for (k = 0; k < NE; k++)
        if (fds[k].fd >= 0 && vk_is_open (fds[k].fd))
            vk_close_user (fds[k].fd);
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- many entries ---- */

#define CMAX 211

static HevTaskIOPollFD cf[CMAX];
static int cfd[CMAX], ncf, cset[2], con, cround, cto;

/* member k becomes ready in this round */
static int
chosen (int set, int k)
{
    switch (set) {
    case 1:
        return k == 0;
    case 2:
        return k == ncf - 1;
    case 3:
        return k % 3 == 1;
    case 4:
        return 1;
    case 5:
        return k == ncf / 2;
    }
    return 0;
}

static int
crowd_count (void)
{
    return con && cset[cround] > 0 && !cset[1 - cround];
}

static void
crowd_do (int i)
{
    int k, s = cset[cround];

    cset[cround] = -s; /* once */
    for (k = 0; k < ncf; k++)
        if (chosen (s, k))
            vk_remote_send (cfd[k], "x", 1);
}

static void
crowd_poll (int late)
{
    int k, r, cnt = 0, s = cset[cround];
    uint64_t t0 = vk_now;

    for (k = 0; k < ncf; k++) {
        cf[k].fd = k % 7 == 5 ? -1 : cfd[k];
        cf[k].events = POLLIN;
        cf[k].revents = 0x55;
        if (!late && chosen (s, k))
            vk_remote_send (cfd[k], "x", 1);
    }
    con = late;
    r = hev_task_io_poll (cf, ncf, cto);
    con = 0;
    if (late && cset[cround] > 0)
        s = 0; /* nothing became ready in time */
    for (k = 0; k < ncf; k++) {
        int want = k % 7 != 5 && chosen (s, k) ? POLLIN : 0;
        MC_CHECK (cf[k].revents == want, "entry %d of %d reports %x instead of %x", k, ncf,
                  cf[k].revents, want);
        cnt += !!want;
        if (chosen (s, k)) {
            char c;
            ssize_t vk_read (int, void *, size_t);
            MC_CHECK (vk_read (cfd[k], &c, 1) == 1, "harness error");
        }
    }
    mc_ev2 ("poll returned %ld for %ld ready entries", r, cnt);
    MC_CHECK (r == cnt, "poll returned %d for %d ready entries", r, cnt);
    if (!cnt)
        MC_CHECK (vk_now - t0 >= cto * 1000000ull, "poll returned early");
    mc_outcome (cnt ? "ready" : "timed out");
}

static void
crowd_entry (void *data)
{
    int k, set[2], late[2];

    for (k = 0; k < 2; k++) {
        set[k] = mc_choose (6, "ready entries");
        late[k] = mc_choose (2, "before or after the call");
    }
    for (cround = 0; cround < 2; cround++) {
        cset[0] = cset[1] = 0;
        cset[cround] = set[cround];
        if (late[cround]) {
            int s = set[cround], any = 0;
            /* nothing may wake the call when only ignored entries are ready */
            for (k = 0; k < ncf; k++)
                any |= k % 7 != 5 && chosen (s, k);
            if (!any)
                late[cround] = 0;
        }
        crowd_poll (late[cround]);
    }
    for (k = 0; k < ncf; k++)
        hev_task_del_fd (t, cfd[k]);
    finished = 1;
}

static void
crowd (void)
{
    static const int counts[] = { 5, 17, 64, 65, 211 };
    int k;

    finished = con = 0;
    ncf = counts[mc_choose (5, "entries")];
    cto = mc_choose (2, "timeout") ? 70000 : 3;
    mc_ev2 ("%ld entries, timeout %ld", ncf, cto);
    vk_env_count = crowd_count;
    vk_env_do = crowd_do;
    h_init ();
    for (k = 0; k < ncf; k++)
        cfd[k] = vk_mk_stream (4);
    t = h_task ();
    hev_task_run (t, crowd_entry, NULL);
    hev_task_system_run ();
    MC_CHECK (finished, "run returned before the task ended");
    for (k = 0; k < ncf; k++)
        vk_close_user (cfd[k]);
    h_fini ();
    mc_leak_check ("fini");
}

const struct mc_scen mc_scenarios[] = {
    { "one", run, MC_BOTH, { 1, 1, 3, 3, 2, 0 } },
    { "two", run, MC_BOTH, { 1, 2, 2, 2, 2, 0 } },
    { "twice", run, MC_BOTH, { 2, 1, 2, 2, 2, 0 } },
    { "twice-two", run, MC_BOTH, { 2, 2, 2, 2, 0, 0 } },
    { "ready", run, MC_BOTH, { 1, 2, 2, 1, 2, 1 }, .env_budget = 2 },
    { "none", run, MC_BOTH, { 1, 0, 2, 3, 0, 0 } },
    { "four", run, MC_BOTH, { 1, 4, 2, 1, 3, 0 } },
    { "three", run, MC_THOROUGH, { 1, 3, 3, 2, 2, 0 } },
    { "thrice", run, MC_THOROUGH, { 3, 2, 3, 2, 0, 0 } },
    { "ready-deep", run, MC_THOROUGH, { 2, 2, 2, 2, 2, 1 }, .env_budget = 2 },
    { "crowd", crowd, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
