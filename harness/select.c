/* T13: channel select. One task selects over P0 channels, P1 operations; P2 peer
 * tasks (peer k works on the far ends k, k + P2, ...), P3 operations each; P4
 * buffers per channel (a decimal digit per channel); P5 flags.
 * When all are done the selector drains and fills what select offers. */
#include "h.h"
#include <limits.h>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>

const char mc_property[] = "T13";

#define NC P (0)
#define SOPS P (1)
#define NP P (2)
#define POPS P (3)
#define FLAGS P (5)
#define F_READ 1
#define F_WRITE 2
#define F_DEL 4   /* members come and go; otherwise all are members from the start */
#define F_CLOSE 8 /* peers may close */
#define F_STRAY 16
#define F_MIN 64    /* another negative timeout */
#define F_DIRECT 32 /* the selecting task also reads and writes without select */

#define CM 3
static HevTaskChannelSelect *sel;
static HevTaskChannel *a[CM], *b[CM];
static HevTask *ts, *tp[3];
static int nb[CM], qa[CM], qb[CM]; /* messages pending at our end, at the far end */
static int ha[CM], hb[CM];         /* next value to read */
static int na[CM], nbv[CM];        /* next value to write */
static int member[CM], balive[CM];
static int ran, pdone[3], sdone, in_select, sel_timeout, blocked[4], blocked_ch[4];

static int
ready (int i, int w)
{
    if (w)
        return balive[i] && qb[i] < nb[i];
    return qa[i] > 0;
}

static int
members (void)
{
    int i, n = 0;
    for (i = 0; i < NC; i++)
        n += member[i];
    return n;
}

static int
any_ready (int w)
{
    int i;
    for (i = 0; i < NC; i++)
        if (member[i] && ready (i, w))
            return 1;
    return 0;
}

/* our end */
static void
rd (int i, int now)
{
    int v = -1, before = ran, had = qa[i];
    ssize_t r;
    blocked[3] = 1;
    blocked_ch[3] = i;
    r = hev_task_channel_read (a[i], &v, sizeof (v));
    blocked[3] = 0;
    mc_evx ("selector: read of channel %ld: %ld, value %ld", i, r, v);
    if (now || had)
        MC_CHECK (ran == before, "read of a ready channel waited");
    if (!qa[i]) {
        MC_CHECK (r == -1 && !balive[i], "read returned %zd without a message", r);
        return;
    }
    MC_CHECK (r == sizeof (v) && v == i * 100 + ha[i], "read %zd, value %d", r, v);
    ha[i]++;
    qa[i]--;
}

static void
wr (int i, int now)
{
    int v = i * 100 + 50 + nbv[i], before = ran, had;
    ssize_t r;

    had = !balive[i] || qb[i] < nb[i];
    if (balive[i])
        nbv[i]++, qb[i]++;
    blocked[3] = 2;
    blocked_ch[3] = i;
    r = hev_task_channel_write (a[i], &v, sizeof (v));
    blocked[3] = 0;
    mc_ev2 ("selector: write to channel %ld: %ld", i, r);
    if (now || had)
        MC_CHECK (ran == before, "write to a ready channel waited");
    MC_CHECK (r == (balive[i] ? (int)sizeof (v) : -1) || (r == -1 && !balive[i]) ||
                  (r == sizeof (v) && !had),
              "write returned %zd", r);
}

static int
do_select (int w, int timeout)
{
    uint64_t t0 = vk_now;
    int before = ran, had = any_ready (w), mem = members (), i;
    HevTaskChannel *c;

    mc_ev2 ("select %ld, timeout %ld", w, timeout);
    in_select = 1 + w;
    sel_timeout = timeout;
    c = w ? hev_task_channel_select_write (sel, timeout) :
            hev_task_channel_select_read (sel, timeout);
    in_select = 0;
    if (had || !mem || !timeout)
        MC_CHECK (ran == before, "select waited although %s",
                  had ? "a channel was ready" : "it must not");
    else
        ran++;
    if (!c) {
        mc_ev ("select: none");
        MC_CHECK (!any_ready (w), "select returned none although a channel is ready");
        if (mem) {
            MC_CHECK (timeout >= 0, "select without timeout returned none");
            MC_CHECK (vk_now - t0 >= timeout * 1000000ull,
                      "select gave up before its time had passed");
            /* each wakeup may round the rest up to the next millisecond */
            MC_CHECK (vk_now - t0 <= (timeout ? timeout + NP * POPS : 0) * 1000000ull,
                      "select gave up long after its time had passed");
        }
        mc_outcome (!mem ? "no members" : timeout ? "timed out" : "polled, none");
        return -1;
    }
    for (i = 0; i < NC; i++)
        if (c == a[i])
            break;
    MC_CHECK (i < NC, "select returned something that is no member");
    mc_ev1 ("select: channel %ld", i);
    MC_CHECK (member[i], "select returned channel %d, which is not a member", i);
    MC_CHECK (ready (i, w) || (w && !balive[i]),
              "select returned channel %d, which is not %s", i,
              w ? "writable" : "readable");
    if (!had)
        mc_outcome (w ? "waited for write" : "waited for read");
    else
        mc_outcome (w ? "ready for write" : "ready for read");
    return i;
}

static void
selector (void *data)
{
    int to[] = { FLAGS & F_MIN ? INT_MIN : -1, 2, 0 };
    int k, i, n;

    if (!(FLAGS & F_DEL))
        for (i = 0; i < NC; i++) {
            hev_task_channel_select_add (sel, a[i]);
            member[i] = 1;
        }
    for (k = 0; k < SOPS; k++) {
        int op[32], arg[32], c;
        n = 0;
        ran++;
        if (FLAGS & F_READ)
            for (i = 0; i < 3; i++)
                op[n] = 0, arg[n++] = i;
        if (FLAGS & F_WRITE)
            for (i = 0; i < 3; i++)
                op[n] = 1, arg[n++] = i;
        op[n++] = 2;
        for (i = 0; i < NC; i++) {
            if (FLAGS & F_DEL)
                op[n] = 3, arg[n++] = i;
            if (FLAGS & F_DIRECT) {
                op[n] = 4, arg[n++] = i;
                op[n] = 5, arg[n++] = i;
            }
        }
        c = mc_choose (n, "operation of the selector");
        switch (op[c]) {
        case 0:
            i = do_select (0, to[arg[c]]);
            if (i >= 0)
                rd (i, 1);
            break;
        case 1:
            i = do_select (1, to[arg[c]]);
            if (i >= 0)
                wr (i, 1);
            break;
        case 2:
            mc_ev ("selector yields");
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 3:
            i = arg[c];
            if (member[i]) {
                mc_ev1 ("selector removes channel %ld", i);
                hev_task_channel_select_del (sel, a[i]);
            } else {
                mc_ev1 ("selector adds channel %ld", i);
                hev_task_channel_select_add (sel, a[i]);
            }
            member[i] = !member[i];
            break;
        case 4:
            rd (arg[c], 0);
            break;
        case 5:
            wr (arg[c], 0);
            break;
        }
    }
    /* every ready channel is returned in the end; bounded by a timeout, since
     * blocked peers may still come through */
    for (;;) {
        ran++;
        i = do_select (0, 0);
        if (i < 0)
            break;
        rd (i, 1);
    }
    if (FLAGS & F_WRITE) {
        for (k = 0; k < 20; k++) {
            ran++;
            i = do_select (1, 0);
            if (i < 0 || !balive[i])
                break;
            wr (i, 1);
        }
        MC_CHECK (k < 20, "select offers a full channel for writing");
    }
    for (i = 0; i < NC; i++)
        if (member[i]) {
            hev_task_channel_select_del (sel, a[i]);
            member[i] = 0;
        }
    ran++;
    sdone = 1;
}

static void
peer (void *data)
{
    int me = (int)(intptr_t)data, k, i, n;

    for (k = 0; k < POPS; k++) {
        int op[32], arg[32], c;
        n = 0;
        ran++;
        for (i = me; i < NC; i += NP) {
            if (!balive[i])
                continue;
            op[n] = 0, arg[n++] = i;
            if (FLAGS & (F_WRITE | F_DIRECT))
                op[n] = 1, arg[n++] = i;
            if (FLAGS & F_CLOSE)
                op[n] = 2, arg[n++] = i;
        }
        op[n++] = 3;
        op[n++] = 4;
        if ((FLAGS & F_STRAY) && !sdone && hev_task_get_state (ts) == HEV_TASK_WAITING)
            op[n++] = 5;
        c = mc_choose (n, "operation of a peer");
        i = arg[c];
        switch (op[c]) {
        case 0: {
            int v = i * 100 + na[i]++;
            ssize_t r;
            mc_ev2 ("peer %ld writes to channel %ld", me, i);
            qa[i]++;
            blocked[me] = 2;
            blocked_ch[me] = i;
            r = hev_task_channel_write (b[i], &v, sizeof (v));
            blocked[me] = 0;
            MC_CHECK (r == sizeof (v), "peer's write returned %zd", r);
            break;
        }
        case 1: {
            int v = -1;
            ssize_t r;
            blocked[me] = 1;
            blocked_ch[me] = i;
            r = hev_task_channel_read (b[i], &v, sizeof (v));
            blocked[me] = 0;
            mc_evx ("peer %ld: read of channel %ld: %ld", me, i, r);
            MC_CHECK (r == sizeof (v) && v == i * 100 + 50 + hb[i], "peer's read returned %zd, value %d",
                      r, v);
            hb[i]++;
            qb[i]--;
            break;
        }
        case 2:
            mc_ev2 ("peer %ld closes channel %ld", me, i);
            balive[i] = 0;
            hev_task_channel_destroy (b[i]);
            b[i] = NULL;
            break;
        case 3:
            mc_ev1 ("peer %ld yields", me);
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 4:
            mc_ev1 ("peer %ld sleeps", me);
            hev_task_sleep (1);
            break;
        case 5:
            mc_ev1 ("peer %ld wakes the selector", me);
            hev_task_wakeup (ts);
            break;
        }
    }
    ran++;
    pdone[me] = 1;
}

static void
idle (void)
{
    int i;
    for (i = 0; i < NP; i++) {
        int c = blocked_ch[i];
        if (pdone[i])
            continue;
        MC_CHECK (blocked[i], "peer %d blocked outside the channel", i);
        MC_CHECK (blocked[i] != 1 || !qb[c], "peer %d misses a message", i);
        MC_CHECK (blocked[i] != 2 || qa[c] > nb[c], "peer %d: write does not return", i);
    }
    if (!sdone) {
        if (in_select) {
            MC_CHECK (sel_timeout < 0, "select does not return when its time has passed");
            MC_CHECK (!any_ready (in_select - 1),
                      "select blocked for ever while a channel is ready");
        } else {
            int c = blocked_ch[3];
            MC_CHECK (blocked[3], "selector blocked outside any call");
            MC_CHECK (blocked[3] != 1 || (!qa[c] && balive[c]), "selector misses a message");
            MC_CHECK (blocked[3] != 2 || (qb[c] > nb[c] && balive[c]),
                      "selector: write does not return");
        }
    }
    mc_outcome ("ended with a task rightly blocked");
    mc_done ();
}

static void
run (void)
{
    int k, d = P (4);

    memset (qa, 0, sizeof (qa));
    memset (qb, 0, sizeof (qb));
    memset (ha, 0, sizeof (ha));
    memset (hb, 0, sizeof (hb));
    memset (na, 0, sizeof (na));
    memset (nbv, 0, sizeof (nbv));
    memset (member, 0, sizeof (member));
    memset (pdone, 0, sizeof (pdone));
    memset (blocked, 0, sizeof (blocked));
    ran = sdone = in_select = 0;
    mc_on_idle = idle;
    h_init ();
    sel = hev_task_channel_select_new ();
    MC_CHECK (sel, "selector not created");
    for (k = 0; k < NC; k++) {
        nb[k] = d % 10;
        d /= 10;
        MC_CHECK (!hev_task_channel_new_with_buffers (&a[k], &b[k], 4, nb[k]),
                  "channel not created");
        balive[k] = 1;
    }
    ts = h_task ();
    for (k = 0; k < NP; k++)
        tp[k] = h_task ();
    hev_task_run (ts, selector, NULL);
    for (k = 0; k < NP; k++)
        hev_task_run (tp[k], peer, (void *)(intptr_t)k);
    hev_task_system_run ();
    for (k = 0; k < NC; k++) {
        hev_task_channel_destroy (a[k]);
        if (balive[k])
            hev_task_channel_destroy (b[k]);
    }
    hev_task_channel_select_destroy (sel);
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all ended");
}

/* ---- a crowd of P0 channels, ready in an order of their own ---- */

#define CROWD 150

static HevTaskChannel *ca[CROWD], *cb[CROWD];
static int cput[CROWD], ctaken[CROWD], cstride, cpart, cwrite, cmore, cgone, cturn, cfull[CROWD];

static void
crowd_put (int i)
{
    char v = cput[i]++;
    MC_CHECK (hev_task_channel_write (cb[i], &v, 1) == 1, "write to channel %d", i);
}

static int
crowd_member (int i)
{
    return !cgone || i % cgone;
}

/* P1 buffers: each member that is ready is returned once it is drained in between */
static void
crowd_selector (void *data)
{
    int r, k, i, n;

    for (i = 0; i < NC; i++)
        hev_task_channel_select_add (sel, ca[i]);
    for (i = 0; i < NC; i++)
        if (!crowd_member (i))
            hev_task_channel_select_del (sel, ca[i]);
    for (r = 0; r < 3; r++) {
        HevTaskChannel *c;
        int seen[CROWD] = { 0 }, timeout = r == 1 ? -1 : r;

        if (cmore == 0) { /* filled while nobody selects */
            for (n = k = 0; k < NC; k += cpart) {
                i = (k + r) * cstride % NC;
                if (cwrite) {
                    char v;
                    while (cfull[i]) { /* the far end makes room */
                        MC_CHECK (hev_task_channel_read (cb[i], &v, 1) == 1, "read");
                        cfull[i]--;
                    }
                } else
                    crowd_put (i);
                n += crowd_member (i);
            }
            if (cwrite)
                for (n = i = 0; i < NC; i++)
                    n += crowd_member (i) && cfull[i] < P (1);
        } else {
            n = 0;
            for (k = 0; k < NC; k += cpart)
                n += crowd_member ((k + r) * cstride % NC);
            cturn = r + 1;
        }
        for (k = 0; k < n; k++) {
            c = cwrite ? hev_task_channel_select_write (sel, timeout) :
                         hev_task_channel_select_read (sel, cmore ? -1 : timeout);
            MC_CHECK (c, "select found none of %d ready channels", n - k);
            for (i = 0; i < NC && ca[i] != c; i++)
                ;
            MC_CHECK (i < NC && crowd_member (i), "select returned a stranger");
            MC_CHECK (!seen[i], "select returned channel %d again", i);
            seen[i] = 1;
            if (cwrite) {
                char v = 0;
                MC_CHECK (cfull[i] < P (1), "channel %d cannot be written", i);
                while (cfull[i] < P (1)) {
                    MC_CHECK (hev_task_channel_write (c, &v, 1) == 1, "write");
                    cfull[i]++;
                }
            } else {
                char v = -1;
                MC_CHECK (ctaken[i] < cput[i], "channel %d cannot be read", i);
                MC_CHECK (hev_task_channel_read (c, &v, 1) == 1 && v == ctaken[i],
                          "wrong message %d from channel %d", v, i);
                ctaken[i]++;
            }
        }
        c = cwrite ? hev_task_channel_select_write (sel, r) :
                     hev_task_channel_select_read (sel, r);
        MC_CHECK (!c, "select returned a channel although none is ready");
    }
    for (i = 0; i < NC; i++)
        if (crowd_member (i))
            hev_task_channel_select_del (sel, ca[i]);
    sdone = 1;
}

static void
crowd_peer (void *data)
{
    int k, r;

    for (r = 0; r < 3; r++) {
        while (cturn <= r)
            hev_task_sleep (1);
        for (k = 0; k < NC; k += cpart) {
            int i = (k + r) * cstride % NC;
            if (!crowd_member (i))
                continue;
            crowd_put (i);
            if (cmore == 2)
                hev_task_sleep (1);
        }
    }
    pdone[0] = 1;
}

static void
crowd_idle (void)
{
    mc_fail ("everything waits for ever although channels are ready");
}

static void
crowd (void)
{
    static const int strides[] = { 1, 3, 7 };
    int k;

    memset (cput, 0, sizeof (cput));
    memset (ctaken, 0, sizeof (ctaken));
    memset (cfull, 0, sizeof (cfull));
    sdone = pdone[0] = cturn = 0;
    mc_on_idle = crowd_idle;
    cstride = strides[mc_choose (3, "order")];
    cpart = 1 + mc_choose (3, "part");
    cmore = P (1) ? mc_choose (3, "filled by a peer") : 1 + mc_choose (2, "filled by a peer");
    cwrite = P (1) && !cmore ? mc_choose (2, "select for writing") : 0;
    k = mc_choose (3, "members removed");
    cgone = k ? k + 1 : 0;
    mc_evx ("order %ld, part %ld, filled %ld", cstride, cpart, cmore);
    mc_ev2 ("write %ld, removed %ld", cwrite, cgone);
    h_init ();
    sel = hev_task_channel_select_new ();
    for (k = 0; k < NC; k++)
        MC_CHECK (!hev_task_channel_new_with_buffers (&ca[k], &cb[k], 4, P (1) ? P (1) + 4 * !cwrite : 0),
                  "channel not created");
    hev_task_run (h_task (), crowd_selector, NULL);
    if (cmore)
        hev_task_run (h_task (), crowd_peer, NULL);
    hev_task_system_run ();
    MC_CHECK (sdone && (!cmore || pdone[0]), "run returned too early");
    for (k = 0; k < NC; k++) {
        hev_task_channel_destroy (ca[k]);
        hev_task_channel_destroy (cb[k]);
    }
    hev_task_channel_select_destroy (sel);
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all ended");
}

const struct mc_scen mc_scenarios[] = {
    { "negative", run, MC_BOTH, { 1, 4, 1, 4, 1, F_READ | F_WRITE | F_MIN } },
    { "read", run, MC_BOTH, { 2, 4, 1, 4, 01, F_READ } },
    { "read-two-peers", run, MC_BOTH, { 2, 3, 2, 3, 12, F_READ } },
    { "read-three", run, MC_BOTH, { 3, 3, 1, 4, 120, F_READ } },
    { "read-members", run, MC_BOTH, { 2, 4, 1, 3, 11, F_READ | F_DEL } },
    { "read-close", run, MC_BOTH, { 2, 3, 1, 4, 10, F_READ | F_CLOSE } },
    { "write", run, MC_BOTH, { 1, 5, 1, 5, 1, F_WRITE } },
    { "write-two", run, MC_BOTH, { 2, 4, 1, 3, 21, F_WRITE } },
    { "write-two-peers", run, MC_BOTH, { 2, 4, 2, 2, 11, F_WRITE } },
    { "write-two-buffers", run, MC_BOTH, { 1, 5, 1, 5, 2, F_WRITE } },
    { "write-three-buffers", run, MC_BOTH, { 1, 5, 1, 5, 3, F_WRITE | F_CLOSE } },
    { "write-members", run, MC_BOTH, { 2, 3, 1, 3, 12, F_WRITE | F_DEL } },
    { "members-close", run, MC_BOTH, { 2, 4, 1, 3, 11, F_WRITE | F_DEL | F_CLOSE } },
    { "both-close", run, MC_BOTH, { 2, 3, 1, 3, 12, F_READ | F_WRITE | F_DEL | F_CLOSE | F_MIN } },
    { "both", run, MC_BOTH, { 2, 3, 1, 3, 12, F_READ | F_WRITE } },
    { "direct", run, MC_BOTH, { 2, 3, 1, 3, 10, F_READ | F_DIRECT } },
    { "stray", run, MC_BOTH, { 2, 3, 1, 4, 10, F_READ | F_STRAY } },
    { "sync-write", run, MC_BOTH, { 2, 3, 1, 3, 10, F_WRITE | F_READ } },
    { "direct-members", run, MC_THOROUGH, { 2, 4, 1, 3, 10, F_READ | F_DIRECT | F_DEL } },
    { "read-deep", run, MC_THOROUGH, { 2, 5, 1, 6, 01, F_READ } },
    { "write-deep", run, MC_THOROUGH, { 2, 5, 1, 5, 12, F_WRITE } },
    { "write-one-deep", run, MC_THOROUGH, { 1, 6, 1, 7, 2, F_WRITE } },
    { "both-deep", run, MC_THOROUGH, { 2, 4, 1, 4, 12, F_READ | F_WRITE | F_STRAY } },
    { "three-peers", run, MC_THOROUGH, { 3, 4, 3, 2, 120, F_READ } },
    { "crowd", crowd, MC_BOTH, { 5, 1 }, .horizon = 100000000 },
    { "crowd-more", crowd, MC_BOTH, { 17, 2 }, .horizon = 100000000 },
    { "crowd-large", crowd, MC_BOTH, { 139, 1 }, .horizon = 100000000 },
    { "crowd-sync", crowd, MC_BOTH, { 17, 0 }, .horizon = 100000000 },
    { 0 },
};
