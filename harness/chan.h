/* Programs of write, read and destroy on the two ends of a channel by tasks that
 * hand the ends around, checked against two FIFO queues.
 *
 * P0 tasks  P1 operations per task  P2 buffers  P3 size alphabet  P4 flags
 * P5 the first task begins with up to that many writes */
#include "h.h"
#include <hev-task-channel.h>

#define NT P (0)
#define OPS P (1)
#define NB P (2)
#define SIZES P (3)
#define FLAGS P (4)
#define PRE P (5)
#define F_DESTROY 1 /* ends may be destroyed by the tasks */
#define F_STRAY 2   /* stray wakeups */
#define F_OWN 4     /* task i only uses end i */
#define F_PRIO 8    /* priorities enumerated */
#define F_ENDEARLY 16
#define F_SLEEP 32

#define QMAX 24
#define BUF 40

struct msg
{
    int id, len;
};

static const struct
{
    int max_size;          /* of the buffers */
    int nw, w[5], nr, r[3];
} alph[] = {
    { 8, 2, { 1, 8 }, 1, { 8 } },
    { 8, 5, { 0, 1, 2, 4, 8 }, 2, { 8, 4 } },
    { 16, 3, { 3, 16, 20 }, 2, { 16, 5 } },
    { 4, 1, { 4 }, 1, { 4 } },
    { 32, 3, { 7, 9, 40 }, 3, { 40, 9, 0 } },
    { 3, 2, { 4, 2 }, 2, { 2, 4 } },
};
#define AL alph[SIZES]

static HevTask *t[4];
static HevTaskChannel *ch[2];
static int alive[2], inuse[2]; /* task + 1 */
static struct msg q[2][QMAX];
static int ql[2];
static int taken_id[2]; /* id of the last message taken from the end's queue */
static int next_id, ended, ran, done[4];
static int blocked_in[4]; /* 0 none, 1 read, 2 write */
static int blocked_end[4];

static unsigned char
byte (int id, int k)
{
    return id * 37 + k * 11 + 1;
}

static void
ch_write (int i, int e)
{
    static unsigned char bufs[4][BUF];
    unsigned char *buf = bufs[i];
    int n = AL.w[mc_choose (AL.nw, "message size")], id = next_id++, k;
    int p = 1 - e, peer_alive = alive[p], want = n, must_not_block;
    int before;
    ssize_t r;

    if (NB && want > AL.max_size)
        want = AL.max_size;
    for (k = 0; k < BUF; k++)
        buf[k] = byte (id, k);
    mc_evx ("task %ld writes %ld bytes to end %ld", i, n, e);
    must_not_block = !peer_alive;
    if (peer_alive) {
        if (ql[p] == QMAX)
            mc_prune ();
        must_not_block = ql[p] < NB;
        q[p][ql[p]].id = id;
        q[p][ql[p]].len = want;
        ql[p]++;
    }
    inuse[e] = i + 1;
    blocked_in[i] = 2;
    blocked_end[i] = e;
    before = ran;
    r = hev_task_channel_write (ch[e], buf, n);
    blocked_in[i] = 0;
    inuse[e] = 0;
    mc_ev2 ("task %ld: write returned %ld", i, r);
    memset (buf, 0xee, BUF); /* the caller may reuse its buffer now */
    if (must_not_block)
        MC_CHECK (ran == before,
                  "task %d: write waited although %s", i,
                  peer_alive ? "buffers were free" : "the peer was gone");
    else
        ran++;
    if (!peer_alive) {
        MC_CHECK (r == -1, "write to a channel whose peer is gone returned %zd", r);
        mc_outcome ("write to dead peer");
        return;
    }
    if (r == -1) {
        MC_CHECK (!alive[p], "write failed although the peer is alive");
        if (NB == 0)
            for (k = 0; k < ql[p]; k++)
                if (q[p][k].id == id)
                    break;
        MC_CHECK (NB > 0 || k < ql[p],
                  "write failed although its message was read");
        mc_outcome ("blocked write released by close");
        return;
    }
    MC_CHECK (r == want, "write of %d bytes returned %zd instead of %d", n, r, want);
    if (NB == 0) {
        for (k = 0; k < ql[p]; k++)
            MC_CHECK (q[p][k].id != id,
                      "write returned before its message was read");
    } else
        MC_CHECK (ql[p] <= NB, "write returned with %d messages in %d buffers", ql[p],
                  NB);
    if (ran != before)
        mc_outcome ("write waited");
}

static void
ch_read (int i, int e)
{
    static unsigned char bufs[4][BUF + 8];
    unsigned char *buf = bufs[i];
    int n = AL.r[mc_choose (AL.nr, "read size")], k, want;
    int must_not_block = ql[e] || !alive[1 - e], before;
    ssize_t r;

    memset (buf, 0xcc, BUF + 8);
    mc_evx ("task %ld reads up to %ld bytes from end %ld", i, n, e);
    inuse[e] = i + 1;
    blocked_in[i] = 1;
    blocked_end[i] = e;
    before = ran;
    r = hev_task_channel_read (ch[e], buf, n);
    blocked_in[i] = 0;
    inuse[e] = 0;
    mc_ev2 ("task %ld: read returned %ld", i, r);
    if (must_not_block)
        MC_CHECK (ran == before, "task %d: read waited although %s", i,
                  ql[e] ? "a message was pending" : "the peer was gone");
    else
        ran++;
    if (ql[e]) {
        want = q[e][0].len < n ? q[e][0].len : n;
        MC_CHECK (r == want, "read returned %zd, the next message gives %d bytes", r,
                  want);
        for (k = 0; k < want; k++)
            MC_CHECK (buf[k] == byte (q[e][0].id, k),
                      "wrong contents at byte %d of message %d", k, q[e][0].id);
        for (; k < BUF + 8; k++)
            MC_CHECK (buf[k] == 0xcc, "read wrote past the bytes it reported");
        for (k = 1; k < ql[e]; k++)
            q[e][k - 1] = q[e][k];
        ql[e]--;
        mc_outcome (alive[1 - e] ? "message read" : "message read after close");
        return;
    }
    MC_CHECK (r == -1, "read returned %zd although no message is pending", r);
    MC_CHECK (!alive[1 - e], "read failed although the peer is alive");
    mc_outcome ("read failed after close");
}

static void
ch_destroy (int i, int e)
{
    int before = ran;
    mc_ev2 ("task %ld destroys end %ld", i, e);
    alive[e] = 0;
    hev_task_channel_destroy (ch[e]);
    MC_CHECK (ran == before, "destroy waited");
    ch[e] = NULL;
}

static void
entry (void *data)
{
    int i = (int)(intptr_t)data, k;

    if (PRE && i == 0)
        for (k = mc_choose (PRE + 1, "number of writes"); k; k--) {
            ran++;
            ch_write (0, 0);
        }
    for (k = 0; k < OPS; k++) {
        int op[24], arg[24], n = 0, c, e;

        ran++;
        for (e = 0; e < 2; e++) {
            if (!alive[e] || inuse[e] || ((FLAGS & F_OWN) && e != i))
                continue;
            op[n] = 0, arg[n++] = e;
            op[n] = 1, arg[n++] = e;
            if (FLAGS & F_DESTROY)
                op[n] = 2, arg[n++] = e;
        }
        op[n] = 3, arg[n++] = 0;
        if (FLAGS & F_STRAY)
            for (c = 0; c < NT; c++)
                if (c != i && !done[c] &&
                    hev_task_get_state (t[c]) == HEV_TASK_WAITING)
                    op[n] = 4, arg[n++] = c;
        if (FLAGS & F_ENDEARLY)
            op[n++] = 5;
        if (FLAGS & F_SLEEP)
            op[n++] = 6;
        c = mc_choose (n, "operation");
        switch (op[c]) {
        case 0:
            ch_write (i, arg[c]);
            break;
        case 1:
            ch_read (i, arg[c]);
            break;
        case 2:
            ch_destroy (i, arg[c]);
            break;
        case 3:
            mc_ev1 ("task %ld yields", i);
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 4:
            mc_ev2 ("task %ld wakes task %ld", i, arg[c]);
            hev_task_wakeup (t[arg[c]]);
            break;
        case 5:
            k = OPS;
            break;
        case 6:
            mc_ev1 ("task %ld sleeps", i);
            hev_task_sleep (1);
            break;
        }
    }
    /* what was written before the other end was destroyed is all there */
    for (k = 0; k < 2; k++)
        while (alive[k] && !inuse[k] && !alive[1 - k] && (!(FLAGS & F_OWN) || k == i)) {
            int had = ql[k];
            ran++;
            ch_read (i, k);
            if (!had)
                break;
        }
    mc_ev1 ("task %ld ends", i);
    ran++;
    ended++;
    done[i] = 1;
}

static void
idle (void)
{
    int i, some = 0;

    for (i = 0; i < NT; i++) {
        int e = blocked_end[i];
        if (done[i])
            continue;
        MC_CHECK (blocked_in[i], "task %d is blocked outside any channel call", i);
        if (blocked_in[i] == 1) {
            MC_CHECK (!ql[e], "reader blocked for ever while a message is pending");
            MC_CHECK (alive[1 - e], "reader blocked for ever after the peer was destroyed");
        } else {
            MC_CHECK (alive[1 - e], "writer blocked for ever after the peer was destroyed");
            MC_CHECK (ql[1 - e] > NB, "writer blocked for ever although its message %s",
                      NB ? "is buffered" : "was read");
        }
        some++;
    }
    mc_outcome ("ended with a task rightly blocked");
    mc_done ();
}

static void
run (void)
{
    static const int prios[] = { 1, 15 };
    int k;

    memset (ql, 0, sizeof (ql));
    memset (inuse, 0, sizeof (inuse));
    memset (done, 0, sizeof (done));
    memset (blocked_in, 0, sizeof (blocked_in));
    alive[0] = alive[1] = 1;
    next_id = ended = ran = 0;
    mc_on_idle = idle;
    h_init ();
    k = NB ? hev_task_channel_new_with_buffers (&ch[0], &ch[1], AL.max_size, NB) :
             hev_task_channel_new (&ch[0], &ch[1]);
    MC_CHECK (k == 0, "channel not created");
    for (k = 0; k < NT; k++) {
        t[k] = h_task ();
        if (FLAGS & F_PRIO)
            hev_task_set_priority (t[k], prios[mc_choose (2, "priority")]);
    }
    for (k = 0; k < NT; k++)
        hev_task_run (t[k], entry, (void *)(intptr_t)k);
    hev_task_system_run ();
    MC_CHECK (ended == NT, "run returned before all tasks ended");
    for (k = 0; k < 2; k++)
        if (alive[k])
            hev_task_channel_destroy (ch[k]);
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all ended");
}
