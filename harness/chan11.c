/* T11: channel transfer */
#include "chan.h"
const char mc_property[] = "T11";

/* channels of any size: usable in full, or refused */
static const unsigned int dims[] = { 0, 1, 5, 40, 0xffff, 0x10000, 0x0fffffff, 0x10000000,
                                     0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000,
                                     0xfffffff0, 0xfffffffe, 0xffffffff };
#define NDIMS (sizeof (dims) / sizeof (dims[0]))
static unsigned int size, buffers;

static void
fill (void *data)
{
    unsigned char d[40];
    unsigned int k, j;
    for (k = 0; k < buffers; k++) {
        for (j = 0; j < size; j++)
            d[j] = k * 41 + j;
        MC_CHECK (hev_task_channel_write (ch[0], d, size) == size, "write number %u", k);
    }
    for (k = 0; k < buffers; k++) {
        memset (d, 0xee, sizeof (d));
        MC_CHECK (hev_task_channel_read (ch[1], d, sizeof (d)) == size, "read number %u", k);
        for (j = 0; j < sizeof (d); j++)
            MC_CHECK (d[j] == (j < size ? (unsigned char)(k * 41 + j) : 0xee),
                      "byte %u of message %u differs", j, k);
    }
    ended++;
}

static void
sizes (void)
{
    long live;
    int r;

    h_init ();
    size = dims[mc_choose (NDIMS, "size")];
    buffers = dims[mc_choose (NDIMS, "buffers")];
    mc_ev2 ("%ld buffers of size %ld", buffers, size);
    ch[0] = ch[1] = (void *)&ch;
    live = mc_live_blocks;
    r = hev_task_channel_new_with_buffers (&ch[0], &ch[1], size, buffers);
    if (r == 0) {
        MC_CHECK (!buffers || ((size_t)buffers + 1) * ((size_t)size + 1) < 1 << 28,
                  "%u buffers of size %u cannot be there", buffers, size);
        ended = 1;
        if (size <= 40 && buffers <= 40) {
            ended = 0;
            t[0] = h_task ();
            hev_task_run (t[0], fill, NULL);
            hev_task_system_run ();
        }
        MC_CHECK (ended, "the task did not end");
        hev_task_channel_destroy (ch[0]);
        hev_task_channel_destroy (ch[1]);
        mc_outcome ("created");
    } else {
        MC_CHECK (r == -1, "new_with_buffers returned %d", r);
        MC_CHECK (size > 40 || buffers > 40, "a small channel was refused");
        MC_CHECK (mc_live_blocks == live, "memory of a refused channel is left");
        mc_outcome ("refused");
    }
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- many buffers, written and read in bursts ---- */

static int bn, bchoice[6];

static int
burst (int c, int max)
{
    int n = c == 0 ? 1 : c == 1 ? bn / 2 : c == 2 ? bn - 1 : bn;
    return n < max ? n : max;
}

static void
burst_task (void *data)
{
    unsigned char d[48];
    int wr = 0, rd = 0, k, j, n, e = (int)(intptr_t)data;

    for (k = 0; k < 8; k++) {
        for (n = burst (bchoice[k % 6], bn - (wr - rd)); n > 0; n--, wr++) {
            int len = wr * 7 % 41;
            for (j = 0; j < len; j++)
                d[j] = byte (wr, j);
            MC_CHECK (hev_task_channel_write (ch[e], d, len) == len, "write number %d", wr);
        }
        for (n = burst (bchoice[(k + 1) % 6], wr - rd); n > 0; n--, rd++) {
            int len = rd * 7 % 41, want = rd % 3 ? 48 : 20, r;
            memset (d, 0xee, sizeof (d));
            r = hev_task_channel_read (ch[!e], d, want);
            MC_CHECK (r == (len < want ? len : want), "read number %d returned %d", rd, r);
            for (j = 0; j < 48; j++)
                MC_CHECK (d[j] == (j < r ? byte (rd, j) : 0xee), "byte %d of message %d differs",
                          j, rd);
        }
    }
    ended++;
}

static void
burst_idle (void)
{
    mc_fail ("a write waits although buffers are free, or a read although messages are pending");
}

static void
bursts (void)
{
    static const int nb[] = { 7, 15, 16, 31, 64, 127, 128, 255, 256, 300 };
    int k;

    ended = 0;
    mc_on_idle = burst_idle;
    bn = nb[mc_choose (10, "buffers")];
    for (k = 0; k < 4; k++)
        bchoice[k] = mc_choose (4, "burst");
    bchoice[4] = 1;
    bchoice[5] = 3;
    mc_ev1 ("%ld buffers", bn);
    h_init ();
    MC_CHECK (hev_task_channel_new_with_buffers (&ch[0], &ch[1], 41, bn) == 0, "new");
    hev_task_run (h_task (), burst_task, (void *)0);
    hev_task_run (h_task (), burst_task, (void *)1);
    hev_task_system_run ();
    MC_CHECK (ended == 2, "run returned too early");
    hev_task_channel_destroy (ch[0]);
    hev_task_channel_destroy (ch[1]);
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all read");
}

const struct mc_scen mc_scenarios[] = {
    { "sync", run, MC_BOTH, { 2, 4, 0, 0, F_OWN } },
    { "sync-sizes", run, MC_BOTH, { 2, 3, 0, 1, F_OWN } },
    { "sync-big", run, MC_BOTH, { 2, 3, 0, 4, F_OWN } },
    { "one-buffer", run, MC_BOTH, { 2, 5, 1, 3, F_OWN } },
    { "one-buffer-sizes", run, MC_BOTH, { 2, 3, 1, 2, F_OWN } },
    { "one-buffer-small", run, MC_BOTH, { 2, 3, 1, 5, F_OWN } },
    { "two-buffers", run, MC_BOTH, { 2, 6, 2, 3, F_OWN } },
    { "two-buffers-sizes", run, MC_BOTH, { 2, 3, 2, 1, F_OWN } },
    { "two-buffers-big", run, MC_BOTH, { 2, 3, 2, 4, F_OWN } },
    { "three-buffers", run, MC_BOTH, { 2, 6, 3, 3, F_OWN } },
    { "four-buffers", run, MC_BOTH, { 2, 5, 4, 3, F_OWN, 6 } },
    { "nine-buffers", run, MC_BOTH, { 2, 4, 9, 3, F_OWN, 12 } },
    { "sizes", sizes, MC_BOTH },
    { "sync-prio", run, MC_BOTH, { 2, 4, 0, 3, F_OWN | F_PRIO | F_SLEEP } },
    { "buffer-prio", run, MC_BOTH, { 2, 4, 1, 3, F_OWN | F_PRIO | F_SLEEP } },
    { "sync-stray", run, MC_BOTH, { 3, 3, 0, 3, F_STRAY } },
    { "buffer-stray", run, MC_BOTH, { 3, 3, 1, 3, F_STRAY } },
    { "sync-deep", run, MC_THOROUGH, { 2, 7, 0, 3, F_OWN } },
    { "one-buffer-deep", run, MC_THOROUGH, { 2, 8, 1, 3, F_OWN } },
    { "two-buffers-deep", run, MC_THOROUGH, { 2, 8, 2, 3, F_OWN } },
    { "three-buffers-deep", run, MC_THOROUGH, { 2, 8, 3, 3, F_OWN } },
    { "sync-stray-deep", run, MC_THOROUGH, { 3, 4, 0, 3, F_STRAY } },
    { "bursts", bursts, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
