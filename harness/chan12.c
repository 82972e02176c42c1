/* T12: closing of channels */
#include "chan.h"
const char mc_property[] = "T12";

#define D (F_DESTROY | F_ENDEARLY)

/* ---- many messages are pending when an end goes ---- */

static int pbuf, pput, pget;

static void
pend_task (void *data)
{
    unsigned char d[8];
    int k, j, r;

    for (k = 0; k < pput; k++) {
        for (j = 0; j < 8; j++)
            d[j] = byte (k, j);
        MC_CHECK (hev_task_channel_write (ch[0], d, 1 + k % 8) == 1 + k % 8, "write %d", k);
    }
    for (k = 0; k < pput; k++) {
        if (k == pget)
            hev_task_channel_destroy (ch[0]);
        memset (d, 0xee, 8);
        r = hev_task_channel_read (ch[1], d, 8);
        MC_CHECK (r == 1 + k % 8, "read %d of %d returned %d", k, pput, r);
        for (j = 0; j < 8; j++)
            MC_CHECK (d[j] == (j < r ? byte (k, j) : 0xee), "byte %d of message %d differs", j,
                      k);
    }
    if (k == pget)
        hev_task_channel_destroy (ch[0]);
    for (k = 0; k < 3; k++) {
        MC_CHECK (hev_task_channel_read (ch[1], d, 8) == -1, "read after the last message");
        MC_CHECK (hev_task_channel_write (ch[1], d, 8) == -1, "write without a peer");
    }
    hev_task_channel_destroy (ch[1]);
    ended++;
}

static void
pending (void)
{
    static const int nb[] = { 1, 2, 7, 16, 64, 255, 256, 300 };
    int c;

    ended = 0;
    pbuf = nb[mc_choose (8, "buffers")];
    c = mc_choose (4, "pending");
    pput = c == 0 ? pbuf : c == 1 ? pbuf - 1 : c == 2 ? pbuf / 2 : 0;
    c = mc_choose (4, "read before the end");
    pget = c == 0 ? 0 : c == 1 ? pput / 2 : c == 2 ? pput : pput > 0;
    mc_evx ("%ld buffers, %ld pending, %ld read", pbuf, pput, pget);
    h_init ();
    MC_CHECK (hev_task_channel_new_with_buffers (&ch[0], &ch[1], 8, pbuf) == 0, "new");
    hev_task_run (h_task (), pend_task, NULL);
    hev_task_system_run ();
    MC_CHECK (ended == 1, "run returned too early");
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all read");
}

const struct mc_scen mc_scenarios[] = {
    { "sync", run, MC_BOTH, { 2, 4, 0, 3, D } },
    { "one-buffer", run, MC_BOTH, { 2, 4, 1, 3, D } },
    { "two-buffers", run, MC_BOTH, { 2, 4, 2, 3, D } },
    { "sync-three", run, MC_BOTH, { 3, 3, 0, 3, F_DESTROY } },
    { "buffer-three", run, MC_BOTH, { 3, 3, 1, 3, F_DESTROY } },
    { "sync-stray", run, MC_BOTH, { 3, 2, 0, 3, D | F_STRAY | F_SLEEP } },
    { "buffer-stray", run, MC_BOTH, { 3, 2, 1, 3, D | F_STRAY | F_SLEEP } },
    { "sync-own", run, MC_BOTH, { 2, 6, 0, 3, F_DESTROY | F_OWN } },
    { "buffer-own", run, MC_BOTH, { 2, 6, 1, 3, F_DESTROY | F_OWN } },
    { "buffers-own", run, MC_BOTH, { 2, 6, 2, 3, F_DESTROY | F_OWN } },
    { "three-own", run, MC_BOTH, { 2, 4, 3, 3, F_DESTROY | F_OWN, 5 } },
    { "eight-own", run, MC_BOTH, { 2, 3, 8, 3, F_DESTROY | F_OWN, 10 } },
    { "sync-deep", run, MC_THOROUGH, { 2, 5, 0, 3, D } },
    { "buffer-deep", run, MC_THOROUGH, { 2, 5, 1, 3, D } },
    { "sync-own-deep", run, MC_THOROUGH, { 2, 8, 0, 3, F_DESTROY | F_OWN } },
    { "buffers-own-deep", run, MC_THOROUGH, { 2, 8, 2, 3, F_DESTROY | F_OWN } },
    { "pending", pending, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
