/* Chains of CIO layers over descriptors of the environment. */
#ifndef CIO_H
#define CIO_H

#include "io.h"
#include <hev-memory-allocator.h>
#include <hev-object.h>
#include <hev-task-cio.h>
#include <hev-task-cio-buffer.h>
#include <hev-task-cio-fd.h>
#include <hev-task-cio-null.h>
#include <hev-task-cio-socket.h>

static const struct shape
{
    int n;
    int v[4];
} shapes[] = {
    { 1, { 3 } }, { 1, { 1 } }, { 2, { 1, 2 } }, { 4, { 2, 0, 1, 0 } }, { 3, { 0, 1, 1 } }, { 1, { 0 } },
    { 2, { 3, 2 } },
};

static struct cop
{
    int on, write, yielding, with_yielder, stop, exact, total, flush;
    long c0, p0;
} O;

static HevTask *t;
static int finished;

static int
yielder (HevTaskYieldType type, void *data)
{
    MC_CHECK (data == &O && hev_task_self () == t, "the yielder got other data");
    MC_CHECK (type == HEV_TASK_WAITIO, "the yielder is asked to yield with type %d", type);
    MC_CHECK (O.on && !O.stop, "the yielder is called again after it asked to stop");
    O.yielding = 1;
    if (mc_choose (2, "yielder")) {
        mc_ev ("yielder stops");
        O.stop = 1;
    } else {
        mc_ev ("yielder waits");
        hev_task_yield (HEV_TASK_WAITIO);
    }
    O.yielding = 0;
    return O.stop ? -1 : 0;
}

/* a pass-through layer, freed by the harness */
static HevTaskCIO *plain[4];
static int nplain;

static HevTaskCIO *
cio_plain (void)
{
    HevTaskCIO *c = hev_malloc0 (sizeof (HevTaskCIO));
    MC_CHECK (c && hev_task_cio_construct (c) == 0, "construct failed");
    plain[nplain++] = c;
    return c;
}

static void
cio_free_plain (void)
{
    while (nplain)
        hev_free (plain[--nplain]);
}

#endif
