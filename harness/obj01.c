/* C01: atomic objects and object types used by several threads. P0 0: shared
 * object 1: first use of types, P1 threads, P2 operations per thread, P3 1: the
 * creating thread drops its reference at once. */
#include "cio.h"
#include <hev-object-atomic.h>

const char mc_property[] = "C01";

#define N P (1)
#define OPS P (2)
#define MAXTH 4

typedef struct
{
    HevObjectAtomic base;
    int slot[MAXTH + 1]; /* one per thread */
} Obj;

static Obj *obj;
static HevObjectClass cls;
static int refs, killed, by, prog[MAXTH + 1][6], plen[MAXTH + 1];

static void
touch (int who)
{
    vt_access ((uintptr_t)&obj->slot[who], sizeof (int), 1, 0);
    mc_mem_check (&obj->slot[who], sizeof (int), 1, "use of the object");
    obj->slot[who]++;
}

static void
obj_destruct (HevObject *base)
{
    Obj *o = (Obj *)base;
    int k, sum = 0;

    MC_CHECK (o == obj, "destruct of something else");
    MC_CHECK (!killed, "destroyed twice");
    MC_CHECK (refs == 0, "destroyed with %d references left", refs);
    killed = 1;
    by = vt_self ();
    mc_ev1 ("destroyed by thread %ld", by);
    for (k = 0; k <= N; k++) {
        vt_access ((uintptr_t)&o->slot[k], sizeof (int), 0, 0);
        sum += o->slot[k];
    }
    MC_CHECK (sum >= 0, "contents");
    HEV_OBJECT_ATOMIC_TYPE->destruct (base);
    vk_free (o);
}

static void
do_ref (void)
{
    refs++;
    hev_object_ref (HEV_OBJECT (obj));
}

static void
do_unref (void)
{
    refs--;
    hev_object_unref (HEV_OBJECT (obj));
}

static void *
thread (void *arg)
{
    int k, me = (int)(intptr_t)arg;

    for (k = 0; k < plen[me]; k++) {
        MC_CHECK (!killed, "the object was destroyed while thread %d has a reference", me);
        switch (prog[me][k]) {
        case 0:
            touch (me);
            break;
        case 1:
            do_ref ();
            break;
        case 2:
            do_unref ();
            break;
        }
    }
    return NULL;
}

static void
program (int me)
{
    int own = 1, n = 0;

    while (n < OPS && own) {
        int c;
        /* enough operations must be left to drop everything */
        if (OPS - n <= own)
            c = 2;
        else
            c = mc_choose (OPS - n - 1 <= own ? 2 : 3, "operation");
        if (OPS - n > own && c == 1)
            c = 2;
        else if (OPS - n > own && c == 2)
            c = 1;
        prog[me][n++] = c;
        own += c == 1 ? 1 : c == 2 ? -1 : 0;
    }
    MC_CHECK (!own, "harness error");
    plen[me] = n;
    for (own = 0; own < n; own++)
        mc_evx ("thread %ld operation %ld: %ld", me, own, prog[me][own]);
}

static void
run_shared (void)
{
    int k;

    killed = 0;
    by = -1;
    memcpy (&cls, HEV_OBJECT_ATOMIC_TYPE, sizeof (cls));
    cls.destruct = obj_destruct;
    for (k = 1; k <= N; k++)
        program (k);
    obj = vk_malloc (sizeof (Obj));
    memset (obj, 0, sizeof (Obj));
    MC_CHECK (hev_object_atomic_construct (&obj->base) == 0, "construct failed");
    HEV_OBJECT (obj)->klass = &cls;
    refs = 1;
    for (k = 1; k <= N; k++)
        do_ref ();
    vt_explore = 1;
    for (k = 1; k <= N; k++)
        vt_spawn (thread, (void *)(intptr_t)k);
    if (P (3)) {
        touch (0);
        do_unref ();
        vt_join_n (N);
    } else {
        vt_join_n (N);
        touch (0);
        MC_CHECK (!killed, "the object was destroyed although one reference is left");
        do_unref ();
    }
    MC_CHECK (killed, "the object was not destroyed");
    mc_outcome (by == 0 ? "destroyed by its creator" : by == 1 ? "destroyed by thread 1" :
                                                                 "destroyed by another thread");
    mc_leak_check ("end");
}

static int kind[MAXTH + 1][4];

static HevObjectClass *
type_of (int k)
{
    switch (k) {
    case 0:
        return HEV_OBJECT_TYPE;
    case 1:
        return HEV_OBJECT_ATOMIC_TYPE;
    case 2:
        return HEV_TASK_CIO_TYPE;
    case 3:
        return HEV_TASK_CIO_BUFFER_TYPE;
    case 4:
        return HEV_TASK_CIO_FD_TYPE;
    case 5:
        return HEV_TASK_CIO_NULL_TYPE;
    default:
        return HEV_TASK_CIO_SOCKET_TYPE;
    }
}

static void
use (int k)
{
    HevObject *o = NULL;
    HevObject raw;
    HevObjectAtomic araw;
    struct
    {
        HevTaskCIO base;
    } craw;
    HevTaskCIO *c = NULL;

    switch (k) {
    case 0:
        hev_object_construct (o = &raw);
        break;
    case 1:
        hev_object_atomic_construct (&araw);
        o = HEV_OBJECT (&araw);
        break;
    case 2:
        memset (&craw, 0, sizeof (craw));
        hev_task_cio_construct (c = &craw.base);
        break;
    case 3:
        c = HEV_TASK_CIO (hev_task_cio_buffer_new (1, 1));
        break;
    case 4:
        c = HEV_TASK_CIO (hev_task_cio_fd_new (-1, -1));
        break;
    case 5:
        c = HEV_TASK_CIO (hev_task_cio_null_new ());
        break;
    case 6:
        c = HEV_TASK_CIO (hev_task_cio_socket_new (AF_INET, -1));
        break;
    }
    if (c)
        o = HEV_OBJECT (c);
    MC_CHECK (o && o->klass && o->klass->ref && o->klass->destruct && o->klass->name,
              "a new object of kind %d has an incomplete type", k);
    MC_CHECK (o->klass == type_of (k), "a new object of kind %d has another type", k);
    hev_object_ref (o);
    if (c) {
        HevTaskCIOClass *kp = HEV_OBJECT_GET_CLASS (c);
        unsigned char b = 1;
        struct iovec v = { &b, 1 };
        long r;
        MC_CHECK (kp->read && kp->write && kp->readv && kp->writev && kp->ctrl && kp->read_dgram &&
                  kp->write_dgram && kp->readv_dgram && kp->writev_dgram,
                  "a new layer of kind %d has an incomplete type", k);
        MC_CHECK (hev_task_cio_get_fd (c, 0) == -1, "layer of kind %d has a descriptor", k);
        r = hev_task_cio_writev (c, &v, 1, NULL, NULL);
        MC_CHECK (r == (k == 5 || k == 3 ? 1 : -1), "write to a layer of kind %d returned %ld", k, r);
    }
    hev_object_unref (o);
    hev_object_unref (o);
}

static void *
type_thread (void *arg)
{
    int k, me = (int)(intptr_t)arg;
    for (k = 0; k < OPS; k++)
        use (kind[me][k]);
    return NULL;
}

static void
run_types (void)
{
    int k, j;

    for (k = 1; k <= N; k++)
        for (j = 0; j < OPS; j++) {
            kind[k][j] = mc_choose (7, "type");
            mc_evx ("thread %ld use %ld: type %ld", k, j, kind[k][j]);
        }
    vt_explore = 1;
    for (k = 1; k <= N; k++)
        vt_spawn (type_thread, (void *)(intptr_t)k);
    vt_join_n (N);
    for (k = 0; k < 7; k++)
        for (j = 0; j < k; j++)
            MC_CHECK (type_of (k) != type_of (j) && strcmp (type_of (k)->name, type_of (j)->name),
                      "types %d and %d are not told apart", j, k);
    mc_outcome ("types used");
    /* every thread keeps its default allocator */
}

const struct mc_scen mc_scenarios[] = {
    { "two", run_shared, MC_BOTH, { 0, 2, 4, 0 }, .preempt = 12 },
    { "two-created", run_shared, MC_BOTH, { 0, 2, 4, 1 }, .preempt = 6 },
    { "three", run_shared, MC_BOTH, { 0, 3, 2, 1 }, .preempt = 12 },
    { "three-ref", run_shared, MC_BOTH, { 0, 3, 4, 1 }, .preempt = 3 },
    { "types", run_types, MC_BOTH, { 1, 2, 2 }, .preempt = 4 },
    { "types-three", run_types, MC_BOTH, { 1, 3, 1 }, .preempt = 4 },
    { "three-deep", run_shared, MC_THOROUGH, { 0, 3, 4, 1 }, .preempt = 4 },
    { "types-deep", run_types, MC_THOROUGH, { 1, 3, 1 }, .preempt = 6 },
    { 0 },
};
