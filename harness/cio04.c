/* O04: lifetime of objects and chains. P0 0: plain and atomic objects 1: chains,
 * P1 objects, P2 operations, P3 1: the last object is always a socket, P4 1: only
 * layers of the harness and sockets, P5 1: the first layer owns the lowest
 * descriptors. */
#include "cio.h"
#include <hev-object-atomic.h>

const char mc_property[] = "O04";

#define N P (1)
#define OPS P (2)
#define MAXO 4

/* ---- a layer and two object types of the harness ---- */

typedef struct
{
    HevTaskCIO base;
    int id;
} Layer;

typedef struct
{
    HevObject base;
    int id;
} Obj;

static struct
{
    void *p;
    int type;   /* 0 own layer 1 buffer 2 pair 3 one descriptor 4 socket 5 null 6 only input 7 only output */
    int mine;   /* references of the program */
    int held;   /* references of layers above */
    int next;   /* -1 none */
    int fd[2];  /* owned descriptors, -1 none */
    int killed; /* destructor calls */
} X[MAXO];

static void
layer_destruct (HevObject *base)
{
    Layer *self = (Layer *)base;
    int id = self->id;

    MC_CHECK (id >= 0 && id < N && X[id].p == base, "destruct of something else");
    X[id].killed++;
    mc_ev1 ("layer %ld is destroyed", id);
    HEV_TASK_CIO_TYPE->destruct (base);
    hev_free (base);
}

static HevTaskCIOClass layer_class;

static HevTaskCIO *
layer_new (int id)
{
    Layer *l = hev_malloc0 (sizeof (Layer));

    MC_CHECK (l && hev_task_cio_construct (&l->base) == 0, "construct failed");
    memcpy (&layer_class, HEV_TASK_CIO_TYPE, sizeof (layer_class));
    HEV_OBJECT_CLASS (&layer_class)->name = "Layer";
    HEV_OBJECT_CLASS (&layer_class)->destruct = layer_destruct;
    HEV_OBJECT (l)->klass = HEV_OBJECT_CLASS (&layer_class);
    l->id = id;
    return &l->base;
}

/* ---- plain and atomic objects ---- */

static HevObjectClass obj_class[2];

static void
obj_destruct (HevObject *base)
{
    Obj *self = (Obj *)base;
    MC_CHECK (self->id >= 0 && self->id < N && X[self->id].p == base, "destruct of something else");
    X[self->id].killed++;
    (X[self->id].type ? HEV_OBJECT_ATOMIC_TYPE : HEV_OBJECT_TYPE)->destruct (base);
    hev_free (base);
}

static void
run_objects (void)
{
    int k, j, i;

    memset (X, 0, sizeof (X));
    h_init ();
    memcpy (&obj_class[0], HEV_OBJECT_TYPE, sizeof (HevObjectClass));
    memcpy (&obj_class[1], HEV_OBJECT_ATOMIC_TYPE, sizeof (HevObjectClass));
    obj_class[0].destruct = obj_class[1].destruct = obj_destruct;
    for (k = 0; k < N; k++) {
        Obj *o = hev_malloc (sizeof (Obj));
        X[k].p = o;
        o->id = k;
        X[k].type = mc_choose (2, "atomic");
        MC_CHECK ((X[k].type ? hev_object_atomic_construct (HEV_OBJECT_ATOMIC (o)) :
                               hev_object_construct (HEV_OBJECT (o))) == 0,
                  "construct failed");
        HEV_OBJECT (o)->klass = &obj_class[X[k].type];
        X[k].mine = 1;
    }
    for (j = 0; j < OPS; j++) {
        int c, n = 0, menu[2 * MAXO];
        for (k = 0; k < N; k++)
            if (X[k].mine) {
                menu[n++] = 2 * k;
                menu[n++] = 2 * k + 1;
            }
        if (!n)
            break;
        c = menu[mc_choose (n, "operation")];
        k = c / 2;
        if (c & 1) {
            mc_ev1 ("unref %ld", k);
            X[k].mine--;
            hev_object_unref (X[k].p);
        } else {
            mc_ev1 ("ref %ld", k);
            X[k].mine++;
            hev_object_ref (X[k].p);
        }
        for (i = 0; i < N; i++) {
            MC_CHECK (X[i].killed == !X[i].mine, "object %d with %d references was destroyed %d times", i,
                      X[i].mine, X[i].killed);
            if (X[i].mine)
                MC_CHECK (mc_block_size (X[i].p), "object %d is gone", i);
        }
    }
    for (k = 0; k < N; k++)
        while (X[k].mine) {
            X[k].mine--;
            hev_object_unref (X[k].p);
            MC_CHECK (X[k].killed == !X[k].mine, "object %d with %d references was destroyed %d times", k,
                      X[k].mine, X[k].killed);
        }
    mc_outcome ("done");
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- chains ---- */

static int
alive (int i)
{
    return X[i].mine + X[i].held > 0;
}

/* one reference less in the model */
static void
drop (int i, int *held)
{
    (*held)--;
    MC_CHECK (*held >= 0, "harness error");
    if (!alive (i) && X[i].next >= 0) {
        int n = X[i].next;
        X[i].next = -1;
        drop (n, &X[n].held);
    }
}

static int
inner_fd (int i, int dir)
{
    while (i >= 0) {
        if (X[i].type == 2 || X[i].type > 5)
            return X[i].fd[dir];
        if (X[i].type == 3 || X[i].type == 4)
            return X[i].fd[0];
        if (X[i].type == 5)
            return -1;
        i = X[i].next;
    }
    return -1;
}

static void
check (int ncalls)
{
    int i, k, d;

    for (k = ncalls; k < vk_ncalls; k++) {
        struct vk_call *c = &vk_calls[k % VK_CALLS];
        if (!strcmp (c->name, "close"))
            MC_CHECK (c->res == 0, "close of descriptor %d, which is not open", c->fd);
    }
    for (i = 0; i < N; i++) {
        int a = alive (i);
        MC_CHECK (!!mc_block_size (X[i].p) == a, a ? "layer %d is gone although it is referenced" :
                                                     "layer %d is still there without a reference", i);
        if (X[i].type == 0)
            MC_CHECK (X[i].killed == !a, "layer %d was destroyed %d times", i, X[i].killed);
        for (d = 0; d < 2; d++)
            if (X[i].fd[d] >= 0)
                MC_CHECK (vk_is_open (X[i].fd[d]) == a,
                          a ? "a descriptor of layer %d was closed" :
                              "a descriptor of the destroyed layer %d is open", i);
        if (!a)
            continue;
        MC_CHECK (HEV_OBJECT (X[i].p)->klass, "layer %d has no class", i);
        for (d = 0; d < 2; d++) {
            int got = hev_task_cio_get_fd (X[i].p, d);
            MC_CHECK (got == inner_fd (i, d), "layer %d reaches descriptor %d instead of %d", i, got,
                      inner_fd (i, d));
        }
    }
}

static int
reaches (int i, int j)
{
    for (; i >= 0; i = X[i].next)
        if (i == j)
            return 1;
    return 0;
}

static void
mk (int i)
{
    int k, type;

    if (P (4))
        type = mc_choose (2, "type") * 4;
    else if (P (3) && i == N - 1)
        type = 4;
    else
        type = mc_choose (8, "type");
    X[i].type = type;
    X[i].mine = 1;
    X[i].next = -1;
    X[i].fd[0] = X[i].fd[1] = -1;
    switch (type) {
    case 0:
        X[i].p = layer_new (i);
        break;
    case 1:
        X[i].p = hev_task_cio_buffer_new (2, 2);
        break;
    case 2:
        for (k = 0; k < 2; k++)
            X[i].fd[k] = k ? vk_mk_writer (8) : vk_mk_reader ();
        X[i].p = hev_task_cio_fd_new (X[i].fd[0], X[i].fd[1]);
        break;
    case 3:
        X[i].fd[0] = vk_mk_stream (8);
        X[i].p = hev_task_cio_fd_new (X[i].fd[0], X[i].fd[0]);
        break;
    case 4:
        X[i].fd[0] = vk_mk_stream (8);
        X[i].p = hev_task_cio_socket_new (AF_INET, X[i].fd[0]);
        break;
    case 5:
        X[i].p = hev_task_cio_null_new ();
        break;
    case 6:
    case 7:
        X[i].fd[type - 6] = type == 7 ? vk_mk_writer (8) : vk_mk_reader ();
        X[i].p = hev_task_cio_fd_new (X[i].fd[0], X[i].fd[1]);
        break;
    }
    MC_CHECK (X[i].p, "layer was not created");
    mc_ev2 ("layer %ld has type %ld", i, type);
}

static void
run_chains (void)
{
    int k, j, from;

    memset (X, 0, sizeof (X));
    if (P (5))
        mk (0);
    h_init ();
    for (k = P (5); k < N; k++)
        mk (k);
    check (vk_ncalls);
    for (j = 0; j < OPS; j++) {
        struct
        {
            int op, a, b;
        } m[64];
        int n = 0, i, c;
        for (k = 0; k < N; k++) {
            if (!X[k].mine)
                continue;
            m[n].op = 0, m[n++].a = k; /* unref */
            if (X[k].mine < 2)
                m[n].op = 1, m[n++].a = k; /* ref */
            if (X[k].next >= 0)
                m[n].op = 2, m[n++].a = k; /* pop */
            else
                for (i = 0; i < N; i++)
                    if (X[i].mine && !reaches (i, k))
                        m[n].op = 3, m[n].a = k, m[n++].b = i; /* push */
        }
        if (!n)
            break;
        c = mc_choose (n, "operation");
        k = m[c].a;
        i = m[c].b;
        from = vk_ncalls;
        switch (m[c].op) {
        case 0:
            mc_ev1 ("unref %ld", k);
            drop (k, &X[k].mine);
            hev_object_unref (X[k].p);
            break;
        case 1:
            mc_ev1 ("ref %ld", k);
            X[k].mine++;
            hev_object_ref (X[k].p);
            break;
        case 2: {
            void *p;
            i = X[k].next;
            mc_ev2 ("pop %ld from %ld", k, i);
            X[k].next = -1;
            X[i].held--;
            X[i].mine++;
            drop (k, &X[k].mine);
            p = hev_task_cio_pop (X[k].p);
            MC_CHECK (p == X[i].p, "pop did not return the next layer");
            mc_outcome ("pop");
            break;
        }
        case 3:
            mc_ev2 ("push %ld on %ld", k, i);
            X[k].next = i;
            X[i].mine--;
            X[i].held++;
            MC_CHECK (hev_task_cio_push (X[k].p, X[i].p) == X[k].p, "push did not return the new first layer");
            mc_outcome (X[i].mine || X[i].held > 1 ? "push of a shared layer" : "push");
            break;
        }
        check (from);
    }
    for (k = 0; k < N; k++)
        while (X[k].mine) {
            from = vk_ncalls;
            drop (k, &X[k].mine);
            hev_object_unref (X[k].p);
            check (from);
        }
    for (k = 0; k < N; k++)
        MC_CHECK (!alive (k), "harness error");
    h_fini ();
    mc_leak_check ("fini");
}

/* ---- many references, tall chains ---- */

static int nkilled;

static void
count_destruct (HevObject *base)
{
    nkilled++;
    (HEV_OBJECT (base)->klass == &obj_class[1] ? HEV_OBJECT_ATOMIC_TYPE : HEV_OBJECT_TYPE)
        ->destruct (base);
    hev_free (base);
}

static void
many_refs (void)
{
    static const int counts[] = { 3, 127, 255, 256, 32767, 65535, 65536, 70000 };
    int n = counts[mc_choose (8, "references")], type = mc_choose (8, "type"), k;

    memset (X, 0, sizeof (X));
    nkilled = 0;
    h_init ();
    mc_ev2 ("%ld references to type %ld", n, type);
    if (type == 1 || type == 5) {
        Obj *o = hev_malloc (sizeof (Obj));
        int atomic = type == 1;
        memcpy (&obj_class[atomic], atomic ? HEV_OBJECT_ATOMIC_TYPE : HEV_OBJECT_TYPE,
                sizeof (HevObjectClass));
        obj_class[atomic].destruct = count_destruct;
        MC_CHECK ((atomic ? hev_object_atomic_construct (HEV_OBJECT_ATOMIC (o)) :
                            hev_object_construct (HEV_OBJECT (o))) == 0,
                  "construct failed");
        HEV_OBJECT (o)->klass = &obj_class[atomic];
        for (k = 0; k < n; k++)
            hev_object_ref (HEV_OBJECT (o));
        for (k = 0; k <= n; k++) {
            MC_CHECK (!nkilled, "the object was destroyed with %d references left", n + 1 - k);
            hev_object_unref (HEV_OBJECT (o));
        }
        MC_CHECK (nkilled == 1, "the object was destroyed %d times", nkilled);
    } else {
        mk (0);
        for (k = 0; k < n; k++, X[0].mine++)
            hev_object_ref (X[0].p);
        check (vk_ncalls);
        for (k = 0; k <= n; k++) {
            int from = vk_ncalls;
            MC_CHECK (mc_block_size (X[0].p), "the layer is gone with %d references left", n + 1 - k);
            X[0].mine--;
            hev_object_unref (X[0].p);
            check (from);
        }
    }
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("released");
}

static void
tall (void)
{
    static const int counts[] = { 5, 17, 40, 139 };
    static HevTaskCIO *L[140];
    int n = counts[mc_choose (4, "layers")], bottom = mc_choose (3, "bottom");
    int how = mc_choose (4, "dismantling"), at = mc_choose (3, "shared layer"), k, fd, from;
    HevTaskCIO *top = NULL, *q;

    h_init ();
    mc_evx ("%ld layers over bottom %ld, way %ld", n, bottom, how);
    mc_ev1 ("shared layer %ld", at);
    fd = bottom == 2 ? -1 : vk_mk_stream (8);
    at = at * (n - 1) / 2;
    for (k = 0; k < n; k++) {
        q = k ? HEV_TASK_CIO (hev_task_cio_buffer_new (1, 1)) :
            bottom == 0 ? HEV_TASK_CIO (hev_task_cio_socket_new (AF_INET, fd)) :
            bottom == 1 ? HEV_TASK_CIO (hev_task_cio_fd_new (fd, fd)) :
                          HEV_TASK_CIO (hev_task_cio_null_new ());
        MC_CHECK (q, "no layer");
        L[k] = q;
        if (k)
            MC_CHECK (hev_task_cio_push (q, top) == q, "push did not return the new first layer");
        top = q;
        MC_CHECK (hev_task_cio_get_fd (top, k & 1) == fd, "%d layers reach descriptor %d instead of %d",
                  k + 1, hev_task_cio_get_fd (top, k & 1), fd);
    }
    if (how & 1)
        hev_object_ref (HEV_OBJECT (L[at])); /* keeps a layer and those below */
    from = vk_ncalls;
    if (how & 2)
        for (k = n - 1; k > 0; k--) {
            top = hev_task_cio_pop (L[k]);
            MC_CHECK (top == L[k - 1], "pop did not return the next layer");
            MC_CHECK (!!mc_block_size (L[k]) == ((how & 1) && k == at), "layer %d of %d after pop", k, n);
            MC_CHECK (mc_block_size (top) && (fd < 0 || vk_is_open (fd)), "the rest is gone after pop");
        }
    hev_object_unref (HEV_OBJECT (top));
    for (k = 0; k < n; k++)
        MC_CHECK (!!mc_block_size (L[k]) ==
                      ((how & 1) && (how & 2 ? k == at : k <= at)),
                  "layer %d of %d", k, n);
    if (how & 1) {
        int keep = !(how & 2) || at == 0;
        MC_CHECK (fd < 0 || vk_is_open (fd) == keep, "the descriptor with a shared layer");
        MC_CHECK (hev_task_cio_get_fd (L[at], 0) == (keep ? fd : -1), "descriptor of the shared layer");
        hev_object_unref (HEV_OBJECT (L[at]));
        for (k = 0; k < n; k++)
            MC_CHECK (!mc_block_size (L[k]), "layer %d is still there", k);
    }
    if (fd >= 0) {
        int closes = 0;
        for (k = from; k < vk_ncalls; k++)
            closes += !strcmp (vk_calls[k % VK_CALLS].name, "close");
        MC_CHECK (!vk_is_open (fd) && closes == 1, "the descriptor was closed %d times", closes);
    }
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("dismantled");
}

const struct mc_scen mc_scenarios[] = {
    { "objects", run_objects, MC_BOTH, { 0, 1, 12 } },
    { "objects-two", run_objects, MC_BOTH, { 0, 2, 7 } },
    { "objects-three", run_objects, MC_BOTH, { 0, 3, 5 } },
    { "one", run_chains, MC_BOTH, { 1, 1, 8 } },
    { "two", run_chains, MC_BOTH, { 1, 2, 8 } },
    { "three", run_chains, MC_BOTH, { 1, 3, 5, 0 } },
    { "three-layers", run_chains, MC_BOTH, { 1, 3, 6, 0, 1 } },
    { "four-layers", run_chains, MC_BOTH, { 1, 4, 5, 0, 1 } },
    { "low", run_chains, MC_BOTH, { 1, 2, 4, 0, 0, 1 } },
    { "two-deep", run_chains, MC_THOROUGH, { 1, 2, 10 } },
    { "three-deep", run_chains, MC_THOROUGH, { 1, 3, 6, 0 } },
    { "four-deep", run_chains, MC_THOROUGH, { 1, 4, 6, 0, 1 } },
    { "many-refs", many_refs, MC_BOTH, { 1, 1 }, .horizon = 100000000 },
    { "tall", tall, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
