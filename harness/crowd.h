/* Large sets of tasks: size, order, kind of end and priorities are taken from
 * small alphabets in all combinations. */
#define CMAX 1100

static struct
{
    HevTask *t;
    int in, out; /* entries and ends */
    int woken, turns;
    int joined;
} c[CMAX];
static int cn, cway, cyields, cend, cprio, cdrive, cstride, cstart, cround;
static const int csizes[] = { 5, 17, 41, 139, 1031 }; /* primes */

static int
cpick (int n, const char *what)
{
    int k = mc_choose (n, what);
    mc_ev1 (what, 0);
    mc_ev1 ("  choice %ld", k);
    return k;
}

/* the k-th in the order of this execution */
static int
corder (int k)
{
    return (cstart + k * cstride) % cn;
}

static void
corders (void)
{
    static const int strides[] = { 1, -1, 3, 7 };
    int s = strides[cpick (4, "stride")];

    cstride = s < 0 ? cn - 1 : s;
    cstart = cpick (3, "first") * cn / 3;
}

static void
ccreate (int i)
{
    static const int sizes[] = { 8192, 12000 };
    int p = HEV_TASK_PRIORITY_DEFAULT;

    c[i].t = hev_task_ref (hev_task_new (sizes[i % 5 == 4]));
    MC_CHECK (c[i].t, "hev_task_new failed");
    switch (cprio) {
    case 1:
        p = i % 16;
        break;
    case 2:
        p = i % 3 ? 15 : 1;
        break;
    }
    hev_task_set_priority (c[i].t, p);
}

static void
cfinish (void)
{
    int i;

    for (i = 0; i < cn; i++) {
        MC_CHECK (hev_task_get_state (c[i].t) == HEV_TASK_STOPPED, "task %d is not stopped", i);
        hev_task_unref (c[i].t);
#ifndef MC_CONFIG_DEFAULT
        MC_CHECK (!mc_mem_ok (c[i].t, 1), "task %d is not released", i);
#endif
    }
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all ended");
}

static void
cbegin (int sizes)
{
    memset (c, 0, sizeof (c));
    cdrive = cround = 0;
    cn = csizes[cpick (sizes, "number of tasks")];
}

/* ---- every task runs once --------------------------------------------------- */

static void crowd_start (int i);

static void
crowd_entry (void *data)
{
    int i = (int)(intptr_t)data, k;

    MC_CHECK (i >= 0 && i < cn && hev_task_self () == c[i].t, "task %d: wrong identity", i);
    c[i].in++;
    MC_CHECK (c[i].in == cround, "task %d is entered %d times after %d starts", i, c[i].in,
              cround);
    if (cway == 1 && i == 0)
        for (k = 1; k < cn; k++)
            crowd_start (k);
    if (cway == 2 && i + 1 < cn)
        crowd_start (i + 1);
    if (cway == 3) {
        if (i * 2 + 1 < cn)
            crowd_start (i * 2 + 1);
        if (i * 2 + 2 < cn)
            crowd_start (i * 2 + 2);
    }
    for (k = 0; k < cyields + (i % 7 == 3); k++)
        hev_task_yield (HEV_TASK_YIELD);
    c[i].out++;
    MC_CHECK (c[i].out == c[i].in, "task %d ended twice", i);
    if (cend == 1 || (cend == 2 && i % 2))
        hev_task_exit ();
}

static void
crowd_start (int i)
{
    MC_CHECK (hev_task_get_state (c[i].t) == HEV_TASK_STOPPED, "task %d is not stopped", i);
    hev_task_run (cround == 1 ? c[i].t : hev_task_ref (c[i].t), crowd_entry,
                  (void *)(intptr_t)i);
    MC_CHECK (hev_task_get_state (c[i].t) == HEV_TASK_RUNNING, "task %d is not ready", i);
}

static void
crowd (void)
{
    int i;

    cbegin (5);
    cway = cpick (4, "started by");
    cyields = cpick (3, "yields");
    cend = cpick (3, "end");
    cprio = cpick (3, "priorities");
    h_init ();
    for (i = 0; i < cn; i++)
        ccreate (i);
    for (cround = 1; cround <= 2; cround++) {
        for (i = 0; i < (cway ? 1 : cn); i++)
            crowd_start (i);
        hev_task_system_run ();
        for (i = 0; i < cn; i++)
            MC_CHECK (c[i].in == cround && c[i].out == cround,
                      "task %d: %d entries and %d ends after %d starts", i, c[i].in, c[i].out,
                      cround);
    }
    cfinish ();
}

/* ---- every wakeup resumes its task once ------------------------------------------ */

static void
crowd_waiter (void *data)
{
    int i = (int)(intptr_t)data, k;

    for (k = 0; k < 3; k++) {
        hev_task_yield (HEV_TASK_WAITIO);
        c[i].turns++;
        MC_CHECK (c[i].turns == c[i].woken, "task %d resumed %d times after %d wakeups", i,
                  c[i].turns, c[i].woken);
        if (cyields == 1 && i % 3 == 0)
            hev_task_yield (HEV_TASK_YIELD);
    }
    c[i].out++;
}

static void
crowd_waker (void *data)
{
    int r, k, i;

    for (r = 1; r <= 3; r++) {
        for (k = 0; k < cn; k++) {
            i = corder (k);
            MC_CHECK (hev_task_get_state (c[i].t) == HEV_TASK_WAITING, "task %d does not wait",
                      i);
            c[i].woken++;
            hev_task_wakeup (c[i].t);
            if (cend)
                hev_task_wakeup (c[i].t);
            MC_CHECK (hev_task_get_state (c[i].t) == HEV_TASK_RUNNING, "task %d is not ready",
                      i);
            if (cway == 1 || (cway == 2 && k % 4 == 3))
                hev_task_sleep (1);
        }
        hev_task_sleep (1);
        for (i = 0; i < cn; i++)
            MC_CHECK (c[i].turns == r, "task %d resumed %d times after %d wakeups", i,
                      c[i].turns, r);
    }
    cdrive = 1;
}

static void
crowd_wake (void)
{
    HevTask *w;
    int i;

    cbegin (4);
    corders ();
    cway = cpick (3, "wakeups between turns");
    cyields = cpick (2, "yields");
    cend = cpick (2, "twice");
    cprio = cpick (3, "priorities");
    h_init ();
    for (i = 0; i < cn; i++) {
        ccreate (i);
        hev_task_run (c[i].t, crowd_waiter, (void *)(intptr_t)i);
    }
    w = h_task ();
    hev_task_set_priority (w, 15);
    hev_task_run (w, crowd_waker, NULL);
    hev_task_system_run ();
    MC_CHECK (cdrive, "run returned too early");
    for (i = 0; i < cn; i++)
        MC_CHECK (c[i].out == 1, "run returned too early");
    cfinish ();
}

/* ---- joins ----------------------------------------------------------------- */

static void
crowd_target (void *data)
{
    int i = (int)(intptr_t)data, k = 0;

    while (!c[i].woken)
        hev_task_sleep (1 + k++ % 3);
    if (cway == 1 && i + 1 < cn) {
        MC_CHECK (hev_task_join (c[i + 1].t) == 0, "join failed");
        MC_CHECK (c[i + 1].out, "join of task %d returned before it ended", i + 1);
        c[i + 1].joined++;
    }
    c[i].out++;
    if (cend == 1 || (cend == 2 && i % 2))
        hev_task_exit ();
}

static void
crowd_joiner (void *data)
{
    int i = (int)(intptr_t)data, k;

    for (k = i < 0 ? 0 : i; k < (i < 0 ? cn : i + 1); k++) {
        int j = i < 0 ? corder (k) : k;
        MC_CHECK (hev_task_join (c[j].t) == 0, "join failed");
        MC_CHECK (c[j].out, "join of task %d returned before it ended", j);
        MC_CHECK (hev_task_get_state (c[j].t) == HEV_TASK_STOPPED, "joined task %d runs", j);
        c[j].joined++;
    }
    cdrive++;
}

static void
crowd_releaser (void *data)
{
    int k;

    hev_task_sleep (2);
    for (k = 0; k < cn; k++) {
        int i = corder (k);
        if (cway == 0)
            MC_CHECK (hev_task_join (c[i].t) == -1, "a second join did not fail");
        c[i].woken = 1;
        if (cyields)
            hev_task_sleep (k % 3);
    }
    cdrive++;
}

static void
crowd_join (void)
{
    int i, n;

    cbegin (4);
    corders ();
    cway = cpick (3, "who joins");
    cyields = cpick (2, "releases spread");
    cend = cpick (3, "end");
    cprio = cpick (3, "priorities");
    h_init ();
    for (i = 0; i < cn; i++) {
        ccreate (i);
        hev_task_run (c[i].t, crowd_target, (void *)(intptr_t)i);
    }
    n = 1;
    if (cway == 0)
        for (i = 0; i < cn; i++, n++)
            hev_task_run (h_task (), crowd_joiner, (void *)(intptr_t)i);
    if (cway == 2) {
        hev_task_run (h_task (), crowd_joiner, (void *)(intptr_t)-1);
        n++;
    }
    hev_task_run (h_task (), crowd_releaser, NULL);
    hev_task_system_run ();
    MC_CHECK (cdrive == n, "run returned too early");
    for (i = cway == 1; i < cn; i++)
        MC_CHECK (c[i].out == 1 && c[i].joined == 1, "task %d was not joined", i);
    cfinish ();
}

/* ---- references ------------------------------------------------------------------- */

static void
crowd_refs (void)
{
    static const int counts[] = { 3, 127, 255, 256, 40000, 65535, 65536, 70000 };
    int n, i, when;
    HevTask *t;

    memset (c, 0, sizeof (c));
    cn = 1;
    cround = 1;
    cway = cyields = cend = cprio = 0;
    n = counts[cpick (8, "references")];
    when = cpick (2, "released before or after the run");
    h_init ();
    t = c[0].t = h_task ();
    for (i = 0; i < n; i++)
        MC_CHECK (hev_task_ref (t) == t, "ref");
    hev_task_run (t, crowd_entry, NULL);
    if (when == 0)
        for (i = 0; i < n; i++)
            hev_task_unref (t);
    hev_task_system_run ();
    MC_CHECK (c[0].out == 1, "run returned too early");
    if (when)
        for (i = 0; i < n; i++) {
#ifndef MC_CONFIG_DEFAULT
            MC_CHECK (mc_mem_ok (t, 1), "released with %d references left", n - i);
#endif
            hev_task_unref (t);
        }
#ifndef MC_CONFIG_DEFAULT
    MC_CHECK (!mc_mem_ok (t, 1), "not released");
#endif
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("released");
}

/* tasks come and go, in waves */

static void
crowd_short (void *data)
{
    int i = (int)(intptr_t)data, k;

    for (k = 0; k < i % 3; k++)
        hev_task_yield (HEV_TASK_YIELD);
    c[i].out++;
    if (cend == 1 || (cend == 2 && i % 2))
        hev_task_exit ();
}

static void
crowd_feeder (void *data)
{
    int w, k;

    for (w = 0; w < 4; w++) {
        for (k = 0; k < cn; k++) {
            int i = corder (k);
            HevTask *t = hev_task_new (4096 + 4096 * ((i + w) % 4) * (cyields == 1) +
                                       100 * (cyields == 2) * i);
            MC_CHECK (t, "hev_task_new failed");
            if ((i + w) % 3 == 0)
                hev_task_ref (c[i].t = t);
            hev_task_run (t, crowd_short, (void *)(intptr_t)i);
            if (cway && k % cway == 0)
                hev_task_yield (HEV_TASK_YIELD);
        }
        hev_task_sleep (1);
        for (k = 0; k < cn; k++) {
            MC_CHECK (c[k].out == w + 1, "task %d ran %d times", k, c[k].out);
            if (c[k].t) {
                MC_CHECK (hev_task_get_state (c[k].t) == HEV_TASK_STOPPED, "state");
                hev_task_unref (c[k].t);
                c[k].t = NULL;
            }
        }
    }
    cdrive++;
}

static void
crowd_waves (void)
{
    cbegin (4);
    corders ();
    cway = cpick (3, "together") * 2;
    cyields = cpick (3, "sizes");
    cend = cpick (3, "end");
    h_init ();
    hev_task_run (h_task (), crowd_feeder, NULL);
    hev_task_system_run ();
    MC_CHECK (cdrive == 1, "run returned too early");
    h_fini ();
    mc_leak_check ("fini");
    mc_outcome ("all ended");
}
