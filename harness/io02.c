/* I02: socket operations. Stream scenarios: P0 operations, P1 actions of the
 * environment, P2 1: transfers may be short, P3 which operations, P4 1: the
 * environment acts also while the task is ready, P5 stray wakeups, P6 kinds of
 * errors. */
#include "io.h"
#include <hev-memory-allocator.h>
#include <hev-task-io-socket.h>

const char mc_property[] = "I02";

#define OPS P (0)
#define ACTS P (1)
#define SHORT P (2)
#define ALPH P (3)
#define ATPOLL P (4)

static const struct
{
    int n;
    int v[4];
} shapes[] = {
    { 1, { 3 } }, { 1, { 1 } }, { 1, { 0 } }, { 2, { 1, 2 } }, { 4, { 2, 0, 1, 0 } }, { 3, { 0, 1, 1 } },
    { 0, { 0 } },
};

static HevTask *t;
static struct op
{
    int on, write, yielding, with_yielder, stop, waitall, total;
    long c0, p0;
} O;
static int finished, strays;

static int
yielder (HevTaskYieldType type, void *data)
{
    MC_CHECK (data == &O && hev_task_self () == t, "the yielder got other data");
    MC_CHECK (type == HEV_TASK_WAITIO, "the yielder is asked to yield with type %d", type);
    MC_CHECK (O.on && !O.stop, "the yielder is called again after it asked to stop");
    O.yielding = 1;
    if (mc_choose (2, "yielder")) {
        mc_ev ("yielder stops");
        O.stop = 1;
    } else {
        mc_ev ("yielder waits");
        hev_task_yield (HEV_TASK_WAITIO);
    }
    O.yielding = 0;
    return O.stop ? -1 : 0;
}

static void
on_block (void)
{
    int m;
    long n;

    if (!O.on)
        return;
    n = ep_consumed (0) - O.c0 + ep_produced (0) - O.p0;
    MC_CHECK (!n || O.waitall, "the task waits although it transferred something already");
    MC_CHECK (!n || n < O.total, "the task waits although everything was transferred");
    MC_CHECK (!O.with_yielder || O.yielding, "the task waits past its yielder");
    MC_CHECK (!err_consumed (0), "the task waits although its operation failed");
    m = vk_poll_obj (vk_obj (E[0].fd));
    MC_CHECK (!(m & ((O.write ? POLLOUT : POLLIN) | POLLERR | POLLHUP)),
              "the task waits although its operation would not block");
}

static void
idle (void)
{
    on_block ();
    MC_CHECK (finished || O.on, "the task is waiting outside of an operation");
    mc_outcome ("waiting for ever");
    mc_done ();
}

static void
stray (void *data)
{
    int k;
    for (k = 0; k < strays; k++) {
        hev_task_yield (HEV_TASK_YIELD);
        if (!O.on || finished)
            continue;
        mc_ev ("stray wakeup");
        hev_task_wakeup (t);
    }
}

static void
disturb (int n)
{
    HevTask *s;
    strays = n;
    if (!n)
        return;
    s = h_task ();
    hev_task_run (s, stray, NULL);
}

enum
{
    RECV,
    RECVFROM,
    RECVMSG,
    SEND,
    SENDTO,
    SENDMSG
};

/* a heap block of the exact size */
static void *
block (size_t n)
{
    return n ? hev_malloc (n) : NULL;
}

static void
one (void)
{
    static const unsigned char src[8] = { AF_UNIX, 0, 's', 'r', 'c' };
    int kind, sh, flags, y, k, j, from = vk_ncalls, peek, ctl0, cout0, meta = 0;
    struct iovec v[4], v0[4];
    unsigned char *buf[4], *name = NULL, *ctl = NULL;
    struct msghdr m, m0;
    socklen_t alen = 0;
    long r, n;
    int err, wr, total;
    struct vobj *o = vk_obj (E[0].fd);
    HevTaskIOYielder yf;

    memset (&O, 0, sizeof (O));
    if (ALPH == 0) {
        kind = mc_choose (2, "operation") ? SEND : RECV;
        sh = mc_choose (3, "size");
    } else if (ALPH == 1) {
        kind = mc_choose (2, "operation") ? SENDMSG : RECVMSG;
        sh = 3 + mc_choose (3, "vector");
        meta = mc_choose (3, "metadata");
    } else {
        kind = mc_choose (6, "operation");
        sh = kind == RECVMSG || kind == SENDMSG ? mc_choose (7, "vector") : mc_choose (3, "size");
        meta = kind == RECV || kind == SEND ? 0 : mc_choose (3, "metadata");
    }
    wr = kind >= SEND;
    flags = mc_choose (wr ? 2 : 4, "flags");
    peek = flags & 2;
    flags = (flags & 1 ? MSG_WAITALL : 0) | (peek ? MSG_PEEK : 0);
    flags |= wr ? MSG_NOSIGNAL : MSG_CMSG_CLOEXEC;
    o->mflags = -1;
    y = mc_choose (2, "with a yielder");
    yf = y ? yielder : NULL;

    for (k = 0, n = 0; k < shapes[sh].n; k++) {
        buf[k] = block (shapes[sh].v[k]);
        v[k].iov_base = buf[k];
        v[k].iov_len = shapes[sh].v[k];
        for (j = 0; j < shapes[sh].v[k]; j++, n++)
            buf[k][j] = wr ? pout (0, E[0].put + n) : 0xee;
    }
    memcpy (v0, v, sizeof (v));
    total = n;
    if (meta) { /* 1: room for everything 2: short name, no control data */
        alen = meta == 1 ? 8 : 4;
        name = hev_malloc (alen);
        memset (name, 0x77, alen);
        if (meta == 1) {
            ctl = hev_malloc (CMSG_SPACE (1));
            memset (ctl, 0, CMSG_SPACE (1));
            if (wr) {
                struct cmsghdr *c = (void *)ctl;
                c->cmsg_len = CMSG_LEN (1);
                c->cmsg_level = SOL_SOCKET;
                c->cmsg_type = SCM_RIGHTS;
                *CMSG_DATA (c) = 0x41;
            }
        }
    }
    memset (&m, 0, sizeof (m));
    m.msg_name = name;
    m.msg_namelen = alen;
    m.msg_control = ctl;
    m.msg_controllen = ctl ? CMSG_SPACE (1) : 0;
    m.msg_iov = v;
    m.msg_iovlen = shapes[sh].n;
    m0 = m;
    ctl0 = o->nctl_in;
    cout0 = o->nctl_out;
    O.write = wr;
    O.with_yielder = y;
    O.waitall = (flags & MSG_WAITALL) && !peek;
    O.total = total;
    O.c0 = ep_consumed (0);
    O.p0 = ep_produced (0);
    O.on = 1;
    mc_evx ("operation %ld of %ld bytes, flags %ld", kind, total, flags);
    errno = 0;
    switch (kind) {
    case RECV:
        r = hev_task_io_socket_recv (E[0].fd, buf[0], total, flags, yf, &O);
        break;
    case RECVFROM:
        r = hev_task_io_socket_recvfrom (E[0].fd, buf[0], total, flags, (void *)name,
                                         name ? &alen : NULL, yf, &O);
        break;
    case RECVMSG:
        r = hev_task_io_socket_recvmsg (E[0].fd, &m, flags, yf, &O);
        break;
    case SEND:
        r = hev_task_io_socket_send (E[0].fd, buf[0], total, flags, yf, &O);
        break;
    case SENDTO:
        r = hev_task_io_socket_sendto (E[0].fd, buf[0], total, flags, (void *)name, alen, yf, &O);
        break;
    default:
        r = hev_task_io_socket_sendmsg (E[0].fd, &m, flags, yf, &O);
    }
    err = errno;
    O.on = 0;
    mc_ev2 ("returned %ld, errno %ld", r, r == -1 ? err : 0);

    MC_CHECK ((flags & ~MSG_WAITALL & o->mflags) == (flags & ~MSG_WAITALL), "flags were lost");
    MC_CHECK (r <= total, "the call returned %ld for %d bytes", r, total);
    n = wr ? ep_produced (0) - O.p0 : ep_consumed (0) - O.c0;
    if (r == -2 && O.waitall)
        ; /* what was moved before the yielder stopped is not reported */
    else if (peek)
        MC_CHECK (n == 0, "a peek consumed %ld bytes", n);
    else
        MC_CHECK (n == (r > 0 ? r : 0), "%ld bytes were transferred, but the call returned %ld", n,
                  r);
    if (!O.waitall && !peek)
        MC_CHECK (moves (0, from) <= 1, "the bytes were transferred in %d parts", moves (0, from));
    MC_CHECK (!memcmp (v, v0, sizeof (v[0]) * shapes[sh].n), "the caller's vector changed");
    MC_CHECK (m.msg_iov == m0.msg_iov && m.msg_iovlen == m0.msg_iovlen &&
                  m.msg_name == m0.msg_name && m.msg_control == m0.msg_control,
              "the caller's message header changed");
    if (r != -2) {
        long x = 0;
        for (k = 0; k < shapes[sh].n; k++)
            for (j = 0; j < shapes[sh].v[k]; j++, x++) {
                unsigned char want = wr    ? pout (0, E[0].put + x) :
                                     x < r ? pin (0, E[0].got + x) :
                                             0xee;
                MC_CHECK (buf[k][j] == want, "byte %d of element %d is %d instead of %d", j, k,
                          buf[k][j], want);
            }
    }
    if (wr) {
        E[0].put += n;
        if (kind == SENDMSG && ctl && n > 0) {
            MC_CHECK (o->nctl_out == cout0 + 1, "control data was sent %d times",
                      o->nctl_out - cout0);
            MC_CHECK (o->ctl_out == 0x41 && o->ctl_pos == O.p0,
                      "control data %d was sent with byte %ld", o->ctl_out, o->ctl_pos);
        } else
            MC_CHECK (o->nctl_out == cout0, "control data was sent");
    } else
        E[0].got += n;
    if (r > 0 && !wr && name) {
        socklen_t l = kind == RECVMSG ? m.msg_namelen : alen;
        MC_CHECK (l == 8, "the length of the source address is %d", l);
        MC_CHECK (!memcmp (name, src, meta == 1 ? 8 : 4), "the source address did not arrive");
    }
    if (r > 0 && kind == RECVMSG) {
        if (ctl) {
            MC_CHECK (m.msg_controllen == CMSG_LEN (1), "the length of the control data is %ld",
                      (long)m.msg_controllen);
            MC_CHECK (*CMSG_DATA ((struct cmsghdr *)ctl) == 0x51 + ctl0,
                      "control data %d arrived instead of %d", *CMSG_DATA ((struct cmsghdr *)ctl),
                      0x51 + ctl0);
            MC_CHECK (!(m.msg_flags & MSG_CTRUNC), "control data is reported as lost");
        } else
            MC_CHECK (m.msg_flags & MSG_CTRUNC, "the flags of the message did not arrive");
    }
    for (k = 0; k < shapes[sh].n; k++)
        if (buf[k])
            hev_free (buf[k]);
    if (name)
        hev_free (name);
    if (ctl)
        hev_free (ctl);

    if (r == -2) {
        MC_CHECK (O.stop, "-2 although the yielder did not ask to stop");
        mc_outcome ("stopped by the yielder");
        return;
    }
    MC_CHECK (!O.stop, "the call went on after the yielder asked to stop");
    if (r == -1) {
        if (E[0].err) {
            MC_CHECK (err == E[0].err, "errno is %d instead of %d", err, E[0].err);
            E[0].err = 0;
        } else
            MC_CHECK (wr && E[0].gone && err == EPIPE, "the call failed with errno %d", err);
        mc_outcome ("error");
        return;
    }
    MC_CHECK (r >= 0, "the call returned %ld", r);
    if (r > 0 && r < total && O.waitall) {
        int was = E[0].err && !o->err;
        MC_CHECK (was || (wr ? E[0].gone : E[0].eof && ep_consumed (0) == E[0].arrived),
                  "only %ld of %d bytes although all were requested", r, total);
        if (was)
            E[0].err = 0;
        mc_outcome ("cut short");
        return;
    }
    /* the error may have come after the last part */
    MC_CHECK (!E[0].err || o->err, "an error of the descriptor was not reported");
    if (r == 0) {
        MC_CHECK (!total || (!wr && E[0].eof && ep_consumed (0) == E[0].arrived),
                  "0 was returned before the end of input");
        mc_outcome (total ? "end of input" : "empty");
        return;
    }
    mc_outcome (peek ? "peeked" : r < total ? "partial" : "complete");
}

static void
stream_entry (void *data)
{
    int k;

    MC_CHECK (hev_task_add_fd (t, E[0].fd, POLLIN | POLLOUT) == 0, "add_fd failed");
    for (k = 0; k < OPS; k++)
        one ();
    hev_task_del_fd (t, E[0].fd);
    finished = 1;
}

static void
start (void)
{
    io_reset ();
    memset (&O, 0, sizeof (O));
    finished = 0;
    strays = 0;
    vk_on_block = on_block;
    mc_on_idle = idle;
    h_init ();
}

static void
stop (void)
{
    hev_task_system_run ();
    MC_CHECK (finished, "run returned before the task ended");
    io_close_all ();
    h_fini ();
    mc_leak_check ("fini");
}

static void
stream (void)
{
    start ();
    acts_left = ACTS;
    if (P (6))
        nerrs = P (6);
    vk_short_io = SHORT;
    vk_env_at_poll = ATPOLL;
    ep_new (0, 2);
    t = h_task ();
    hev_task_run (t, stream_entry, NULL);
    disturb (P (5));
    stop ();
}

/* datagrams: P0 operations, P1 actions */
static unsigned char dg_addr[2][6] = { { AF_UNIX, 0, 'a', 'b', 'c', 'd' }, { AF_UNIX, 0, 'e', 'f' } };
static const int dg_alen[2] = { 6, 4 };
static struct
{
    int len, addr;
} dg_in[8];
static int dg_nin, dg_nread, dg_nout, dg_taken;
static struct
{
    int len, alen, ctl;
} dg_out[8];

static int
dg_count (void)
{
    struct vobj *o = vk_obj (E[0].fd);
    if (acts_left <= 0 || !o)
        return 0;
    return 4 + (o->nout > 0);
}

static void
dg_check_out (void)
{
    struct vobj *o = vk_obj (E[0].fd);
    struct vmsg *g = &o->out[0];
    int k;

    MC_CHECK (dg_taken < dg_nout || O.on, "a message was sent twice");
    if (dg_taken < dg_nout) {
        MC_CHECK (g->len == dg_out[dg_taken].len && g->alen == dg_out[dg_taken].alen &&
                      g->ctl == dg_out[dg_taken].ctl,
                  "message %d went out with %d bytes, address of %d, control data %d", dg_taken,
                  g->len, g->alen, g->ctl);
        for (k = 0; k < g->len; k++)
            MC_CHECK (g->d[k] == pout (dg_taken, k), "message %d was changed", dg_taken);
        MC_CHECK (!memcmp (g->addr, dg_addr[0], g->alen), "the address of message %d was changed",
                  dg_taken);
    }
    for (k = 1; k < o->nout; k++)
        o->out[k - 1] = o->out[k];
    o->nout--;
    dg_taken++;
    vk_wake (o, POLLOUT);
}

static void
dg_do (int i)
{
    unsigned char d[4];
    int k;

    acts_left--;
    if (i == 4) {
        mc_ev ("a message is taken");
        dg_check_out ();
        return;
    }
    if (i == 3) {
        mc_ev ("error");
        E[0].err = ECONNREFUSED;
        vk_remote_err (E[0].fd, ECONNREFUSED);
        return;
    }
    mc_ev1 ("a message of %ld bytes arrives", i);
    for (k = 0; k < i; k++)
        d[k] = pin (dg_nin, k);
    dg_in[dg_nin].len = i;
    dg_in[dg_nin].addr = dg_nin % 2;
    vk_remote_msg (E[0].fd, d, i, dg_addr[dg_nin % 2], dg_alen[dg_nin % 2]);
    dg_nin++;
}

static void
dg_one (void)
{
    int kind = mc_choose (6, "operation"), n, k, nm = 0, peek = 0, err, y, cnt, moved;
    unsigned char *b[2], *name = NULL, *ctl = NULL;
    struct iovec v[2];
    struct msghdr m;
    struct vobj *o = vk_obj (E[0].fd);
    socklen_t alen = 0;
    HevTaskIOYielder yf;
    int in0 = o->nmsg + dg_nread, before_in, before_out, flags;
    long r;

    (void)in0;
    memset (&O, 0, sizeof (O));
    n = kind >= SEND ? 2 * mc_choose (2, "size") : 1 + mc_choose (2, "size");
    nm = kind == RECV || kind == SEND ? 0 : mc_choose (3, "metadata");
    if (kind < SEND)
        peek = mc_choose (2, "peek");
    y = mc_choose (2, "with a yielder");
    yf = y ? yielder : NULL;
    flags = peek ? MSG_PEEK : 0;
    /* the message is split over two elements for the message calls */
    cnt = n == 2 && (kind == RECVMSG || kind == SENDMSG) ? 2 : 1;
    for (k = 0; k < cnt; k++) {
        v[k].iov_len = n / cnt;
        v[k].iov_base = b[k] = block (n / cnt);
    }
    for (k = 0; k < n; k++)
        b[k * cnt / (n ? n : 1)][cnt == 2 ? 0 : k] = kind >= SEND ? pout (dg_nout, k) : 0xee;
    if (nm) {
        alen = nm == 1 ? 6 : 4;
        name = hev_malloc (alen);
        if (kind >= SEND)
            memcpy (name, dg_addr[0], alen);
        if (nm == 1) {
            struct cmsghdr *c;
            ctl = hev_malloc (CMSG_SPACE (1));
            c = (void *)ctl;
            memset (ctl, 0, CMSG_SPACE (1));
            c->cmsg_len = CMSG_LEN (1);
            *CMSG_DATA (c) = 0x42;
        }
    }
    memset (&m, 0, sizeof (m));
    m.msg_name = name;
    m.msg_namelen = alen;
    m.msg_control = ctl;
    m.msg_controllen = ctl ? CMSG_SPACE (1) : 0;
    m.msg_iov = v;
    m.msg_iovlen = cnt;
    O.write = kind >= SEND;
    O.with_yielder = y;
    O.total = n;
    O.on = 1;
    before_in = dg_nin - o->nmsg;
    before_out = o->nout + dg_taken;
    mc_evx ("operation %ld of %ld bytes, flags %ld", kind, n, flags);
    errno = 0;
    switch (kind) {
    case RECV:
        r = hev_task_io_socket_recv (E[0].fd, b[0], n, flags, yf, &O);
        break;
    case RECVFROM:
        r = hev_task_io_socket_recvfrom (E[0].fd, b[0], n, flags, (void *)name,
                                         name ? &alen : NULL, yf, &O);
        break;
    case RECVMSG:
        r = hev_task_io_socket_recvmsg (E[0].fd, &m, flags, yf, &O);
        break;
    case SEND:
        r = hev_task_io_socket_send (E[0].fd, b[0], n, flags, yf, &O);
        break;
    case SENDTO:
        r = hev_task_io_socket_sendto (E[0].fd, b[0], n, flags, (void *)name, alen, yf, &O);
        break;
    default:
        r = hev_task_io_socket_sendmsg (E[0].fd, &m, flags, yf, &O);
    }
    err = errno;
    O.on = 0;
    mc_ev2 ("returned %ld, errno %ld", r, r == -1 ? err : 0);
    if (kind < SEND) {
        moved = dg_nin - o->nmsg - before_in;
        MC_CHECK (moved == (r >= 0 && !peek), "%d messages were consumed, the call returned %ld",
                  moved, r);
        if (r >= 0) {
            int len = dg_in[dg_nread].len, a = dg_in[dg_nread].addr, w = len < n ? len : n;
            MC_CHECK (r == w, "a message of %d bytes was received as %ld", len, r);
            for (k = 0; k < n; k++)
                MC_CHECK (b[k * cnt / n][cnt == 2 ? 0 : k] == (k < r ? pin (dg_nread, k) : 0xee),
                          "byte %d of the message is wrong", k);
            if (name) {
                socklen_t l = kind == RECVMSG ? m.msg_namelen : alen;
                int have = nm == 1 ? 6 : 4;
                MC_CHECK (l == (socklen_t)dg_alen[a], "the length of the source address is %d", l);
                MC_CHECK (!memcmp (name, dg_addr[a], have < dg_alen[a] ? have : dg_alen[a]),
                          "the source address did not arrive");
            }
            if (kind == RECVMSG) {
                MC_CHECK (!!(m.msg_flags & MSG_TRUNC) == (len > n), "truncation is not reported");
                MC_CHECK (m.msg_controllen == (ctl ? CMSG_LEN (1) : 0),
                          "the length of the control data is %ld", (long)m.msg_controllen);
            }
            if (!peek)
                dg_nread++;
        }
    } else {
        moved = o->nout + dg_taken - before_out;
        MC_CHECK (moved == (r >= 0), "%d messages were sent, the call returned %ld", moved, r);
        MC_CHECK (r < 0 || r == n, "a message of %d bytes was sent as %ld", n, r);
        if (r >= 0) {
            dg_out[dg_nout].len = n;
            dg_out[dg_nout].alen = name ? alen : 0;
            dg_out[dg_nout].ctl = ctl && kind == SENDMSG ? 0x42 : 0;
            dg_nout++;
        }
    }
    for (k = 0; k < cnt; k++)
        if (b[k])
            hev_free (b[k]);
    if (name)
        hev_free (name);
    if (ctl)
        hev_free (ctl);
    if (r == -2) {
        MC_CHECK (O.stop, "-2 although the yielder did not ask to stop");
        mc_outcome ("stopped by the yielder");
        return;
    }
    MC_CHECK (!O.stop, "the call went on after the yielder asked to stop");
    if (r == -1) {
        MC_CHECK (E[0].err && err == E[0].err, "errno is %d instead of %d", err, E[0].err);
        E[0].err = 0;
        mc_outcome ("error");
        return;
    }
    MC_CHECK (!E[0].err, "an error of the descriptor was not reported");
    mc_outcome (kind < SEND ? "received" : "sent");
}

static void
dg_entry (void *data)
{
    int k;

    MC_CHECK (hev_task_add_fd (t, E[0].fd, POLLIN | POLLOUT) == 0, "add_fd failed");
    for (k = 0; k < OPS; k++)
        dg_one ();
    hev_task_del_fd (t, E[0].fd);
    while (vk_obj (E[0].fd)->nout)
        dg_check_out ();
    MC_CHECK (dg_taken == dg_nout, "a message was lost");
    finished = 1;
}

static void
dgram (void)
{
    start ();
    acts_left = ACTS;
    dg_nin = dg_nread = dg_nout = dg_taken = 0;
    vk_env_count = dg_count;
    vk_env_do = dg_do;
    ep_new (3, 1);
    t = h_task ();
    hev_task_run (t, dg_entry, NULL);
    stop ();
}

/* connect: P0 1: stray wakeups of another task */
static int cn_fd, cn_answered;

static int
cn_count (void)
{
    struct vobj *o = vk_obj (cn_fd);
    return o && o->conn == 1 && !cn_answered ? 5 : 0;
}

static void
cn_do (int i)
{
    static const int err[5] = { 0, ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ECONNRESET };
    mc_ev1 ("the connection is answered with %ld", err[i]);
    cn_answered = 1 + err[i];
    vk_remote_conn_done (cn_fd, err[i]);
}

static void
cn_block (void)
{
    if (!O.on)
        return;
    MC_CHECK (!O.with_yielder || O.yielding, "the task waits past its yielder");
    MC_CHECK (vk_obj (cn_fd)->conn == 1, "the task waits although the connection is settled");
}

static void
cn_idle (void)
{
    cn_block ();
    MC_CHECK (!cn_answered, "the task does not notice the answer");
    mc_done ();
}

static void
cn_entry (void *data)
{
    int r, err, y = mc_choose (2, "with a yielder"), tries = 2;
    struct sockaddr *a = hev_malloc (16);

    memset (a, 1, 16);
    MC_CHECK (hev_task_add_fd (t, cn_fd, POLLIN | POLLOUT) == 0, "add_fd failed");
    while (tries--) {
        memset (&O, 0, sizeof (O));
        O.with_yielder = y;
        O.on = 1;
        errno = 0;
        r = hev_task_io_socket_connect (cn_fd, a, 16, y ? yielder : NULL, &O);
        err = errno;
        O.on = 0;
        mc_ev2 ("connect returned %ld, errno %ld", r, r == -1 ? err : 0);
        if (r != -2)
            break;
        MC_CHECK (O.stop, "-2 although the yielder did not ask to stop");
        mc_outcome ("stopped by the yielder");
    }
    if (r != -2) {
        MC_CHECK (!O.stop, "the call went on after the yielder asked to stop");
        if (r == 0) {
            MC_CHECK (vk_obj (cn_fd)->conn == 2, "connected without an answer");
            MC_CHECK (vk_connect_plan == 0 || cn_answered == 1, "connected although refused");
            mc_outcome ("connected");
        } else {
            MC_CHECK (r == -1, "connect returned %d", r);
            MC_CHECK (vk_connect_plan == 3 ? err == vk_connect_err :
                                             cn_answered > 1 && err == cn_answered - 1,
                      "connect failed with errno %d", err);
            mc_outcome ("refused");
        }
    }
    hev_task_del_fd (t, cn_fd);
    hev_free (a);
    finished = 1;
}

static void
conn (void)
{
    static const int now[] = { ECONNREFUSED, ENETUNREACH, EACCES, EADDRNOTAVAIL, EINTR, EAGAIN };

    start ();
    vk_on_block = cn_block;
    mc_on_idle = cn_idle;
    vk_env_count = cn_count;
    vk_env_do = cn_do;
    vk_env_at_poll = 1;
    cn_answered = 0;
    vk_connect_plan = mc_choose (4, "how connect is answered");
    if (vk_connect_plan == 3)
        vk_connect_err = now[mc_choose (6, "failure")];
    cn_fd = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0);
    MC_CHECK (cn_fd >= 0, "socket failed");
    t = h_task ();
    hev_task_run (t, cn_entry, NULL);
    disturb (P (0));
    hev_task_system_run ();
    MC_CHECK (finished, "run returned before the task ended");
    vk_close_user (cn_fd);
    h_fini ();
    mc_leak_check ("fini");
}

/* accept: P0 calls, P1 actions, P2 stray wakeups */
static int ac_conns;

static int
ac_count (void)
{
    return acts_left > 0 ? 2 : 0;
}

static void
ac_do (int i)
{
    acts_left--;
    if (i) {
        mc_ev ("error on the listening socket");
        E[0].err = ECONNABORTED;
        vk_remote_err (E[0].fd, ECONNABORTED);
    } else {
        mc_ev ("a connection arrives");
        ac_conns++;
        vk_remote_connect (E[0].fd);
    }
}

static void
ac_entry (void *data)
{
    static const unsigned char peer[8] = { AF_UNIX, 0, 'p', 'e', 'e', 'r' };
    int k, r, err, y, a, fl, fds, backlog, got = 0;
    struct vobj *o = vk_obj (E[0].fd);

    MC_CHECK (hev_task_add_fd (t, E[0].fd, POLLIN) == 0, "add_fd failed");
    for (k = 0; k < P (0); k++) {
        socklen_t al = 0;
        unsigned char *ad = NULL;
        y = mc_choose (2, "with a yielder");
        a = mc_choose (3, "address");
        if (a) {
            al = a == 1 ? 8 : 3;
            ad = hev_malloc (al);
        }
        memset (&O, 0, sizeof (O));
        O.with_yielder = y;
        O.on = 1;
        fl = mc_fault_left;
        fds = mc_live_fds;
        mc_faults_on = 1;
        errno = 0;
        r = hev_task_io_socket_accept (E[0].fd, (void *)ad, ad ? &al : NULL, y ? yielder : NULL,
                                       &O);
        err = errno;
        mc_faults_on = 0;
        O.on = 0;
        mc_ev2 ("accept returned %ld, errno %ld", r, r == -1 ? err : 0);
        backlog = o->accepted - got;
        MC_CHECK (mc_live_fds == fds + (r >= 0), "accept left a descriptor open");
        if (r >= 0) {
            struct vobj *n = vk_obj (r);
            got++;
            MC_CHECK (mc_fault_left == fl, "a failure was not reported");
            MC_CHECK (n && n->type == VO_STREAM && n->accepted == got,
                      "accept returned another descriptor");
            MC_CHECK (n->nonblock, "the accepted descriptor is blocking");
            if (ad) {
                MC_CHECK (al == 8, "the length of the peer address is %d", al);
                MC_CHECK (!memcmp (ad, peer, a == 1 ? 8 : 3), "the peer address did not arrive");
            }
            vk_close_user (r);
            mc_outcome ("accepted");
        } else if (r == -2) {
            MC_CHECK (O.stop, "-2 although the yielder did not ask to stop");
            mc_outcome ("stopped by the yielder");
        } else if (mc_fault_left < fl) {
            got = o->accepted;
            mc_outcome ("failure reported");
        } else {
            MC_CHECK (r == -1 && E[0].err && err == E[0].err, "accept failed with %d, errno %d", r,
                      err);
            E[0].err = 0;
            mc_outcome ("error");
        }
        MC_CHECK (r == -2 || !O.stop, "the call went on after the yielder asked to stop");
        MC_CHECK (backlog == (r >= 0) || mc_fault_left < fl, "a connection was lost");
        if (ad)
            hev_free (ad);
    }
    hev_task_del_fd (t, E[0].fd);
    finished = 1;
}

static void
acc (void)
{
    start ();
    acts_left = P (1);
    ac_conns = 0;
    vk_env_count = ac_count;
    vk_env_do = ac_do;
    vk_env_at_poll = 1;
    E[0].fd = vk_mk_listen ();
    E[0].err = 0;
    ne = 1;
    t = h_task ();
    hev_task_run (t, ac_entry, NULL);
    disturb (P (2));
    stop ();
}

/* ---- long streams ---- */

#include "bulk.h"

static int bulk_kind;

static long
bulk_op (int write, struct iovec *v, int n)
{
    struct msghdr m;
    int flags = L.all ? MSG_WAITALL : 0;
    long r;

    if (n == 1 && bulk_kind == 0)
        return write ? hev_task_io_socket_send (E[0].fd, v->iov_base, v->iov_len, flags, NULL, NULL) :
                       hev_task_io_socket_recv (E[0].fd, v->iov_base, v->iov_len, flags, NULL, NULL);
    if (n == 1 && bulk_kind == 1)
        return write ? hev_task_io_socket_sendto (E[0].fd, v->iov_base, v->iov_len, flags, NULL, 0,
                                                  NULL, NULL) :
                       hev_task_io_socket_recvfrom (E[0].fd, v->iov_base, v->iov_len, flags, NULL,
                                                    NULL, NULL, NULL);
    memset (&m, 0, sizeof (m));
    m.msg_iov = v;
    m.msg_iovlen = n;
    r = write ? hev_task_io_socket_sendmsg (E[0].fd, &m, flags, NULL, NULL) :
                hev_task_io_socket_recvmsg (E[0].fd, &m, flags, NULL, NULL);
    MC_CHECK (m.msg_iov == v && m.msg_iovlen == (size_t)n, "the caller's message header changed");
    return r;
}

static void
bulk_entry (void *data)
{
    int n = bulk_sizes[mc_choose (6, "size")], parts = bulk_parts[mc_choose (5, "parts")], k;

    bulk_kind = parts == 1 ? mc_choose (3, "kind") : 2;
    L.all = mc_choose (2, "everything");
    MC_CHECK (hev_task_add_fd (L.t, E[0].fd, POLLIN | POLLOUT) == 0, "add_fd failed");
    L.in_total = 3l * n + 17;
    for (k = 0; k < 3; k++)
        bulk_one (1, n, parts);
    while (bulk_one (0, n, parts))
        ;
    MC_CHECK (E[0].got == L.in_total, "%ld bytes of input", E[0].got);
    hev_task_del_fd (L.t, E[0].fd);
    L.done = 1;
}

static void
bulk (void)
{
    bulk_start (bulk_entry, 1);
    bulk_end ();
}

const struct mc_scen mc_scenarios[] = {
    { "bytes", stream, MC_BOTH, { 2, 4, 0, 0, 0 } },
    { "vectors", stream, MC_BOTH, { 1, 5, 0, 1, 0 } },
    { "vectors-two", stream, MC_BOTH, { 2, 3, 0, 1, 0 } },
    { "all", stream, MC_BOTH, { 1, 4, 0, 2, 0 } },
    { "all-two", stream, MC_BOTH, { 2, 2, 0, 2, 0 } },
    { "short", stream, MC_BOTH, { 1, 4, 1, 2, 0 }, .env_budget = 3 },
    { "ready", stream, MC_BOTH, { 1, 3, 0, 2, 1 }, .env_budget = 2 },
    { "datagrams", dgram, MC_BOTH, { 2, 3 } },
    { "connect", conn, MC_BOTH, { 0 }, .env_budget = 2 },
    { "connect-strays", conn, MC_BOTH, { 3 }, .env_budget = 2 },
    { "accept", acc, MC_BOTH, { 3, 3 }, .env_budget = 2, .fault_budget = 1 },
    { "accept-strays", acc, MC_BOTH, { 2, 2, 3 }, .env_budget = 1 },
    { "strays", stream, MC_BOTH, { 1, 3, 0, 2, 0, 3 } },
    { "errors", stream, MC_BOTH, { 1, 3, 0, 2, 0, 0, 5 } },
    { "bytes-deep", stream, MC_THOROUGH, { 3, 5, 0, 0, 0 } },
    { "vectors-deep", stream, MC_THOROUGH, { 2, 5, 1, 1, 0 }, .env_budget = 2 },
    { "all-deep", stream, MC_THOROUGH, { 2, 4, 1, 2, 0 }, .env_budget = 2 },
    { "datagrams-deep", dgram, MC_THOROUGH, { 3, 4 } },
    { "bulk", bulk, MC_BOTH, { 0 }, .horizon = 100000000 },
    { 0 },
};
