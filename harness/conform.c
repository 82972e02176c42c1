/* V00, not a property: the virtual kernel against the real one. Every sequence
 * of P1 operations on a descriptor of kind P0 is done twice, with the stand-ins
 * of the checks and with real system calls, and results, errors, data and
 * events have to be the same. P2 selects the operations. */
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include "vk.h"

const char mc_property[] = "V00";

ssize_t vk_read (int fd, void *p, size_t n);
ssize_t vk_write (int fd, const void *p, size_t n);
ssize_t vk_readv (int fd, const struct iovec *v, int n);
ssize_t vk_writev (int fd, const struct iovec *v, int n);
ssize_t vk_recv (int fd, void *p, size_t n, int flags);
ssize_t vk_send (int fd, const void *p, size_t n, int flags);
ssize_t vk_recvmsg (int fd, struct msghdr *m, int flags);
ssize_t vk_sendmsg (int fd, const struct msghdr *m, int flags);
int vk_epoll_create1 (int f);
int vk_epoll_ctl (int ep, int op, int fd, struct epoll_event *e);
int vk_epoll_wait (int ep, struct epoll_event *e, int n, int t);
int vk_poll (struct pollfd *p, nfds_t n, int t);
int vk_close (int fd);
int vk_dup2 (int a, int b);
int vk_pipe2 (int *p, int f);
int vk_accept4 (int fd, struct sockaddr *a, socklen_t *l, int f);
int vk_socket (int d, int t, int p);
int vk_connect (int fd, const struct sockaddr *a, socklen_t l);
int vk_shutdown (int fd, int how);
int vk_ioctl (int fd, unsigned long r, ...);
int vk_getsockopt (int fd, int l, int o, void *v, socklen_t *n);
ssize_t vk_splice (int a, loff_t *x, int b, loff_t *y, size_t n, unsigned f);
int vk_timerfd_create (int c, int f);
int vk_timerfd_settime (int fd, int f, const struct itimerspec *n,
                        struct itimerspec *o);
int vk_timerfd_gettime (int fd, struct itimerspec *c);

#define KIND P (0)
#define OPS P (1)
#define SET P (2)

enum
{
    STREAM,
    READER,
    WRITER,
    DGRAM,
    LISTEN,
    TIMER,
    SPLICE_IN,  /* socket to pipe */
    SPLICE_OUT, /* pipe to socket */
    RESET,      /* TCP */
    PIPE,       /* both ends */
    CONNECT,    /* TCP; P2 0 refused, 1 in progress, 2 done at once */
};

#define CAP 8
static int live[32], nlive;       /* real descriptors of this execution */
static int v, r, far;             /* the descriptor: virtual, real, its far end */
static int v2, r2;                /* second end of a pipe */
static int ve, re;                /* epoll */
static int vdup, rdup, full, sent, got, regd, dead, wrote, eofd, gone;
static int msgs_out, msgs_in;

static int
keep (int fd)
{
    if (fd < 0)
        mc_fail ("real kernel: no descriptor: %s", strerror (errno));
    live[nlive++] = fd;
    return fd;
}

static void
drop (int fd)
{
    int i;
    for (i = 0; i < nlive; i++)
        if (live[i] == fd)
            live[i] = -1;
    close (fd);
}

static void
same (const char *what, long a, int ea, long b, int eb)
{
    mc_evx (what, a, a < 0 ? ea : 0, 0);
    MC_CHECK (a == b && (a >= 0 || ea == eb),
              "%s: virtual %ld (%s), real %ld (%s)", what, a,
              a < 0 ? strerror (ea) : "-", b, b < 0 ? strerror (eb) : "-");
    mc_outcome (a < 0 ? "errors" : a ? "results" : "zero");
}

#define BOTH(what, x, y)                  \
    ({                                    \
        long a_, b_;                      \
        int e_;                           \
        errno = 0;                        \
        a_ = (x);                         \
        e_ = errno;                       \
        errno = 0;                        \
        b_ = (y);                         \
        same (what, a_, e_, b_, errno);   \
        a_;                               \
    })

static void
data (const char *what, const void *a, const void *b, long n)
{
    MC_CHECK (n <= 0 || !memcmp (a, b, n), "%s: data differs", what);
}

static void
tiny (int fd)
{
    int n = 32768;
    setsockopt (fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof (n));
}

static void
op_read (int n, int flags)
{
    char a[16], b[16];
    if (flags < 0)
        data ("read", a, b, BOTH ("read", vk_read (v, a, n), read (r, b, n)));
    else
        data ("recv", a, b,
              BOTH ("recv", vk_recv (v, a, n, flags), recv (r, b, n, flags)));
}

static void
op_readv (void)
{
    char a[8], b[8];
    struct iovec x[3] = { { a, 1 }, { a + 1, 0 }, { a + 1, 4 } };
    struct iovec y[3] = { { b, 1 }, { b + 1, 0 }, { b + 1, 4 } };
    data ("readv", a, b, BOTH ("readv", vk_readv (v, x, 3), readv (r, y, 3)));
}

/* in a byte stream only `full' and `empty' can be compared, room is kept */
static void
op_write (int n, int how)
{
    static const char d[4] = "wxyz";
    struct iovec x[2] = { { (char *)d, 1 }, { (char *)d + 1, n - 1 } };
    struct msghdr m = { .msg_iov = x, .msg_iovlen = 2 };
    long k;

    if (!full && wrote + n >= CAP)
        mc_prune ();
    if (how == 0)
        k = BOTH ("write", vk_write (v, d, n), write (r, d, n));
    else if (how == 1)
        k = BOTH ("writev", vk_writev (v, x, 2), writev (r, x, 2));
    else
        k = BOTH ("sendmsg", vk_sendmsg (v, &m, MSG_NOSIGNAL),
                  sendmsg (r, &m, MSG_NOSIGNAL));
    if (k > 0)
        wrote += k;
}

static void
op_fill (void)
{
    static char d[4096];
    long a = -1, b = -1, n;
    int ea, eb;

    while ((n = vk_write (v, d, CAP)) > 0)
        a = n;
    ea = errno;
    while ((n = write (r, d, sizeof (d))) > 0)
        b = n;
    eb = errno;
    same ("fill", a > 0, 0, b > 0, 0);
    same ("fill ends", -1, ea, -1, eb);
    full |= ea == EAGAIN;
}

static void
op_take (void)
{
    char a[VBUF_MAX], b[4096];
    long n;
    int k = vk_remote_take (v, a, sizeof (a)), total = 0;
    while ((n = read (far, b, sizeof (b))) > 0)
        total += n;
    mc_ev1 ("far end takes", k > 0);
    MC_CHECK (!k == !total, "far end: virtual %d real %d bytes", k, total);
    full = wrote = 0;
}

static void
far_send (int n)
{
    static const char d[] = "abcdefghijklmnopqrstuvwxyz";
    if (sent + n > 20)
        mc_prune ();
    vk_remote_send (v, d + sent, n);
    if (write (far, d + sent, n) != n)
        mc_fail ("far end cannot send: %s", strerror (errno));
    sent += n;
    mc_ev1 ("far end sends %ld", n);
}

static void
op_wait (int max)
{
    struct epoll_event a[4], b[4];
    int n, i, j;

    memset (a, 0, sizeof (a));
    memset (b, 0, sizeof (b));
    n = BOTH ("epoll_wait", vk_epoll_wait (ve, a, max, 0),
              epoll_wait (re, b, max, 0));
    for (i = 0; i < n; i++) {
        for (j = 0; j < n; j++)
            if (a[i].data.u32 == b[j].data.u32)
                break;
        MC_CHECK (j < n, "epoll_wait: other descriptor");
        mc_evx ("  events %#lx of %ld", a[i].events, a[i].data.u32, 0);
        MC_CHECK (a[i].events == b[j].events,
                  "epoll_wait: events %#x, real %#x", a[i].events, b[j].events);
    }
    if (n > 0)
        mc_outcome ("events");
}

static void
op_poll (void)
{
    struct pollfd a = { v, POLLIN | POLLOUT | POLLRDHUP | POLLPRI, 0 };
    struct pollfd b = { r, POLLIN | POLLOUT | POLLRDHUP | POLLPRI, 0 };
    BOTH ("poll", vk_poll (&a, 1, 0), poll (&b, 1, 0));
    mc_ev1 ("  poll %#lx", a.revents);
    MC_CHECK (a.revents == b.revents, "poll: events %#x, real %#x", a.revents,
              b.revents);
}

static void
op_ctl (int op, int x, int y, unsigned ev, unsigned tag)
{
    struct epoll_event e = { .events = ev, .data.u32 = tag };
    BOTH (op == EPOLL_CTL_ADD   ? "epoll add"
          : op == EPOLL_CTL_MOD ? "epoll mod"
                                : "epoll del",
          vk_epoll_ctl (ve, op, x, &e), epoll_ctl (re, op, y, &e));
}

static void
op_fionread (void)
{
    int a = -1, b = -1;
    BOTH ("FIONREAD", vk_ioctl (v, FIONREAD, &a), ioctl (r, FIONREAD, &b));
    MC_CHECK (a == b, "FIONREAD: %d, real %d", a, b);
}

static void
op_error (void)
{
    int a = -1, b = -1;
    socklen_t l = sizeof (int), m = sizeof (int);
    BOTH ("SO_ERROR", vk_getsockopt (v, SOL_SOCKET, SO_ERROR, &a, &l),
          getsockopt (r, SOL_SOCKET, SO_ERROR, &b, &m));
    MC_CHECK (a == b, "SO_ERROR: %d, real %d", a, b);
}

/* operations that every kind has: 0 wait, 1.. registrations */
#define NCOMMON 11
static void
common (int c)
{
    static const unsigned masks[] = {
        EPOLLIN | EPOLLET,
        EPOLLOUT | EPOLLET,
        EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLET,
        EPOLLIN | EPOLLOUT | EPOLLET | EPOLLONESHOT,
        EPOLLIN | EPOLLRDHUP,
    };
    switch (c) {
    case 0:
        op_wait (4);
        break;
    case 1:
        op_poll ();
        break;
    case 2:
    case 3:
    case 4:
        op_ctl (EPOLL_CTL_ADD, v, r, masks[c - 2], 1);
        break;
    case 5:
    case 6:
    case 7:
        op_ctl (EPOLL_CTL_MOD, v, r, masks[c - 3], 2);
        break;
    case 8:
        op_ctl (EPOLL_CTL_DEL, v, r, 0, 0);
        break;
    case 9: /* second descriptor of the same file */
        if (vdup >= 0)
            mc_prune ();
        vdup = vk_dup2 (v, 150);
        rdup = keep (dup2 (r, 200));
        op_ctl (EPOLL_CTL_ADD, vdup, rdup, masks[2], 3);
        break;
    case 10:
        if (vdup < 0)
            mc_prune ();
        vk_close (vdup);
        drop (rdup);
        vdup = -1;
        mc_ev ("second descriptor closed");
        break;
    }
}

static void
do_stream (void)
{
    int c = mc_choose (NCOMMON + 17, "operation");
    if (c < NCOMMON) {
        common (c);
        return;
    }
    switch (c - NCOMMON) {
    case 0: op_read (1, -1); break;
    case 1: op_read (4, -1); break;
    case 2: op_read (3, MSG_PEEK); break;
    case 3: op_readv (); break;
    case 4: op_read (0, -1); break;
    case 5: op_write (1, 0); break;
    case 6: op_write (3, 1); break;
    case 7: op_write (2, 2); break;
    case 8: op_fill (); break;
    case 9: op_take (); break;
    case 10:
        if (eofd)
            mc_prune ();
        far_send (1);
        break;
    case 11:
        if (eofd)
            mc_prune ();
        far_send (5);
        break;
    case 12:
        if (eofd)
            mc_prune ();
        eofd = 1;
        vk_remote_eof (v);
        shutdown (far, SHUT_WR);
        mc_ev ("far end stops sending");
        break;
    case 13:
        if (gone || full)
            mc_prune ();
        gone = 1;
        vk_remote_gone (v);
        shutdown (far, SHUT_RD);
        mc_ev ("far end stops reading");
        break;
    case 14: op_fionread (); break;
    case 15: op_error (); break;
    case 16:
        BOTH ("shutdown", vk_shutdown (v, SHUT_WR), shutdown (r, SHUT_WR));
        break;
    }
}

static void
do_reader (void)
{
    int c = mc_choose (NCOMMON + 8, "operation");
    if (c < NCOMMON) {
        common (c);
        return;
    }
    if (eofd && c - NCOMMON >= 4 && c - NCOMMON <= 6)
        mc_prune ();
    switch (c - NCOMMON) {
    case 0: op_read (1, -1); break;
    case 1: op_read (4, -1); break;
    case 2: op_readv (); break;
    case 3: op_read (0, -1); break;
    case 4: far_send (1); break;
    case 5: far_send (5); break;
    case 6:
        eofd = 1;
        vk_remote_eof (v);
        drop (far);
        mc_ev ("far end closes");
        break;
    case 7: op_fionread (); break;
    }
}

static void
do_writer (void)
{
    int c = mc_choose (NCOMMON + 6, "operation");
    if (c < NCOMMON) {
        common (c);
        return;
    }
    if (gone && c - NCOMMON >= 3 && c - NCOMMON <= 4)
        mc_prune ();
    switch (c - NCOMMON) {
    case 0: op_write (1, 0); break;
    case 1: op_write (3, 1); break;
    case 2: op_fill (); break;
    case 3: op_take (); break;
    case 4:
        gone = 1;
        vk_remote_gone (v);
        drop (far);
        mc_ev ("far end closes");
        break;
    case 5: {
        char b[1];
        BOTH ("read", vk_read (v, b, 1), read (r, b, 1));
        break;
    }
    }
}

/* both ends are ours */
static void
do_pipe (void)
{
    int c = mc_choose (13, "operation");
    static const char d[4] = "wxyz";
    char a[8], b[8];

    switch (c) {
    case 0: op_wait (4); break;
    case 1: /* the order of registrations of one file is not compared */
        if (vdup >= 0)
            mc_prune ();
        op_wait (1);
        break;
    case 2: op_ctl (EPOLL_CTL_ADD, v, r, EPOLLIN | EPOLLET, 1); break;
    case 3: op_ctl (EPOLL_CTL_ADD, v2, r2, EPOLLOUT | EPOLLET, 2); break;
    case 4: op_ctl (EPOLL_CTL_MOD, v2, r2, EPOLLOUT | EPOLLET, 3); break;
    case 5: op_ctl (EPOLL_CTL_DEL, v, r, 0, 0); break;
    case 6:
        if (v < 0)
            mc_prune ();
        data ("read", a, b, BOTH ("read", vk_read (v, a, 3), read (r, b, 3)));
        break;
    case 7:
        if (v2 < 0)
            mc_prune ();
        if (wrote + 2 >= CAP)
            mc_prune ();
        wrote += 2;
        BOTH ("write", vk_write (v2, d, 2), write (r2, d, 2));
        break;
    case 8:
        if (v < 0)
            mc_prune ();
        vk_close (v);
        drop (r);
        v = r = -1;
        break;
    case 9:
        if (v2 < 0)
            mc_prune ();
        vk_close (v2);
        drop (r2);
        v2 = r2 = -1;
        break;
    case 10: op_poll (); break;
    case 11: {
        struct pollfd x = { v2, POLLIN | POLLOUT, 0 };
        struct pollfd y = { r2, POLLIN | POLLOUT, 0 };
        BOTH ("poll", vk_poll (&x, 1, 0), poll (&y, 1, 0));
        MC_CHECK (x.revents == y.revents, "poll of the writer: %#x, real %#x",
                  x.revents, y.revents);
        break;
    }
    case 12:
        if (vdup >= 0 || v < 0)
            mc_prune ();
        vdup = vk_dup2 (v, 150);
        rdup = keep (dup2 (r, 200));
        op_ctl (EPOLL_CTL_ADD, vdup, rdup, EPOLLIN | EPOLLET, 4);
        break;
    }
}

static void
do_dgram (void)
{
    int c = mc_choose (NCOMMON + 11, "operation");
    static const char addr[8] = { 1, 0, 'a' };
    static const char d[] = "0123456789";

    if (c < NCOMMON) {
        common (c);
        return;
    }
    switch (c - NCOMMON) {
    case 0: op_read (4, 0); break;
    case 1: op_read (4, MSG_PEEK); break;
    case 2: op_read (4, -1); break;
    case 3:
    case 4: {
        char a[8], b[8];
        struct iovec x[2] = { { a, 1 }, { a + 1, c - NCOMMON == 3 ? 1 : 6 } };
        struct iovec y[2] = { { b, 1 }, { b + 1, c - NCOMMON == 3 ? 1 : 6 } };
        struct msghdr m = { .msg_iov = x, .msg_iovlen = 2 };
        struct msghdr k = { .msg_iov = y, .msg_iovlen = 2 };
        long n = BOTH ("recvmsg", vk_recvmsg (v, &m, 0), recvmsg (r, &k, 0));
        data ("recvmsg", a, b, n);
        MC_CHECK (n < 0 || m.msg_flags == k.msg_flags,
                  "recvmsg: flags %#x, real %#x", m.msg_flags, k.msg_flags);
        break;
    }
    case 5: op_readv (); break;
    case 6:
    case 7: {
        int n = c - NCOMMON == 6 ? 0 : 5;
        if (msgs_in >= 4)
            mc_prune ();
        vk_remote_msg (v, d + msgs_in, n, addr, 8);
        if (send (far, d + msgs_in, n, 0) != n)
            mc_fail ("far end cannot send: %s", strerror (errno));
        msgs_in++;
        mc_ev1 ("far end sends a message of %ld", n);
        break;
    }
    case 8:
        BOTH ("send", vk_send (v, d, 3, 0), send (r, d, 3, 0));
        break;
    case 9: {
        struct iovec x[2] = { { (char *)d, 1 }, { (char *)d + 1, 2 } };
        BOTH ("writev", vk_writev (v, x, 2), writev (r, x, 2));
        break;
    }
    case 10: op_error (); break;
    }
}

static void
do_listen (void)
{
    int c = mc_choose (NCOMMON + 4, "operation");
    if (c < NCOMMON) {
        common (c);
        return;
    }
    switch (c - NCOMMON) {
    case 0:
    case 1: {
        int a = vk_accept4 (v, NULL, NULL, SOCK_NONBLOCK), ea = errno;
        int b = accept4 (r, NULL, NULL, SOCK_NONBLOCK), eb = errno;
        if (b >= 0)
            keep (b);
        same ("accept", a >= 0 ? 0 : -1, ea, b >= 0 ? 0 : -1, eb);
        if (a >= 0 && c - NCOMMON == 1) {
            struct pollfd x = { a, POLLIN | POLLOUT | POLLRDHUP, 0 };
            struct pollfd y = { b, POLLIN | POLLOUT | POLLRDHUP, 0 };
            char t[1];
            BOTH ("poll accepted", vk_poll (&x, 1, 0), poll (&y, 1, 0));
            MC_CHECK (x.revents == y.revents, "accepted: %#x, real %#x",
                      x.revents, y.revents);
            BOTH ("read accepted", vk_read (a, t, 1), read (b, t, 1));
            BOTH ("write accepted", vk_write (a, "x", 1), write (b, "x", 1));
        }
        break;
    }
    case 2: {
        struct sockaddr_un sa;
        socklen_t l = sizeof (sa);
        int s;
        if (sent++ >= 3)
            mc_prune ();
        s = keep (socket (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0));
        getsockname (r, (void *)&sa, &l);
        if (connect (s, (void *)&sa, l) < 0)
            mc_fail ("far end cannot connect: %s", strerror (errno));
        vk_remote_connect (v);
        mc_ev ("far end connects");
        break;
    }
    case 3: op_error (); break;
    }
}

static uint64_t
real_now (void)
{
    struct timespec t;
    clock_gettime (CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000ull + t.tv_nsec;
}

/* durations are 0, 4 ms or 10 s, time passes by 20 ms: what is due does not
 * depend on the pace of this machine */
static void
do_timer (void)
{
    static const long rel[] = { 4000000, 10000000000 };
    int c = mc_choose (NCOMMON + 11, "operation");
    struct itimerspec s;
    uint64_t x = 0, y = 0, t;

    if (c < NCOMMON) {
        common (c);
        return;
    }
    memset (&s, 0, sizeof (s));
    switch (c - NCOMMON) {
    case 0:
    case 1:
        t = rel[c - NCOMMON];
        s.it_value.tv_sec = t / 1000000000;
        s.it_value.tv_nsec = t % 1000000000;
        BOTH ("arm", vk_timerfd_settime (v, 0, &s, NULL),
              timerfd_settime (r, 0, &s, NULL));
        break;
    case 2:
    case 3: { /* a moment of the clock: over, to come */
        struct itimerspec w = s;
        t = c - NCOMMON == 2 ? 1 : vk_now + 4000000;
        s.it_value.tv_sec = t / 1000000000;
        s.it_value.tv_nsec = t % 1000000000;
        t = c - NCOMMON == 2 ? 1 : real_now () + 4000000;
        w.it_value.tv_sec = t / 1000000000;
        w.it_value.tv_nsec = t % 1000000000;
        BOTH ("arm at", vk_timerfd_settime (v, TFD_TIMER_ABSTIME, &s, NULL),
              timerfd_settime (r, TFD_TIMER_ABSTIME, &w, NULL));
        break;
    }
    case 4:
        BOTH ("disarm", vk_timerfd_settime (v, 0, &s, NULL),
              timerfd_settime (r, 0, &s, NULL));
        break;
    case 5:
        s.it_value.tv_nsec = 1000000000;
        BOTH ("arm wrongly", vk_timerfd_settime (v, 0, &s, NULL),
              timerfd_settime (r, 0, &s, NULL));
        break;
    case 6:
        BOTH ("read", vk_read (v, &x, 8), read (r, &y, 8));
        MC_CHECK (x == y, "ticks %ld, real %ld", (long)x, (long)y);
        break;
    case 7:
        BOTH ("short read", vk_read (v, &x, 4), read (r, &y, 4));
        break;
    case 8: {
        struct timespec w = { 0, 20000000 };
        nanosleep (&w, NULL);
        vk_advance (20000000);
        mc_ev ("time passes");
        break;
    }
    case 9: {
        struct itimerspec a, b;
        BOTH ("gettime", vk_timerfd_gettime (v, &a), timerfd_gettime (r, &b));
        MC_CHECK (!(a.it_value.tv_sec | a.it_value.tv_nsec) ==
                      !(b.it_value.tv_sec | b.it_value.tv_nsec),
                  "gettime: %ld.%09ld, real %ld.%09ld", a.it_value.tv_sec,
                  a.it_value.tv_nsec, b.it_value.tv_sec, b.it_value.tv_nsec);
        break;
    }
    case 10:
        s.it_value.tv_sec = -1;
        BOTH ("arm before", vk_timerfd_settime (v, 0, &s, NULL),
              timerfd_settime (r, 0, &s, NULL));
        break;
    }
}

/* v is the socket, v2 the end of the pipe that faces it, v3 the other end */
static int v3, r3, inpipe;
static void
do_splice (void)
{
    int c = mc_choose (NCOMMON + 10, "operation");
    static const char d[4] = "wxyz";
    char a[8], b[8];
    long n;

    if (c < NCOMMON) {
        if (c == 9 || c == 10)
            mc_prune ();
        common (c);
        return;
    }
    switch (c - NCOMMON) {
    case 0:
    case 1: {
        int len = c - NCOMMON ? 64 : 2;
        if (KIND == SPLICE_IN)
            n = BOTH ("splice", vk_splice (v, NULL, v2, NULL, len, SPLICE_F_NONBLOCK),
                      splice (r, NULL, r2, NULL, len, SPLICE_F_NONBLOCK));
        else
            n = BOTH ("splice", vk_splice (v2, NULL, v, NULL, len, SPLICE_F_NONBLOCK),
                      splice (r2, NULL, r, NULL, len, SPLICE_F_NONBLOCK));
        if (n > 0)
            inpipe += KIND == SPLICE_IN ? n : -n;
        break;
    }
    case 2:
        if (v3 < 0)
            mc_prune ();
        if (KIND == SPLICE_IN) {
            n = BOTH ("read pipe", vk_read (v3, a, 3), read (r3, b, 3));
            data ("read pipe", a, b, n);
            if (n > 0)
                inpipe -= n;
        } else {
            if (inpipe + 3 > CAP)
                mc_prune ();
            n = BOTH ("write pipe", vk_write (v3, d, 3), write (r3, d, 3));
            if (n > 0)
                inpipe += n;
        }
        break;
    case 3:
        if (v3 < 0)
            mc_prune ();
        vk_close (v3);
        drop (r3);
        v3 = -1;
        mc_ev ("other end of the pipe closed");
        break;
    case 4:
        if (eofd || sent > 3)
            mc_prune ();
        far_send (2);
        break;
    case 5:
        if (eofd)
            mc_prune ();
        eofd = 1;
        vk_remote_eof (v);
        shutdown (far, SHUT_WR);
        mc_ev ("far end stops sending");
        break;
    case 6:
        if (gone || full)
            mc_prune ();
        gone = 1;
        vk_remote_gone (v);
        shutdown (far, SHUT_RD);
        mc_ev ("far end stops reading");
        break;
    case 7:
        if (KIND == SPLICE_IN)
            mc_prune ();
        op_fill ();
        break;
    case 8:
        if (KIND == SPLICE_IN)
            mc_prune ();
        op_take ();
        break;
    case 9:
        BOTH ("splice of nothing", vk_splice (v, NULL, v2, NULL, 0, SPLICE_F_NONBLOCK),
              splice (r, NULL, r2, NULL, 0, SPLICE_F_NONBLOCK));
        break;
    }
}

static void
do_reset (void)
{
    int c = mc_choose (NCOMMON + 10, "operation");
    if (c < NCOMMON) {
        common (c);
        return;
    }
    switch (c - NCOMMON) {
    case 0: op_read (1, -1); break;
    case 1: op_read (3, MSG_PEEK); break;
    case 2: op_write (1, 0); break;
    case 3: op_write (3, 1); break;
    case 4:
        if (dead || eofd)
            mc_prune ();
        far_send (1);
        break;
    case 5: {
        struct linger l = { 1, 0 };
        if (dead)
            mc_prune ();
        dead = 1;
        setsockopt (far, SOL_SOCKET, SO_LINGER, &l, sizeof (l));
        drop (far);
        vk_remote_reset (v, ECONNRESET);
        mc_ev ("connection reset");
        break;
    }
    case 6: op_error (); break;
    case 7: op_fionread (); break;
    case 8:
        if (dead || eofd)
            mc_prune ();
        eofd = 1;
        shutdown (far, SHUT_WR);
        vk_remote_eof (v);
        mc_ev ("far end stops sending");
        break;
    case 9: op_readv (); break;
    }
}

static struct sockaddr_in dest;

static void
do_connect (void)
{
    int c = mc_choose (NCOMMON + 8, "operation");
    if (c < NCOMMON) {
        common (c);
        return;
    }
    switch (c - NCOMMON) {
    case 0:
        BOTH ("connect",
              vk_connect (v, (void *)&dest, sizeof (dest)),
              connect (r, (void *)&dest, sizeof (dest)));
        if (vk_obj (v)->conn == 1 && SET != 1)
            vk_remote_conn_done (v, SET ? 0 : ECONNREFUSED);
        break;
    case 1: op_read (1, -1); break;
    case 2: op_read (1, MSG_PEEK); break;
    case 3: op_readv (); break;
    case 4: op_write (1, 0); break;
    case 5: op_write (3, 1); break;
    case 6: op_error (); break;
    case 7: op_write (2, 2); break;
    }
}

static void
setup (void)
{
    int p[2], q[2], i;

    for (i = 0; i < nlive; i++)
        if (live[i] >= 0)
            close (live[i]);
    nlive = 0;
    v = r = v2 = r2 = far = vdup = rdup = v3 = r3 = -1;
    full = sent = got = regd = dead = wrote = eofd = gone = inpipe = 0;
    msgs_out = msgs_in = 0;
    vk_reuse = 1;
    vk_space_always = KIND == STREAM || KIND == SPLICE_OUT || KIND == SPLICE_IN;
    ve = vk_epoll_create1 (0);
    re = keep (epoll_create1 (0));
    switch (KIND) {
    case STREAM:
    case SPLICE_IN:
    case SPLICE_OUT:
        if (socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) < 0)
            mc_fail ("no socketpair");
        r = keep (p[0]);
        far = keep (p[1]);
        tiny (r);
        v = vk_mk_stream (KIND == STREAM ? CAP : 4 * CAP);
        if (KIND == STREAM)
            break;
        if (pipe2 (p, O_NONBLOCK) < 0)
            mc_fail ("no pipe");
        keep (p[0]);
        keep (p[1]);
        vk_pipe_cap = CAP * 4;
        vk_pipe2 (q, O_NONBLOCK);
        i = KIND == SPLICE_IN;
        r2 = p[i];
        r3 = p[!i];
        v2 = q[i];
        v3 = q[!i];
        break;
    case READER:
    case WRITER:
    case PIPE:
        if (pipe2 (p, O_NONBLOCK) < 0)
            mc_fail ("no pipe");
        keep (p[0]);
        keep (p[1]);
        fcntl (p[0], F_SETPIPE_SZ, 8192);
        r = p[KIND == WRITER];
        far = p[KIND != WRITER];
        if (KIND == PIPE) {
            vk_pipe_cap = CAP;
            vk_pipe2 (q, O_NONBLOCK);
            v = q[0];
            v2 = q[1];
            r2 = far;
        } else
            v = KIND == READER ? vk_mk_reader () : vk_mk_writer (CAP);
        break;
    case DGRAM:
        if (socketpair (AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0, p) < 0)
            mc_fail ("no socketpair");
        r = keep (p[0]);
        far = keep (p[1]);
        v = vk_mk_dgram (8);
        break;
    case LISTEN: {
        struct sockaddr_un sa = { AF_UNIX };
        r = keep (socket (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0));
        if (bind (r, (void *)&sa, sizeof (sa_family_t)) < 0 || listen (r, 8) < 0)
            mc_fail ("cannot listen: %s", strerror (errno));
        v = vk_mk_listen ();
        break;
    }
    case TIMER:
        r = keep (timerfd_create (CLOCK_MONOTONIC, TFD_NONBLOCK));
        v = vk_timerfd_create (CLOCK_MONOTONIC, TFD_NONBLOCK);
        break;
    case RESET: {
        struct sockaddr_in sa = { AF_INET };
        struct linger lg = { 1, 0 };
        socklen_t l = sizeof (sa);
        int s = keep (socket (AF_INET, SOCK_STREAM, 0)), one = 1;
        sa.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
        if (bind (s, (void *)&sa, sizeof (sa)) < 0 || listen (s, 1) < 0)
            mc_fail ("cannot listen: %s", strerror (errno));
        getsockname (s, (void *)&sa, &l);
        far = keep (socket (AF_INET, SOCK_STREAM, 0));
        if (connect (far, (void *)&sa, l) < 0)
            mc_fail ("cannot connect: %s", strerror (errno));
        r = keep (accept4 (s, NULL, NULL, SOCK_NONBLOCK));
        drop (s);
        setsockopt (far, IPPROTO_TCP, TCP_NODELAY, &one, sizeof (one));
        setsockopt (r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof (one));
        setsockopt (r, SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
        v = vk_mk_stream (CAP);
        break;
    }
    case CONNECT: {
        socklen_t l = sizeof (dest);
        int s = keep (socket (AF_INET, SOCK_STREAM, 0));
        struct linger lg = { 1, 0 };
        memset (&dest, 0, sizeof (dest));
        dest.sin_family = AF_INET;
        dest.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
        if (bind (s, (void *)&dest, sizeof (dest)) < 0)
            mc_fail ("cannot bind: %s", strerror (errno));
        getsockname (s, (void *)&dest, &l);
        if (SET)
            listen (s, SET == 1 ? 0 : 4);
        if (SET == 1) /* the queue is full, requests are dropped */
            for (i = 0; i < 2; i++) {
                int k = keep (socket (AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0));
                setsockopt (k, SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
                connect (k, (void *)&dest, l);
            }
        r = keep (socket (AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0));
        setsockopt (r, SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
        v = vk_socket (AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
        vk_connect_plan = SET == 0 ? 2 : 1;
        break;
    }
    }
}

static void
run (void)
{
    static void (*const op[]) (void) = {
        do_stream, do_reader, do_writer, do_dgram,  do_listen,
        do_timer,  do_splice, do_splice, do_reset,  do_pipe,
        do_connect,
    };
    int i;

    setup ();
    for (i = 0; i < OPS; i++)
        op[KIND]();
}

const struct mc_scen mc_scenarios[] = {
    { "stream", run, MC_QUICK, { STREAM, 4 } },
    { "stream-deep", run, MC_THOROUGH, { STREAM, 5 } },
    { "reader", run, MC_BOTH, { READER, 4 } },
    { "reader-deep", run, MC_THOROUGH, { READER, 5 } },
    { "writer", run, MC_BOTH, { WRITER, 4 } },
    { "writer-deep", run, MC_THOROUGH, { WRITER, 5 } },
    { "pipe", run, MC_BOTH, { PIPE, 5 } },
    { "pipe-deep", run, MC_THOROUGH, { PIPE, 6 } },
    { "dgram", run, MC_BOTH, { DGRAM, 4 } },
    { "dgram-deep", run, MC_THOROUGH, { DGRAM, 5 } },
    { "listen", run, MC_BOTH, { LISTEN, 4 } },
    { "listen-deep", run, MC_THOROUGH, { LISTEN, 5 } },
    { "timer", run, MC_BOTH, { TIMER, 3 } },
    { "timer-deep", run, MC_THOROUGH, { TIMER, 4 } },
    { "splice-in", run, MC_BOTH, { SPLICE_IN, 4 } },
    { "splice-out", run, MC_BOTH, { SPLICE_OUT, 4 } },
    { "splice-in-deep", run, MC_THOROUGH, { SPLICE_IN, 5 } },
    { "splice-out-deep", run, MC_THOROUGH, { SPLICE_OUT, 5 } },
    { "reset", run, MC_BOTH, { RESET, 4 } },
    { "reset-deep", run, MC_THOROUGH, { RESET, 5 } },
    { "refused", run, MC_BOTH, { CONNECT, 4, 0 } },
    { "connecting", run, MC_BOTH, { CONNECT, 4, 1 } },
    { "connected", run, MC_BOTH, { CONNECT, 4, 2 } },
    { 0 },
};
