/* Virtual kernel. Semantics follow Linux; see DESIGN.md sections 1.2 and 4. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <netdb.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include "vk.h"

#define MAXOBJ 4096
#define MAXBUF 4096
#define MAXWATCH 4096

struct vwatch
{
    int used;
    struct vobj *ep, *o;
    int fd;
    uint32_t events;
    epoll_data_t data;
    int ready;   /* on the ready list */
    long seq;
    int disabled;
};

static struct vobj objs[MAXOBJ];
static int nobjs;
static struct vbuf bufs[MAXBUF];
static int nbufs;
static struct vfd fds[VK_MAXFD + 1];
static struct vwatch watches[MAXWATCH];
static int nwatch;
static long seq;
int vk_next_fd;

uint64_t vk_now;
int vk_env_at_poll, vk_late_n, vk_time_last, vk_short_io;
const uint64_t *vk_late;
void (*vk_on_block) (void);
void (*vk_on_pass) (uint64_t ns);
int (*vk_env_count) (void);
void (*vk_env_do) (int i);
int vk_connect_plan;
int vk_connect_err; /* the failure of plan 3 */
int (*vk_resolver) (const char *, const char *, const void *, void **);
int (*vk_name_resolver) (const void *, unsigned, char *, unsigned, char *,
                         unsigned, int);
long vk_printed, vk_printed_by[8];

static void
printed (void)
{
    vk_printed++;
    vk_printed_by[vt_self ()]++;
}

struct vk_call vk_calls[VK_CALLS];
int vk_ncalls;
void *vk_sigstacks[8]; /* alternate stacks the library installed, per thread */
unsigned long vk_sigstack_size[8];
struct sigaction vk_sa[65];
static uint64_t sig_blocked[8], sig_pending[8];
static int sig_depth;

int vk_pipe_cap;

void
vk_reset (void)
{
    int i;

    for (i = 0; i < nobjs; i++)
        memset (&objs[i], 0, offsetof (struct vobj, q));
    nobjs = 0;
    for (i = 0; i < nbufs; i++)
        memset (&bufs[i], 0, offsetof (struct vbuf, d));
    nbufs = 0;
    memset (fds, 0, sizeof (fds[0]) * (vk_next_fd + 1));
    memset (watches, 0, sizeof (watches[0]) * nwatch);
    nwatch = 0;
    vk_next_fd = 0; /* the standard descriptors may be closed */
    seq = 0;
    vk_now = 1000000000000ull;
    vk_env_at_poll = vk_late_n = vk_time_last = vk_short_io = 0;
    vk_reuse = vk_space_always = 0;
    vk_late = NULL;
    vk_on_block = NULL;
    vk_on_pass = NULL;
    vk_env_count = NULL;
    vk_env_do = NULL;
    vk_connect_plan = 0;
    vk_connect_err = ECONNREFUSED;
    vk_big = VBUF_MAX;
    vk_pipe_cap = VBUF_MAX / 2;
    vk_resolver = NULL;
    vk_name_resolver = NULL;
    vk_printed = 0;
    vk_ncalls = 0;
    memset (vk_sigstacks, 0, sizeof (vk_sigstacks));
    memset (vk_sigstack_size, 0, sizeof (vk_sigstack_size));
    memset (sig_blocked, 0, sizeof (sig_blocked));
    memset (sig_pending, 0, sizeof (sig_pending));
    sig_depth = 0;
    vk_on_kill = NULL;
    memset (&vk_sa[SIGBUS], 0, sizeof (vk_sa[0]));
    memset (&vk_sa[SIGSEGV], 0, sizeof (vk_sa[0]));
}

static void
call (const char *name, int fd, long a, long b, long c, long res)
{
    struct vk_call *k = &vk_calls[vk_ncalls++ % VK_CALLS];
    k->name = name;
    k->fd = fd;
    k->a = a;
    k->b = b;
    k->c = c;
    k->res = res;
    k->err = res < 0 ? errno : 0;
    if (mc_tracing)
        mc_ev3 ("  sys: fd %ld result %ld errno-if-negative %ld", fd, res,
                res < 0 ? errno : 0);
}

/* ---- objects and descriptors ------------------------------------------------ */

static struct vobj *
obj_new (int type)
{
    struct vobj *o;

    if (nobjs == MAXOBJ)
        mc_fail ("too many kernel objects (unbounded?)");
    o = &objs[nobjs];
    o->type = type;
    o->id = nobjs++;
    return o;
}

static struct vbuf *
buf_new (int cap)
{
    struct vbuf *b;

    if (nbufs == MAXBUF)
        mc_fail ("too many kernel buffers (unbounded?)");
    b = &bufs[nbufs++];
    b->used = 1;
    b->cap = cap < VBUF_BIG ? cap : VBUF_BIG;
    return b;
}

/* numbers of closed descriptors are given out again; else uses of a closed
 * descriptor are told from uses of its successor */
int vk_reuse;
int vk_big;

static int
fd_new (struct vobj *o)
{
    int fd = vk_next_fd;

    if (vk_reuse)
        for (fd = 0; fd < vk_next_fd && fds[fd].o; fd++)
            ;
    if (fd >= VK_MAXFD)
        mc_fail ("too many descriptors (unbounded?)");
    if (fd == vk_next_fd)
        vk_next_fd++;
    fds[fd].o = o;
    fds[fd].fdflags = 0;
    o->refs++;
    mc_live_fds++;
    return fd;
}

struct vobj *
vk_obj (int fd)
{
    if (fd < 0 || fd >= VK_MAXFD)
        return NULL;
    return fds[fd].o;
}

int
vk_is_open (int fd)
{
    return vk_obj (fd) != NULL;
}

int
vk_poll_obj (struct vobj *o)
{
    int m = 0;

    switch (o->type) {
    case VO_TIMER:
        if (o->ticks)
            m |= EPOLLIN;
        break;
    case VO_PIPE:
        if (o->rx) {
            if (o->rx->len)
                m |= EPOLLIN;
            if (o->rx->weof)
                m |= EPOLLHUP;
        }
        if (o->tx) {
            if (o->tx->len < o->tx->cap)
                m |= EPOLLOUT;
            if (o->tx->rgone)
                m |= EPOLLERR;
        }
        break;
    case VO_STREAM:
        if (o->conn == 1)
            return 0;
        if (o->conn == 0)
            m |= EPOLLOUT | EPOLLHUP;
        if (o->conn == 3)
            m |= EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP;
        if (o->conn == 3 && o->conn_err)
            m |= EPOLLERR;
        if (o->rx) {
            if (o->rx->len)
                m |= EPOLLIN;
            if (o->rx->weof)
                m |= EPOLLIN | EPOLLRDHUP;
            if (o->rx->weof && o->tx && (o->tx->rgone || o->tx->weof))
                m |= EPOLLHUP;
        }
        if (o->tx && (o->tx->len < o->tx->cap || o->tx->rgone))
            m |= EPOLLOUT;
        break;
    case VO_DGRAM:
        if (o->nmsg)
            m |= EPOLLIN;
        if (o->nout < o->out_cap)
            m |= EPOLLOUT;
        break;
    case VO_LISTEN:
        if (o->backlog)
            m |= EPOLLIN;
        break;
    case VO_FILE:
        m |= EPOLLIN | EPOLLOUT;
        break;
    }
    if (o->err)
        m |= EPOLLERR | (o->type == VO_DGRAM ? 0 : EPOLLIN | EPOLLOUT);
    return m;
}

void
vk_wake (struct vobj *o, int mask)
{
    int i;

    for (i = 0; i < nwatch; i++) {
        struct vwatch *w = &watches[i];
        if (!w->used || w->o != o || w->disabled || w->ready)
            continue;
        if (!((w->events | EPOLLERR | EPOLLHUP) & mask))
            continue;
        w->ready = 1;
        w->seq = ++seq;
    }
}

static void
buf_put (struct vbuf *b, const void *d, int n)
{
    memcpy (b->d + b->len, d, n);
    b->len += n;
    b->in_total += n;
    if (b->rside)
        vk_wake (b->rside, EPOLLIN);
}

int vk_space_always; /* room is announced whenever something was taken */

static void
buf_take (struct vbuf *b, void *d, int n)
{
    int full = b->len >= b->cap;

    if (d)
        memcpy (d, b->d, n);
    memmove (b->d, b->d + n, b->len - n);
    b->len -= n;
    b->out_total += n;
    if ((full || vk_space_always) && n && b->wside)
        vk_wake (b->wside, EPOLLOUT);
}

static void
obj_release (struct vobj *o)
{
    int i;

    if (--o->refs)
        return;
    for (i = 0; i < nwatch; i++)
        if (watches[i].used && (watches[i].o == o || watches[i].ep == o))
            watches[i].used = 0;
    if (o->rx) {
        o->rx->rgone = 1;
        o->rx->rside = NULL;
        if (o->rx->wside)
            vk_wake (o->rx->wside, EPOLLOUT | EPOLLERR | EPOLLHUP);
    }
    if (o->tx) {
        o->tx->weof = 1;
        o->tx->wside = NULL;
        if (o->tx->rside)
            vk_wake (o->tx->rside, EPOLLIN | EPOLLHUP | EPOLLRDHUP);
    }
    if (o->tx)
        vt_hb_release (o->tx);
    o->armed = 0;
}

static int
close_fd (int fd)
{
    struct vobj *o = vk_obj (fd);

    fds[fd].o = NULL;
    mc_live_fds--;
    obj_release (o);
    return 0;
}

int
vk_close (int fd)
{
    int e = errno;

    vt_syscall_point ("close");
    if (!vk_obj (fd))
        mc_fail ("close of descriptor %d, which is not open%s", fd,
                 fd >= 0 && fd < vk_next_fd ? " (closed twice?)" : "");
    close_fd (fd);
    call ("close", fd, 0, 0, 0, 0);
    errno = e;
    return 0;
}

int
vk_close_user (int fd)
{
    if (!vk_obj (fd))
        mc_fail ("descriptor %d of the caller was closed by the library", fd);
    return close_fd (fd);
}

#define GETOBJ(o, fd)        \
    do {                     \
        (o) = vk_obj (fd);   \
        if (!(o)) {          \
            errno = EBADF;   \
            return -1;       \
        }                    \
    } while (0)

/* ---- epoll ------------------------------------------------------------------- */

static int
epoll_create_ (void)
{
    vt_syscall_point ("epoll_create");
    if (mc_fault ("epoll_create fails")) {
        errno = EMFILE;
        return -1;
    }
    return fd_new (obj_new (VO_EPOLL));
}

int vk_epoll_create (int n)
{
    if (n <= 0) {
        errno = EINVAL;
        return -1;
    }
    return epoll_create_ ();
}
int
vk_epoll_create1 (int f)
{
    int fd = epoll_create_ ();
    if (fd >= 0 && (f & EPOLL_CLOEXEC))
        fds[fd].fdflags = FD_CLOEXEC;
    return fd;
}

/* memory the kernel reads or writes for the caller */
static void
touch (const void *p, size_t n, int write, const char *who)
{
    mc_mem_check (p, n, write, who);
    if (vt_active && n)
        vt_access ((uintptr_t)p, n, write, 0);
}

int
vk_epoll_ctl (int epfd, int op, int fd, struct epoll_event *ev)
{
    struct vobj *ep, *o;
    struct vwatch *w = NULL;
    int i;

    vt_syscall_point ("epoll_ctl");
    GETOBJ (ep, epfd);
    GETOBJ (o, fd);
    if (ep->type != VO_EPOLL || o == ep) {
        errno = EINVAL;
        return -1;
    }
    if (o->type == VO_FILE) {
        errno = EPERM;
        return -1;
    }
    for (i = 0; i < nwatch; i++)
        if (watches[i].used && watches[i].ep == ep && watches[i].o == o &&
            watches[i].fd == fd) {
            w = &watches[i];
            break;
        }
    switch (op) {
    case EPOLL_CTL_ADD:
        if (w) {
            errno = EEXIST;
            return -1;
        }
        if (mc_fault ("epoll_ctl(ADD) fails")) {
            errno = ENOSPC;
            return -1;
        }
        for (i = 0; i < nwatch; i++)
            if (!watches[i].used)
                break;
        if (i == MAXWATCH)
            mc_fail ("too many epoll registrations");
        if (i == nwatch)
            nwatch++;
        w = &watches[i];
        memset (w, 0, sizeof (*w));
        w->used = 1;
        w->ep = ep;
        w->o = o;
        w->fd = fd;
        break;
    case EPOLL_CTL_MOD:
        if (!w) {
            errno = ENOENT;
            return -1;
        }
        break;
    case EPOLL_CTL_DEL:
        if (!w) {
            errno = ENOENT;
            return -1;
        }
        w->used = 0;
        call ("epoll_ctl", fd, op, 0, 0, 0);
        return 0;
    default:
        errno = EINVAL;
        return -1;
    }
    vt_hb_release (ep);
    touch (ev, sizeof (*ev), 0, "epoll_ctl");
    w->events = ev->events;
    w->data = ev->data;
    w->disabled = 0;
    if (!w->ready &&
        (vk_poll_obj (o) & (w->events | EPOLLERR | EPOLLHUP))) {
        w->ready = 1;
        w->seq = ++seq;
    }
    call ("epoll_ctl", fd, op, 0, 0, 0);
    return 0;
}

static int
ep_collect (struct vobj *ep, struct epoll_event *ev, int max)
{
    int n = 0, i;
    long limit = seq;

    vk_fire_timers ();
    while (n < max) {
        struct vwatch *b = NULL;
        uint32_t m;

        for (i = 0; i < nwatch; i++) {
            struct vwatch *w = &watches[i];
            if (w->used && w->ep == ep && w->ready && w->seq <= limit &&
                (!b || w->seq < b->seq))
                b = w;
        }
        if (!b)
            break;
        b->ready = 0;
        if (b->disabled)
            continue;
        m = vk_poll_obj (b->o) & (b->events | EPOLLERR | EPOLLHUP) & ~EPOLLET &
            ~EPOLLONESHOT;
        if (!m)
            continue;
        if (ev) {
            touch (&ev[n], sizeof (*ev), 1, "epoll_wait");
            ev[n].events = m;
            ev[n].data = b->data;
            if (b->events & EPOLLONESHOT)
                b->disabled = 1;
            else if (!(b->events & EPOLLET)) {
                b->ready = 1;
                b->seq = ++seq;
            }
        } else {
            b->ready = 1; /* only asked whether there is something */
            return 1;
        }
        n++;
    }
    return n;
}

static int
ep_ready (void *arg)
{
    return ep_collect (arg, NULL, 1);
}

static void
env_step_at_poll (void)
{
    int n, c;

again:
    if (!vk_env_at_poll || mc_env_left <= 0)
        return;
    n = vk_env_count ? vk_env_count () : 0;
    if (vk_next_deadline ())
        n++;
    c = mc_env (n + 1, "environment acts while tasks are ready");
    if (!c)
        return;
    c--;
    if (vk_env_count && c < vk_env_count ())
        vk_env_do (c);
    else {
        uint64_t t = vk_next_deadline ();
        if (vk_on_pass && t > vk_now)
            vk_on_pass (t - vk_now);
        if (t > vk_now)
            vk_now = t;
        mc_ev1 ("time passes to %ld us while tasks are ready", vk_now / 1000);
        vk_fire_timers ();
    }
    if (vk_env_at_poll > 1)
        goto again;
}

int
vk_epoll_wait (int epfd, struct epoll_event *ev, int max, int timeout)
{
    struct vobj *ep;
    int n;

    vt_syscall_point ("epoll_wait");
    GETOBJ (ep, epfd);
    if (ep->type != VO_EPOLL || max <= 0) {
        errno = EINVAL;
        return -1;
    }
    env_step_at_poll ();
    n = ep_collect (ep, ev, max);
    vt_hb_acquire (ep);
    if (n || timeout == 0)
        return n;
    vt_block (ep_ready, ep,
              timeout < 0 ? 0 : vk_now + (uint64_t)timeout * 1000000ull,
              "epoll_wait");
    vt_hb_acquire (ep);
    if (vk_env_at_poll > 1)
        env_step_at_poll ();
    return ep_collect (ep, ev, max);
}

int
vk_epoll_pwait (int epfd, struct epoll_event *ev, int max, int timeout, void *s)
{
    return vk_epoll_wait (epfd, ev, max, timeout);
}

/* ---- time ---------------------------------------------------------------------- */

#define COARSE 4000000ull

/* what other clocks show more than the monotonic one */
static uint64_t
clock_ahead (int clk)
{
    switch (clk) {
    case CLOCK_REALTIME:
    case CLOCK_REALTIME_COARSE:
        return 1600000000123456789ull;
    case CLOCK_BOOTTIME:
        return 7000000000ull;
    case CLOCK_MONOTONIC_RAW:
        return 2345678ull;
    }
    return 0;
}

int
vk_clock_gettime (int clk, struct timespec *ts)
{
    uint64_t now = vk_now + clock_ahead (clk);

    if (clk == CLOCK_MONOTONIC_COARSE || clk == CLOCK_REALTIME_COARSE)
        now -= now % COARSE;
    touch (ts, sizeof (*ts), 1, "clock_gettime");
    ts->tv_sec = now / 1000000000ull;
    ts->tv_nsec = now % 1000000000ull;
    return 0;
}

int
vk_gettimeofday (void *tv, void *tz)
{
    long *t = tv;
    uint64_t now = vk_now + clock_ahead (CLOCK_REALTIME);
    touch (tv, 16, 1, "gettimeofday");
    t[0] = now / 1000000000ull;
    t[1] = now % 1000000000ull / 1000;
    return 0;
}

int
vk_timerfd_create (int clk, int flags)
{
    struct vobj *o;
    int fd;

    vt_syscall_point ("timerfd_create");
    if (mc_fault ("timerfd_create fails")) {
        errno = EMFILE;
        return -1;
    }
    o = obj_new (VO_TIMER);
    o->ahead = clock_ahead (clk);
    o->nonblock = !!(flags & TFD_NONBLOCK);
    fd = fd_new (o);
    if (flags & TFD_CLOEXEC)
        fds[fd].fdflags = FD_CLOEXEC;
    return fd;
}

static uint64_t
ts2ns (const struct timespec *t)
{
    return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
}

int
vk_timerfd_settime (int fd, int flags, const struct itimerspec *new,
                    struct itimerspec *old)
{
    struct vobj *o;

    vt_syscall_point ("timerfd_settime");
    touch (new, sizeof (*new), 0, "timerfd_settime");
    GETOBJ (o, fd);
    if (o->type != VO_TIMER || new->it_value.tv_nsec < 0 ||
        new->it_value.tv_nsec >= 1000000000L || new->it_value.tv_sec < 0 ||
        new->it_interval.tv_nsec < 0 ||
        new->it_interval.tv_nsec >= 1000000000L) {
        errno = EINVAL;
        return -1;
    }
    if (old) {
        memset (old, 0, sizeof (*old));
    }
    o->ticks = 0;
    o->interval = ts2ns (&new->it_interval);
    if (!new->it_value.tv_sec && !new->it_value.tv_nsec) {
        o->armed = 0;
        return 0;
    }
    o->armed = 1;
    o->expiry = ts2ns (&new->it_value);
    if (!(flags & TFD_TIMER_ABSTIME))
        o->expiry += vk_now;
    else
        o->expiry = o->expiry > o->ahead ? o->expiry - o->ahead : 0;
    vk_fire_timers ();
    return 0;
}

int
vk_timerfd_gettime (int fd, struct itimerspec *cur)
{
    struct vobj *o;
    uint64_t left;

    GETOBJ (o, fd);
    memset (cur, 0, sizeof (*cur));
    left = o->armed && o->expiry > vk_now ? o->expiry - vk_now : 0;
    cur->it_value.tv_sec = left / 1000000000ull;
    cur->it_value.tv_nsec = left % 1000000000ull;
    return 0;
}

void
vk_fire_timers (void)
{
    int i;

    for (i = 0; i < nobjs; i++) {
        struct vobj *o = &objs[i];
        if (o->type != VO_TIMER || !o->armed || o->expiry > vk_now)
            continue;
        if (o->interval) {
            while (o->expiry <= vk_now) {
                o->expiry += o->interval;
                o->ticks++;
            }
        } else
            o->ticks++;
        if (!o->interval)
            o->armed = 0;
        vk_wake (o, EPOLLIN);
    }
}

uint64_t
vk_next_deadline (void)
{
    uint64_t t = 0;
    int i;

    for (i = 0; i < nobjs; i++) {
        struct vobj *o = &objs[i];
        if (o->type == VO_TIMER && o->refs && o->armed && o->expiry > vk_now &&
            (!t || o->expiry < t))
            t = o->expiry;
    }
    return t;
}

void
vk_advance (uint64_t ns)
{
    vk_now += ns;
    vk_fire_timers ();
}

/* Nothing can run: the environment acts, or time passes, or it is the end.
 * extra is an additional deadline (0: none). */
void
vk_idle (uint64_t extra)
{
    int n = vk_env_count ? vk_env_count () : 0;
    uint64_t t = vk_next_deadline ();
    int c;

    if (vk_on_block)
        vk_on_block ();
    if (extra && (!t || extra < t))
        t = extra > vk_now ? extra : vk_now;
    if (!n && !t) {
        if (mc_on_idle)
            mc_on_idle ();
        mc_fail ("deadlock: everything is blocked and nothing can happen any more");
    }
    if (n && t && !vk_time_last)
        c = mc_choose (n + 1, "environment action or time");
    else if (n)
        c = mc_choose (n, "environment action");
    else
        c = n;
    if (c < n) {
        vk_env_do (c);
        return;
    }
    if (t > vk_now)
        vk_now = t;
    if (vk_late_n) {
        int l = mc_env (vk_late_n + 1, "lateness");
        if (l)
            vk_now += vk_late[l - 1];
    }
    mc_ev1 ("time is %ld us", vk_now / 1000);
    vk_fire_timers ();
}

/* ---- byte I/O -------------------------------------------------------------------- */

struct iowait
{
    struct vobj *o;
    int mask;
};

static int
io_ready (void *arg)
{
    struct iowait *w = arg;
    return vk_poll_obj (w->o) & (w->mask | EPOLLERR | EPOLLHUP);
}

/* would block: -1 with EAGAIN, or really block on a blocking descriptor */
static int
would_block (struct vobj *o, int mask, int dontwait)
{
    struct iowait w = { o, mask };

    if (o->nonblock || dontwait) {
        errno = EAGAIN;
        return -1;
    }
    if (!vt_active)
        mc_fail ("a system call on a blocking descriptor stops the whole thread");
    vt_block (io_ready, &w, 0, "blocking I/O");
    return 0;
}

static long
iov_len (const struct iovec *v, int n)
{
    long t = 0;
    int i;
    for (i = 0; i < n; i++)
        t += v[i].iov_len;
    return t;
}

static void
iov_check (const struct iovec *v, int n, int write, const char *who)
{
    int i;
    mc_mem_check (v, sizeof (*v) * n, 0, who);
    for (i = 0; i < n; i++)
        mc_mem_check (v[i].iov_base, v[i].iov_len, write, who);
}

static void
iov_scatter (const struct iovec *v, int n, const unsigned char *d, long len)
{
    int i;
    for (i = 0; i < n && len; i++) {
        long k = (long)v[i].iov_len < len ? (long)v[i].iov_len : len;
        memcpy (v[i].iov_base, d, k);
        if (vt_active)
            vt_access ((uintptr_t)v[i].iov_base, k ? k : 1, 1, 0);
        d += k;
        len -= k;
    }
}

static void
iov_gather (const struct iovec *v, int n, unsigned char *d, long len)
{
    int i;
    for (i = 0; i < n && len; i++) {
        long k = (long)v[i].iov_len < len ? (long)v[i].iov_len : len;
        memcpy (d, v[i].iov_base, k);
        if (vt_active)
            vt_access ((uintptr_t)v[i].iov_base, k ? k : 1, 0, 0);
        d += k;
        len -= k;
    }
}

static long
shorten (long n)
{
    /* a transfer of n bytes may be cut at any point >= 1 */
    if (vk_short_io && n > 1) {
        int m = n > 8 ? 8 : n;
        int c = mc_env (m, "short transfer");
        if (c)
            return c;
    }
    return n;
}

static ssize_t dg_recv (struct vobj *o, struct msghdr *m, int flags);
static ssize_t dg_send (struct vobj *o, const struct msghdr *m, int flags);

static ssize_t
do_recv (int fd, const struct iovec *v, int nv, int flags, const char *who)
{
    struct vobj *o;
    long want, n;
    static unsigned char tmp[VBUF_BIG];

    vt_syscall_point (who);
    GETOBJ (o, fd);
    iov_check (v, nv, 1, who);
    want = iov_len (v, nv);
    if (o->type == VO_DGRAM) {
        struct msghdr m = { .msg_iov = (struct iovec *)v, .msg_iovlen = nv };
        return dg_recv (o, &m, flags);
    }
    for (;;) {
        if (o->type == VO_TIMER) {
            uint64_t t = o->ticks;
            vk_fire_timers ();
            t = o->ticks;
            if (want < 8) {
                errno = EINVAL;
                return -1;
            }
            if (!t) {
                if (would_block (o, EPOLLIN, 0) < 0)
                    return -1;
                continue;
            }
            o->ticks = 0;
            iov_scatter (v, nv, (unsigned char *)&t, 8);
            return 8;
        }
        if (o->type == VO_FILE)
            return 0;
        /* what was received comes first */
        if (o->err && !(o->rx && (o->rx->len || o->ended))) {
            errno = o->err;
            o->err = 0;
            return -1;
        }
        if (o->type == VO_STREAM && o->conn != 2) {
            if (o->conn == 1)
                errno = EAGAIN;
            else if (o->conn_err) {
                errno = o->conn_err;
                o->conn_err = 0;
            } else if (o->conn == 3)
                return 0;
            else
                errno = ENOTCONN;
            return -1;
        }
        if (!o->rx) {
            errno = EBADF;
            return -1;
        }
        if (want == 0)
            return 0;
        if (o->rx->len)
            break;
        if (o->rx->weof) {
            vt_hb_acquire (o->rx);
            return 0;
        }
        if (would_block (o, EPOLLIN, flags & MSG_DONTWAIT) < 0)
            return -1;
    }
    n = o->rx->len < want ? o->rx->len : want;
    n = shorten (n);
    if (flags & MSG_PEEK)
        memcpy (tmp, o->rx->d, n);
    else
        buf_take (o->rx, tmp, n);
    vt_hb_acquire (o->rx);
    iov_scatter (v, nv, tmp, n);
    return n;
}

static ssize_t
do_send (int fd, const struct iovec *v, int nv, int flags, const char *who)
{
    struct vobj *o;
    long want, n;
    static unsigned char tmp[VBUF_BIG];

    vt_syscall_point (who);
    GETOBJ (o, fd);
    iov_check (v, nv, 0, who);
    want = iov_len (v, nv);
    if (o->type == VO_DGRAM) {
        struct msghdr m = { .msg_iov = (struct iovec *)v, .msg_iovlen = nv };
        return dg_send (o, &m, flags);
    }
    for (;;) {
        if (o->type == VO_FILE)
            return want;
        if (o->err) {
            errno = o->err;
            o->err = 0;
            return -1;
        }
        if (o->type == VO_STREAM && o->conn != 2) {
            if (o->conn == 1)
                errno = EAGAIN;
            else if (o->conn_err) {
                errno = o->conn_err;
                o->conn_err = 0;
            } else
                errno = EPIPE;
            return -1;
        }
        if (!o->tx) {
            errno = EBADF;
            return -1;
        }
        if (o->tx->rgone || o->tx->weof) {
            errno = EPIPE;
            return -1;
        }
        if (want == 0)
            return 0;
        if (o->tx->len < o->tx->cap)
            break;
        if (would_block (o, EPOLLOUT, flags & MSG_DONTWAIT) < 0)
            return -1;
    }
    n = o->tx->cap - o->tx->len;
    if (want < n)
        n = want;
    n = shorten (n);
    iov_gather (v, nv, tmp, n);
    vt_hb_release (o->tx);
    buf_put (o->tx, tmp, n);
    return n;
}

ssize_t
vk_read (int fd, void *p, size_t n)
{
    struct iovec v = { p, n };
    ssize_t r = do_recv (fd, &v, 1, 0, "read");
    call ("read", fd, n, 0, 0, r);
    return r;
}

ssize_t
vk_write (int fd, const void *p, size_t n)
{
    struct iovec v = { (void *)p, n };
    ssize_t r;
    if (fd == 2 && !vk_is_open (2)) { /* standard error output */
        printed ();
        return n;
    }
    r = do_send (fd, &v, 1, 0, "write");
    call ("write", fd, n, 0, 0, r);
    return r;
}

ssize_t
vk_readv (int fd, const struct iovec *v, int n)
{
    ssize_t r;
    if (n < 0 || n > 1024) {
        errno = EINVAL;
        return -1;
    }
    r = do_recv (fd, v, n, 0, "readv");
    call ("readv", fd, n, 0, 0, r);
    return r;
}

ssize_t
vk_writev (int fd, const struct iovec *v, int n)
{
    ssize_t r;
    if (n < 0 || n > 1024) {
        errno = EINVAL;
        return -1;
    }
    r = do_send (fd, v, n, 0, "writev");
    call ("writev", fd, n, 0, 0, r);
    return r;
}

static ssize_t
dg_recv (struct vobj *o, struct msghdr *m, int flags)
{
    struct vmsg *g;
    long n;
    int i;

    for (;;) {
        if (o->err) {
            errno = o->err;
            o->err = 0;
            return -1;
        }
        if (o->nmsg)
            break;
        if (would_block (o, EPOLLIN, flags & MSG_DONTWAIT) < 0)
            return -1;
    }
    g = &o->q[0];
    n = iov_len (m->msg_iov, m->msg_iovlen);
    m->msg_flags = 0;
    if (n > g->len)
        n = g->len;
    else if (n < g->len)
        m->msg_flags |= MSG_TRUNC;
    iov_scatter (m->msg_iov, m->msg_iovlen, g->d, n);
    if (m->msg_name) {
        int k = (int)m->msg_namelen < g->alen ? (int)m->msg_namelen : g->alen;
        memcpy (m->msg_name, g->addr, k);
        m->msg_namelen = g->alen;
    }
    if (m->msg_control && m->msg_controllen >= CMSG_LEN (1)) {
        struct cmsghdr *c = m->msg_control;
        c->cmsg_len = CMSG_LEN (1);
        c->cmsg_level = SOL_SOCKET;
        c->cmsg_type = SCM_RIGHTS;
        *CMSG_DATA (c) = g->d[0];
        m->msg_controllen = CMSG_LEN (1);
    } else
        m->msg_controllen = 0;
    if (!(flags & MSG_PEEK)) {
        for (i = 1; i < o->nmsg; i++)
            o->q[i - 1] = o->q[i];
        o->nmsg--;
    }
    return n;
}

/* the value carried by the control data of a message */
static int
ctl_value (const struct msghdr *m)
{
    if (!m->msg_control || m->msg_controllen < CMSG_LEN (1))
        return 0;
    return *CMSG_DATA ((struct cmsghdr *)m->msg_control);
}

static ssize_t
dg_send (struct vobj *o, const struct msghdr *m, int flags)
{
    struct vmsg *g;
    long n = iov_len (m->msg_iov, m->msg_iovlen);

    for (;;) {
        if (o->err) {
            errno = o->err;
            o->err = 0;
            return -1;
        }
        if (n > VMSG_LEN) {
            errno = EMSGSIZE;
            return -1;
        }
        if (o->nout < o->out_cap)
            break;
        if (would_block (o, EPOLLOUT, flags & MSG_DONTWAIT) < 0)
            return -1;
    }
    g = &o->out[o->nout++];
    iov_gather (m->msg_iov, m->msg_iovlen, g->d, n);
    g->len = n;
    g->alen = 0;
    if (m->msg_name) {
        g->alen = m->msg_namelen < sizeof (g->addr) ? m->msg_namelen : sizeof (g->addr);
        memcpy (g->addr, m->msg_name, g->alen);
    }
    g->ctl = ctl_value (m);
    return n;
}

static ssize_t
msg_recv (int fd, struct msghdr *m, int flags, const char *who)
{
    struct vobj *o;
    ssize_t r;

    mc_mem_check (m, sizeof (*m), 1, who);
    if (m->msg_name)
        mc_mem_check (m->msg_name, m->msg_namelen, 1, who);
    if (m->msg_control)
        mc_mem_check (m->msg_control, m->msg_controllen, 1, who);
    iov_check (m->msg_iov, m->msg_iovlen, 1, who);
    GETOBJ (o, fd);
    o->mflags &= flags;
    if (o->type == VO_DGRAM)
        return dg_recv (o, m, flags);
    if (o->type != VO_STREAM) {
        errno = ENOTSOCK;
        return -1;
    }
    r = do_recv (fd, m->msg_iov, m->msg_iovlen, flags, who);
    if (r >= 0) {
        m->msg_flags = flags & MSG_PEEK ? 0 : MSG_CMSG_CLOEXEC & flags;
        if (m->msg_name) {
            static const unsigned char a[8] = { AF_UNIX, 0, 's', 'r', 'c' };
            memcpy (m->msg_name, a, m->msg_namelen < 8 ? m->msg_namelen : 8);
            m->msg_namelen = 8;
        }
        if (r > 0)
            o->nctl_in++;
        if (r > 0 && m->msg_controllen < CMSG_LEN (1))
            m->msg_flags |= MSG_CTRUNC;
        if (m->msg_control && m->msg_controllen >= CMSG_LEN (1) && r > 0) {
            struct cmsghdr *c = m->msg_control;
            c->cmsg_len = CMSG_LEN (1);
            c->cmsg_level = SOL_SOCKET;
            c->cmsg_type = SCM_RIGHTS;
            *CMSG_DATA (c) = 0x50 + o->nctl_in;
            m->msg_controllen = CMSG_LEN (1);
        } else
            m->msg_controllen = 0;
    }
    return r;
}

static ssize_t
msg_send (int fd, const struct msghdr *m, int flags, const char *who)
{
    struct vobj *o;

    mc_mem_check (m, sizeof (*m), 0, who);
    if (m->msg_name)
        mc_mem_check (m->msg_name, m->msg_namelen, 0, who);
    if (m->msg_control)
        mc_mem_check (m->msg_control, m->msg_controllen, 0, who);
    else if (m->msg_controllen) {
        errno = EFAULT;
        return -1;
    }
    iov_check (m->msg_iov, m->msg_iovlen, 0, who);
    GETOBJ (o, fd);
    o->mflags &= flags;
    if (o->type == VO_DGRAM)
        return dg_send (o, m, flags);
    if (o->type != VO_STREAM) {
        errno = ENOTSOCK;
        return -1;
    }
    {
        long pos = o->tx ? o->tx->in_total : 0;
        ssize_t r = do_send (fd, m->msg_iov, m->msg_iovlen, flags, who);
        if (r > 0 && ctl_value (m)) {
            o->nctl_out++;
            o->ctl_out = ctl_value (m);
            o->ctl_pos = pos;
        }
        return r;
    }
}

ssize_t
vk_recvmsg (int fd, struct msghdr *m, int flags)
{
    ssize_t r;
    vt_syscall_point ("recvmsg");
    r = msg_recv (fd, m, flags, "recvmsg");
    call ("recvmsg", fd, flags, 0, 0, r);
    return r;
}

ssize_t
vk_sendmsg (int fd, const struct msghdr *m, int flags)
{
    ssize_t r;
    vt_syscall_point ("sendmsg");
    r = msg_send (fd, m, flags, "sendmsg");
    call ("sendmsg", fd, flags, 0, 0, r);
    return r;
}

ssize_t
vk_recv (int fd, void *p, size_t n, int flags)
{
    struct iovec v = { p, n };
    struct msghdr m = { .msg_iov = &v, .msg_iovlen = 1 };
    ssize_t r = msg_recv (fd, &m, flags, "recv");
    call ("recv", fd, n, flags, 0, r);
    return r;
}

ssize_t
vk_send (int fd, const void *p, size_t n, int flags)
{
    struct iovec v = { (void *)p, n };
    struct msghdr m = { .msg_iov = &v, .msg_iovlen = 1 };
    ssize_t r = msg_send (fd, &m, flags, "send");
    call ("send", fd, n, flags, 0, r);
    return r;
}

ssize_t
vk_recvfrom (int fd, void *p, size_t n, int flags, struct sockaddr *a,
             socklen_t *al)
{
    struct iovec v = { p, n };
    struct msghdr m = { .msg_iov = &v, .msg_iovlen = 1 };
    ssize_t r;
    if (a) {
        m.msg_name = a;
        m.msg_namelen = *al;
    }
    r = msg_recv (fd, &m, flags, "recvfrom");
    if (r >= 0 && a)
        *al = m.msg_namelen;
    call ("recvfrom", fd, n, flags, 0, r);
    return r;
}

ssize_t
vk_sendto (int fd, const void *p, size_t n, int flags, const struct sockaddr *a,
           socklen_t al)
{
    struct iovec v = { (void *)p, n };
    struct msghdr m = { .msg_iov = &v,
                        .msg_iovlen = 1,
                        .msg_name = (void *)a,
                        .msg_namelen = al };
    ssize_t r = msg_send (fd, &m, flags, "sendto");
    call ("sendto", fd, n, flags, 0, r);
    return r;
}

ssize_t
vk_splice (int in, loff_t *offi, int out, loff_t *offo, size_t len,
           unsigned flags)
{
    struct vobj *i, *o;
    long n;
    static unsigned char tmp[VBUF_BIG];
    ssize_t r = -1;

    vt_syscall_point ("splice");
    GETOBJ (i, in);
    GETOBJ (o, out);
    if (!len) {
        r = 0;
        goto end;
    }
    if ((i->type != VO_PIPE && o->type != VO_PIPE) || i->type == VO_DGRAM ||
        o->type == VO_DGRAM) {
        errno = EINVAL;
        goto end;
    }
    if (!i->rx || !o->tx) {
        errno = EBADF;
        goto end;
    }
    if (i->rx == o->tx) {
        errno = EINVAL;
        goto end;
    }
    if (i->err) {
        errno = i->err;
        i->err = 0;
        goto end;
    }
    /* to a pipe: room is looked at before the input is read */
    if (o->type == VO_PIPE && o->tx->rgone) {
        errno = EPIPE;
        goto end;
    }
    if (o->type == VO_PIPE && o->tx->len >= o->tx->cap) {
        errno = EAGAIN;
        if (!((flags & SPLICE_F_NONBLOCK) || o->nonblock))
            mc_fail ("splice blocks the whole thread");
        goto end;
    }
    if (!i->rx->len) {
        if (i->rx->weof) {
            r = 0;
            goto end;
        }
        errno = EAGAIN;
        if (!((flags & SPLICE_F_NONBLOCK) || i->nonblock))
            mc_fail ("splice blocks the whole thread");
        goto end;
    }
    if (o->err) {
        errno = o->err;
        o->err = 0;
        goto end;
    }
    if (o->tx->rgone) {
        errno = EPIPE;
        goto end;
    }
    n = o->tx->cap - o->tx->len;
    if (n <= 0) {
        errno = EAGAIN;
        if (!((flags & SPLICE_F_NONBLOCK) || o->nonblock))
            mc_fail ("splice blocks the whole thread");
        goto end;
    }
    if (i->rx->len < n)
        n = i->rx->len;
    if (len < (size_t)n)
        n = len;
    n = shorten (n);
    buf_take (i->rx, tmp, n);
    buf_put (o->tx, tmp, n);
    r = n;
end:
    call ("splice", in, out, len, 0, r);
    return r;
}

/* ---- descriptors -------------------------------------------------------------------- */

static int
pipe_ (int *p, int flags)
{
    struct vobj *r, *w;
    struct vbuf *b;

    vt_syscall_point ("pipe");
    if (mc_fault ("pipe fails")) {
        errno = EMFILE;
        return -1;
    }
    b = buf_new (vk_pipe_cap);
    r = obj_new (VO_PIPE);
    w = obj_new (VO_PIPE);
    r->rx = b;
    w->tx = b;
    b->rside = r;
    b->wside = w;
    r->nonblock = w->nonblock = !!(flags & O_NONBLOCK);
    p[0] = fd_new (r);
    p[1] = fd_new (w);
    if (flags & O_CLOEXEC)
        fds[p[0]].fdflags = fds[p[1]].fdflags = FD_CLOEXEC;
    call ("pipe", p[0], p[1], 0, 0, 0);
    return 0;
}

int vk_pipe (int *p) { return pipe_ (p, 0); }
int vk_pipe2 (int *p, int f) { return pipe_ (p, f); }

int vk_pipe_cap; /* capacity of pipes made by fcntl(F_SETPIPE_SZ), unused */

int
vk_socketpair (int d, int t, int pr, int *p)
{
    struct vobj *a, *b;

    vt_syscall_point ("socketpair");
    if (mc_fault ("socketpair fails")) {
        errno = EMFILE;
        return -1;
    }
    a = obj_new (VO_STREAM);
    b = obj_new (VO_STREAM);
    a->rx = b->tx = buf_new (vk_big / 2);
    b->rx = a->tx = buf_new (vk_big / 2);
    a->rx->rside = a;
    a->rx->wside = b;
    b->rx->rside = b;
    b->rx->wside = a;
    a->conn = b->conn = 2;
    a->told = b->told = 1;
    a->nonblock = b->nonblock = !!(t & SOCK_NONBLOCK);
    p[0] = fd_new (a);
    p[1] = fd_new (b);
    return 0;
}

int
vk_socket (int d, int t, int pr)
{
    struct vobj *o;

    vt_syscall_point ("socket");
    if (mc_fault ("socket fails")) {
        errno = EMFILE;
        return -1;
    }
    o = obj_new ((t & 15) == SOCK_DGRAM ? VO_DGRAM : VO_STREAM);
    o->domain = d;
    o->stype = t;
    o->proto = pr;
    o->out_cap = VMSG_MAX;
    o->nonblock = !!(t & SOCK_NONBLOCK);
    call ("socket", nobjs, d, t, pr, 0);
    return fd_new (o);
}

/* plans: 0 immediate, 1 in progress then success, 2 in progress then failure,
 * 3 immediate failure */
int
vk_connect (int fd, const struct sockaddr *a, socklen_t al)
{
    struct vobj *o;
    int r = -1;

    vt_syscall_point ("connect");
    GETOBJ (o, fd);
    if (o->type == VO_DGRAM) {
        r = 0;
        goto end;
    }
    if (o->type != VO_STREAM) {
        errno = ENOTSOCK;
        goto end;
    }
    switch (o->conn) {
    case 0:
        if (vk_connect_plan == 0) {
            vk_remote_conn_done (fd, 0);
            o->told = 1;
            r = 0;
        } else if (vk_connect_plan == 3) {
            errno = vk_connect_err;
        } else {
            if (!o->nonblock)
                mc_fail ("connect blocks the whole thread");
            o->conn = 1;
            errno = EINPROGRESS;
        }
        break;
    case 1:
        errno = EALREADY;
        break;
    case 2:
        if (!o->told) { /* the answer to the first request */
            o->told = 1;
            r = 0;
        } else
            errno = EISCONN;
        break;
    case 3:
        if (o->conn_err) {
            errno = o->conn_err;
            o->conn_err = 0;
        } else
            errno = ECONNABORTED;
        o->conn = 0;
        break;
    }
end:
    call ("connect", fd, al, 0, 0, r);
    return r;
}

static int
accept_ (int fd, struct sockaddr *a, socklen_t *al, int flags)
{
    struct vobj *o, *n;
    int r;

    vt_syscall_point ("accept");
    GETOBJ (o, fd);
    if (o->type != VO_LISTEN) {
        errno = EINVAL;
        return -1;
    }
    for (;;) {
        if (o->err) {
            errno = o->err;
            o->err = 0;
            return -1;
        }
        if (o->backlog)
            break;
        if (would_block (o, EPOLLIN, 0) < 0)
            return -1;
    }
    if (mc_fault ("accept fails")) {
        errno = EMFILE;
        return -1;
    }
    o->backlog--;
    n = obj_new (VO_STREAM);
    n->conn = 2;
    n->told = 1;
    n->rx = buf_new (vk_big);
    n->tx = buf_new (vk_big);
    n->rx->rside = n;
    n->tx->wside = n;
    n->nonblock = !!(flags & SOCK_NONBLOCK);
    n->accepted = ++o->accepted;
    r = fd_new (n);
    if (a && al) {
        static const unsigned char ad[8] = { AF_UNIX, 0, 'p', 'e', 'e', 'r' };
        touch (al, sizeof (*al), 1, "accept");
        touch (a, *al < 8 ? *al : 8, 1, "accept");
        memcpy (a, ad, *al < 8 ? *al : 8);
        *al = 8;
    }
    call ("accept", fd, 0, 0, 0, r);
    return r;
}

int vk_accept (int fd, struct sockaddr *a, socklen_t *al) { return accept_ (fd, a, al, 0); }
int vk_accept4 (int fd, struct sockaddr *a, socklen_t *al, int f) { return accept_ (fd, a, al, f); }

int
vk_shutdown (int fd, int how)
{
    struct vobj *o;
    GETOBJ (o, fd);
    if (how != SHUT_RD && o->tx) {
        o->tx->weof = 1;
        if (o->tx->rside)
            vk_wake (o->tx->rside, -1);
        vk_wake (o, -1);
    }
    return 0;
}

int
vk_getsockopt (int fd, int lvl, int opt, void *v, socklen_t *l)
{
    struct vobj *o;
    GETOBJ (o, fd);
    if (lvl == SOL_SOCKET && opt == SO_ERROR) {
        int e = o->err ? o->err : o->conn_err;
        o->err = 0;
        o->conn_err = 0;
        touch (l, sizeof (*l), 1, "getsockopt");
        touch (v, sizeof (e), 1, "getsockopt");
        memcpy (v, &e, sizeof (e));
        return 0;
    }
    memset (v, 0, *l);
    return 0;
}
int
vk_setsockopt (int fd, int lvl, int opt, const void *v, socklen_t l)
{
    struct vobj *o;
    GETOBJ (o, fd);
    return 0;
}

static int
open_ (int flags, const char *who)
{
    struct vobj *o;
    int fd;

    vt_syscall_point (who);
    if (mc_fault ("open fails")) {
        errno = EMFILE;
        return -1;
    }
    o = obj_new (VO_FILE);
    o->nonblock = !!(flags & O_NONBLOCK);
    o->flags = flags;
    fd = fd_new (o);
    if (flags & O_CLOEXEC)
        fds[fd].fdflags = FD_CLOEXEC;
    return fd;
}

int
vk_open (const char *p, int flags, ...)
{
    va_list ap;
    long mode;
    int r;
    va_start (ap, flags);
    mode = va_arg (ap, int);
    va_end (ap);
    r = open_ (flags, "open");
    call ("open", r, flags, mode, 0, r);
    return r;
}
int
vk_openat (int d, const char *p, int flags, ...)
{
    va_list ap;
    long mode;
    int r;
    va_start (ap, flags);
    mode = va_arg (ap, int);
    va_end (ap);
    r = open_ (flags, "openat");
    call ("openat", r, flags, mode, d, r);
    return r;
}
int
vk_creat (const char *p, int mode)
{
    int r = open_ (O_CREAT | O_WRONLY | O_TRUNC, "creat");
    call ("creat", r, mode, 0, 0, r);
    return r;
}

static int
dup_ (int fd)
{
    struct vobj *o;
    GETOBJ (o, fd);
    if (mc_fault ("dup fails")) {
        errno = EMFILE;
        return -1;
    }
    return fd_new (o);
}

int
vk_dup (int fd)
{
    int r;
    vt_syscall_point ("dup");
    r = dup_ (fd);
    call ("dup", fd, 0, 0, 0, r);
    return r;
}

int
vk_dup2 (int a, int b)
{
    struct vobj *o;

    vt_syscall_point ("dup2");
    GETOBJ (o, a);
    if (b < 0 || b >= VK_MAXFD) {
        errno = EBADF;
        return -1;
    }
    if (mc_fault ("dup2 fails")) {
        errno = EMFILE;
        return -1;
    }
    call ("dup2", a, b, 0, 0, b);
    if (a == b)
        return b;
    if (fds[b].o)
        close_fd (b);
    if (b >= vk_next_fd)
        vk_next_fd = b + 1;
    fds[b].o = o;
    fds[b].fdflags = 0;
    o->refs++;
    mc_live_fds++;
    return b;
}

int
vk_dup3 (int a, int b, int f)
{
    return vk_dup2 (a, b);
}

int
vk_fcntl (int fd, int cmd, ...)
{
    struct vobj *o;
    va_list ap;
    long arg;

    vt_syscall_point ("fcntl");
    va_start (ap, cmd);
    arg = va_arg (ap, long);
    va_end (ap);
    GETOBJ (o, fd);
    if (mc_fault ("fcntl fails")) {
        errno = ENOMEM;
        return -1;
    }
    switch (cmd) {
    case F_GETFD:
        return fds[fd].fdflags;
    case F_SETFD:
        fds[fd].fdflags = (int)arg;
        return 0;
    case F_GETFL:
        return (o->nonblock ? O_NONBLOCK : 0) | O_RDWR;
    case F_SETFL:
        o->nonblock = !!((int)arg & O_NONBLOCK);
        return 0;
    case F_GETPIPE_SZ:
        if (o->type != VO_PIPE)
            break;
        return (o->rx ? o->rx : o->tx)->cap;
    case F_DUPFD:
    case F_DUPFD_CLOEXEC:
        return fd_new (o);
    }
    errno = EINVAL;
    return -1;
}
int vk_fcntl64 (int fd, int cmd, long arg) { return vk_fcntl (fd, cmd, arg); }

int
vk_ioctl (int fd, unsigned long req, ...)
{
    struct vobj *o;
    va_list ap;
    void *arg;

    vt_syscall_point ("ioctl");
    va_start (ap, req);
    arg = va_arg (ap, void *);
    va_end (ap);
    GETOBJ (o, fd);
    if (mc_fault ("ioctl fails")) {
        errno = ENOMEM;
        return -1;
    }
    if (req == FIONBIO) {
        o->nonblock = !!*(int *)arg;
        return 0;
    }
    if (req == FIOCLEX) {
        fds[fd].fdflags = FD_CLOEXEC;
        return 0;
    }
    if (req == FIONREAD) {
        *(int *)arg = o->rx ? o->rx->len : 0;
        return 0;
    }
    errno = ENOTTY;
    return -1;
}

int
vk_poll (struct pollfd *p, nfds_t n, int timeout)
{
    nfds_t i;
    int c = 0;

    vt_syscall_point ("poll");
    touch (p, sizeof (*p) * n, 1, "poll");
    for (i = 0; i < n; i++) {
        struct vobj *o;
        p[i].revents = 0;
        if (p[i].fd < 0)
            continue;
        o = vk_obj (p[i].fd);
        if (!o)
            p[i].revents = POLLNVAL;
        else
            p[i].revents =
                vk_poll_obj (o) & (p[i].events | POLLERR | POLLHUP);
        if (p[i].revents)
            c++;
    }
    if (!c && timeout)
        mc_fail ("poll with a timeout stops the whole thread");
    call ("poll", n, timeout, 0, 0, c);
    return c;
}

int
vk_ppoll (struct pollfd *p, nfds_t n, const struct timespec *t, const void *m)
{
    return vk_poll (p, n, !t ? -1 : t->tv_sec || t->tv_nsec);
}

/* ---- far ends, played by the environment ------------------------------------------------ */

int
vk_mk_stream (int txcap)
{
    struct vobj *o = obj_new (VO_STREAM);
    o->rx = buf_new (vk_big);
    o->tx = buf_new (txcap);
    o->rx->rside = o;
    o->tx->wside = o;
    o->conn = 2;
    o->told = 1;
    o->nonblock = 1;
    return fd_new (o);
}

int
vk_mk_reader (void)
{
    struct vobj *o = obj_new (VO_PIPE);
    o->rx = buf_new (vk_big);
    o->rx->rside = o;
    o->nonblock = 1;
    return fd_new (o);
}

int
vk_mk_writer (int cap)
{
    struct vobj *o = obj_new (VO_PIPE);
    o->tx = buf_new (cap);
    o->tx->wside = o;
    o->nonblock = 1;
    return fd_new (o);
}

int
vk_mk_dgram (int outcap)
{
    struct vobj *o = obj_new (VO_DGRAM);
    o->out_cap = outcap;
    o->nonblock = 1;
    return fd_new (o);
}

int
vk_mk_listen (void)
{
    struct vobj *o = obj_new (VO_LISTEN);
    o->nonblock = 1;
    return fd_new (o);
}

void
vk_remote_send (int fd, const void *d, int n)
{
    struct vobj *o = vk_obj (fd);
    if (!o || !o->rx || o->rx->len + n > o->rx->cap)
        return;
    buf_put (o->rx, d, n);
}

void
vk_remote_eof (int fd)
{
    struct vobj *o = vk_obj (fd);
    if (!o || !o->rx)
        return;
    o->rx->weof = 1;
    vk_wake (o, -1);
}

int
vk_remote_take (int fd, void *d, int n)
{
    struct vobj *o = vk_obj (fd);
    if (!o || !o->tx)
        return 0;
    if (n > o->tx->len)
        n = o->tx->len;
    buf_take (o->tx, d, n);
    return n;
}

void
vk_remote_gone (int fd)
{
    struct vobj *o = vk_obj (fd);
    if (!o || !o->tx)
        return;
    o->tx->rgone = 1;
    vk_wake (o, -1);
}

void
vk_remote_err (int fd, int err)
{
    struct vobj *o = vk_obj (fd);
    if (!o)
        return;
    o->err = err;
    vk_wake (o, EPOLLIN | EPOLLOUT | EPOLLERR);
}

/* the connection is gone: the error comes once, then end of input */
void
vk_remote_reset (int fd, int err)
{
    struct vobj *o = vk_obj (fd);
    if (!o)
        return;
    o->err = err;
    if (o->rx && o->rx->weof) {
        o->err = EPIPE;
        o->ended = 1;
    }
    if (o->rx)
        o->rx->weof = 1;
    if (o->tx)
        o->tx->rgone = 1;
    vk_wake (o, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}

int
vk_remote_pending (int fd)
{
    struct vobj *o = vk_obj (fd);
    return o && o->tx ? o->tx->len : 0;
}

void
vk_remote_msg (int fd, const void *d, int n, const void *addr, int alen)
{
    struct vobj *o = vk_obj (fd);
    struct vmsg *g;
    if (!o || o->nmsg == VMSG_MAX)
        return;
    g = &o->q[o->nmsg++];
    memcpy (g->d, d, n);
    g->len = n;
    memcpy (g->addr, addr, alen);
    g->alen = alen;
    vk_wake (o, EPOLLIN);
}

void
vk_remote_connect (int fd)
{
    struct vobj *o = vk_obj (fd);
    if (!o)
        return;
    o->backlog++;
    vk_wake (o, EPOLLIN);
}

void
vk_remote_conn_done (int fd, int err)
{
    struct vobj *o = vk_obj (fd);
    if (!o)
        return;
    if (err) {
        o->conn = 3;
        o->conn_err = err;
        vk_wake (o, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP);
        return;
    }
    o->conn = 2;
    o->rx = buf_new (vk_big);
    o->tx = buf_new (vk_big);
    o->rx->rside = o;
    o->tx->wside = o;
    vk_wake (o, EPOLLOUT);
}

/* ---- the rest ------------------------------------------------------------------------------ */

int vk_getpagesize (void) { return 4096; }
long
vk_sysconf (int n)
{
    return n == 30 /* _SC_PAGESIZE */ ? 4096 : n == 250 ? 8192 : 1024;
}

void
vk_abort (void)
{
    mc_fail ("the library called abort()");
}

void
vk___assert_fail (const char *e, const char *f, unsigned l, const char *fn)
{
    mc_fail ("assertion failed in the library: %s", e);
}

void
vk___stack_chk_fail (void)
{
    mc_fail ("stack smashed");
}

void
vk_exit (int c)
{
    mc_fail ("the library called exit()");
}

int vk_fprintf (void *f, const char *fmt, ...)
{
    printed ();
    return 0;
}
int vk_printf (const char *fmt, ...)
{
    printed ();
    return 0;
}
size_t vk_fwrite (const void *p, size_t s, size_t n, void *f)
{
    printed ();
    return n;
}
int vk_puts (const char *s)
{
    printed ();
    return 0;
}
int vk_fputs (const char *s, void *f)
{
    printed ();
    return 0;
}
int vk_vfprintf (void *f, const char *fmt, va_list ap)
{
    printed ();
    return 0;
}
int vk_fputc (int c, void *f)
{
    printed ();
    return c;
}
void vk_perror (const char *s) { printed (); }
int vk_dprintf (int fd, const char *fmt, ...)
{
    printed ();
    return 0;
}
int vk_fflush (void *f) { return 0; }


int
vk_sigaltstack (const stack_t *ss, stack_t *old)
{
    int me = vt_self ();

    vt_syscall_point ("sigaltstack");
    if (old) {
        old->ss_sp = vk_sigstacks[me];
        old->ss_size = vk_sigstack_size[me];
        old->ss_flags = vk_sigstacks[me] ? 0 : SS_DISABLE;
    }
    if (ss) {
        vk_sigstacks[me] = ss->ss_flags & SS_DISABLE ? NULL : ss->ss_sp;
        vk_sigstack_size[me] = vk_sigstacks[me] ? ss->ss_size : 0;
    }
    return 0;
}

int
vk_sigaction (int s, const struct sigaction *a, struct sigaction *old)
{
    vt_syscall_point ("sigaction");
    if (s < 1 || s > 64) {
        errno = EINVAL;
        return -1;
    }
    if (old) {
        *old = vk_sa[s];
        if (vt_active)
            vt_access ((uintptr_t)old, sizeof (*old), 1, 0);
    }
    if (a) {
        vk_sa[s] = *a;
        vt_hb_release (&vk_sa[s]);
    }
    return 0;
}

/* Signals of the current thread: a fault (code > 0) of an instruction that is
 * executed again when the handler returns, or a signal sent by a program. */
void (*vk_on_kill) (int s);
int vk_fault_gone; /* set by a handler of the program */
#define SIGBIT(s) (1ull << ((s) - 1))

static void
kill_process (int s)
{
    mc_ev1 ("the process is ended by signal %ld", s);
    if (vk_on_kill)
        vk_on_kill (s);
    mc_fail ("the process is ended by signal %d", s);
}

/* the processor finds that the code itself cannot go on (a call of address 0) */
static int
real_fault (int s, void *addr)
{
    if (sig_depth > 4)
        mc_fail ("faults inside of the fault handler without end");
    vk_deliver (s, addr, SEGV_MAPERR, 0);
    mc_fail ("the fault handler goes on after a fault of its own");
}

void
vk_deliver (int s, void *addr, int code, int nostack)
{
    int me = vt_self (), n;
    siginfo_t si;

    for (n = 0; n < 4; n++) {
        struct sigaction *sa = &vk_sa[s], a;
        uint64_t mask = sig_blocked[me];
        int (*was) (int, void *) = mc_on_signal;

        vt_hb_acquire (sa);
        if (mask & SIGBIT (s)) {
            if (code > 0)
                kill_process (s);
            sig_pending[me] |= SIGBIT (s);
            return;
        }
        if (sa->sa_handler == SIG_IGN && code <= 0)
            return;
        if (sa->sa_handler == SIG_IGN || sa->sa_handler == SIG_DFL)
            kill_process (s);
        if (nostack && !((sa->sa_flags & SA_ONSTACK) && vk_sigstacks[me] &&
                         vk_sigstack_size[me] >= 4096))
            kill_process (SIGSEGV); /* no room for the frame of the handler */
        a = *sa;
        if (a.sa_flags & SA_RESETHAND)
            sa->sa_handler = SIG_DFL;
        memcpy (&mask, &a.sa_mask, sizeof (mask));
        mask |= a.sa_flags & SA_NODEFER ? 0 : SIGBIT (s);
        memset (&si, 0, sizeof (si));
        si.si_signo = s;
        si.si_code = code;
        si.si_addr = addr;
        vk_fault_gone = 0;
        sig_depth++;
        mc_on_signal = real_fault;
        {
            uint64_t old = sig_blocked[me];
            sig_blocked[me] |= mask;
            a.sa_sigaction (s, &si, NULL);
            sig_blocked[me] = old;
        }
        mc_on_signal = was;
        sig_depth--;
        for (int k = 1; k < 64; k++)
            if (sig_pending[me] & ~sig_blocked[me] & SIGBIT (k)) {
                sig_pending[me] &= ~SIGBIT (k);
                vk_deliver (k, NULL, SI_TKILL, 0);
            }
        if (code <= 0 || vk_fault_gone)
            return;
    }
    mc_fail ("nobody handles the fault, it is raised again and again");
}

int
vk_raise (int s)
{
    vk_deliver (s, NULL, SI_TKILL, 0);
    return 0;
}

void *
vk_signal (int s, void *h)
{
    struct sigaction a, o;

    memset (&a, 0, sizeof (a));
    a.sa_handler = h;
    a.sa_flags = SA_RESTART;
    if (vk_sigaction (s, &a, &o) < 0)
        return SIG_ERR;
    return o.sa_handler;
}

int
vk_pthread_sigmask (int how, const sigset_t *set, sigset_t *old)
{
    uint64_t *b = &sig_blocked[vt_self ()], m;

    if (old) {
        memset (old, 0, sizeof (*old));
        memcpy (old, b, sizeof (*b));
    }
    if (set) {
        memcpy (&m, set, sizeof (m));
        *b = how == SIG_BLOCK ? *b | m : how == SIG_UNBLOCK ? *b & ~m : m;
    }
    return 0;
}

int
vk_sigprocmask (int how, const sigset_t *set, sigset_t *old)
{
    return vk_pthread_sigmask (how, set, old);
}

int
vk_getaddrinfo (const char *n, const char *s, const void *h, void **r)
{
    vt_syscall_point ("getaddrinfo");
    if (vk_resolver)
        return vk_resolver (n, s, h, r);
    return EAI_FAIL;
}

int
vk_getnameinfo (const void *sa, unsigned sl, char *h, unsigned hl, char *s,
                unsigned l, int f)
{
    vt_syscall_point ("getnameinfo");
    if (vk_name_resolver)
        return vk_name_resolver (sa, sl, h, hl, s, l, f);
    return EAI_FAIL;
}

void
vk_freeaddrinfo (void *r)
{
    if (r)
        vk_free (r);
}

int vk_usleep (unsigned us)
{
    mc_fail ("usleep stops the whole thread");
}
unsigned vk_sleep (unsigned s)
{
    mc_fail ("sleep stops the whole thread");
}
int vk_nanosleep (const struct timespec *a, struct timespec *b)
{
    mc_fail ("nanosleep stops the whole thread");
}
