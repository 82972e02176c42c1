/* Virtual kernel: deterministic stand-ins for the system calls of the library. */
#ifndef VK_H
#define VK_H

#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#include <sys/socket.h>
#include "mc.h"

#define VBUF_MAX 512       /* usual capacity */
#define VBUF_BIG (1 << 17) /* largest capacity */
#define VMSG_MAX 8
#define VMSG_LEN 128
#define VK_MAXFD 4096

enum
{
    VO_NONE,
    VO_EPOLL,
    VO_TIMER,
    VO_PIPE,   /* one end of a pipe */
    VO_STREAM, /* stream socket */
    VO_DGRAM,
    VO_LISTEN,
    VO_FILE,
};

struct vbuf /* one direction of a byte stream */
{
    int used;
    int len, cap;
    int weof;  /* writer closed */
    int rgone; /* reader closed */
    struct vobj *rside, *wside;
    long in_total, out_total; /* bytes ever put / taken */
    unsigned char d[VBUF_BIG];
};

struct vmsg
{
    int len;
    unsigned char d[VMSG_LEN];
    unsigned char addr[112];
    int alen;
    int ctl; /* control value */
};

struct vobj
{
    int type;
    int refs;
    int id;
    int nonblock;
    int cloexec_seen;
    int env_owned; /* not counted as a descriptor of the library */
    struct vbuf *rx, *tx;
    int err;     /* pending error */
    int ended;   /* it came after the end of input */
    /* timer */
    int armed;
    uint64_t expiry, interval, ticks, ahead;
    /* datagrams */
    int nmsg;
    int nout;
    int out_cap;
    /* listening */
    int backlog;
    /* connecting: 0 none 1 in progress 2 connected 3 failed */
    int conn;
    int conn_err;
    int told; /* connect has returned success */
    int accepted; /* result of accept */
    int domain, stype, proto;
    struct vobj *peer;
    int flags; /* open flags */
    long pos;
    int mflags;   /* flags that all message calls had, the harness sets it to -1 */
    int nctl_in;  /* receives that carried control data */
    int nctl_out; /* sends that carried control data */
    int ctl_out;  /* value of the last one */
    long ctl_pos; /* and the position in the stream */
    /* not cleared between executions */
    struct vmsg q[VMSG_MAX], out[VMSG_MAX];
};

struct vfd
{
    struct vobj *o;
    int fdflags;
};

extern uint64_t vk_now; /* nanoseconds */
extern int vk_env_at_poll;    /* environment may act while tasks are ready, 2: more than once */
extern int vk_late_n;         /* alternatives for late wakeups */
extern const uint64_t *vk_late;
extern void (*vk_on_block) (void); /* called when nothing can run */
extern void (*vk_on_pass) (uint64_t ns); /* called before time passes while tasks are ready */
extern int vk_time_last;      /* time only moves when no action is left */
extern int vk_short_io;       /* transfers may be shorter than possible */

/* environment actions of the harness */
extern int (*vk_env_count) (void);
extern void (*vk_env_do) (int i);

struct vobj *vk_obj (int fd);
int vk_poll_obj (struct vobj *o);
void vk_wake (struct vobj *o, int mask);

/* descriptors whose far end is played by the environment */
int vk_mk_stream (int txcap);     /* stream socket */
int vk_mk_reader (void);          /* read end of a pipe */
int vk_mk_writer (int cap);       /* write end of a pipe */
int vk_mk_dgram (int outcap);
int vk_mk_listen (void);
void vk_remote_send (int fd, const void *d, int n);
void vk_remote_eof (int fd);
int vk_remote_take (int fd, void *d, int n);
void vk_remote_gone (int fd);     /* nobody reads any more */
void vk_remote_err (int fd, int err);
void vk_remote_reset (int fd, int err); /* an error that ends both directions */
extern int vk_pipe_cap;                 /* capacity of pipes made by the library */
int vk_remote_pending (int fd);   /* bytes written by the library, not taken */
void vk_remote_msg (int fd, const void *d, int n, const void *addr, int alen);
void vk_remote_connect (int listenfd);
void vk_remote_conn_done (int fd, int err);
extern int vk_connect_plan;       /* see vk_connect */
extern int vk_connect_err;
int vk_close_user (int fd);       /* harness closes one of its descriptors */
int vk_is_open (int fd);
extern int vk_next_fd;
extern int vk_reuse;        /* give closed numbers out again */
extern int vk_big;          /* capacity where none is given */
extern int vk_space_always; /* announce room after every removal */

uint64_t vk_next_deadline (void);
void vk_advance (uint64_t ns);
void vk_fire_timers (void);
void vk_idle_step (void);

extern int (*vk_resolver) (const char *node, const char *service,
                           const void *hints, void **res);
extern int (*vk_name_resolver) (const void *sa, unsigned salen, char *host,
                                unsigned hostlen, char *serv,
                                unsigned servlen, int flags);
extern long vk_printed; /* messages printed by the library */
extern long vk_printed_by[8]; /* by thread */

extern void *vk_sigstacks[8];
extern unsigned long vk_sigstack_size[8];
/* a signal arrives: fault code > 0, nostack 1: the stack cannot be used */
void vk_deliver (int s, void *addr, int code, int nostack);
extern void (*vk_on_kill) (int s); /* called before the process ends by it */
extern int vk_fault_gone;

/* last I/O call seen, for argument checks */
struct vk_call
{
    const char *name;
    int fd;
    long a, b, c;
    long res;
    int err;
};
#define VK_CALLS 64
extern struct vk_call vk_calls[VK_CALLS];
extern int vk_ncalls;

/* threads (vt.c) */
void vt_syscall_point (const char *what);
void vt_block (int (*ready) (void *), void *arg, uint64_t deadline,
               const char *what);
int vt_self (void);
int vt_spawn (void *(*fn) (void *), void *arg);
void vt_join_n (int n);
int vt_thread_done (int i);
int vt_count (void);
void vt_hb_release (const void *key);
void vt_hb_acquire (const void *key);
extern int vt_explore; /* explore thread switches */

#endif
