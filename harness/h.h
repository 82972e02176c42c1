/* Common to all harnesses. Only public headers of the library are used. */
#ifndef H_H
#define H_H

#include <errno.h>
#include <poll.h>
#include <stdint.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/uio.h>

#include <hev-task.h>
#include <hev-task-system.h>

#include "vk.h"

#define STK 8192

static inline void
h_init (void)
{
    MC_CHECK (hev_task_system_init () == 0, "hev_task_system_init failed");
}

static inline void
h_fini (void)
{
    hev_task_system_fini ();
}

static inline HevTask *
h_task (void)
{
    HevTask *t = hev_task_new (STK);
    MC_CHECK (t, "hev_task_new failed");
    return t;
}

#endif
