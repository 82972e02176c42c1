From 2bf5177ea4c7b21fe8f4a982d9f9bc15ae7da6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:30 +0000
Subject: [PATCH 01/42] fix: keep the other waiters when a timed condition wait
 expires

The expiring waiter at the head of the list dropped the whole list, so the
tasks behind it could never be signalled again. Continue with the next one.
---
 src/kern/sync/hev-task-cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/sync/hev-task-cond.c b/src/kern/sync/hev-task-cond.c
index a8a6c77..7dedb3b 100644
--- a/src/kern/sync/hev-task-cond.c
+++ b/src/kern/sync/hev-task-cond.c
@@ -77,7 +77,7 @@ hev_task_cond_timedwait (HevTaskCond *self, HevTaskMutex *mutex,
         if (node.next)
             node.next->prev = node.prev;
         if (self->waiters == &node)
-            self->waiters = NULL;
+            self->waiters = node.next;
         return -1;
     }
 
-- 
2.43.0


From 13fa6df921b3b86d9cafa6453238492703c5a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:51 +0000
Subject: [PATCH 02/42] fix: report a partial remaining millisecond of an
 interrupted sleep

A sleep that was woken less than a millisecond before its end returned 0, as
if the time had elapsed. Timed waits built on it then expired early. Round the
remaining time up.
---
 src/kern/task/hev-task.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 164a318..b688ff0 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -154,7 +154,9 @@ hev_task_yield (HevTaskYieldType type)
 EXPORT_SYMBOL unsigned int
 hev_task_sleep (unsigned int milliseconds)
 {
-    return hev_task_usleep (milliseconds * 1000) / 1000;
+    unsigned int remaining = hev_task_usleep (milliseconds * 1000);
+
+    return remaining / 1000 + !!(remaining % 1000);
 }
 
 EXPORT_SYMBOL unsigned int
-- 
2.43.0


From 9168bc03a61354fe70a09531b3e40077eb4c3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:53 +0000
Subject: [PATCH 03/42] fix: normalise timer expiry at exactly one second of
 nanoseconds

A sum of exactly 1000000000 ns was left as is. The kernel rejects such a time
and the process was aborted.
---
 src/kern/time/hev-task-timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index cf212cc..b4ab061 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -60,7 +60,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
 
     expire->tv_sec += microseconds / 1000000;
     expire->tv_nsec += (microseconds % 1000000) * 1000;
-    if (expire->tv_nsec > 1000000000L) {
+    if (expire->tv_nsec >= 1000000000L) {
         expire->tv_sec++;
         expire->tv_nsec -= 1000000000L;
     }
-- 
2.43.0


From 891da3a29d4b24ec64365793649150cc4dde4a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:06 +0000
Subject: [PATCH 04/42] fix: sleep for the full time when milliseconds exceed
 32 bits of microseconds

hev_task_sleep multiplied by 1000 in unsigned int, so a sleep of more than
4294967 ms ended much too early. Pass 64-bit microseconds to the timer.
---
 src/kern/task/hev-task.c       | 10 +++++++++-
 src/kern/time/hev-task-timer.c | 11 +++++------
 src/kern/time/hev-task-timer.h |  6 ++++--
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index b688ff0..e4c3ded 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -154,7 +154,15 @@ hev_task_yield (HevTaskYieldType type)
 EXPORT_SYMBOL unsigned int
 hev_task_sleep (unsigned int milliseconds)
 {
-    unsigned int remaining = hev_task_usleep (milliseconds * 1000);
+    HevTaskSystemContext *ctx;
+    uint64_t remaining;
+
+    if (milliseconds == 0)
+        return 0;
+
+    ctx = hev_task_system_get_context ();
+    remaining = hev_task_timer_wait (ctx->timer, milliseconds * 1000ULL,
+                                     ctx->current_task);
 
     return remaining / 1000 + !!(remaining % 1000);
 }
diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index b4ab061..5ce2f06 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -53,7 +53,7 @@ hev_task_timer_node_compare (HevTaskTimerNode *a, HevTaskTimerNode *b)
 }
 
 static inline void
-hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
+hev_task_timer_get_expire (struct timespec *expire, uint64_t microseconds)
 {
     if (clock_gettime (CLOCK_MONOTONIC, expire) < 0)
         abort ();
@@ -66,7 +66,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
     }
 }
 
-static inline unsigned int
+static inline uint64_t
 hev_task_timer_get_time (const struct timespec *expire)
 {
     struct timespec curr;
@@ -86,12 +86,11 @@ hev_task_timer_get_time (const struct timespec *expire)
     if (sec < 0)
         return 0;
 
-    return (sec * 1000000) + (nsec / 1000);
+    return ((uint64_t)sec * 1000000) + (nsec / 1000);
 }
 
-unsigned int
-hev_task_timer_wait (HevTaskTimer *self, unsigned int microseconds,
-                     HevTask *task)
+uint64_t
+hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds, HevTask *task)
 {
     HevTaskTimerNode curr_node, *node = &curr_node;
     HevRBTreeNode **new = &self->sort_tree.base.root, *parent = NULL;
diff --git a/src/kern/time/hev-task-timer.h b/src/kern/time/hev-task-timer.h
index 68d100a..d1a0b34 100644
--- a/src/kern/time/hev-task-timer.h
+++ b/src/kern/time/hev-task-timer.h
@@ -10,6 +10,8 @@
 #ifndef __HEV_TASK_TIMER_H__
 #define __HEV_TASK_TIMER_H__
 
+#include <stdint.h>
+
 #include "kern/task/hev-task-private.h"
 #include "lib/rbtree/hev-rbtree-cached.h"
 
@@ -24,7 +26,7 @@ struct _HevTaskTimer
 HevTaskTimer *hev_task_timer_new (void);
 void hev_task_timer_destroy (HevTaskTimer *self);
 
-unsigned int hev_task_timer_wait (HevTaskTimer *self, unsigned int milliseconds,
-                                  HevTask *task);
+uint64_t hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds,
+                              HevTask *task);
 
 #endif /* __HEV_TASK_TIMER_H__ */
-- 
2.43.0


From 61f89b79ccdf09184ff5518c81063fd058c5fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:08 +0000
Subject: [PATCH 05/42] fix: report a partial remaining microsecond of an
 interrupted sleep

A sleep woken within the last microsecond returned 0 although its time had not
elapsed yet. Round the remaining time up.
---
 src/kern/time/hev-task-timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index 5ce2f06..50e1c4e 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -86,7 +86,7 @@ hev_task_timer_get_time (const struct timespec *expire)
     if (sec < 0)
         return 0;
 
-    return ((uint64_t)sec * 1000000) + (nsec / 1000);
+    return ((uint64_t)sec * 1000000) + ((nsec + 999) / 1000);
 }
 
 uint64_t
-- 
2.43.0


From 50a2bfd2e96d6f8edeb9fae91cf7f7d0fba00012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:30 +0000
Subject: [PATCH 06/42] fix: wake the joiner of a task that calls hev_task_exit

Only a task whose entry returned woke its joiner. Joining a task that called
hev_task_exit blocked for ever.
---
 src/kern/task/hev-task.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index e4c3ded..d38dd8a 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -197,6 +197,11 @@ hev_task_run (HevTask *self, HevTaskEntry entry, void *data)
 EXPORT_SYMBOL void
 hev_task_exit (void)
 {
+    HevTask *self = hev_task_self ();
+
+    if (self->joiner)
+        hev_task_wakeup (self->joiner);
+
     hev_task_system_kill_current_task ();
 }
 
-- 
2.43.0


From 8ac7cb32ef9acf446d8f3b32c0283c6397fa57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:31 +0000
Subject: [PATCH 07/42] fix: forget the joiner once the joined task has ended

The joiner stayed registered for ever. A task that was started again could not
be joined any more, and its end woke the old joiner, which may be gone.
---
 src/kern/task/hev-task-executer.c |  4 +++-
 src/kern/task/hev-task.c          | 14 ++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/kern/task/hev-task-executer.c b/src/kern/task/hev-task-executer.c
index 51e080e..91c1a34 100644
--- a/src/kern/task/hev-task-executer.c
+++ b/src/kern/task/hev-task-executer.c
@@ -18,8 +18,10 @@ hev_task_executer (HevTask *task)
 
     task->entry (task->data);
 
-    if (task->joiner)
+    if (task->joiner) {
         hev_task_wakeup (task->joiner);
+        task->joiner = NULL;
+    }
 
     hev_task_system_kill_current_task ();
 }
diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index d38dd8a..8c73c47 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -199,8 +199,10 @@ hev_task_exit (void)
 {
     HevTask *self = hev_task_self ();
 
-    if (self->joiner)
+    if (self->joiner) {
         hev_task_wakeup (self->joiner);
+        self->joiner = NULL;
+    }
 
     hev_task_system_kill_current_task ();
 }
@@ -211,15 +213,15 @@ hev_task_join (HevTask *task)
     if (task->joiner)
         return -1;
 
-    task->joiner = hev_task_self ();
+    if (hev_task_get_state (task) == HEV_TASK_STOPPED)
+        return 0;
 
-    for (;;) {
-        if (hev_task_get_state (task) == HEV_TASK_STOPPED)
-            break;
+    task->joiner = hev_task_self ();
 
+    do {
         hev_task_wakeup (task);
         hev_task_yield (HEV_TASK_WAITIO);
-    }
+    } while (task->joiner == hev_task_self ());
 
     return 0;
 }
-- 
2.43.0


From e2af059ebed332a14b3be01250c2c0f51c47eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:04 +0000
Subject: [PATCH 08/42] fix: forget the waiting task of a channel when its wait
 is over

A channel kept the task that last waited on it. A later read, write or destroy
woke that task, which may wait for something else or be freed already.
---
 src/kern/itc/hev-task-channel.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 3855471..1aff3de 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -136,6 +136,16 @@ hev_task_channel_data_copy (void *dst, const void *src, size_t size)
     return size;
 }
 
+static void
+hev_task_channel_wait (HevTaskChannel *self)
+{
+    HevTask *task = self->task;
+
+    WRITE_ONCE (self->task, hev_task_self ());
+    hev_task_yield (HEV_TASK_WAITIO);
+    WRITE_ONCE (self->task, task);
+}
+
 EXPORT_SYMBOL ssize_t
 hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
 {
@@ -148,8 +158,7 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out;
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
@@ -198,8 +207,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out1;
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
@@ -235,8 +243,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
             break;
         }
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
-- 
2.43.0


From a287549dcd853755d9768764eb6d6aaf2edb5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:56 +0000
Subject: [PATCH 09/42] fix: offer a channel for select write when a buffer
 becomes free

A channel leaves the write list when its last buffer is taken, but it came back
only when a blocked writer was released. select_write then missed channels with
free buffers, and returned channels on which a write had to wait.
---
 src/kern/itc/hev-task-channel.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 1aff3de..3b575b6 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -170,18 +170,16 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         size = cbuf->size;
     size = hev_task_channel_data_copy (buffer, cbuf->data, size);
 
-    if (self->use_count == self->max_count) {
+    self->use_count--;
+    if (self->peer) {
         HevTaskChannel *peer = self->peer;
 
-        if (peer) {
-            if (peer->select)
-                hev_task_channel_select_add_write (peer->select, peer);
-            if (peer->task)
-                hev_task_wakeup (peer->task);
-        }
+        if (peer->select && hev_task_channel_is_select_writable (self))
+            hev_task_channel_select_add_write (peer->select, peer);
+        if (peer->task)
+            hev_task_wakeup (peer->task);
     }
 
-    self->use_count--;
     if (self->select && !hev_task_channel_is_readable (self))
         hev_task_channel_select_del_read (self->select, self);
 
-- 
2.43.0


From 481c8fda5c55fcb51040d26eae2b64d0e3e892ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:11 +0000
Subject: [PATCH 10/42] fix: accept NULL in free and realloc of the slice
 allocator

---
 src/mem/slice/hev-memory-allocator-slice.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index 4e14210..df538ea 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -142,6 +142,9 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
     HevMemorySlice *slice;
     int index;
 
+    if (!ptr)
+        return _hev_memory_allocator_alloc (allocator, size);
+
     if (0 == size) {
         _hev_memory_allocator_free (allocator, ptr);
         return NULL;
@@ -178,6 +181,9 @@ _hev_memory_allocator_free (HevMemoryAllocator *allocator, void *ptr)
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice = (HevMemorySlice *)ptr - 1;
 
+    if (!ptr)
+        return;
+
     if (slice->index < 0) {
         free (slice);
         return;
-- 
2.43.0


From 44f437178a8022c6d8dee9b803b65eae36874bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:31 +0000
Subject: [PATCH 11/42] fix: fail to resize a slice when the aligned size
 overflows

---
 src/mem/slice/hev-memory-allocator-slice.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index df538ea..b73fc16 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -152,6 +152,8 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
 
     slice = (HevMemorySlice *)ptr - 1;
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
+    if (0 == size)
+        return NULL;
     index = size / CACHED_SLICE_ALIGN;
 
     slice = realloc (slice, sizeof (HevMemorySlice) + size);
-- 
2.43.0


From 34c86483d23a270726f5471fd30977435f6a5f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:37 +0000
Subject: [PATCH 12/42] fix: keep the slice index of huge sizes out of the
 cached classes

---
 src/mem/slice/hev-memory-allocator-slice.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index b73fc16..0856e0e 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -88,7 +88,7 @@ _hev_memory_allocator_alloc (HevMemoryAllocator *allocator, size_t size)
 {
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice, **owner;
-    int index;
+    size_t index;
 
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
@@ -140,7 +140,7 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
                                size_t size)
 {
     HevMemorySlice *slice;
-    int index;
+    size_t index;
 
     if (!ptr)
         return _hev_memory_allocator_alloc (allocator, size);
-- 
2.43.0


From 5639ce46bb302db20c72e853d4069758de3c1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:43 +0000
Subject: [PATCH 13/42] fix: fail array allocations whose size overflows

---
 src/mem/api/hev-memory-allocator-api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index cdc5b25..e25a29b 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -45,6 +45,9 @@ hev_calloc (size_t nmemb, size_t size)
     if (!nmemb || !size)
         return NULL;
 
+    if (size > (size_t)-1 / nmemb)
+        return NULL;
+
     size *= nmemb;
     allocator = hev_memory_allocator_default ();
     data = hev_memory_allocator_alloc (allocator, size);
-- 
2.43.0


From ddff64df49460354e783c406859791fdb28c80e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:37 +0000
Subject: [PATCH 14/42] fix: do not divide by the size of an empty circular
 buffer

---
 src/lib/io/buffer/hev-circular-buffer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index 4d78c1d..8940a19 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -92,6 +92,9 @@ hev_circular_buffer_reading (HevCircularBuffer *self, struct iovec *iov)
 EXPORT_SYMBOL void
 hev_circular_buffer_read_finish (HevCircularBuffer *self, size_t size)
 {
+    if (!self->max_size)
+        return;
+
     self->rp = (self->rp + size) % self->max_size;
     self->use_size -= size;
 }
@@ -99,13 +102,15 @@ hev_circular_buffer_read_finish (HevCircularBuffer *self, size_t size)
 EXPORT_SYMBOL int
 hev_circular_buffer_writing (HevCircularBuffer *self, struct iovec *iov)
 {
-    size_t wp = (self->rp + self->use_size) % self->max_size;
-    size_t upper_size = self->max_size - wp;
+    size_t wp, upper_size;
     size_t spc_size = self->max_size - self->use_size;
 
     if (self->use_size == self->max_size)
         return 0;
 
+    wp = (self->rp + self->use_size) % self->max_size;
+    upper_size = self->max_size - wp;
+
     iov[0].iov_base = self->data + wp;
     if (spc_size <= upper_size) {
         iov[0].iov_len = spc_size;
-- 
2.43.0


From 384315179d286bb892b8a3eb8e32f9315c895644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:41 +0000
Subject: [PATCH 15/42] fix: fail to create a circular buffer when its size
 overflows

---
 src/lib/io/buffer/hev-circular-buffer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index 8940a19..d88bb0f 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -27,6 +27,9 @@ hev_circular_buffer_new (size_t max_size)
 {
     HevCircularBuffer *self;
 
+    if (max_size > (size_t)-1 - sizeof (HevCircularBuffer))
+        return NULL;
+
     self = hev_malloc (sizeof (HevCircularBuffer) + max_size);
     if (!self)
         return NULL;
-- 
2.43.0


From 91fa518c0d3cd92bb8d87f9b0f43655a305e45fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:21 +0000
Subject: [PATCH 16/42] fix: do not repeat peeked data when MSG_WAITALL is
 given too

---
 src/lib/io/socket/hev-task-io-socket.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7ca7ca5..67c44c2 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -131,7 +131,8 @@ retry:
         goto retry;
     }
 
-    if (!(flags & MSG_WAITALL))
+    /* peeked data stays in the queue, a retry would repeat it */
+    if ((flags & (MSG_WAITALL | MSG_PEEK)) != MSG_WAITALL)
         return s;
 
     if (s <= 0) {
@@ -203,7 +204,8 @@ retry:
         goto retry;
     }
 
-    if (!(flags & MSG_WAITALL))
+    /* peeked data stays in the queue, a retry would repeat it */
+    if ((flags & (MSG_WAITALL | MSG_PEEK)) != MSG_WAITALL)
         return s;
 
     if (s <= 0) {
@@ -290,7 +292,8 @@ retry:
         goto retry;
     }
 
-    if (!(flags & MSG_WAITALL))
+    /* peeked data stays in the queue, a retry would repeat it */
+    if ((flags & (MSG_WAITALL | MSG_PEEK)) != MSG_WAITALL)
         return s;
 
     if (s <= 0) {
-- 
2.43.0


From a85f59588913233b58370a235d4b35eb3ce88d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:31 +0000
Subject: [PATCH 17/42] fix: return address length, control length and flags of
 a received message

---
 src/lib/io/socket/hev-task-io-socket.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 67c44c2..8c68252 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -292,6 +292,16 @@ retry:
         goto retry;
     }
 
+    if (s >= 0 && size == 0) {
+        msg->msg_namelen = mh.msg_namelen;
+        msg->msg_controllen = mh.msg_controllen;
+        msg->msg_flags = mh.msg_flags;
+        mh.msg_name = NULL;
+        mh.msg_namelen = 0;
+        mh.msg_control = NULL;
+        mh.msg_controllen = 0;
+    }
+
     /* peeked data stays in the queue, a retry would repeat it */
     if ((flags & (MSG_WAITALL | MSG_PEEK)) != MSG_WAITALL)
         return s;
-- 
2.43.0


From e9320ca0c6e77c4fbc2c826bebbf8191b3736551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:40 +0000
Subject: [PATCH 18/42] fix: send the control data of a message only with its
 first part

---
 src/lib/io/socket/hev-task-io-socket.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 8c68252..2ba8a17 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -378,6 +378,9 @@ retry:
 
     size += s;
     if (size < len) {
+        mh.msg_control = NULL;
+        mh.msg_controllen = 0;
+
         for (i = 0; i < mh.msg_iovlen; i++) {
             if (s < mh.msg_iov[i].iov_len) {
                 mh.msg_iov[i].iov_base += s;
-- 
2.43.0


From da7515f33ae6ede217d8b23818aa46f9038f1141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:07 +0000
Subject: [PATCH 19/42] fix: do not overrun the address buffer when recvfrom
 continues

---
 src/lib/io/socket/hev-task-io-socket.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 2ba8a17..13e4f42 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -215,8 +215,12 @@ retry:
     }
 
     size += s;
-    if (size < len)
+    if (size < len) {
+        /* the returned length may exceed the caller's address buffer */
+        addr = NULL;
+        addr_len = NULL;
         goto retry;
+    }
 
     return size;
 }
-- 
2.43.0


From 93ebc90fa4064420ce5b53f8beb679285232dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:51 +0000
Subject: [PATCH 20/42] fix: report entries of poll that cannot be waited for
 at once

---
 src/lib/io/poll/hev-task-io-poll.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index d82421a..2981d8c 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -15,7 +15,7 @@
 EXPORT_SYMBOL int
 hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
 {
-    int res;
+    int res = 0;
 
     if (timeout == 0) {
         res = poll (fds, nfds, 0);
@@ -24,20 +24,23 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
         unsigned int i;
 
         for (i = 0; i < nfds; i++) {
-            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0)
-                hev_task_add_fd (task, fds[i].fd, fds[i].events);
+            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) == 0)
+                continue;
+            /* no event will come for it, it may be ready already */
+            if (hev_task_add_fd (task, fds[i].fd, fds[i].events) < 0)
+                res = poll (fds, nfds, 0);
         }
 
         if (timeout > 0) {
-            do {
+            while (timeout > 0 && res == 0) {
                 timeout = hev_task_sleep (timeout);
                 res = poll (fds, nfds, 0);
-            } while (timeout > 0 && res == 0);
+            }
         } else {
-            do {
+            while (res == 0) {
                 hev_task_yield (HEV_TASK_WAITIO);
                 res = poll (fds, nfds, 0);
-            } while (res == 0);
+            }
         }
     }
 
-- 
2.43.0


From 1212b9ac073b303a5228066f772f9aa28ecb0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:59 +0000
Subject: [PATCH 21/42] fix: close a descriptor used for both directions of a
 CIO fd only once

---
 src/lib/cio/fd/hev-task-cio-fd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 4d0ffb9..78ca7bf 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -126,7 +126,7 @@ _hev_task_cio_fd_destruct (HevObject *base)
 
     if (self->fdi >= 0)
         close (self->fdi);
-    if (self->fdo >= 0)
+    if (self->fdo >= 0 && self->fdo != self->fdi)
         close (self->fdo);
 
     HEV_TASK_CIO_TYPE->destruct (base);
-- 
2.43.0


From 09eda8ad170dc6d946704951c2f0c086bbd7bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:38 +0000
Subject: [PATCH 22/42] fix: skip empty vector elements in the CIO buffer

---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 1af7e63..f8fc80b 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -219,6 +219,9 @@ _hev_task_cio_buffer_readv (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (v->iov_len == 0)
+            continue;
+
         res = _hev_task_cio_buffer_read (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
@@ -249,6 +252,9 @@ _hev_task_cio_buffer_writev (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (v->iov_len == 0)
+            continue;
+
         res = _hev_task_cio_buffer_write (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
-- 
2.43.0


From 98f5c92f17530c1b62f5446392020a4e4ecdb933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:19 +0000
Subject: [PATCH 23/42] fix: flush a CIO buffer until the next layer cannot
 take more

---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 25 ++++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index f8fc80b..0b199dd 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -147,23 +147,22 @@ _hev_task_cio_buffer_flush (HevTaskCIOBuffer *self)
     if (!self->wbuf)
         return 0;
 
-    iovcnt = hev_circular_buffer_reading (self->wbuf, iov);
-    if (iovcnt == 0)
-        return 0;
+    for (;;) {
+        iovcnt = hev_circular_buffer_reading (self->wbuf, iov);
+        if (iovcnt == 0)
+            return 0;
 
-    res = hev_task_cio_next_writev (base, iov, iovcnt);
-    if (res < 0)
-        return res;
+        res = hev_task_cio_next_writev (base, iov, iovcnt);
+        if (res < 0)
+            return res;
 
-    hev_circular_buffer_read_finish (self->wbuf, res);
+        if (res == 0) {
+            base->err = EAGAIN;
+            return -1;
+        }
 
-    res = hev_circular_buffer_get_use_size (self->wbuf);
-    if (res) {
-        base->err = EAGAIN;
-        return -1;
+        hev_circular_buffer_read_finish (self->wbuf, res);
     }
-
-    return 0;
 }
 
 static ssize_t
-- 
2.43.0


From b9929e12f03dc023072132c58214c4b22debecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:43 +0000
Subject: [PATCH 24/42] fix: deliver what output layers hold before CIO splice
 waits or returns

Splice flushed the output chain once after a write and ignored the
result. When the flush would block, the bytes stayed in the layer's
buffer and were never sent unless more input arrived. They were lost
when the input ended. Flush on every round, and keep going while the
output chain still holds data.
---
 src/lib/cio/base/hev-task-cio.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index f64cd73..de85967 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -426,6 +426,7 @@ retry:
 static int
 task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
 {
+    HevTaskCIOClass *okptr = HEV_OBJECT_GET_CLASS (o);
     struct iovec iov[2];
     int res = 1, iovc;
 
@@ -445,8 +446,7 @@ task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
 
     iovc = hev_circular_buffer_reading (buf, iov);
     if (iovc) {
-        HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (o);
-        ssize_t s = kptr->writev (o, iov, iovc);
+        ssize_t s = okptr->writev (o, iov, iovc);
         if (0 >= s) {
             if ((0 > s) && (o->err == EAGAIN))
                 res = 0;
@@ -454,11 +454,16 @@ task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
                 res = -1;
         } else {
             hev_circular_buffer_read_finish (buf, s);
-            kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);
             res = 1;
         }
     }
 
+    /* wait for the output layers to pass on what they hold */
+    o->err = 0;
+    if ((okptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL) < 0) &&
+        (o->err == EAGAIN) && (res < 0))
+        res = 0;
+
     return res;
 }
 
-- 
2.43.0


From 2e09c2803d4786b0df28f777e90eab4ce42472f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:43 +0000
Subject: [PATCH 25/42] fix: drop a reference to the next CIO instead of
 destroying it

Destroying a CIO called the destructor of the next layer directly, also
when other references to that layer existed. Those references were left
dangling. Drop the reference that the chain holds instead.
---
 src/lib/cio/base/hev-task-cio.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.h b/src/lib/cio/base/hev-task-cio.h
index 71979f6..3fb22a3 100644
--- a/src/lib/cio/base/hev-task-cio.h
+++ b/src/lib/cio/base/hev-task-cio.h
@@ -678,13 +678,11 @@ static inline void
 hev_task_cio_next_destruct (HevTaskCIO *self)
 {
     HevTaskCIO *next = self->next;
-    HevObjectClass *nkptr;
 
     if (!next)
         return;
 
-    nkptr = HEV_OBJECT_GET_CLASS (next);
-    nkptr->destruct (HEV_OBJECT (next));
+    hev_object_unref (HEV_OBJECT (next));
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From a7525870e586c7d33d4df21fd4b73e46a5c0c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:17 +0000
Subject: [PATCH 26/42] fix: order all uses of an atomic object before its
 destruction

The reference count was dropped with relaxed memory order. The thread
that dropped the last reference could therefore destroy the object
before the accesses that other threads made through their references
became visible to it.
---
 src/lib/object/hev-object-atomic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 4d93ba7..326e755 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -47,7 +47,7 @@ _hev_object_atomic_ref (HevObject *base, int ref)
         return;
     }
 
-    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_relaxed);
+    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_acq_rel);
     if (rc > 1)
         return;
 
-- 
2.43.0


From 80e1dc2c42b4f910d6674385fe27082898253bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:31 +0000
Subject: [PATCH 27/42] fix: initialise object classes only once when threads
 share them

Each class was filled in on first use, and its name, which marks it as
ready, was set before the methods. Another thread that used the type at
that moment called methods that were not set yet.
---
 src/lib/cio/base/hev-task-cio.c          | 20 ++++++++++++------
 src/lib/cio/buffer/hev-task-cio-buffer.c | 20 ++++++++++++------
 src/lib/cio/fd/hev-task-cio-fd.c         | 20 ++++++++++++------
 src/lib/cio/null/hev-task-cio-null.c     | 20 ++++++++++++------
 src/lib/cio/socket/hev-task-cio-socket.c | 20 ++++++++++++------
 src/lib/object/hev-object-atomic.c       | 27 +++++++++++++++---------
 src/lib/object/hev-object.c              | 26 +++++++++++++++--------
 7 files changed, 99 insertions(+), 54 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index de85967..3858092 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -548,16 +549,15 @@ _hev_task_cio_destruct (HevObject *base)
     HEV_OBJECT_TYPE->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_class (void)
+static HevTaskCIOClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+hev_task_cio_class_init (void)
 {
-    static HevTaskCIOClass klass;
     HevTaskCIOClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
 
     okptr->name = "HevTaskCIO";
@@ -572,6 +572,12 @@ hev_task_cio_class (void)
     kptr->readv_dgram = hev_task_cio_next_readv_dgram;
     kptr->writev_dgram = hev_task_cio_next_writev_dgram;
     kptr->ctrl = hev_task_cio_next_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_class (void)
+{
+    pthread_once (&klass_once, hev_task_cio_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 0b199dd..1d23ac0 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -319,17 +320,16 @@ _hev_task_cio_buffer_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_buffer_class (void)
+static HevTaskCIOBufferClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+hev_task_cio_buffer_class_init (void)
 {
-    static HevTaskCIOBufferClass klass;
     HevTaskCIOBufferClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOBuffer";
@@ -341,6 +341,12 @@ hev_task_cio_buffer_class (void)
     ckptr->readv = _hev_task_cio_buffer_readv;
     ckptr->writev = _hev_task_cio_buffer_writev;
     ckptr->ctrl = _hev_task_cio_buffer_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_buffer_class (void)
+{
+    pthread_once (&klass_once, hev_task_cio_buffer_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 78ca7bf..d921f2b 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 #include <unistd.h>
 
 #include "kern/task/hev-task.h"
@@ -133,17 +134,16 @@ _hev_task_cio_fd_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_fd_class (void)
+static HevTaskCIOFdClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+hev_task_cio_fd_class_init (void)
 {
-    static HevTaskCIOFdClass klass;
     HevTaskCIOFdClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOFd";
@@ -155,6 +155,12 @@ hev_task_cio_fd_class (void)
     ckptr->readv = _hev_task_cio_fd_readv;
     ckptr->writev = _hev_task_cio_fd_writev;
     ckptr->ctrl = _hev_task_cio_fd_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_fd_class (void)
+{
+    pthread_once (&klass_once, hev_task_cio_fd_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/null/hev-task-cio-null.c b/src/lib/cio/null/hev-task-cio-null.c
index c185e80..43d26bc 100644
--- a/src/lib/cio/null/hev-task-cio-null.c
+++ b/src/lib/cio/null/hev-task-cio-null.c
@@ -8,6 +8,7 @@
  */
 
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -130,17 +131,16 @@ _hev_task_cio_null_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_null_class (void)
+static HevTaskCIONullClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+hev_task_cio_null_class_init (void)
 {
-    static HevTaskCIONullClass klass;
     HevTaskCIONullClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIONull";
@@ -156,6 +156,12 @@ hev_task_cio_null_class (void)
     ckptr->readv_dgram = _hev_task_cio_null_readv_dgram;
     ckptr->writev_dgram = _hev_task_cio_null_writev_dgram;
     ckptr->ctrl = _hev_task_cio_null_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_null_class (void)
+{
+    pthread_once (&klass_once, hev_task_cio_null_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/socket/hev-task-cio-socket.c b/src/lib/cio/socket/hev-task-cio-socket.c
index 02271a4..2a1f3dd 100644
--- a/src/lib/cio/socket/hev-task-cio-socket.c
+++ b/src/lib/cio/socket/hev-task-cio-socket.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 #include <unistd.h>
 #include <netinet/in.h>
 #include <sys/socket.h>
@@ -214,17 +215,16 @@ _hev_task_cio_socket_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_socket_class (void)
+static HevTaskCIOSocketClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+hev_task_cio_socket_class_init (void)
 {
-    static HevTaskCIOSocketClass klass;
     HevTaskCIOSocketClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOSocket";
@@ -240,6 +240,12 @@ hev_task_cio_socket_class (void)
     ckptr->readv_dgram = _hev_task_cio_socket_readv_dgram;
     ckptr->writev_dgram = _hev_task_cio_socket_writev_dgram;
     ckptr->ctrl = _hev_task_cio_socket_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_socket_class (void)
+{
+    pthread_once (&klass_once, hev_task_cio_socket_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 326e755..8dc422e 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -8,6 +8,7 @@
  */
 
 #include <string.h>
+#include <pthread.h>
 #include <stdatomic.h>
 
 #include "lib/misc/hev-compiler.h"
@@ -54,20 +55,26 @@ _hev_object_atomic_ref (HevObject *base, int ref)
     kptr->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_object_atomic_class (void)
+static HevObjectAtomicClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+hev_object_atomic_class_init (void)
 {
-    static HevObjectAtomicClass klass;
     HevObjectAtomicClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
 
-    if (!okptr->name) {
-        memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
+    memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
 
-        okptr->name = "HevObjectAtomic";
-        okptr->destruct = _hev_object_atomic_destruct;
-        okptr->ref = _hev_object_atomic_ref;
-    }
+    okptr->name = "HevObjectAtomic";
+    okptr->destruct = _hev_object_atomic_destruct;
+    okptr->ref = _hev_object_atomic_ref;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_object_atomic_class (void)
+{
+    pthread_once (&klass_once, hev_object_atomic_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/object/hev-object.c b/src/lib/object/hev-object.c
index 910cd2f..914450b 100644
--- a/src/lib/object/hev-object.c
+++ b/src/lib/object/hev-object.c
@@ -7,6 +7,8 @@
  ============================================================================
  */
 
+#include <pthread.h>
+
 #include "lib/misc/hev-compiler.h"
 
 #include "hev-object.h"
@@ -42,17 +44,23 @@ _hev_object_ref (HevObject *self, int ref)
     kptr->destruct (self);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_object_class (void)
+static HevObjectClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+hev_object_class_init (void)
 {
-    static HevObjectClass klass;
     HevObjectClass *kptr = &klass;
 
-    if (!kptr->name) {
-        kptr->name = "HevObject";
-        kptr->destruct = _hev_object_destruct;
-        kptr->ref = _hev_object_ref;
-    }
+    kptr->name = "HevObject";
+    kptr->destruct = _hev_object_destruct;
+    kptr->ref = _hev_object_ref;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_object_class (void)
+{
+    pthread_once (&klass_once, hev_object_class_init);
 
-    return kptr;
+    return &klass;
 }
-- 
2.43.0


From 2cc3d9a26fb613ed366a500a8dd3253175d14094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:17 +0000
Subject: [PATCH 28/42] fix: do not share the page size variable between
 threads

Threads that created tasks at the same time read and wrote the cached
page size without synchronisation. The C library already caches it.
---
 src/kern/task/hev-task-stack-mmap.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/kern/task/hev-task-stack-mmap.c b/src/kern/task/hev-task-stack-mmap.c
index 6008780..55b391d 100644
--- a/src/kern/task/hev-task-stack-mmap.c
+++ b/src/kern/task/hev-task-stack-mmap.c
@@ -31,10 +31,7 @@ HevTaskStack *
 hev_task_stack_new (int size)
 {
     HevTaskStack *self;
-    static int page_size;
-
-    if (!page_size)
-        page_size = getpagesize ();
+    int page_size = getpagesize ();
 
     size = ALIGN_UP (size, page_size);
 #ifdef ENABLE_STACK_OVERFLOW_DETECTION
-- 
2.43.0


From 56bdf25cca6764dbe67c5e9dbbae026c91ad5701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:51 +0000
Subject: [PATCH 29/42] fix: share the fault handlers between the systems of
 all threads

Each task system saved and replaced the process-wide handlers of SIGSEGV
and SIGBUS. When systems of several threads were finalised in another
order than the reverse of their initialisation, the handler of a
finalised system stayed installed and the handler of the program was
lost. A system that was initialised second passed faults on to its own
handler again. Install the handlers with the first system and restore
them with the last one.
---
 src/lib/misc/hev-task-stack-detector.c | 59 ++++++++++++++++++++------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index ee0e55c..a93c3d0 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -10,6 +10,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <signal.h>
+#include <pthread.h>
 
 #if defined(__APPLE__)
 #include <Availability.h>
@@ -26,12 +27,16 @@
 
 struct _HevTaskStackDetector
 {
-    struct sigaction bus_sa;
-    struct sigaction segv_sa;
     stack_t oss;
     char stack[SIGSTKSZ];
 };
 
+/* signal handlers are shared by the task systems of all threads */
+static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+static struct sigaction bus_sa;
+static struct sigaction segv_sa;
+static unsigned int users;
+
 static int
 setaltstack (const stack_t *ss, stack_t *oss)
 {
@@ -47,7 +52,6 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 {
     HevTaskSystemContext *context = hev_task_system_get_context ();
     HevListNode *node = hev_list_first (&context->all_tasks);
-    HevTaskStackDetector *self = context->stack_detector;
 
     for (; node; node = hev_list_node_next (node)) {
         HevTask *task = container_of (node, HevTask, list_node);
@@ -67,21 +71,54 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 
     switch (signo) {
     case SIGBUS:
-        self->bus_sa.sa_sigaction (signo, si, unused);
+        bus_sa.sa_sigaction (signo, si, unused);
         break;
     case SIGSEGV:
-        self->segv_sa.sa_sigaction (signo, si, unused);
+        segv_sa.sa_sigaction (signo, si, unused);
         break;
     default:
         return;
     }
 }
 
+static int
+install_handlers (void)
+{
+    struct sigaction sa;
+    int res = 0;
+
+    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
+    sa.sa_sigaction = signal_handler;
+    sigemptyset (&sa.sa_mask);
+
+    pthread_mutex_lock (&mutex);
+    if (!users) {
+        res |= sigaction (SIGBUS, &sa, &bus_sa);
+        res |= sigaction (SIGSEGV, &sa, &segv_sa);
+    }
+    if (res == 0)
+        users++;
+    pthread_mutex_unlock (&mutex);
+
+    return res;
+}
+
+static void
+restore_handlers (void)
+{
+    pthread_mutex_lock (&mutex);
+    users--;
+    if (!users) {
+        sigaction (SIGBUS, &bus_sa, NULL);
+        sigaction (SIGSEGV, &segv_sa, NULL);
+    }
+    pthread_mutex_unlock (&mutex);
+}
+
 HevTaskStackDetector *
 hev_task_stack_detector_new (void)
 {
     HevTaskStackDetector *self;
-    struct sigaction sa;
     int res = 0;
     stack_t ss;
 
@@ -93,13 +130,8 @@ hev_task_stack_detector_new (void)
     ss.ss_size = SIGSTKSZ;
     ss.ss_flags = 0;
 
-    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
-    sa.sa_sigaction = signal_handler;
-    sigemptyset (&sa.sa_mask);
-
     res |= setaltstack (&ss, &self->oss);
-    res |= sigaction (SIGBUS, &sa, &self->bus_sa);
-    res |= sigaction (SIGSEGV, &sa, &self->segv_sa);
+    res |= install_handlers ();
     if (res < 0)
         goto free;
 
@@ -114,8 +146,7 @@ exit:
 void
 hev_task_stack_detector_destroy (HevTaskStackDetector *self)
 {
-    sigaction (SIGBUS, &self->bus_sa, NULL);
-    sigaction (SIGSEGV, &self->segv_sa, NULL);
+    restore_handlers ();
     setaltstack (&self->oss, NULL);
     free (self);
 }
-- 
2.43.0


From 87f6b3af10702d1e9779f50b8be66b2c99d43289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:47 +0000
Subject: [PATCH 30/42] fix: release the DNS proxy in the thread that still
 uses it

A system destroyed its DNS proxy while the handler in the aide thread could
still be reading from it, right after it had sent the last reply.  The
handler now releases the proxy when it finds the other end closed.
---
 src/lib/dns/hev-task-dns-proxy.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/lib/dns/hev-task-dns-proxy.c b/src/lib/dns/hev-task-dns-proxy.c
index 3310e5d..0f0e50b 100644
--- a/src/lib/dns/hev-task-dns-proxy.c
+++ b/src/lib/dns/hev-task-dns-proxy.c
@@ -9,6 +9,7 @@
 
 #include <poll.h>
 #include <errno.h>
+#include <stdlib.h>
 #include <unistd.h>
 
 #include "kern/aide/hev-task-aide.h"
@@ -16,7 +17,6 @@
 #include "kern/core/hev-task-system-private.h"
 #include "lib/io/basic/hev-task-io.h"
 #include "lib/io/socket/hev-task-io-socket.h"
-#include "mem/api/hev-memory-allocator-api.h"
 
 #include "hev-task-dns-proxy.h"
 
@@ -101,9 +101,17 @@ hev_task_dns_server_handler (unsigned int revents, void *data)
         int res;
 
         res = read (proxy->work.fd, &sync, sizeof (sync));
-        if (0 >= res)
+        if (0 > res)
             break;
 
+        /* The other end is closed, nobody uses the proxy any more. */
+        if (0 == res) {
+            hev_task_aide_del (&proxy->work);
+            close (proxy->work.fd);
+            free (proxy);
+            break;
+        }
+
         switch (proxy->call->type) {
         case HEV_TASK_DNS_CALL_GETADDRINFO:
             hev_task_dns_server_getaddrinfo (proxy->call);
@@ -141,7 +149,7 @@ hev_task_dns_proxy_new (void)
     if (0 > res)
         return NULL;
 
-    self = hev_malloc0 (sizeof (HevTaskDNSProxy));
+    self = calloc (1, sizeof (HevTaskDNSProxy));
     if (!self)
         goto exit;
 
@@ -173,7 +181,7 @@ close:
     close (fds[0]);
     close (fds[1]);
 free:
-    hev_free (self);
+    free (self);
 exit:
     return NULL;
 }
@@ -181,10 +189,8 @@ exit:
 void
 hev_task_dns_proxy_destroy (HevTaskDNSProxy *self)
 {
-    hev_task_aide_del (&self->work);
-    close (self->work.fd);
+    /* The aide thread may still be in the handler, it releases the proxy. */
     close (self->fd);
-    hev_free (self);
 }
 
 static void
-- 
2.43.0


From 098fcf2e5299beb8c61fdef18cf4a3f41d848305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:22 +0000
Subject: [PATCH 31/42] fix: start the aide thread only once and report its
 failures

Two threads that used the aide for the first time at the same moment could
start two helper threads, read the reactor without a lock, or fail because
the other one had just been faster.  A helper thread that could not be
started, or that failed to create its reactor, left the caller with a null
reactor or waiting for ever.
---
 src/kern/aide/hev-task-aide.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index 95bc00c..22757b6 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -18,7 +18,7 @@
 
 #include "hev-task-aide.h"
 
-static pthread_t thread;
+static int running;
 static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static HevTaskIOReactor *reactor;
@@ -26,16 +26,24 @@ static HevTaskIOReactor *reactor;
 static void *
 hev_task_aide_entry (void *data)
 {
+    HevTaskIOReactor *self;
+
+    self = hev_task_io_reactor_new ();
+
     pthread_mutex_lock (&mutex);
-    reactor = hev_task_io_reactor_new ();
-    pthread_cond_signal (&cond);
+    reactor = self;
+    running = !!self;
+    pthread_cond_broadcast (&cond);
     pthread_mutex_unlock (&mutex);
 
+    if (!self)
+        return NULL;
+
     for (;;) {
         HevTaskIOReactorWaitEvent events[256];
         int i, count;
 
-        count = hev_task_io_reactor_wait (reactor, events, 256, -1);
+        count = hev_task_io_reactor_wait (self, events, 256, -1);
 
         for (i = 0; i < count; i++) {
             HevTaskAideWork *work;
@@ -54,19 +62,20 @@ hev_task_aide_entry (void *data)
 int
 hev_task_aide_init (void)
 {
-    int res = -1;
-
-    if (reactor)
-        return 0;
+    pthread_t thread;
+    int res = 0;
 
     pthread_mutex_lock (&mutex);
-    if (!reactor) {
+    if (!running) {
         res = pthread_create (&thread, NULL, hev_task_aide_entry, NULL);
         if (0 == res) {
-            while (!reactor)
-                pthread_cond_wait (&cond, &mutex);
+            pthread_detach (thread);
+            running = 1;
         }
     }
+    while (running && !reactor)
+        pthread_cond_wait (&cond, &mutex);
+    res = reactor ? 0 : -1;
     pthread_mutex_unlock (&mutex);
 
     return res;
-- 
2.43.0


From 1f6a600fbf28efb9fad89057f3485d5e4ccfead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:53 +0000
Subject: [PATCH 32/42] fix: fail allocations in a thread whose allocator
 cannot be created

The first allocation of a thread without a task system creates its default
allocator.  When there was no memory for it, the call crashed instead of
returning NULL.
---
 src/mem/base/hev-memory-allocator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mem/base/hev-memory-allocator.c b/src/mem/base/hev-memory-allocator.c
index 7262928..3e56ea1 100644
--- a/src/mem/base/hev-memory-allocator.c
+++ b/src/mem/base/hev-memory-allocator.c
@@ -76,17 +76,26 @@ hev_memory_allocator_unref (HevMemoryAllocator *self)
 EXPORT_SYMBOL void *
 hev_memory_allocator_alloc (HevMemoryAllocator *self, size_t size)
 {
+    if (!self)
+        return NULL;
+
     return self->alloc (self, size);
 }
 
 EXPORT_SYMBOL void *
 hev_memory_allocator_realloc (HevMemoryAllocator *self, void *ptr, size_t size)
 {
+    if (!self)
+        return NULL;
+
     return self->realloc (self, ptr, size);
 }
 
 EXPORT_SYMBOL void
 hev_memory_allocator_free (HevMemoryAllocator *self, void *ptr)
 {
+    if (!self)
+        return;
+
     return self->free (self, ptr);
 }
-- 
2.43.0


From ff0bdb1d0da7d65052f5af955ad495e986179a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:19 +0000
Subject: [PATCH 33/42] fix: close the reactor's descriptor when its setup
 fails

---
 src/kern/io/hev-task-io-reactor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/io/hev-task-io-reactor.c b/src/kern/io/hev-task-io-reactor.c
index 8abf1d3..4f0d698 100644
--- a/src/kern/io/hev-task-io-reactor.c
+++ b/src/kern/io/hev-task-io-reactor.c
@@ -32,12 +32,14 @@ hev_task_io_reactor_new (void)
 
     flags = fcntl (self->fd, F_GETFD);
     if (flags < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
 
     flags |= FD_CLOEXEC;
     if (fcntl (self->fd, F_SETFD, flags) < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
-- 
2.43.0


From ffb4976490319a74f6399f2cec7cc52e15ba4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:26 +0000
Subject: [PATCH 34/42] fix: leave the memory allocator alone when system init
 fails

Creating a second task system in a thread fails, but it had already replaced
the allocator of the running system, whose blocks were then given back to the
wrong one.  An init that failed for other reasons left its allocator behind.
---
 src/kern/core/hev-task-system.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 10f5761..f0c2604 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -46,6 +46,11 @@ hev_task_system_init (void)
     HevMemoryAllocator *allocator = NULL;
     HevTaskSystemContext *context;
 
+    pthread_once (&key_once, pthread_key_creator);
+
+    if (hev_task_system_get_context ())
+        goto exit;
+
 #ifdef ENABLE_MEMALLOC_SLICE
     allocator = hev_memory_allocator_slice_new ();
 #endif
@@ -53,14 +58,9 @@ hev_task_system_init (void)
     if (allocator)
         hev_memory_allocator_unref (allocator);
 
-    pthread_once (&key_once, pthread_key_creator);
-
-    if (hev_task_system_get_context ())
-        goto exit;
-
     context = hev_malloc0 (sizeof (HevTaskSystemContext));
     if (!context)
-        goto exit;
+        goto free_allocator;
 
     if (hev_task_system_set_context (context) < 0)
         goto free_context;
@@ -87,6 +87,10 @@ rest_context:
     hev_task_system_set_context (NULL);
 free_context:
     hev_free (context);
+free_allocator:
+    allocator = hev_memory_allocator_set_default (NULL);
+    if (allocator)
+        hev_memory_allocator_unref (allocator);
 exit:
     return -1;
 }
-- 
2.43.0


From f2a9d0c765f6f2a4e1fe6eae2f95b794e21a3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:35 +0000
Subject: [PATCH 35/42] fix: notice when the system context cannot be stored

pthread_setspecific reports failures by positive numbers, so init went on
with a null context and crashed.
---
 src/kern/core/hev-task-system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index f0c2604..20887a6 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -62,7 +62,7 @@ hev_task_system_init (void)
     if (!context)
         goto free_allocator;
 
-    if (hev_task_system_set_context (context) < 0)
+    if (hev_task_system_set_context (context) != 0)
         goto free_context;
 
     context->reactor = hev_task_io_reactor_new ();
-- 
2.43.0


From 02e2faf66f1e38fe79cc4f4911e58c164e90470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:08 +0000
Subject: [PATCH 36/42] fix: do not lose an allocator that cannot be installed

When the thread specific storage of the default allocator cannot be set, the
new allocator was never released.
---
 src/mem/base/hev-memory-allocator.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mem/base/hev-memory-allocator.c b/src/mem/base/hev-memory-allocator.c
index 3e56ea1..300058f 100644
--- a/src/mem/base/hev-memory-allocator.c
+++ b/src/mem/base/hev-memory-allocator.c
@@ -35,7 +35,10 @@ hev_memory_allocator_default (void)
     allocator = pthread_getspecific (key);
     if (!allocator) {
         allocator = hev_memory_allocator_simple_new ();
-        pthread_setspecific (key, allocator);
+        if (allocator && pthread_setspecific (key, allocator) != 0) {
+            hev_memory_allocator_unref (allocator);
+            allocator = NULL;
+        }
     }
 
     return allocator;
@@ -49,7 +52,8 @@ hev_memory_allocator_set_default (HevMemoryAllocator *allocator)
     pthread_once (&key_once, pthread_key_creator);
 
     old_allocator = pthread_getspecific (key);
-    pthread_setspecific (key, allocator);
+    if (pthread_setspecific (key, allocator) != 0)
+        return allocator;
 
     return old_allocator;
 }
-- 
2.43.0


From f7517581b53edd3356c680b06bb04c16135a761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:24 +0000
Subject: [PATCH 37/42] fix: check the memory of a heap stack before marking it

---
 src/kern/task/hev-task-stack-heap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kern/task/hev-task-stack-heap.c b/src/kern/task/hev-task-stack-heap.c
index 63d9ffc..3357bbb 100644
--- a/src/kern/task/hev-task-stack-heap.c
+++ b/src/kern/task/hev-task-stack-heap.c
@@ -70,9 +70,10 @@ hev_task_stack_new (int size)
 
     size += STACK_OVERFLOW_DETECTION_SIZE;
     self = hev_malloc (sizeof (HevTaskStack) + size);
-    if (self)
-        self->size = size;
+    if (!self)
+        return NULL;
 
+    self->size = size;
     hev_task_stack_detection_mark (self);
     return self;
 }
-- 
2.43.0


From 0580eaf68feb776a6ee6b0e297f517451d88110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:20 +0000
Subject: [PATCH 38/42] fix: pass on faults of threads without a task system

---
 src/lib/misc/hev-task-stack-detector.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index a93c3d0..d0c05ea 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -51,7 +51,11 @@ static void
 signal_handler (int signo, siginfo_t *si, void *unused)
 {
     HevTaskSystemContext *context = hev_task_system_get_context ();
-    HevListNode *node = hev_list_first (&context->all_tasks);
+    HevListNode *node = NULL;
+
+    /* the faulting thread may have no task system */
+    if (context)
+        node = hev_list_first (&context->all_tasks);
 
     for (; node; node = hev_list_node_next (node)) {
         HevTask *task = container_of (node, HevTask, list_node);
-- 
2.43.0


From 26ddea5b5cae33d07a3b8e6ec359bd3c2c54a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:23 +0000
Subject: [PATCH 39/42] fix: let poll entries of the same descriptor share
 their conditions

---
 src/lib/io/poll/hev-task-io-poll.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index 2981d8c..861d423 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -24,10 +24,18 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
         unsigned int i;
 
         for (i = 0; i < nfds; i++) {
-            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) == 0)
+            unsigned int j, events = 0;
+
+            /* several entries may share the descriptor's registration */
+            for (j = 0; j < nfds; j++) {
+                if (fds[j].fd == fds[i].fd)
+                    events |= fds[j].events;
+            }
+
+            if (hev_task_mod_fd (task, fds[i].fd, events) == 0)
                 continue;
             /* no event will come for it, it may be ready already */
-            if (hev_task_add_fd (task, fds[i].fd, fds[i].events) < 0)
+            if (hev_task_add_fd (task, fds[i].fd, events) < 0)
                 res = poll (fds, nfds, 0);
         }
 
-- 
2.43.0


From ad71cf78b9384f8c5fd14dd7a3e90ad4a180d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:26 +0000
Subject: [PATCH 40/42] fix: refuse channels whose size overflows

---
 src/kern/itc/hev-task-channel.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 3b575b6..d845b9c 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -28,19 +28,28 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
                                    unsigned int buffers)
 {
     HevTaskChannel *c1, *c2;
-    unsigned int buffers_size;
-    unsigned int data_size = 0;
+    size_t buffers_size;
+    size_t data_size = 0;
+    size_t total_size;
 
     buffers += 1;
-    if (buffers > 1)
-        data_size = size * buffers;
-    buffers_size = sizeof (HevTaskChannelBuffer) * buffers;
+    if (buffers == 0)
+        goto err0;
+    if (buffers > 1 && __builtin_mul_overflow (size, buffers, &data_size))
+        goto err0;
+    if (__builtin_mul_overflow (sizeof (HevTaskChannelBuffer), buffers,
+                                &buffers_size))
+        goto err0;
+    total_size = sizeof (HevTaskChannel);
+    if (__builtin_add_overflow (total_size, buffers_size, &total_size) ||
+        __builtin_add_overflow (total_size, data_size, &total_size))
+        goto err0;
 
-    c1 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
+    c1 = hev_malloc (total_size);
     if (!c1)
         goto err0;
 
-    c2 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
+    c2 = hev_malloc (total_size);
     if (!c2)
         goto err1;
 
@@ -60,8 +69,10 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
         unsigned int i;
 
         for (i = 0; i < buffers; i++) {
-            c1->buffers[i].data = (void *)c1->buffers + buffers_size + size * i;
-            c2->buffers[i].data = (void *)c2->buffers + buffers_size + size * i;
+            size_t offset = buffers_size + (size_t)size * i;
+
+            c1->buffers[i].data = (void *)c1->buffers + offset;
+            c2->buffers[i].data = (void *)c2->buffers + offset;
         }
     }
 
-- 
2.43.0


From 32f9488e70ae59888b8bc76621a312a2dd9f6c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:51 +0000
Subject: [PATCH 41/42] fix: wake all expired sleepers at once

A sleeper became ready only after the sleeper before it had run, so a
task of low priority kept others asleep past their time.
---
 src/kern/core/hev-task-system-schedule.c |  5 ++-
 src/kern/time/hev-task-timer.c           | 45 ++++++++++++++----------
 src/kern/time/hev-task-timer.h           |  1 +
 3 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/kern/core/hev-task-system-schedule.c b/src/kern/core/hev-task-system-schedule.c
index d04cfd5..91f792c 100644
--- a/src/kern/core/hev-task-system-schedule.c
+++ b/src/kern/core/hev-task-system-schedule.c
@@ -167,7 +167,10 @@ hev_task_system_io_poll (HevTaskSystemContext *ctx, int timeout)
         HevTaskSchedEntity *sched_entity;
 
         sched_entity = hev_task_io_reactor_wait_event_get_data (&events[i]);
-        hev_task_system_wakeup_task_with_context (ctx, sched_entity->task);
+        if (sched_entity == &ctx->timer->sched_entity)
+            hev_task_timer_update (ctx->timer);
+        else
+            hev_task_system_wakeup_task_with_context (ctx, sched_entity->task);
     }
 }
 
diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index 50e1c4e..b9853a5 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -29,8 +29,6 @@ struct _HevTaskTimerNode
     HevTask *task;
 };
 
-static HevTask fake_task = { .state = HEV_TASK_RUNNING };
-
 static inline int
 hev_task_timer_node_compare (HevTaskTimerNode *a, HevTaskTimerNode *b)
 {
@@ -120,31 +118,40 @@ hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds, HevTask *task)
         /* update timer: pick current */
         if (hev_task_timer_set_time (self, &node->expire) < 0)
             abort ();
-        self->sched_entity.task = task;
     }
 
     hev_task_yield (HEV_TASK_WAITIO);
 
-    /* check current is first */
-    if (&node->base == hev_rbtree_cached_first (&self->sort_tree))
-        leftmost = 1;
+    /* woken up before expired: remove from sort tree */
+    if (node->task) {
+        leftmost = &node->base == hev_rbtree_cached_first (&self->sort_tree);
+        hev_rbtree_cached_erase (&self->sort_tree, &node->base);
+        if (leftmost)
+            hev_task_timer_update (self);
+    }
 
-    /* remove expired from sort tree */
-    hev_rbtree_cached_erase (&self->sort_tree, &node->base);
+    /* get remaining microseconds */
+    return hev_task_timer_get_time (&node->expire);
+}
 
-    if (leftmost) {
-        /* update timer: pick next */
-        HevRBTreeNode *next = hev_rbtree_cached_first (&self->sort_tree);
-        if (next) {
-            node = container_of (next, HevTaskTimerNode, base);
+void
+hev_task_timer_update (HevTaskTimer *self)
+{
+    HevRBTreeNode *first;
+
+    while ((first = hev_rbtree_cached_first (&self->sort_tree))) {
+        HevTaskTimerNode *node = container_of (first, HevTaskTimerNode, base);
+
+        if (hev_task_timer_get_time (&node->expire)) {
+            /* update timer: pick next */
             if (hev_task_timer_set_time (self, &node->expire) < 0)
                 abort ();
-            self->sched_entity.task = node->task;
-        } else {
-            self->sched_entity.task = &fake_task;
+            break;
         }
-    }
 
-    /* get remaining microseconds */
-    return hev_task_timer_get_time (&curr_node.expire);
+        /* remove expired from sort tree */
+        hev_rbtree_cached_erase (&self->sort_tree, &node->base);
+        hev_task_wakeup (node->task);
+        node->task = NULL;
+    }
 }
diff --git a/src/kern/time/hev-task-timer.h b/src/kern/time/hev-task-timer.h
index d1a0b34..d994762 100644
--- a/src/kern/time/hev-task-timer.h
+++ b/src/kern/time/hev-task-timer.h
@@ -28,5 +28,6 @@ void hev_task_timer_destroy (HevTaskTimer *self);
 
 uint64_t hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds,
                               HevTask *task);
+void hev_task_timer_update (HevTaskTimer *self);
 
 #endif /* __HEV_TASK_TIMER_H__ */
-- 
2.43.0


From 01f51d0ed0ec91ab1d7e6744fdcb6ec99eabbfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:12 +0000
Subject: [PATCH 42/42] fix: take the default action of faults that nobody
 handled

---
 src/lib/misc/hev-task-stack-detector.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index d0c05ea..6b0e3d7 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -47,6 +47,22 @@ setaltstack (const stack_t *ss, stack_t *oss)
 #endif
 }
 
+static void
+pass_on (const struct sigaction *sa, int signo, siginfo_t *si, void *context)
+{
+    /* a signal sent by a program, faults can not be ignored */
+    if (sa->sa_handler == SIG_IGN && si->si_code <= 0)
+        return;
+
+    if (sa->sa_handler == SIG_IGN || sa->sa_handler == SIG_DFL) {
+        signal (signo, SIG_DFL);
+        raise (signo);
+        return;
+    }
+
+    sa->sa_sigaction (signo, si, context);
+}
+
 static void
 signal_handler (int signo, siginfo_t *si, void *unused)
 {
@@ -75,10 +91,10 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 
     switch (signo) {
     case SIGBUS:
-        bus_sa.sa_sigaction (signo, si, unused);
+        pass_on (&bus_sa, signo, si, unused);
         break;
     case SIGSEGV:
-        segv_sa.sa_sigaction (signo, si, unused);
+        pass_on (&segv_sa, signo, si, unused);
         break;
     default:
         return;
-- 
2.43.0

