From 17178821060f709d81e1aebad47c648de578637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 01/25] fix: reset the rescheduling mode at every start of a
 group of threads

synchStartThreadsN only ever set __noop_resched and __system_oversubscription. A group of
fibers started after a group of plain threads thus busy-waited without ever yielding to the
fibers it was waiting for, and never terminated.
---
 libconcurrent/primitives/threadtools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 63823d1..7de3503 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -206,6 +206,8 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
     __nthreads = nthreads;
     __threads = synchGetMemory(nthreads * sizeof(pthread_t));
     __func = func;
+    __system_oversubscription = false;
+    __noop_resched = false;
     synchStoreFence();
     if (uthreads != SYNCH_DONT_USE_UTHREADS && uthreads > 1) {
         __uthreads = uthreads;
-- 
2.43.0


From df8b36d913e83aef77189bdb06b0b5b7e4d7f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 02/25] fix: the last leaver of a barrier waits for every
 participant

synchBarrierLeave decrements two counters; synchBarrierLastLeave returned as soon as one of
them was zero, while another thread was still about to decrement the other one. The late
decrement corrupted the barrier if it was set up again (e.g. by the next synchStartThreadsN).
---
 libconcurrent/primitives/barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/barrier.c b/libconcurrent/primitives/barrier.c
index 4cee31a..b5c1213 100644
--- a/libconcurrent/primitives/barrier.c
+++ b/libconcurrent/primitives/barrier.c
@@ -45,7 +45,7 @@ inline void synchBarrierLeave(SynchBarrier *bar) {
 
 inline void synchBarrierLastLeave(SynchBarrier *bar) {
     synchBarrierLeave(bar);
-    while (bar->arrive != 0 && bar->leave != 0) {
+    while (bar->arrive != 0 || bar->leave != 0) {
         synchResched();
     }
 }
-- 
2.43.0


From 6c31cbeb35919f535a78c975c4ddda7d9d1051a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 03/25] fix: synchJoinThreadsN joins the posix threads it
 waited for

The threads were counted in __unjoined_threads but neither joined nor detached, so every
start/join cycle leaked their stacks until pthread_create failed and the program exited.
---
 libconcurrent/primitives/threadtools.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 7de3503..e19009e 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -245,6 +245,10 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
 
 void synchJoinThreadsN(uint32_t nthreads) {
     synchBarrierLastLeave(&bar);
+    while (__unjoined_threads > 0) {
+        __unjoined_threads--;
+        pthread_join(__threads[__unjoined_threads], NULL);
+    }
     synchFreeMemory(__threads, nthreads * sizeof(pthread_t));
 }
 
-- 
2.43.0


From 57cef4d03f604af8a80d7d4f91a26231d882cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 04/25] fix: each dequeue state of SimQueue keeps its own array
 of return values

DeqStateCopy copies everything after copy_point, which included the pointer to the array of
return values. After the first dequeue all the states shared a single array, so a thread still
serving others could overwrite the published responses (lost and duplicated elements).
---
 libconcurrent/includes/simqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/includes/simqueue.h b/libconcurrent/includes/simqueue.h
index b0deecc..5dc7cf3 100644
--- a/libconcurrent/includes/simqueue.h
+++ b/libconcurrent/includes/simqueue.h
@@ -41,12 +41,12 @@ typedef struct EnqState {
 typedef struct DeqState {
     /// @brief The applied vector of toggles.
     ToggleVector applied;
+    /// @brief A pointer to the array of return values.
+    RetVal *ret;
     /// @brief In case you want to copy this struct, start from here.
     uint64_t copy_point;
     /// @brief A pointer to the head of the queue.
     Node *head;
-    /// @brief A pointer to the array of return values.
-    RetVal *ret;
 #ifdef DEBUG
     int32_t counter;
 #endif
-- 
2.43.0


From 4b4c59622756bf2be2656913051595c9723d26d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 05/25] fix: hash tables delete only the element that was asked
 for

When the key was the second of its bucket, prev is still equal to top and the deletion
unlinked both the first and the second element.
---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index b053460..dab189a 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -74,7 +74,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index b3ac042..6789356 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -77,7 +77,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
-- 
2.43.0


From 99a6c478ca990770353310bde9425213d1125409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 06/25] fix: hash tables accept negative keys

key % size is negative for negative keys, so the tables were indexed out of bounds.
---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index dab189a..4115287 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -25,7 +25,7 @@ inline void CLHHashThreadStateInit(CLHHash *hash, CLHHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(CLHHash *hash, int64_t key) {
-    return key % hash->size;
+    return (uint64_t)key % hash->size;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index 6789356..2f8b5ae 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -29,7 +29,7 @@ inline void DSMHashThreadStateInit(DSMHash *hash, DSMHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(DSMHash *hash, int64_t key) {
-    return key % hash->size;
+    return (uint64_t)key % hash->size;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
-- 
2.43.0


From 796d663cffdcae95d050fc8ae18a100e5e31732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 07/25] fix: flat-combining passes the id of the requesting
 thread to the sequential function

The combiner passed its own pid for every request that it served.
---
 libconcurrent/concurrent/fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fc.c b/libconcurrent/concurrent/fc.c
index 316331f..85e52fb 100644
--- a/libconcurrent/concurrent/fc.c
+++ b/libconcurrent/concurrent/fc.c
@@ -82,7 +82,7 @@ RetVal FCApplyOp(FCStruct *lock, FCThreadState *st_thread, RetVal (*sfunc)(void
     for (i = 0; i < FC_COMBINING_ROUNDS; i++) {
         for (cur = lock->head; cur != NULL; cur = cur->next) {
             if (cur->pending) {
-                cur->val = sfunc(state, cur->val, pid);
+                cur->val = sfunc(state, cur->val, (int)(cur - lock->nodes));
                 synchNonTSOFence();
                 cur->pending = false;
                 cur->age = count;
-- 
2.43.0


From a0101b21e2970e3f6c935f5d64dec066a28d6c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 08/25] fix: FC-Queue stores the enqueued values and returns
 them in FIFO order

Enqueue inserted the pid of the caller instead of its argument, dequeue returned the value of
the node that had been dequeued before (the guard's one at first), an empty queue was reported
with -1 instead of EMPTY_QUEUE and the removed nodes were never recycled.
---
 libconcurrent/concurrent/fcqueue.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/libconcurrent/concurrent/fcqueue.c b/libconcurrent/concurrent/fcqueue.c
index b5d0faf..304a3f8 100644
--- a/libconcurrent/concurrent/fcqueue.c
+++ b/libconcurrent/concurrent/fcqueue.c
@@ -7,13 +7,12 @@
 inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid);
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 
-static const int GUARD = INT_MIN;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCQueueStructInit(FCQueueStruct *queue_object_struct, uint32_t nthreads) {
     FCStructInit(&queue_object_struct->enqueue_struct, nthreads);
     FCStructInit(&queue_object_struct->dequeue_struct, nthreads);
-    queue_object_struct->guard.val = GUARD;
+    queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
     queue_object_struct->last = &queue_object_struct->guard;
@@ -34,23 +33,30 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node->val = arg;
     st->last->next = node;
     st->last = node;
-    return -1;
+    synchNonTSOFence();
+    return ENQUEUE_SUCCESS;
 }
 
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid) {
     FCQueueStruct *st = (FCQueueStruct *)state;
-    Node *node = (Node *)st->first;
-    
+    volatile Node *node, *prev;
+
     if (st->first->next != NULL){
+        prev = st->first;
         st->first = st->first->next;
+        node = st->first;
+        if (node->val == GUARD_VALUE)
+            return serialDequeue(state, arg, pid);
+        synchNonTSOFence();
+        synchRecycleObj(&pool_node, (Node *)prev);
         return node->val;
     } else {
-        return -1;
+        return EMPTY_QUEUE;
     }
 }
 
 void FCQueueApplyEnqueue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, ArgVal arg, int pid) {
-    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) pid, pid);
+    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) arg, pid);
 }
 
 RetVal FCQueueApplyDequeue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, int pid) {
-- 
2.43.0


From 43c829f38717b2c36d2ba328a5ffdfd0ea45e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 09/25] fix: FC-Stack reports an empty stack with EMPTY_STACK
 and recycles popped nodes

An empty stack was reported with -1, which is a valid element, and popped nodes were leaked
although memory reclamation is documented as supported.
---
 libconcurrent/concurrent/fcstack.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index 9d58279..e61b89b 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -24,9 +24,13 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         volatile Node *node = st->top;
 
         if (st->top != NULL) {
+            RetVal ret = node->val;
             st->top = st->top->next;
-            return node->val;
-        } else return -1;
+            synchNonTSOFence();
+            synchRecycleObj(&pool_node, (void *)node);
+            return ret;
+        } else
+            return EMPTY_STACK;
     } else {
         FCStackStruct *st = (FCStackStruct *)state;
         Node *node;
@@ -36,7 +40,7 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         node->val = arg;
         st->top = node;
  
-        return 0;
+        return PUSH_SUCCESS;
     }
 }
 
-- 
2.43.0


From 9b6aa431df472c6b75c76556ce1d47029120a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 10/25] fix: blocking stacks accept INT_MIN as an element

A push of INT_MIN was executed as a pop. Use GUARD_VALUE, the value that the library already
reserves, for announcing a pop.
---
 libconcurrent/concurrent/ccstack.c   | 2 +-
 libconcurrent/concurrent/dsmstack.c  | 2 +-
 libconcurrent/concurrent/fcstack.c   | 2 +-
 libconcurrent/concurrent/hstack.c    | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/concurrent/ccstack.c b/libconcurrent/concurrent/ccstack.c
index 03f49f1..abf9a8f 100644
--- a/libconcurrent/concurrent/ccstack.c
+++ b/libconcurrent/concurrent/ccstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void CCStackInit(CCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/dsmstack.c b/libconcurrent/concurrent/dsmstack.c
index e5fad18..231294e 100644
--- a/libconcurrent/concurrent/dsmstack.c
+++ b/libconcurrent/concurrent/dsmstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void DSMSStackInit(DSMStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index e61b89b..76dbe5e 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -4,7 +4,7 @@
 #include <pool.h>
 #include <queue-stack.h>
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCStackInit(FCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/hstack.c b/libconcurrent/concurrent/hstack.c
index 9a382da..ba9371b 100644
--- a/libconcurrent/concurrent/hstack.c
+++ b/libconcurrent/concurrent/hstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void HStackInit(HStackStruct *stack_object_struct, uint32_t nthreads, uint32_t numa_nodes) {
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index e4193b4..08e06d6 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-- 
2.43.0


From 3662bc75bebaec9106aa22e8081c1fe063ddd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 11/25] fix: LCRQ accepts -1 as an element

-1 marks the empty cells of a ring, thus an enqueued -1 was lost. Use GUARD_VALUE, the value
that the library already reserves, as the mark of an empty cell.
---
 libconcurrent/concurrent/lcrq.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/lcrq.c b/libconcurrent/concurrent/lcrq.c
index 710b728..f51b57f 100644
--- a/libconcurrent/concurrent/lcrq.c
+++ b/libconcurrent/concurrent/lcrq.c
@@ -70,7 +70,7 @@ inline static void init_ring(RingQueue *r) {
     int i;
 
     for (i = 0; i < RING_SIZE; i++) {
-        r->array[i].val = -1;
+        r->array[i].val = GUARD_VALUE;
         r->array[i].idx = i;
     }
 
@@ -79,7 +79,7 @@ inline static void init_ring(RingQueue *r) {
 }
 
 inline static int is_empty(uint64_t v)  {
-    return (v == (uint64_t)-1);
+    return (v == (uint64_t)GUARD_VALUE);
 }
 
 inline static uint64_t node_index(uint64_t i) {
@@ -183,7 +183,7 @@ alloc:
 
         if (synchLikely(is_empty(val))) {
             if (synchLikely(node_index(idx) <= t)) {
-                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, -1, idx, arg, t)) {
+                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, GUARD_VALUE, idx, arg, t)) {
                     return;
                 }
             }
@@ -226,7 +226,7 @@ RetVal LCRQDequeue(LCRQStruct *queue, LCRQThreadState *thread_state, int pid UNU
 
             if (synchLikely(!is_empty(val))) {
                 if (synchLikely(idx == h)) {
-                    if (synchCAS128((uint64_t *)cell, val, cell_idx, -1, (unsafe | h) + RING_SIZE)) return val;
+                    if (synchCAS128((uint64_t *)cell, val, cell_idx, GUARD_VALUE, (unsafe | h) + RING_SIZE)) return val;
                 } else {
                     if (synchCAS128((uint64_t *)cell, val, cell_idx, val, set_unsafe(idx))) {
                         count_unsafe_node(thread_state);
-- 
2.43.0


From 91e1fb5db2cd4ab3a937b245a7c0ad12058e098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 12/25] fix: Osci objects allocate as many entries as they
 index

The array of pools of Osci-Stack and Osci-Queue is indexed by the thread id but had one entry
per group of fibers. The array of combining points was dimensioned with the requested number
of fibers per thread even when Osci falls back to one fiber per thread.
---
 libconcurrent/concurrent/osci.c      | 2 +-
 libconcurrent/concurrent/osciqueue.c | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/concurrent/osci.c b/libconcurrent/concurrent/osci.c
index e56672e..d307a28 100644
--- a/libconcurrent/concurrent/osci.c
+++ b/libconcurrent/concurrent/osci.c
@@ -130,7 +130,7 @@ void OsciInit(OsciStruct *l, uint32_t nthreads, uint32_t fibers_per_thread) {
         l->fibers_per_thread = fibers_per_thread;
     else
         l->fibers_per_thread = 1;
-    l->groups_of_fibers = (nthreads / fibers_per_thread) + (nthreads % fibers_per_thread != 0 ? 1 : 0);
+    l->groups_of_fibers = (nthreads / l->fibers_per_thread) + (nthreads % l->fibers_per_thread != 0 ? 1 : 0);
 #ifdef DEBUG
     l->rounds = l->counter = 0;
 #endif
diff --git a/libconcurrent/concurrent/osciqueue.c b/libconcurrent/concurrent/osciqueue.c
index 0e43ece..8ba0ee1 100644
--- a/libconcurrent/concurrent/osciqueue.c
+++ b/libconcurrent/concurrent/osciqueue.c
@@ -7,7 +7,7 @@ inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 void OsciQueueInit(OsciQueueStruct *queue_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(queue_object_struct->enqueue_struct), nthreads, fibers_per_thread);
     OsciInit(&queue_object_struct->dequeue_struct, nthreads, fibers_per_thread);
-    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, queue_object_struct->enqueue_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index 08e06d6..e27afed 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -7,7 +7,7 @@ static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, stack_object_struct->object_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     stack_object_struct->top = NULL;
 }
 
-- 
2.43.0


From 3e6d67d52bbe86d1722c63e68622f86946cf8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 13/25] fix: HSynch never indexes its per-node arrays out of
 bounds

With a fictitious topology the calculated node may exceed the number of nodes (e.g. 3 threads
and 2 nodes), and more than numa_node_size + 1 threads may run on a single node (more threads
than cores, or fibers), overflowing the node's array of requests.
---
 libconcurrent/concurrent/hsynch.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index bb58103..2b4e4a5 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -97,19 +97,20 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
 #else
     node_of_thread = pid / l->numa_node_size;
 #endif
+    node_of_thread %= l->numa_nodes;
 
     if (l->nodes[node_of_thread] == NULL) {
-        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->numa_node_size + 2) * sizeof(HSynchNode));
+        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->nthreads + 2) * sizeof(HSynchNode));
 
-        last_node = &ptr[l->numa_node_size + 1];
+        last_node = &ptr[l->nthreads + 1];
         last_node->next = NULL;
         last_node->locked = false;
         last_node->completed = false;
 
         if (synchCASPTR(&l->nodes[node_of_thread], NULL, ptr) == false) 
-            synchFreeMemory(ptr, (l->numa_node_size + 2) * sizeof(HSynchNode));
+            synchFreeMemory(ptr, (l->nthreads + 2) * sizeof(HSynchNode));
     }
-    last_node = l->nodes[node_of_thread] + l->numa_node_size + 1;
+    last_node = l->nodes[node_of_thread] + l->nthreads + 1;
     synchCASPTR(&l->Tail[node_of_thread].ptr, NULL, last_node);
     node_index = synchFAA32(&l->node_indexes[node_of_thread], 1);
     st_thread->next_node = l->nodes[node_of_thread] + node_index;
-- 
2.43.0


From dd0a244e211281037688d4724f0bd661f1f1e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 14/25] fix: HSynch keeps the node of a thread per instance

node_of_thread was a single thread-local variable, so initializing a second instance with
another topology made the thread announce in a wrong (even not existing) list of the first.
---
 libconcurrent/concurrent/hsynch.c | 6 +++---
 libconcurrent/includes/hsynch.h   | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index 2b4e4a5..c7320d1 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -10,8 +10,6 @@
 #define HSYNCH_HELP_FACTOR            10
 #define HSYNCH_DEFAULT_NUMA_NODE_SIZE 8
 
-static __thread int node_of_thread = 0;
-
 RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfunc)(void *, ArgVal, int), void *state, ArgVal arg, int pid) {
     volatile HSynchNode *p;
     volatile HSynchNode *cur;
@@ -24,7 +22,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
     next_node->locked = true;
     next_node->completed = false;
 
-    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[node_of_thread].ptr, next_node);
+    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[st_thread->numa_node].ptr, next_node);
     cur->arg_ret = arg;
     cur->pid = pid;
     cur->next = (HSynchNode *)next_node;
@@ -71,6 +69,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
 void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pid) {
     HSynchNode *last_node = NULL;
     uint32_t node_index = 0;
+    int node_of_thread = 0;
 
 #ifdef SYNCH_NUMA_SUPPORT
     if (l->numa_policy) {
@@ -113,6 +112,7 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
     last_node = l->nodes[node_of_thread] + l->nthreads + 1;
     synchCASPTR(&l->Tail[node_of_thread].ptr, NULL, last_node);
     node_index = synchFAA32(&l->node_indexes[node_of_thread], 1);
+    st_thread->numa_node = node_of_thread;
     st_thread->next_node = l->nodes[node_of_thread] + node_index;
 #ifdef DEBUG
     fprintf(stderr, "DEBUG: thread_id: %d -- running_core: %d -- running_node: %d -- hsynch_node: %d\n",
diff --git a/libconcurrent/includes/hsynch.h b/libconcurrent/includes/hsynch.h
index 69df39f..0398109 100644
--- a/libconcurrent/includes/hsynch.h
+++ b/libconcurrent/includes/hsynch.h
@@ -62,6 +62,8 @@ typedef union HSynchNodePtr {
 typedef struct HSynchThreadState {
     /// @brief pointer to an empty request that would be used for announcing future requests.
     HSynchNode *next_node;
+    /// @brief The node (real or fictitious) of the NUMA topology that the thread belongs to.
+    uint32_t numa_node;
 } HSynchThreadState;
 
 ///  @brief HSynchStruct stores the state of an instance of the a HSynch combining object.
-- 
2.43.0


From fff27bde1b4c0d55a6f73ab2619ec576eaa667b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 15/25] fix: blocks of a pool are linked in both directions

New blocks were never reachable from their predecessor: synchDestroyPool freed only the first
block, and blocks that synchRollback stepped back from were lost.
---
 libconcurrent/primitives/pool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/pool.c b/libconcurrent/primitives/pool.c
index a4b4a1b..e54b041 100644
--- a/libconcurrent/primitives/pool.c
+++ b/libconcurrent/primitives/pool.c
@@ -58,6 +58,7 @@ void *synchAllocObj(SynchPoolStruct *pool) {
             } else {
                 SynchPoolBlock *new_block = get_new_block(pool->obj_size);
                 new_block->metadata.back = pool->cur_block;
+                pool->cur_block->metadata.next = new_block;
                 pool->cur_block = new_block;
             }
             ret = synchAllocObj(pool);
-- 
2.43.0


From f4ffab37e69b5b59a7ceaa387b7e2c25038ef195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 16/25] fix: distinct cores for the threads under the default
 placement policy

With SMT, pid % node_size does not enumerate the 2 * nodes groups of half_node_size cores, so
several threads were pinned to the same core while other cores stayed unused.
---
 libconcurrent/primitives/threadtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index e19009e..2b0b783 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -106,7 +106,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 uint32_t double_nodes = 2 * nodes;
                 uint32_t half_node_size = node_size / 2;
 
-                preferred_core = (pid % node_size) * half_node_size + (pid / double_nodes);
+                preferred_core = (pid % double_nodes) * half_node_size + (pid / double_nodes);
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) {
             preferred_core = pid;
-- 
2.43.0


From b03641533cbc50f7b8e90423c584c875a3c0ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 17/25] fix: memory of synchGetAlignedMemory can be released

The address that numa_alloc_local returned was always shifted by align, so numa_free was called
with an address that is not page-aligned, munmap failed and the memory was never released.
---
 libconcurrent/primitives/primitives.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 377f726..ff41d7f 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -159,11 +159,16 @@ inline void *synchGetAlignedMemory(size_t align, size_t size) {
     void *p;
 
 #ifdef SYNCH_NUMA_SUPPORT
-    p = numa_alloc_local(size + align);
-    long plong = (long)p;
-    plong += align;
-    plong &= ~(align - 1);
-    p = (void *)plong;
+    // numa_alloc_local returns page-aligned memory. Thus, the address should be adjusted only for bigger alignments.
+    if (align <= numa_pagesize())
+        p = numa_alloc_local(size);
+    else {
+        p = numa_alloc_local(size + align);
+        long plong = (long)p;
+        plong += align;
+        plong &= ~(align - 1);
+        p = (void *)plong;
+    }
 #else
     p = (void *)memalign(align, size);
 #endif
-- 
2.43.0


From fd78158cdd46a824ddc3233b5bf847a0e3d16b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 18/25] fix: release the stacks of finished fibers

Only sizeof(Fiber) bytes of the stack were released, and nothing at all whenever the fiber that
ran next was started for the first time.
---
 libconcurrent/primitives/uthreads.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index c60c44c..3a0a91e 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -17,6 +17,7 @@ typedef struct FiberData {
 
 inline static void switch_to_fiber(Fiber *prev, Fiber *cur);
 inline static void fiber_start_func(FiberData *context);
+inline static void recycle_fiber_stack(void);
 
 static volatile __thread int N_FIBERS = 1;
 static __thread Fiber *FIBER_LIST = NULL;
@@ -36,6 +37,13 @@ void synchInitFibers(int max) {
         FIBER_LIST[i].active = false;
 }
 
+inline static void recycle_fiber_stack(void) {
+    if (FIBER_RECYCLE != NULL) {
+        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
+        FIBER_RECYCLE = NULL;
+    }
+}
+
 inline static void switch_to_fiber(Fiber *prev, Fiber *cur) {
     if (_setjmp(prev->jmp) == 0) {
         _longjmp(cur->jmp, 1);
@@ -53,10 +61,7 @@ void synchFiberYield(void) {
         currentFiber = (currentFiber + 1) % MAX_FIBERS;
     } while (FIBER_LIST[currentFiber].active == false);
     switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);
-    if (FIBER_RECYCLE != NULL) {
-        synchFreeMemory(FIBER_RECYCLE, sizeof(Fiber));
-        FIBER_RECYCLE = NULL;
-    }
+    recycle_fiber_stack();
 }
 
 static void fiber_start_func(FiberData *context) {
@@ -69,6 +74,7 @@ static void fiber_start_func(FiberData *context) {
     arg = context->arg;
     if (_setjmp(*(context->cur)) == 0)
         swapcontext(&tmp, context->prev);
+    recycle_fiber_stack();
 
     func((void *)arg); // Execute fiber with function func
     if (N_FIBERS == 1) // This check is not useful, since
-- 
2.43.0


From a0437eb6eab9f8d67bbcbd006957f421bd7ace6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 19/25] fix: a new fiber never takes the place of a running one

synchSpawnFiber used the number of fibers as an index. If a fiber with a lower index had already
finished, the context of a still running fiber was overwritten.
---
 libconcurrent/primitives/uthreads.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index 3a0a91e..89c4b6a 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -92,23 +92,26 @@ static void fiber_start_func(FiberData *context) {
 int synchSpawnFiber(void *(*func)(void *), long arg) {
     ucontext_t tmp;
     FiberData context;
+    int slot = 1;
 
     if (N_FIBERS == MAX_FIBERS)
         return -1;
 
-    getcontext(&(FIBER_LIST[N_FIBERS].context));
-    FIBER_LIST[N_FIBERS].active = true;
-    FIBER_LIST[N_FIBERS].context.uc_link = NULL;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_size = FIBER_STACK;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_flags = 0;
+    while (FIBER_LIST[slot].active) // Slot 0 is always used by the posix thread itself
+        slot++;
+    getcontext(&(FIBER_LIST[slot].context));
+    FIBER_LIST[slot].active = true;
+    FIBER_LIST[slot].context.uc_link = NULL;
+    FIBER_LIST[slot].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
+    FIBER_LIST[slot].context.uc_stack.ss_size = FIBER_STACK;
+    FIBER_LIST[slot].context.uc_stack.ss_flags = 0;
 
     context.func = func;
     context.arg = arg;
-    context.cur = &FIBER_LIST[N_FIBERS].jmp;
+    context.cur = &FIBER_LIST[slot].jmp;
     context.prev = &tmp;
-    makecontext(&FIBER_LIST[N_FIBERS].context, (void (*)())fiber_start_func, 1, &context);
-    swapcontext(&tmp, &FIBER_LIST[N_FIBERS].context);
+    makecontext(&FIBER_LIST[slot].context, (void (*)())fiber_start_func, 1, &context);
+    swapcontext(&tmp, &FIBER_LIST[slot].context);
     N_FIBERS++;
     return 1;
 }
-- 
2.43.0


From 1f9b533763a7e6437d86e4a4270fd2e35c28b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 20/25] fix: 128-bit CAS tells the compiler which memory it
 accesses

The inline assembly only declared the low word of its operand, so optimized code could keep using a
stale copy of the high word (or of other memory) after a successful operation.
---
 libconcurrent/primitives/primitives.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index ff41d7f..aa48e75 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -125,7 +125,8 @@ inline bool _CAS128(uint64_t *A, uint64_t B0, uint64_t B1, uint64_t C0, uint64_t
     asm volatile("lock;"
                  "cmpxchg16b %2; setz %1"
                  : "=d" (dummy), "=a" (res), "+m" (*A)
-                 : "b" (C0), "c" (C1), "a" (B0),  "d" (B1));
+                 : "b" (C0), "c" (C1), "a" (B0),  "d" (B1)
+                 : "memory", "cc");
 #else
     __uint128_t old_value = (__uint128_t)(B0) | (((__uint128_t)(B1)) << 64ULL);
     __uint128_t new_value = (__uint128_t)(C0) | (((__uint128_t)(C1)) << 64ULL);
-- 
2.43.0


From ce88adc0fe9e901e6ba4659f3b7ab813b6fc2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 21/25] fix: thread placement on machines with one core or an
 odd number of cores

With a single core half_node_size was zero and every thread died with a division by zero; with an odd
number of cores in one node some cores were used twice and others never.
---
 libconcurrent/primitives/threadtools.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 2b0b783..b49f189 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -77,6 +77,15 @@ inline static void *kthreadWrapper(void *arg) {
     return NULL;
 }
 
+#ifdef SYNCH_NUMA_SUPPORT
+inline static bool isSMTSystem(uint32_t ncpus, uint32_t nodes) {
+    // SMT needs the cores of each node to be split in two halves
+    if (ncpus % (2 * nodes) != 0)
+        return false;
+    return numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2);
+}
+#endif
+
 inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
     uint32_t preferred_core = 0;
 
@@ -89,7 +98,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
         uint32_t node_size = ncpus / nodes;
 
         if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE) {
-            if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
+            if (isSMTSystem(ncpus, nodes)) { // SMT or HyperThreading detected
                 uint32_t half_node_size = node_size / 2;
                 uint32_t offset = 0;
                 uint32_t half_cpu_id = pid;
@@ -102,7 +111,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 preferred_core += offset;
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE_SMT_PREFER) {
-            if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
+            if (isSMTSystem(ncpus, nodes)) { // SMT or HyperThreading detected
                 uint32_t double_nodes = 2 * nodes;
                 uint32_t half_node_size = node_size / 2;
 
@@ -134,7 +143,7 @@ inline uint32_t synchPreferredNumaNodeOfThread(uint32_t pid) {
     uint32_t nodes = numa_num_task_nodes();
     uint32_t node_size = ncpus / nodes;
 
-    if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
+    if (isSMTSystem(ncpus, nodes)) { // SMT or HyperThreading detected
         uint32_t half_node_size = node_size / 2;
 
         if (preferred_core < ncpus / 2)
-- 
2.43.0


From 43693c85f21cc2010acdec0b485ace366a5bff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 22/25] fix: dense thread placement uses the smallest number of
 NUMA nodes

---
 libconcurrent/primitives/threadtools.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index b49f189..f20e83b 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -118,9 +118,19 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 preferred_core = (pid % double_nodes) * half_node_size + (pid / double_nodes);
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) {
-            preferred_core = pid;
+            if (isSMTSystem(ncpus, nodes)) { // SMT or HyperThreading detected
+                uint32_t half_node_size = node_size / 2;
+                uint32_t node = (pid % ncpus) / node_size;
+                uint32_t index = (pid % ncpus) % node_size;
+
+                // Fill the node before moving to the next one, a single thread per physical core first
+                preferred_core = node * half_node_size + index % half_node_size;
+                preferred_core += (index / half_node_size) * (ncpus / 2);
+            } else preferred_core = pid;
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE_SMT_PREFER){
-            preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
+            if (isSMTSystem(ncpus, nodes)) // SMT or HyperThreading detected
+                preferred_core = (pid % ncpus) / 2 + (pid % 2) * (ncpus / 2);
+            else preferred_core = pid;
         } else {
             fprintf(stderr, "ERROR: Unsupported scheduling policy: 0x%X\n", __schedule_policy);
             preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
-- 
2.43.0


From 62792f1472378809a83eaba2b4f4deb8b6f08d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 23/25] fix: random numbers do not depend on signed overflow

---
 libconcurrent/primitives/fastrand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/fastrand.c b/libconcurrent/primitives/fastrand.c
index 72f8e64..bc3bb18 100644
--- a/libconcurrent/primitives/fastrand.c
+++ b/libconcurrent/primitives/fastrand.c
@@ -7,7 +7,7 @@ static __thread uint32_t __fast_random_next_z = 2;
 static __thread uint32_t __fast_random_next_w = 2;
 
 long synchFastRandom(void) {
-    __fast_random_next = __fast_random_next * 1103515245 + 12345;
+    __fast_random_next = (long)((unsigned long)__fast_random_next * 1103515245 + 12345);
     return ((unsigned)(__fast_random_next / 65536) % 32768);
 }
 
-- 
2.43.0


From 6bb8a19c2a705765e00f0d78444384285642745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 24/25] fix: the statistics do not count their own instructions

---
 libconcurrent/primitives/stats.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/stats.c b/libconcurrent/primitives/stats.c
index ff64f66..609b582 100644
--- a/libconcurrent/primitives/stats.c
+++ b/libconcurrent/primitives/stats.c
@@ -106,10 +106,11 @@ void synchStartCPUCounters(int id) {
 
 void synchStopCPUCounters(int id) {
 #ifdef DEBUG
+    // This should be the first one, since the following additions increase __executed_faa
+    synchFAA64(&__total_executed_faa, __executed_faa);
     synchFAA64(&__total_failed_cas, __failed_cas);
     synchFAA64(&__total_executed_cas, __executed_cas);
     synchFAA64(&__total_executed_swap, __executed_swap);
-    synchFAA64(&__total_executed_faa, __executed_faa);
 #endif
 
 #ifdef SYNCH_TRACK_CPU_COUNTERS
-- 
2.43.0


From 3da8909d42cd63d3d822c0dd3cb6861af861ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 25/25] fix: MS-Queue re-reads its head and tail in optimized
 builds

---
 libconcurrent/includes/msqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/includes/msqueue.h b/libconcurrent/includes/msqueue.h
index e34e151..aa08331 100644
--- a/libconcurrent/includes/msqueue.h
+++ b/libconcurrent/includes/msqueue.h
@@ -18,9 +18,9 @@
 /// MSQueueStruct should be initialized using the MSQueueStructInit function.
 typedef struct MSQueueStruct {
     /// @brief A pointer to the head element of the queue.
-    volatile Node *head CACHE_ALIGN;
+    volatile Node *volatile head CACHE_ALIGN;
     /// @brief A pointer to the tail element of the queue.
-    volatile Node *tail CACHE_ALIGN;
+    volatile Node *volatile tail CACHE_ALIGN;
 } MSQueueStruct;
 
 /// @brief MSQueueThreadState stores each thread's local state for a single instance of MS-Queue.
-- 
2.43.0

