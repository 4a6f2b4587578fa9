From 3a6db7029ba1939108a613ff84316f0f3af7ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 01/27] fix: SimQueue states no longer share one array of
 return values

DeqStateCopy() copies everything from copy_point on, so the ret pointer of the
source record was copied too and a dequeuer whose CAS fails overwrote the
published return values of other threads (values delivered twice or lost).
---
 libconcurrent/includes/simqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/includes/simqueue.h b/libconcurrent/includes/simqueue.h
index b0deecc..5dc7cf3 100644
--- a/libconcurrent/includes/simqueue.h
+++ b/libconcurrent/includes/simqueue.h
@@ -41,12 +41,12 @@ typedef struct EnqState {
 typedef struct DeqState {
     /// @brief The applied vector of toggles.
     ToggleVector applied;
+    /// @brief A pointer to the array of return values.
+    RetVal *ret;
     /// @brief In case you want to copy this struct, start from here.
     uint64_t copy_point;
     /// @brief A pointer to the head of the queue.
     Node *head;
-    /// @brief A pointer to the array of return values.
-    RetVal *ret;
 #ifdef DEBUG
     int32_t counter;
 #endif
-- 
2.43.0


From d43598c3b7daa641acf4830e07a251b905ca8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 02/27] fix: H-Synch no longer indexes beyond its per-NUMA-node
 structures

The node of a thread could be >= numa_nodes (fictitious topologies, placements
that ignore the instance's topology), more threads could run on a node than
it had requests for, and the node was kept in one thread-local variable shared
by all the instances.
---
 libconcurrent/concurrent/hsynch.c | 18 +++++++++++-------
 libconcurrent/includes/hsynch.h   |  2 ++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index bb58103..4edf99c 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -10,8 +10,6 @@
 #define HSYNCH_HELP_FACTOR            10
 #define HSYNCH_DEFAULT_NUMA_NODE_SIZE 8
 
-static __thread int node_of_thread = 0;
-
 RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfunc)(void *, ArgVal, int), void *state, ArgVal arg, int pid) {
     volatile HSynchNode *p;
     volatile HSynchNode *cur;
@@ -24,7 +22,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
     next_node->locked = true;
     next_node->completed = false;
 
-    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[node_of_thread].ptr, next_node);
+    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[st_thread->numa_node].ptr, next_node);
     cur->arg_ret = arg;
     cur->pid = pid;
     cur->next = (HSynchNode *)next_node;
@@ -71,6 +69,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
 void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pid) {
     HSynchNode *last_node = NULL;
     uint32_t node_index = 0;
+    int32_t node_of_thread = 0;
 
 #ifdef SYNCH_NUMA_SUPPORT
     if (l->numa_policy) {
@@ -98,18 +97,23 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
     node_of_thread = pid / l->numa_node_size;
 #endif
 
+    // The placement of threads does not have to match the (possibly fictitious) topology of this instance
+    node_of_thread %= l->numa_nodes;
+    st_thread->numa_node = node_of_thread;
+
+    // In the worst case, all the threads run on the same NUMA node
     if (l->nodes[node_of_thread] == NULL) {
-        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->numa_node_size + 2) * sizeof(HSynchNode));
+        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->nthreads + 1) * sizeof(HSynchNode));
 
-        last_node = &ptr[l->numa_node_size + 1];
+        last_node = &ptr[l->nthreads];
         last_node->next = NULL;
         last_node->locked = false;
         last_node->completed = false;
 
         if (synchCASPTR(&l->nodes[node_of_thread], NULL, ptr) == false) 
-            synchFreeMemory(ptr, (l->numa_node_size + 2) * sizeof(HSynchNode));
+            synchFreeMemory(ptr, (l->nthreads + 1) * sizeof(HSynchNode));
     }
-    last_node = l->nodes[node_of_thread] + l->numa_node_size + 1;
+    last_node = l->nodes[node_of_thread] + l->nthreads;
     synchCASPTR(&l->Tail[node_of_thread].ptr, NULL, last_node);
     node_index = synchFAA32(&l->node_indexes[node_of_thread], 1);
     st_thread->next_node = l->nodes[node_of_thread] + node_index;
diff --git a/libconcurrent/includes/hsynch.h b/libconcurrent/includes/hsynch.h
index 69df39f..bde87bd 100644
--- a/libconcurrent/includes/hsynch.h
+++ b/libconcurrent/includes/hsynch.h
@@ -62,6 +62,8 @@ typedef union HSynchNodePtr {
 typedef struct HSynchThreadState {
     /// @brief pointer to an empty request that would be used for announcing future requests.
     HSynchNode *next_node;
+    /// @brief The NUMA node of this instance that the thread uses.
+    int32_t numa_node;
 } HSynchThreadState;
 
 ///  @brief HSynchStruct stores the state of an instance of the a HSynch combining object.
-- 
2.43.0


From ee7b43e4f2d91611a088e335158f6fe614387f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 03/27] fix: FC passes the pid of the requesting thread to the
 sequential function

The combiner passed its own pid for every request it served.
---
 libconcurrent/concurrent/fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fc.c b/libconcurrent/concurrent/fc.c
index 316331f..e3473b6 100644
--- a/libconcurrent/concurrent/fc.c
+++ b/libconcurrent/concurrent/fc.c
@@ -82,7 +82,7 @@ RetVal FCApplyOp(FCStruct *lock, FCThreadState *st_thread, RetVal (*sfunc)(void
     for (i = 0; i < FC_COMBINING_ROUNDS; i++) {
         for (cur = lock->head; cur != NULL; cur = cur->next) {
             if (cur->pending) {
-                cur->val = sfunc(state, cur->val, pid);
+                cur->val = sfunc(state, cur->val, (int)((FCRequest *)cur - lock->nodes));
                 synchNonTSOFence();
                 cur->pending = false;
                 cur->age = count;
-- 
2.43.0


From f9206c7e892c4efaef271c16fbc48455b4be78d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 04/27] fix: FC-Queue enqueues the value it is given, reports
 EMPTY_QUEUE and recycles nodes

---
 libconcurrent/concurrent/fcqueue.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libconcurrent/concurrent/fcqueue.c b/libconcurrent/concurrent/fcqueue.c
index b5d0faf..6822c68 100644
--- a/libconcurrent/concurrent/fcqueue.c
+++ b/libconcurrent/concurrent/fcqueue.c
@@ -7,13 +7,12 @@
 inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid);
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 
-static const int GUARD = INT_MIN;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCQueueStructInit(FCQueueStruct *queue_object_struct, uint32_t nthreads) {
     FCStructInit(&queue_object_struct->enqueue_struct, nthreads);
     FCStructInit(&queue_object_struct->dequeue_struct, nthreads);
-    queue_object_struct->guard.val = GUARD;
+    queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
     queue_object_struct->last = &queue_object_struct->guard;
@@ -34,23 +33,29 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node->val = arg;
     st->last->next = node;
     st->last = node;
-    return -1;
+    return ENQUEUE_SUCCESS;
 }
 
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid) {
     FCQueueStruct *st = (FCQueueStruct *)state;
-    Node *node = (Node *)st->first;
-    
+    volatile Node *node, *prev;
+
     if (st->first->next != NULL){
+        prev = st->first;
         st->first = st->first->next;
+        node = st->first;
+        if (node->val == GUARD_VALUE)
+            return serialDequeue(state, arg, pid);
+        synchNonTSOFence();
+        synchRecycleObj(&pool_node, (Node *)prev);
         return node->val;
     } else {
-        return -1;
+        return EMPTY_QUEUE;
     }
 }
 
 void FCQueueApplyEnqueue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, ArgVal arg, int pid) {
-    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) pid, pid);
+    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) arg, pid);
 }
 
 RetVal FCQueueApplyDequeue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, int pid) {
-- 
2.43.0


From c7f5185d67e655df1e276346a38884fd12018106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 05/27] fix: Osci-Queue and Osci-Stack allocate one pool per
 fiber, as they index them

---
 libconcurrent/concurrent/osciqueue.c | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/osciqueue.c b/libconcurrent/concurrent/osciqueue.c
index 0e43ece..8ba0ee1 100644
--- a/libconcurrent/concurrent/osciqueue.c
+++ b/libconcurrent/concurrent/osciqueue.c
@@ -7,7 +7,7 @@ inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 void OsciQueueInit(OsciQueueStruct *queue_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(queue_object_struct->enqueue_struct), nthreads, fibers_per_thread);
     OsciInit(&queue_object_struct->dequeue_struct, nthreads, fibers_per_thread);
-    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, queue_object_struct->enqueue_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index e4193b4..4ee1243 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -7,7 +7,7 @@ static const int POP_OP = INT_MIN;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, stack_object_struct->object_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     stack_object_struct->top = NULL;
 }
 
-- 
2.43.0


From d383cab16a5e98c560333423134494aaf7407d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 06/27] fix: the combining stacks accept INT_MIN as a pushed
 value

POP_OP was INT_MIN, a value a user may push; use the reserved GUARD_VALUE.
---
 libconcurrent/concurrent/ccstack.c   | 2 +-
 libconcurrent/concurrent/dsmstack.c  | 2 +-
 libconcurrent/concurrent/fcstack.c   | 2 +-
 libconcurrent/concurrent/hstack.c    | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/concurrent/ccstack.c b/libconcurrent/concurrent/ccstack.c
index 03f49f1..abf9a8f 100644
--- a/libconcurrent/concurrent/ccstack.c
+++ b/libconcurrent/concurrent/ccstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void CCStackInit(CCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/dsmstack.c b/libconcurrent/concurrent/dsmstack.c
index e5fad18..231294e 100644
--- a/libconcurrent/concurrent/dsmstack.c
+++ b/libconcurrent/concurrent/dsmstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void DSMSStackInit(DSMStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index 9d58279..fc89053 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -4,7 +4,7 @@
 #include <pool.h>
 #include <queue-stack.h>
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCStackInit(FCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/hstack.c b/libconcurrent/concurrent/hstack.c
index 9a382da..ba9371b 100644
--- a/libconcurrent/concurrent/hstack.c
+++ b/libconcurrent/concurrent/hstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void HStackInit(HStackStruct *stack_object_struct, uint32_t nthreads, uint32_t numa_nodes) {
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index 4ee1243..e27afed 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-- 
2.43.0


From 291a948acfe1101b5373b906e7d4da1268561a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 07/27] fix: FC-Stack reports EMPTY_STACK and recycles nodes

---
 libconcurrent/concurrent/fcstack.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index fc89053..902e0f7 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -24,9 +24,12 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         volatile Node *node = st->top;
 
         if (st->top != NULL) {
+            RetVal ret = node->val;
             st->top = st->top->next;
-            return node->val;
-        } else return -1;
+            synchNonTSOFence();
+            synchRecycleObj(&pool_node, (void *)node);
+            return ret;
+        } else return EMPTY_STACK;
     } else {
         FCStackStruct *st = (FCStackStruct *)state;
         Node *node;
@@ -36,7 +39,7 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         node->val = arg;
         st->top = node;
  
-        return 0;
+        return PUSH_SUCCESS;
     }
 }
 
-- 
2.43.0


From 925ddf69c68d782662eb9676e4a0c3e144f0c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 08/27] fix: LCRQ accepts -1 as an enqueued value

Empty cells were marked with -1, a value a user may enqueue; use the reserved GUARD_VALUE.
---
 libconcurrent/concurrent/lcrq.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/lcrq.c b/libconcurrent/concurrent/lcrq.c
index 710b728..f51b57f 100644
--- a/libconcurrent/concurrent/lcrq.c
+++ b/libconcurrent/concurrent/lcrq.c
@@ -70,7 +70,7 @@ inline static void init_ring(RingQueue *r) {
     int i;
 
     for (i = 0; i < RING_SIZE; i++) {
-        r->array[i].val = -1;
+        r->array[i].val = GUARD_VALUE;
         r->array[i].idx = i;
     }
 
@@ -79,7 +79,7 @@ inline static void init_ring(RingQueue *r) {
 }
 
 inline static int is_empty(uint64_t v)  {
-    return (v == (uint64_t)-1);
+    return (v == (uint64_t)GUARD_VALUE);
 }
 
 inline static uint64_t node_index(uint64_t i) {
@@ -183,7 +183,7 @@ alloc:
 
         if (synchLikely(is_empty(val))) {
             if (synchLikely(node_index(idx) <= t)) {
-                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, -1, idx, arg, t)) {
+                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, GUARD_VALUE, idx, arg, t)) {
                     return;
                 }
             }
@@ -226,7 +226,7 @@ RetVal LCRQDequeue(LCRQStruct *queue, LCRQThreadState *thread_state, int pid UNU
 
             if (synchLikely(!is_empty(val))) {
                 if (synchLikely(idx == h)) {
-                    if (synchCAS128((uint64_t *)cell, val, cell_idx, -1, (unsafe | h) + RING_SIZE)) return val;
+                    if (synchCAS128((uint64_t *)cell, val, cell_idx, GUARD_VALUE, (unsafe | h) + RING_SIZE)) return val;
                 } else {
                     if (synchCAS128((uint64_t *)cell, val, cell_idx, val, set_unsafe(idx))) {
                         count_unsafe_node(thread_state);
-- 
2.43.0


From 9c75ea5925574ebe19f4b6c02663a5a398b8f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 09/27] fix: the hash tables accept negative keys

A negative key gave a negative cell index, out of the array of cells.
---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index b053460..4a27db9 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -25,7 +25,7 @@ inline void CLHHashThreadStateInit(CLHHash *hash, CLHHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(CLHHash *hash, int64_t key) {
-    return key % hash->size;
+    return (uint64_t)key % hash->size;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index b3ac042..8ca8c1a 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -29,7 +29,7 @@ inline void DSMHashThreadStateInit(DSMHash *hash, DSMHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(DSMHash *hash, int64_t key) {
-    return key % hash->size;
+    return (uint64_t)key % hash->size;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
-- 
2.43.0


From 168bba9c52eee68ced9c90ff3e1b46a8511dc548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 10/27] fix: deleting the second element of a hash-table cell
 keeps the first one

---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index 4a27db9..4115287 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -74,7 +74,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index 8ca8c1a..2f8b5ae 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -77,7 +77,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
-- 
2.43.0


From a3eda843304b77aaa7556978c52e5b5fe3807d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 11/27] fix: the last thread to leave a barrier waits for all
 the others

synchBarrierLastLeave() stopped waiting as soon as one of the two counters had
reached zero, while a thread that leaves decrements both, one after the other:
the join could return early, and the last decrement could hit the barrier of
the next round.
---
 libconcurrent/primitives/barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/barrier.c b/libconcurrent/primitives/barrier.c
index 4cee31a..b5c1213 100644
--- a/libconcurrent/primitives/barrier.c
+++ b/libconcurrent/primitives/barrier.c
@@ -45,7 +45,7 @@ inline void synchBarrierLeave(SynchBarrier *bar) {
 
 inline void synchBarrierLastLeave(SynchBarrier *bar) {
     synchBarrierLeave(bar);
-    while (bar->arrive != 0 && bar->leave != 0) {
+    while (bar->arrive != 0 || bar->leave != 0) {
         synchResched();
     }
 }
-- 
2.43.0


From 1eb96d60b5d60cc2b3fe64c27998b44946b0ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 12/27] fix: synchStartThreadsN forgets the scheduling mode of
 the previous round

A round without oversubscription left __noop_resched set, so that in a later
round with fibers a waiting fiber never yielded (deadlock); a round with
oversubscription left __system_oversubscription set.
---
 libconcurrent/primitives/threadtools.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 63823d1..34f859e 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -211,6 +211,7 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         __uthreads = uthreads;
         __uthread_sched = true;
         __system_oversubscription = true;
+        __noop_resched = false;
         synchBarrierSet(&bar, nthreads / uthreads + 1);
         for (i = 0; i < (nthreads / uthreads) - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, uthreadWrapper, (void *)(i * uthreads));
@@ -223,10 +224,8 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         uthreadWrapper((void *)(i * uthreads));
     } else {
         __uthread_sched = false;
-        if (__nthreads > __ncores)
-            __system_oversubscription = true;
-        else
-            __noop_resched = true;
+        __system_oversubscription = (__nthreads > __ncores);
+        __noop_resched = !__system_oversubscription;
         synchBarrierSet(&bar, nthreads + 1);
         for (i = 0; i < nthreads - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, kthreadWrapper, (void *)i);
-- 
2.43.0


From 321ba1e934cf0e218a4126ab3654eece7257a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 13/27] fix: synchJoinThreadsN joins the threads it waited for

The created threads were neither joined nor detached, so that every round
leaked their stacks, and the join could return while they were still running.
---
 libconcurrent/primitives/threadtools.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 34f859e..a322a15 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -241,7 +241,12 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
 }
 
 void synchJoinThreadsN(uint32_t nthreads) {
+    int32_t i;
+
     synchBarrierLastLeave(&bar);
+    for (i = 0; i < __unjoined_threads; i++)
+        pthread_join(__threads[i], NULL);
+    __unjoined_threads = 0;
     synchFreeMemory(__threads, nthreads * sizeof(pthread_t));
 }
 
-- 
2.43.0


From 88f4012ea7e7c4fdb0e52c35f95fcbf408b36c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 14/27] fix: the preferred NUMA node of a thread is the node of
 its preferred core

The formula divided by zero on a machine with a single core, and named nodes
that do not exist when the number of cores of a node is odd.
---
 libconcurrent/primitives/threadtools.c | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index a322a15..f966620 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -129,21 +129,10 @@ inline uint32_t synchPreferredNumaNodeOfThread(uint32_t pid) {
     uint32_t preferred_node = 0;
 
 #ifdef SYNCH_NUMA_SUPPORT
-    uint32_t preferred_core = synchPreferredCoreOfThread(pid);
-    uint32_t ncpus = synchGetNCores();
-    uint32_t nodes = numa_num_task_nodes();
-    uint32_t node_size = ncpus / nodes;
-
-    if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
-        uint32_t half_node_size = node_size / 2;
-
-        if (preferred_core < ncpus / 2)
-            preferred_node = preferred_core/half_node_size;
-        else 
-            preferred_node = (preferred_core - (ncpus/2))/half_node_size;
-    } else {
-        preferred_node = preferred_core/node_size;
-    }
+    int node = numa_node_of_cpu(synchPreferredCoreOfThread(pid));
+
+    if (node > 0)
+        preferred_node = node;
 #else
     preferred_node = 0;
 #endif
-- 
2.43.0


From eae4ad7f0ccb8eda0356491fef8b4e4af6313574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 15/27] fix: sparse SMT-prefer placement gives different cores
 to different threads

With e.g. 12 cores on 2 nodes (thread pid and core pid of a block of
2 * nodes cores were taken modulo the node size) or with an odd number of
cores, two threads got the same core while other cores were left idle.
---
 libconcurrent/primitives/threadtools.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index f966620..9d73c47 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -102,11 +102,12 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 preferred_core += offset;
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE_SMT_PREFER) {
-            if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
-                uint32_t double_nodes = 2 * nodes;
+            uint32_t double_nodes = 2 * nodes;
+
+            if (ncpus % double_nodes == 0 && numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
                 uint32_t half_node_size = node_size / 2;
 
-                preferred_core = (pid % node_size) * half_node_size + (pid / double_nodes);
+                preferred_core = (pid % double_nodes) * half_node_size + (pid / double_nodes);
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) {
             preferred_core = pid;
-- 
2.43.0


From 3b0d389b312803d046f81ee53e225f788352336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 16/27] fix: the dense placement policies fill one NUMA node
 after the other

Dense SMT-prefer used the formula of the sparse policy, and dense moved to the
next node after half of the cores on machines whose SMT siblings are numbered
from half of the cores on.
---
 libconcurrent/primitives/threadtools.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 9d73c47..594dc3d 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -110,9 +110,19 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 preferred_core = (pid % double_nodes) * half_node_size + (pid / double_nodes);
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) {
-            preferred_core = pid;
+            if (ncpus % (2 * nodes) == 0 && numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
+                uint32_t half_node_size = node_size / 2;
+                uint32_t node = pid / node_size;
+                uint32_t slot = pid % node_size;
+
+                preferred_core = node * half_node_size + slot % half_node_size;
+                if (slot >= half_node_size)
+                    preferred_core += ncpus / 2;
+            } else preferred_core = pid;
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE_SMT_PREFER){
-            preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
+            if (ncpus % 2 == 0 && numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
+                preferred_core = pid / 2 + (pid % 2) * (ncpus / 2);
+            } else preferred_core = pid;
         } else {
             fprintf(stderr, "ERROR: Unsupported scheduling policy: 0x%X\n", __schedule_policy);
             preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
-- 
2.43.0


From 439d764d56dce2d8573644ef81cd85d6c9aa6377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 17/27] fix: the blocks of a pool are linked, so that
 destroying it frees all of them

---
 libconcurrent/primitives/pool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/pool.c b/libconcurrent/primitives/pool.c
index a4b4a1b..e54b041 100644
--- a/libconcurrent/primitives/pool.c
+++ b/libconcurrent/primitives/pool.c
@@ -58,6 +58,7 @@ void *synchAllocObj(SynchPoolStruct *pool) {
             } else {
                 SynchPoolBlock *new_block = get_new_block(pool->obj_size);
                 new_block->metadata.back = pool->cur_block;
+                pool->cur_block->metadata.next = new_block;
                 pool->cur_block = new_block;
             }
             ret = synchAllocObj(pool);
-- 
2.43.0


From 66021e7cd0241f423fb0628519c86798436f7dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 18/27] fix: aligned memory is given back when it is freed with
 NUMA support

---
 libconcurrent/primitives/primitives.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 377f726..a6923d6 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -1,5 +1,6 @@
 #include <primitives.h>
 #include <time.h>
+#include <unistd.h>
 #include <malloc.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -159,11 +160,24 @@ inline void *synchGetAlignedMemory(size_t align, size_t size) {
     void *p;
 
 #ifdef SYNCH_NUMA_SUPPORT
-    p = numa_alloc_local(size + align);
-    long plong = (long)p;
-    plong += align;
-    plong &= ~(align - 1);
-    p = (void *)plong;
+    // The memory of numa_alloc_local() starts at a page, and numa_free() needs this address again
+    size_t page_size = getpagesize();
+
+    if (align <= page_size) {
+        p = numa_alloc_local(size);
+    } else {
+        size_t full_pages = (size + page_size - 1) & ~(page_size - 1);
+
+        p = numa_alloc_local(full_pages + align);
+        if (p != NULL) {
+            size_t before = -(uintptr_t)p & (align - 1);
+
+            if (before > 0)
+                numa_free(p, before);
+            p = (char *)p + before;
+            numa_free((char *)p + full_pages, align - before);
+        }
+    }
 #else
     p = (void *)memalign(align, size);
 #endif
-- 
2.43.0


From 59a6d85456de63c879bd9c294b1db5ff36330c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 19/27] fix: the benchmarks accept --backoff and refuse to run
 with no threads

---
 libconcurrent/primitives/bench_args.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libconcurrent/primitives/bench_args.c b/libconcurrent/primitives/bench_args.c
index ed9e5ce..634eb6d 100644
--- a/libconcurrent/primitives/bench_args.c
+++ b/libconcurrent/primitives/bench_args.c
@@ -34,6 +34,7 @@ void synchParseArguments(SynchBenchArgs *bench_args, int argc, char *argv[]) {
              {"runs", required_argument, 0, 'r'},
              {"max_work", required_argument, 0, 'w'},
              {"backoff_low", required_argument, 0, 'l'},
+             {"backoff", required_argument, 0, 'b'},
              {"backoff_high", required_argument, 0, 'b'},
              {"numa_nodes", required_argument, 0, 'n'},
              {"help", no_argument, 0, 'h'},
@@ -88,6 +89,11 @@ void synchParseArguments(SynchBenchArgs *bench_args, int argc, char *argv[]) {
     // Set the correct number for total number of threads
     if (bench_args->fibers_per_thread != SYNCH_DONT_USE_UTHREADS) bench_args->nthreads *= bench_args->fibers_per_thread;
 
+    if (bench_args->nthreads == 0) {
+        printHelp(argv[0]);
+        exit(EXIT_FAILURE);
+    }
+
     bench_args->total_runs = bench_args->runs;
     bench_args->runs /= bench_args->nthreads;
 
-- 
2.43.0


From 7ae2a1ab7f8f54c3c4e2a742156a4663d50e54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 20/27] fix: the statistics do not count their own Fetch&Add
 instructions

---
 libconcurrent/primitives/stats.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/stats.c b/libconcurrent/primitives/stats.c
index ff64f66..98c5c7a 100644
--- a/libconcurrent/primitives/stats.c
+++ b/libconcurrent/primitives/stats.c
@@ -106,10 +106,16 @@ void synchStartCPUCounters(int id) {
 
 void synchStopCPUCounters(int id) {
 #ifdef DEBUG
-    synchFAA64(&__total_failed_cas, __failed_cas);
-    synchFAA64(&__total_executed_cas, __executed_cas);
-    synchFAA64(&__total_executed_swap, __executed_swap);
-    synchFAA64(&__total_executed_faa, __executed_faa);
+    // The Fetch&Add instructions below should not be counted
+    int64_t failed_cas = __failed_cas;
+    int64_t executed_cas = __executed_cas;
+    int64_t executed_swap = __executed_swap;
+    int64_t executed_faa = __executed_faa;
+
+    synchFAA64(&__total_failed_cas, failed_cas);
+    synchFAA64(&__total_executed_cas, executed_cas);
+    synchFAA64(&__total_executed_swap, executed_swap);
+    synchFAA64(&__total_executed_faa, executed_faa);
 #endif
 
 #ifdef SYNCH_TRACK_CPU_COUNTERS
-- 
2.43.0


From 9b0fe83d99ea334e43c418bbbb2bfa6a83355059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 21/27] fix: Osci with more fibers per thread than threads has
 one group per thread

---
 libconcurrent/concurrent/osci.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/osci.c b/libconcurrent/concurrent/osci.c
index e56672e..d307a28 100644
--- a/libconcurrent/concurrent/osci.c
+++ b/libconcurrent/concurrent/osci.c
@@ -130,7 +130,7 @@ void OsciInit(OsciStruct *l, uint32_t nthreads, uint32_t fibers_per_thread) {
         l->fibers_per_thread = fibers_per_thread;
     else
         l->fibers_per_thread = 1;
-    l->groups_of_fibers = (nthreads / fibers_per_thread) + (nthreads % fibers_per_thread != 0 ? 1 : 0);
+    l->groups_of_fibers = (nthreads / l->fibers_per_thread) + (nthreads % l->fibers_per_thread != 0 ? 1 : 0);
 #ifdef DEBUG
     l->rounds = l->counter = 0;
 #endif
-- 
2.43.0


From 66210e8436bd4f1f7df4d5bdc0f02b2fbdfd7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 22/27] fix: DSM-Synch initialises its round counter in the
 debug build

---
 libconcurrent/concurrent/dsmsynch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/dsmsynch.c b/libconcurrent/concurrent/dsmsynch.c
index 47f771a..366a4fc 100644
--- a/libconcurrent/concurrent/dsmsynch.c
+++ b/libconcurrent/concurrent/dsmsynch.c
@@ -78,7 +78,7 @@ void DSMSynchStructInit(DSMSynchStruct *l, uint32_t nthreads) {
     }
 
 #ifdef DEBUG
-    l->counter = 0;
+    l->rounds = l->counter = 0;
 #endif
     synchFullFence();
 }
-- 
2.43.0


From f8e158e87fcd1cd3eeea19a9a5c315f23d28a5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 23/27] fix: a new fiber never takes the place of another fiber
 that is still active

---
 libconcurrent/primitives/uthreads.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index c60c44c..73ddd30 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -86,23 +86,28 @@ static void fiber_start_func(FiberData *context) {
 int synchSpawnFiber(void *(*func)(void *), long arg) {
     ucontext_t tmp;
     FiberData context;
+    int slot;
 
     if (N_FIBERS == MAX_FIBERS)
         return -1;
 
-    getcontext(&(FIBER_LIST[N_FIBERS].context));
-    FIBER_LIST[N_FIBERS].active = true;
-    FIBER_LIST[N_FIBERS].context.uc_link = NULL;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_size = FIBER_STACK;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_flags = 0;
+    // Find a slot which is not used by a running fiber; slot 0 belongs to the main fiber of the posix thread
+    for (slot = 1; FIBER_LIST[slot].active; slot++)
+        ;
+
+    getcontext(&(FIBER_LIST[slot].context));
+    FIBER_LIST[slot].active = true;
+    FIBER_LIST[slot].context.uc_link = NULL;
+    FIBER_LIST[slot].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
+    FIBER_LIST[slot].context.uc_stack.ss_size = FIBER_STACK;
+    FIBER_LIST[slot].context.uc_stack.ss_flags = 0;
 
     context.func = func;
     context.arg = arg;
-    context.cur = &FIBER_LIST[N_FIBERS].jmp;
+    context.cur = &FIBER_LIST[slot].jmp;
     context.prev = &tmp;
-    makecontext(&FIBER_LIST[N_FIBERS].context, (void (*)())fiber_start_func, 1, &context);
-    swapcontext(&tmp, &FIBER_LIST[N_FIBERS].context);
+    makecontext(&FIBER_LIST[slot].context, (void (*)())fiber_start_func, 1, &context);
+    swapcontext(&tmp, &FIBER_LIST[slot].context);
     N_FIBERS++;
     return 1;
 }
-- 
2.43.0


From da992873cefaea531a240fb36b82484ec11c73fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 24/27] fix: the stack of a finished fiber is freed completely
 and in every case

---
 libconcurrent/primitives/uthreads.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index 73ddd30..ddb9617 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -17,6 +17,7 @@ typedef struct FiberData {
 
 inline static void switch_to_fiber(Fiber *prev, Fiber *cur);
 inline static void fiber_start_func(FiberData *context);
+inline static void recycle_fiber_stack(void);
 
 static volatile __thread int N_FIBERS = 1;
 static __thread Fiber *FIBER_LIST = NULL;
@@ -42,6 +43,14 @@ inline static void switch_to_fiber(Fiber *prev, Fiber *cur) {
     }
 }
 
+// Frees the stack of the fiber that finished just before the current one took control
+inline static void recycle_fiber_stack(void) {
+    if (FIBER_RECYCLE != NULL) {
+        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
+        FIBER_RECYCLE = NULL;
+    }
+}
+
 void synchFiberYield(void) {
     int prev_fiber;
 
@@ -53,10 +62,7 @@ void synchFiberYield(void) {
         currentFiber = (currentFiber + 1) % MAX_FIBERS;
     } while (FIBER_LIST[currentFiber].active == false);
     switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);
-    if (FIBER_RECYCLE != NULL) {
-        synchFreeMemory(FIBER_RECYCLE, sizeof(Fiber));
-        FIBER_RECYCLE = NULL;
-    }
+    recycle_fiber_stack();
 }
 
 static void fiber_start_func(FiberData *context) {
@@ -70,6 +76,7 @@ static void fiber_start_func(FiberData *context) {
     if (_setjmp(*(context->cur)) == 0)
         swapcontext(&tmp, context->prev);
 
+    recycle_fiber_stack();
     func((void *)arg); // Execute fiber with function func
     if (N_FIBERS == 1) // This check is not useful, since
         return;        // main thread never calls fiber_start_func
-- 
2.43.0


From be00a8a0cba01d4ed4b3e20177679ec5a876608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 25/27] fix: synchInitFibers frees the fiber table of an
 earlier call

---
 libconcurrent/primitives/uthreads.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index ddb9617..0e8d714 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -28,6 +28,8 @@ static __thread int currentFiber = 0;
 void synchInitFibers(int max) {
     int i;
 
+    if (FIBER_LIST != NULL) // The fibers of a previous call have finished
+        synchFreeMemory(FIBER_LIST, MAX_FIBERS * sizeof(Fiber));
     MAX_FIBERS = max;
     FIBER_LIST = synchGetMemory(MAX_FIBERS * sizeof(Fiber));
     getcontext(&(FIBER_LIST[0].context));
-- 
2.43.0


From ed78fcddfeb5af2a9e57b8d925a6a0aae8788603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 26/27] fix: CLH-Hash searches and deletions no longer take a
 node from the pool that they never use

---
 libconcurrent/concurrent/clhhash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index 4115287..ddebab8 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -121,7 +121,7 @@ inline RetVal CLHHashSearch(CLHHash *hash, CLHHashThreadState *th_state, int64_t
     args.key = key;
     args.value = INT_MIN;
     args.cell = hash_func(hash, key);
-    args.node = synchAllocObj(&th_state->pool);
+    args.node = NULL;
     hash->announce[pid] = args;
 
     CLHLock(hash->synch[args.cell], pid);
@@ -138,7 +138,7 @@ inline void CLHHashDelete(CLHHash *hash, CLHHashThreadState *th_state, int64_t k
     args.key = key;
     args.value = INT_MIN;
     args.cell = hash_func(hash, key);
-    args.node = synchAllocObj(&th_state->pool);
+    args.node = NULL;
     hash->announce[pid] = args;
 
     CLHLock(hash->synch[args.cell], pid);
-- 
2.43.0


From 18c9e8d06614432d14a5f53c2f3e7d2978bf3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 27/27] fix: the 128-bit compare-and-swap tells the compiler
 that it changes memory

---
 libconcurrent/primitives/primitives.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index a6923d6..5af1ebd 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -126,7 +126,8 @@ inline bool _CAS128(uint64_t *A, uint64_t B0, uint64_t B1, uint64_t C0, uint64_t
     asm volatile("lock;"
                  "cmpxchg16b %2; setz %1"
                  : "=d" (dummy), "=a" (res), "+m" (*A)
-                 : "b" (C0), "c" (C1), "a" (B0),  "d" (B1));
+                 : "b" (C0), "c" (C1), "a" (B0),  "d" (B1)
+                 : "cc", "memory");
 #else
     __uint128_t old_value = (__uint128_t)(B0) | (((__uint128_t)(B1)) << 64ULL);
     __uint128_t new_value = (__uint128_t)(C0) | (((__uint128_t)(C1)) << 64ULL);
-- 
2.43.0

