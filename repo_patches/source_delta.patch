From 022eed7a38366487fe17f3da8d07e415184a0439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:30 +0000
Subject: [PATCH 01/35] fix: mirror the context when looking up blocks that
 read a region

A block reads a region iff its write ROI, grown by (lower, upper) context,
overlaps it. Growing the region instead needs (upper, lower) context. With
asymmetric context, downstream() disagreed with upstream(): blocks were
released too early, several times or never.
---
 daisy/dependency_graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 9d38bdb..44d69c9 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -503,10 +503,12 @@ class BlockwiseDependencyGraph:
         if read_roi:
             # if we want to get blocks whose read_roi overlaps with sub_roi
             # simply grow the sub_roi by the block context. That way we
-            # only need to check if a blocks read_roi overlaps with sub_roi.
-            # This is the same behavior as when we want write_roi overlap
+            # only need to check if a blocks write_roi overlaps with sub_roi.
+            # Note that the context has to be mirrored: a block below sub_roi
+            # reaches it with its upper context, a block above sub_roi with
+            # its lower context.
             sub_roi = sub_roi.grow(
-                self.read_write_context[0], self.read_write_context[1]
+                self.read_write_context[1], self.read_write_context[0]
             )
 
         # TODO: handle unsatisfiable sub_rois
-- 
2.43.0


From 92b222395afaebd7db2393ddca7698c0d919f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:30 +0000
Subject: [PATCH 02/35] fix: do not crash on blocks without any counterpart in
 a chained task

get_subgraph_blocks() raised a TypeError if the requested region was outside
of the ROI of the task, i.e., as soon as two chained tasks did not cover the
same area.
---
 daisy/dependency_graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 44d69c9..25911a9 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -511,10 +511,11 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[1], self.read_write_context[0]
             )
 
-        # TODO: handle unsatisfiable sub_rois
-        # i.e. sub_roi is outside of *total_write_roi
-        # after accounting for padding
         sub_roi = sub_roi.intersect(self.total_write_roi)
+        if sub_roi.empty:
+            # sub_roi is outside of *total_write_roi after accounting for
+            # padding
+            return []
 
         # get sub_roi relative to the write roi
         begin = sub_roi.begin - self.total_write_roi.offset
-- 
2.43.0


From 1a3ffa8a65e131fe108de32e2033a902ee5b5966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 03/35] fix: find dependencies on the overhanging part of
 blocks

With fit='overhang', blocks read and write beyond the total write ROI. This
part was ignored when looking up the blocks of a chained task that write to
(or read from) a region, such that downstream blocks could be scheduled before
the data they read was written, or several times.
---
 daisy/dependency_graph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 25911a9..c9c52d6 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -511,7 +511,13 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[1], self.read_write_context[0]
             )
 
-        sub_roi = sub_roi.intersect(self.total_write_roi)
+        covered_roi = self.total_write_roi
+        if self.fit == "overhang" and not covered_roi.empty:
+            # overhanging blocks also write beyond total_write_roi
+            covered_roi = covered_roi.grow(
+                0, -covered_roi.shape % self.block_write_roi.shape
+            )
+        sub_roi = sub_roi.intersect(covered_roi)
         if sub_roi.empty:
             # sub_roi is outside of *total_write_roi after accounting for
             # padding
-- 
2.43.0


From c20acf7eb9b440846197e1f6737338f6d80a961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:11 +0000
Subject: [PATCH 04/35] fix: schedule blocks of chained tasks that have no
 upstream blocks

Blocks of a task with upstream tasks were only queued once one of their
upstream blocks finished. Blocks that do not overlap with any upstream block
were therefore never processed, and the run never finished.
---
 daisy/dependency_graph.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index c9c52d6..5d22624 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -492,6 +492,18 @@ class BlockwiseDependencyGraph:
 
         return shrunk_block
 
+    def covers(self, roi):
+        """Whether the write ROIs of the blocks of this task cover `roi`."""
+
+        covered_roi = self.total_write_roi
+        if covered_roi.empty:
+            return False
+        if self.fit == "valid":
+            covered_roi = covered_roi.grow(
+                0, -(covered_roi.shape % self.block_write_roi.shape)
+            )
+        return not covered_roi.empty and covered_roi.contains(roi)
+
     def get_subgraph_blocks(self, sub_roi, read_roi=False):
         """Return ids of blocks, as instantiated in the full graph, such that
         their total write rois fully cover `sub_roi`.
@@ -624,10 +636,30 @@ class DependencyGraph:
 
     def roots(self):
         root_tasks = self.root_tasks()
-        return {
+        roots = {
             task_id: (self.num_roots(task_id), self.root_gen(task_id))
             for task_id in root_tasks
         }
+        for task_id in self.task_ids:
+            if task_id in roots:
+                continue
+            # blocks of a chained task that don't overlap with any block of
+            # the upstream tasks have nothing to wait for
+            num_roots = sum(1 for _ in self.__independent_root_gen(task_id))
+            if num_roots > 0:
+                roots[task_id] = (num_roots, self.__independent_root_gen(task_id))
+        return roots
+
+    def __independent_root_gen(self, task_id):
+        for upstream_task in self.upstream_tasks[task_id]:
+            if self.task_dependency_graphs[upstream_task].covers(
+                self.task_dependency_graphs[task_id].total_write_roi
+            ):
+                # every block has at least one upstream block
+                return
+        for block in self.root_gen(task_id):
+            if len(self.upstream(block)) == 0:
+                yield block
 
     def __add_task(self, task):
         if task.task_id not in self.task_map:
-- 
2.43.0


From 0e0633e66a87f47824202ad2e3844af857c0c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 05/35] fix: do not count orphaned blocks twice

An orphan leaves the boundary once none of its upstream blocks is in the
surface anymore. If another of its upstream blocks failed later, it was
reported (and counted) as an orphan again, such that the task was never
considered to be done.
---
 daisy/ready_surface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/daisy/ready_surface.py b/daisy/ready_surface.py
index e014d30..09c6083 100644
--- a/daisy/ready_surface.py
+++ b/daisy/ready_surface.py
@@ -25,6 +25,9 @@ class ReadySurface:
 
         self.surface = set()
         self.boundary = set()
+        # all orphans so far, to not report them again if they already left
+        # the boundary
+        self.orphans = set()
 
     def mark_success(self, node):
         """
@@ -106,7 +109,7 @@ class ReadySurface:
         orphans = set()
         while len(down_nodes) > 0:
             down_node = down_nodes.pop()
-            if self.__add_to_boundary(down_node):
+            if self.__add_to_boundary(down_node) and down_node not in self.orphans:
                 # check if any nodes downstream of this node are also boundary
                 # nodes.
                 new_nodes = set(self.downstream(down_node)) - orphans
@@ -131,6 +134,7 @@ class ReadySurface:
         if len(list(self.upstream(node))) == 0:
             self.boundary.remove(node)
 
+        self.orphans |= orphans
         return orphans
 
     def __add_to_boundary(self, node):
-- 
2.43.0


From f74dc746573280a223be1be0879d6717fa5a3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 06/35] fix: handle total ROIs that are too small for any block

Creating a scheduler for such a task raised an IndexError or resulted in a
wrong (even negative) number of blocks, depending on read_write_conflict.
---
 daisy/dependency_graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 5d22624..9babcd6 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -183,7 +183,7 @@ class BlockwiseDependencyGraph:
         level_offset = self._level_offsets[level]
 
         axis_blocks = [
-            (e - lo + s - r) // s
+            max(0, (e - lo + s - r) // s)
             for lo, e, s, r in zip(
                 level_offset,
                 self.total_write_roi.shape,
@@ -365,8 +365,12 @@ class BlockwiseDependencyGraph:
                 -write_roi_shape % self.block_write_roi.shape
             ) % self.block_write_roi.shape
 
+        # (at least one block, for total ROIs that are too small for any block)
         level_stride = Coordinate(
-            (min(a, b) for a, b in zip(level_stride, write_roi_shape))
+            (
+                max(min(a, b), w)
+                for a, b, w in zip(level_stride, write_roi_shape, write_shape)
+            )
         )
 
         logger.debug("final level stride (multiples of write size) is %s", level_stride)
-- 
2.43.0


From e7ef8fb04b790f4d7c323d8d6650eab29f855a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 07/35] fix: do not stop the serial server after skipping all
 ready blocks

If the check function skipped all blocks of the ready tasks, the serial server
returned without processing the tasks that became ready by that.
---
 daisy/serial_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index e241862..e33807f 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -34,6 +34,10 @@ class SerialServer(ServerObservee):
                     if block is not None:
                         break
                 if block is None:
+                    # skipping all ready blocks might have made other blocks
+                    # ready
+                    if len(scheduler.get_ready_tasks()) > 0:
+                        continue
                     break
                 if block.task_id not in started_tasks:
                     self.notify_task_start(
-- 
2.43.0


From 0d158dde9418983f6a62b87c6b304556450c680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:57 +0000
Subject: [PATCH 08/35] fix: do not starve delayed requests of other tasks

Delayed requests were always answered starting with the first task that had
one. If this task was not able to make progress, the requests of other tasks
were never answered, such that a chain of three tasks could hang forever.
---
 daisy/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index 011c38f..66ba695 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -93,6 +93,11 @@ class Server(ServerObservee):
             if self.pending_requests[task_id].empty():
                 continue
 
+            task_state = self.scheduler.task_states[task_id]
+            if task_state.ready_count == 0 and task_state.pending_count > 0:
+                # this request would be delayed again, give others a chance
+                continue
+
             logger.debug("Answering delayed request for task %s", task_id)
             return self.pending_requests[task_id].get()
 
-- 
2.43.0


From be7b819ae2945b7584c2a0e5e9ee29bc8e708593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 09/35] fix: forget the failure of earlier attempts when
 retrying blocks serially

A retried block still carried status FAILED from its previous attempt, such
that retries in the serial server could never succeed.
---
 daisy/serial_server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index e33807f..151ae0e 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -47,6 +47,7 @@ class SerialServer(ServerObservee):
                 self.notify_acquire_block(
                     block.task_id, scheduler.task_states[block.task_id]
                 )
+                block.status = BlockStatus.PROCESSING
                 process_funcs[block.task_id](block)
                 if not block.status == BlockStatus.FAILED:
                     # unless explicitly set to failed, we assume the block is successful
-- 
2.43.0


From 85e1eb87700e75d5540a3ef221d8246e3d39974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 10/35] fix: do not list lost blocks twice

A block that timed out on a closed stream raised a KeyError.
---
 daisy/block_bookkeeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/block_bookkeeper.py b/daisy/block_bookkeeper.py
index 5b5ad67..dbb02a3 100644
--- a/daisy/block_bookkeeper.py
+++ b/daisy/block_bookkeeper.py
@@ -75,7 +75,7 @@ class BlockBookkeeper:
                 lost_block_ids.append(block_id)
 
             # did processing time out?
-            if self.processing_timeout is not None:
+            elif self.processing_timeout is not None:
                 if time.time() - log.time_sent > self.processing_timeout:
                     lost_block_ids.append(block_id)
 
-- 
2.43.0


From e8994aede7ea4d0ad03ba3687ac758fc6bc21c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 11/35] fix: report failed and orphaned blocks in the result of
 run_blockwise

The documented return value is True only if all blocks were successfully run.
---
 daisy/convenience.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index b668f2b..4ddfb4e 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -57,4 +57,7 @@ def _run_blockwise(tasks, stop_event):
     server = Server(stop_event=stop_event)
     cl_monitor = CLMonitor(server)  # noqa
     task_states = server.run_blockwise(tasks)
-    return all(task_state.is_done() for task_state in task_states.values())
+    return all(
+        task_state.completed_count == task_state.total_block_count
+        for task_state in task_states.values()
+    )
-- 
2.43.0


From 333c42780eb3b696870f255786744c481c66bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 12/35] fix: do not replace workers that already left the pool

Late failure messages of workers that had been reaped (and replaced) grew the
pool beyond num_workers.
---
 daisy/task_worker_pools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daisy/task_worker_pools.py b/daisy/task_worker_pools.py
index e37b90a..30ebc7e 100644
--- a/daisy/task_worker_pools.py
+++ b/daisy/task_worker_pools.py
@@ -67,5 +67,6 @@ class TaskWorkerPools(ServerObserver):
 
             self.failure_counts[task_id][worker_id] = 0
             worker_pool = self.worker_pools[task_id]
-            worker_pool.stop(worker_id)
-            worker_pool.inc_num_workers(1)
+            if worker_id in worker_pool.workers:
+                worker_pool.stop(worker_id)
+                worker_pool.inc_num_workers(1)
-- 
2.43.0


From c5e7a84c512ccf0fb74c315af592d704ef047488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 13/35] fix: reject context values that can not be passed on by
 the constructor

Values containing = or : were accepted and then truncated or misread by the
workers.
---
 daisy/context.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/daisy/context.py b/daisy/context.py
index b53dec0..34dc5d4 100644
--- a/daisy/context.py
+++ b/daisy/context.py
@@ -11,6 +11,8 @@ class Context:
 
     def __init__(self, **kwargs):
         self.__dict = dict(logdir=get_log_basedir(), **kwargs)
+        for k, v in self.__dict.items():
+            self.__validate(str(k), str(v))
 
     def copy(self):
         return copy.deepcopy(self)
@@ -22,13 +24,16 @@ class Context:
         k = str(k)
         v = str(v)
 
+        self.__validate(k, v)
+
+        self.__dict[k] = v
+
+    def __validate(self, k, v):
         if "=" in k or ":" in k:
             raise RuntimeError("Context variables must not contain = or :.")
         if "=" in v or ":" in v:
             raise RuntimeError("Context values must not contain = or :.")
 
-        self.__dict[k] = v
-
     def __getitem__(self, k):
         return self.__dict[k]
 
-- 
2.43.0


From 93bc03afcf98454aba5616ef88411ec54b5eee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 14/35] fix: do not hand out blocks to clients that are gone

Delayed requests of dead workers used up an attempt of the next ready block.
---
 daisy/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index 66ba695..354eb70 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -130,6 +130,10 @@ class Server(ServerObservee):
     def _handle_acquire_block(self, message):
         logger.debug("Received block request for task %s", message.task_id)
 
+        if message.stream.closed():
+            # the client is gone, do not waste an attempt to process a block
+            return
+
         task_state = self.scheduler.task_states[message.task_id]
 
         logger.debug("Current task state: %s", task_state)
-- 
2.43.0


From d1b92438817666f55c7a11f6ae71a38fabf383f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 15/35] fix: use the first of a tuple of check functions to
 skip blocks

Passing the documented tuple raised (and swallowed) a TypeError.
---
 daisy/scheduler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/daisy/scheduler.py b/daisy/scheduler.py
index f85003e..39188bc 100644
--- a/daisy/scheduler.py
+++ b/daisy/scheduler.py
@@ -191,8 +191,12 @@ class Scheduler:
         try:
             # pre_check can intermittently fail
             # so we wrap it in a try block
-            if self.task_map[block.task_id].check_function is not None:
-                return self.task_map[block.task_id].check_function(block)
+            check_function = self.task_map[block.task_id].check_function
+            if isinstance(check_function, tuple):
+                # the first function checks whether the block needs to be run
+                check_function = check_function[0]
+            if check_function is not None:
+                return check_function(block)
             else:
                 return False
         except Exception:
-- 
2.43.0


From db4e0da9207cbd1c0617722cd4ef7b63ad812f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 16/35] fix: report exceptions that can not be unpickled

A block failing with such an exception took down the whole server.
---
 daisy/messages/message.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/daisy/messages/message.py b/daisy/messages/message.py
index cbc362c..6c3820d 100644
--- a/daisy/messages/message.py
+++ b/daisy/messages/message.py
@@ -1,5 +1,6 @@
 from daisy.tcp import TCPMessage
 import logging
+import pickle
 
 logger = logging.getLogger(__name__)
 
@@ -19,3 +20,20 @@ class ExceptionMessage(Message):
 
     def __init__(self, exception):
         self.exception = exception
+
+    def __getstate__(self):
+        # exceptions of user code can not always be pickled, or unpickled on
+        # the other side
+        try:
+            pickled = pickle.dumps(self.exception)
+        except Exception:
+            pickled = None
+        return {**self.__dict__, "exception": (pickled, repr(self.exception))}
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        pickled, description = state["exception"]
+        try:
+            self.exception = pickle.loads(pickled)
+        except Exception:
+            self.exception = RuntimeError(description)
-- 
2.43.0


From 73344c031db0c5f22cb839b5a6c50f5de09e5a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 17/35] fix: forward worker exceptions that can not be
 unpickled

They were dropped (and the run never ended) or replaced by an unrelated
TypeError.
---
 daisy/worker.py      | 3 ++-
 daisy/worker_pool.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/daisy/worker.py b/daisy/worker.py
index 6e48529..fa50028 100644
--- a/daisy/worker.py
+++ b/daisy/worker.py
@@ -1,4 +1,5 @@
 from .context import Context
+from .messages import ExceptionMessage
 import daisy.logging as daisy_logging
 import logging
 import multiprocessing
@@ -103,7 +104,7 @@ class Worker:
             logger.error("%s received exception: %s", self, e)
             if self.error_queue:
                 try:
-                    self.error_queue.put(e, timeout=1)
+                    self.error_queue.put(ExceptionMessage(e), timeout=1)
                 except queue.Full:
                     logger.error(
                         "%s failed to forward exception, error queue is full", self
diff --git a/daisy/worker_pool.py b/daisy/worker_pool.py
index d400dbb..d135ce2 100644
--- a/daisy/worker_pool.py
+++ b/daisy/worker_pool.py
@@ -96,7 +96,7 @@ class WorkerPool:
         """
 
         try:
-            error = self.error_queue.get(block=False)
+            error = self.error_queue.get(block=False).exception
             logger.debug("Got error: %s", error)
             raise error
         except queue.Empty:
-- 
2.43.0


From f272b188e3978f5200e13b5cd8cac20d2ef9f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:04 +0000
Subject: [PATCH 18/35] fix: keep workers until all blocks of their task are
 settled

Workers were dismissed while the last blocks were still being processed. If
such a block was lost after its worker had been replaced (and the replacement
dismissed), there was nobody left to retry it and the run never ended.
---
 daisy/server.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/daisy/server.py b/daisy/server.py
index 354eb70..6ed8666 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -94,7 +94,7 @@ class Server(ServerObservee):
                 continue
 
             task_state = self.scheduler.task_states[task_id]
-            if task_state.ready_count == 0 and task_state.pending_count > 0:
+            if task_state.ready_count == 0 and not task_state.is_done():
                 # this request would be delayed again, give others a chance
                 continue
 
@@ -143,9 +143,9 @@ class Server(ServerObservee):
         if block is None:
             assert task_state.ready_count == 0
 
-            if task_state.pending_count == 0:
+            if task_state.is_done():
                 logger.debug(
-                    "No more pending blocks for task %s, terminating client",
+                    "No more blocks for task %s, terminating client",
                     message.task_id,
                 )
 
@@ -160,7 +160,8 @@ class Server(ServerObservee):
                 return
 
             # there are more blocks for this task, but none of them has its
-            # dependencies fullfilled
+            # dependencies fullfilled, or all of them are being processed (and
+            # might have to be retried)
             logger.debug(
                 "No currently ready blocks for task %s, delaying request",
                 message.task_id,
-- 
2.43.0


From ed9c2310a62b76fe5e0bc455e7effa972ef7fc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:35 +0000
Subject: [PATCH 19/35] fix: return blocks as failed if user code exits or is
 interrupted

A block that user code already marked as successful was returned as such,
although the code processing it was interrupted afterwards.
---
 daisy/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/client.py b/daisy/client.py
index 3fa6fa0..be153fa 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -92,6 +92,10 @@ class Client:
                 block.status = BlockStatus.FAILED
                 self.tcp_client.send_message(BlockFailed(e, block, self.context))
                 logger.exception("Block %s failed in worker %d", block, self.worker_id)
+            except BaseException:
+                # user code exited or was interrupted
+                block.status = BlockStatus.FAILED
+                raise
             finally:
                 # if we somehow got here without setting the block status to
                 # "SUCCESS" (e.g., through KeyboardInterrupt), we assume the
-- 
2.43.0


From 1b7f1cb6bf31a1c9a96712cb16af73547713dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:15 +0000
Subject: [PATCH 20/35] fix: do not lose the output of workers that are
 terminated

Worker output was block buffered: whatever was not flushed yet was lost when
the worker was terminated, which happens to all workers that are still alive
when the last block was returned.
---
 daisy/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daisy/logging.py b/daisy/logging.py
index 5067934..6f677ca 100644
--- a/daisy/logging.py
+++ b/daisy/logging.py
@@ -63,7 +63,8 @@ def redirect_stdouterr(basename, mode="w"):
 
 
 def _file_reopen(filename, mode, file_obj):
-    new = open(filename, mode)
+    # line buffered, output should not get lost if the process is terminated
+    new = open(filename, mode, buffering=1)
     newfd = new.fileno()
     targetfd = file_obj.fileno()
     os.close(targetfd)
-- 
2.43.0


From 8ee6d98141b287ad99c9e9b3b9f427018cee6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:50 +0000
Subject: [PATCH 21/35] fix: count the arguments a process function is to be
 called with

Bound first arguments were only recognized if they are called self, such that
class methods were rejected or not called as intended, functions with an
argument called self or decorated with functools.wraps neither.
---
 daisy/task.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/daisy/task.py b/daisy/task.py
index 0a668b5..8f01f1f 100644
--- a/daisy/task.py
+++ b/daisy/task.py
@@ -1,5 +1,5 @@
 from .client import Client
-from inspect import getfullargspec
+from inspect import signature
 
 
 class Task:
@@ -165,9 +165,11 @@ class Task:
         else:
             self.init_callback_fn = self._default_init
 
-        args = getfullargspec(process_function).args
-        if "self" in args:
-            args.remove("self")
+        args = [
+            p.name
+            for p in signature(process_function).parameters.values()
+            if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)
+        ]
         if len(args) == 0:
             # spawn function
             self.spawn_worker_function = process_function
-- 
2.43.0


From 2bffa495e06daf60d5b8b3dd333e886be4357396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:15 +0000
Subject: [PATCH 22/35] fix: report exceptions without a representation

---
 daisy/messages/message.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/daisy/messages/message.py b/daisy/messages/message.py
index 6c3820d..f52c4ac 100644
--- a/daisy/messages/message.py
+++ b/daisy/messages/message.py
@@ -24,11 +24,14 @@ class ExceptionMessage(Message):
     def __getstate__(self):
         # exceptions of user code can not always be pickled, or unpickled on
         # the other side
+        pickled = None
+        description = type(self.exception).__name__
         try:
+            description = repr(self.exception)
             pickled = pickle.dumps(self.exception)
         except Exception:
-            pickled = None
-        return {**self.__dict__, "exception": (pickled, repr(self.exception))}
+            logger.debug("Exception %s can not be pickled", description)
+        return {**self.__dict__, "exception": (pickled, description)}
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-- 
2.43.0


From 2f748b71fc2a7ba7b133b736f0b499effdc8927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:38 +0000
Subject: [PATCH 23/35] fix: accept connections in the io loop of the process

Server() did not accept connections if the io loop had been started from another
thread, e.g., by an earlier run_blockwise().
---
 daisy/tcp/tcp_server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index aee63e4..62a81cc 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -2,6 +2,7 @@ from .exceptions import NoFreePort
 from .internal_messages import AckClientDisconnect, NotifyClientDisconnect
 from .io_looper import IOLooper
 from .tcp_stream import TCPStream
+import asyncio
 import logging
 import queue
 import socket
@@ -28,6 +29,10 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         self.exception_queue = queue.Queue()
         self.client_streams = set()
 
+        # accept connections in our io loop, also if it was started from another
+        # thread (tornado listens in the event loop of the current thread)
+        asyncio.set_event_loop(self.ioloop.asyncio_loop)
+
         # find empty port, start listening
         for i in range(max_port_tries):
             try:
-- 
2.43.0


From e872462bb9a5c95a0a101ebdc95a30406fad4eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:38 +0000
Subject: [PATCH 24/35] fix: run tasks that are only given as requirements

Server.run_blockwise() did not end and SerialServer.run_blockwise() raised if a
task was not in the list but required by one that is.
---
 daisy/serial_server.py | 3 +++
 daisy/server.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index 151ae0e..6dacede 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -18,6 +18,9 @@ class SerialServer(ServerObservee):
         else:
             scheduler = scheduler
 
+        # include tasks that are only given as requirements of others
+        tasks = list(scheduler.task_map.values())
+
         started_tasks = set()
         finished_tasks: set[str] = set()
         all_tasks = set(task.task_id for task in tasks)
diff --git a/daisy/server.py b/daisy/server.py
index 6ed8666..dc7f202 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -44,6 +44,9 @@ class Server(ServerObservee):
         else:
             self.scheduler = scheduler
 
+        # include tasks that are only given as requirements of others
+        tasks = list(self.scheduler.task_map.values())
+
         self.worker_pools = TaskWorkerPools(tasks, self)
         self.block_bookkeeper = BlockBookkeeper()
         self.started_tasks: set[str] = set()
-- 
2.43.0


From 53fe5753188c31d05db8ba16cf8b70055060369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:04 +0000
Subject: [PATCH 25/35] fix: stop listening at the end of a run

Each run left its listening sockets open, a process with many runs ran out of
file descriptors.
---
 daisy/tcp/tcp_server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index 62a81cc..ef67c2a 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -73,7 +73,10 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
             return None
 
     def disconnect(self):
-        """Close all open streams to clients."""
+        """Close all open streams to clients and stop listening for new
+        ones."""
+
+        self.ioloop.add_callback(self.stop)
 
         streams = list(self.client_streams)  # avoid set change error
         for stream in streams:
-- 
2.43.0


From 870661123fad53c7239e8626cf71a5bd046656ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:04 +0000
Subject: [PATCH 26/35] fix: use one io loop per process

Each run started another io loop, with a thread and file descriptors that were
never released.
---
 daisy/convenience.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index 4ddfb4e..d859aa4 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -1,7 +1,6 @@
 from .cl_monitor import CLMonitor
 from .server import Server
 from .serial_server import SerialServer
-from .tcp import IOLooper
 from multiprocessing.pool import ThreadPool
 from multiprocessing import Event
 
@@ -43,7 +42,6 @@ def run_blockwise(tasks, multiprocessing=True):
     else:
         stop_event = Event()
 
-        IOLooper.clear()
         with ThreadPool(processes=1) as pool:
             result = pool.apply_async(_run_blockwise, args=(tasks, stop_event))
             try:
-- 
2.43.0


From ddedb2a39990e25db2c8f0356c9dd351c87663f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:40 +0000
Subject: [PATCH 27/35] fix: close streams of disconnected clients at the end
 of a run

The server's end of the connection of a client that disconnected was never
closed, a process with many runs ran out of file descriptors.
---
 daisy/tcp/tcp_server.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index ef67c2a..3321844 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -111,9 +111,8 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                 if isinstance(message, NotifyClientDisconnect):
                     # client notifies that it disconnects, send a response
                     # indicating we are no longer using this stream and break
-                    # out of event loop
+                    # out of event loop (our end is closed in disconnect())
                     stream.send_message(AckClientDisconnect())
-                    self.client_streams.remove(stream)
                     return
 
                 else:
-- 
2.43.0


From 117e1ba3dd7fde838b76ebcb6d1152cfa480e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:16 +0000
Subject: [PATCH 28/35] fix: notify every observer when one of them leaves
 during a notification

---
 daisy/server_observer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/daisy/server_observer.py b/daisy/server_observer.py
index d530c53..67d63ae 100644
--- a/daisy/server_observer.py
+++ b/daisy/server_observer.py
@@ -33,25 +33,25 @@ class ServerObservee:
         self.observers.remove(observer)
 
     def notify_task_start(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_task_start(task_id, task_state)
 
     def notify_acquire_block(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_acquire_block(task_id, task_state)
 
     def notify_release_block(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_release_block(task_id, task_state)
 
     def notify_task_done(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_task_done(task_id, task_state)
 
     def notify_block_failure(self, block, exception, context):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_block_failure(block, exception, context)
 
     def notify_server_exit(self):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_server_exit()
-- 
2.43.0


From 92d6ad6927939285094849926fff3aa486aaed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:16 +0000
Subject: [PATCH 29/35] fix: visit each upstream task once when collecting a
 run's tasks

---
 daisy/convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index d859aa4..b844e5f 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -30,7 +30,7 @@ def run_blockwise(tasks, multiprocessing=True):
         if task.task_id not in task_ids:
             task_ids.add(task.task_id)
             all_tasks.append(task)
-        tasks.extend(task.upstream_tasks)
+            tasks.extend(task.upstream_tasks)
 
     tasks = all_tasks
 
-- 
2.43.0


From 6903ca60a65e2394fde7ed1060ae75895d4f990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:16 +0000
Subject: [PATCH 30/35] fix: keep dots in the base name when redirecting output

---
 daisy/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daisy/logging.py b/daisy/logging.py
index 6f677ca..d672867 100644
--- a/daisy/logging.py
+++ b/daisy/logging.py
@@ -58,8 +58,8 @@ def redirect_stdouterr(basename, mode="w"):
     logdir = basename.parent
     logdir.mkdir(parents=True, exist_ok=True)
 
-    sys.stdout = _file_reopen(basename.with_suffix(".out"), mode, sys.__stdout__)
-    sys.stderr = _file_reopen(basename.with_suffix(".err"), mode, sys.__stderr__)
+    sys.stdout = _file_reopen(f"{basename}.out", mode, sys.__stdout__)
+    sys.stderr = _file_reopen(f"{basename}.err", mode, sys.__stderr__)
 
 
 def _file_reopen(filename, mode, file_obj):
-- 
2.43.0


From 15658431e02ae52034c9491a147a97a1f2c338dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:05 +0000
Subject: [PATCH 31/35] fix: try again if a server cannot listen

---
 daisy/tcp/tcp_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index 3321844..cc8519a 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -40,10 +40,10 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                 break
 
             except OSError:
-                if i == self.max_port_tries - 1:
+                if i == max_port_tries - 1:
                     raise NoFreePort(
                         "Could not find a free port after %d tries "
-                        % self.max_port_tries
+                        % max_port_tries
                     )
 
         self.address = self._get_address(host)
-- 
2.43.0


From d655b87df8033aba1d71574b7fcd401aa07b8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:23 +0000
Subject: [PATCH 32/35] fix: number of blocks of tasks with 2^63 blocks or more

The product of the number of blocks per axis overflowed 64 bits, such that
e.g. a task with 2^64 blocks announced none (and was done immediately).
---
 daisy/dependency_graph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 9babcd6..5eb24cc 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -3,10 +3,9 @@ from .block import Block
 from .coordinate import Coordinate
 from .roi import Roi
 
-import numpy as np
-
 from itertools import product
 import logging
+import math
 import collections
 from typing import List, Optional
 
@@ -191,7 +190,7 @@ class BlockwiseDependencyGraph:
                 self.rounding_term,
             )
         ]
-        num_blocks = np.prod(axis_blocks)
+        num_blocks = math.prod(axis_blocks)
         logger.debug(
             "number of blocks for write_roi: %s, level (%d), "
             "offset (%s), and stride (%s): %d (per dim: %s)",
-- 
2.43.0


From bdedcadc0cd67ec191bc734d5af8ad5c91fc411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:57 +0000
Subject: [PATCH 33/35] fix: do not keep the offsets of all blocks along an
 axis in memory

itertools.product makes tuples of its arguments, such that scheduling a task
with many blocks along an axis (10^9, say) took minutes and tens of gigabytes
before the first block was handed out.
---
 daisy/dependency_graph.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 5eb24cc..200a069 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -12,6 +12,23 @@ from typing import List, Optional
 logger = logging.getLogger(__name__)
 
 
+def _lazy_product(ranges):
+    """Like ``itertools.product``, but without keeping the elements of all
+    ranges in memory."""
+
+    if len(ranges) == 0:
+        yield ()
+        return
+
+    if not all(ranges):
+        # one of the ranges is empty
+        return
+
+    for head in ranges[0]:
+        for tail in _lazy_product(ranges[1:]):
+            yield (head,) + tail
+
+
 class BlockwiseDependencyGraph:
     """Create a dependency graph as a list with elements::
 
@@ -434,9 +451,7 @@ class BlockwiseDependencyGraph:
                 self.rounding_term,
             )
         ]
-        for offset in product(*block_dim_offsets):
-            # TODO: can we do this part lazily? This might be a lot of
-            # Coordinates
+        for offset in _lazy_product(block_dim_offsets):
             block_offset = Coordinate(offset)
 
             # convert to global coordinates
-- 
2.43.0


From 288ad5cb52f97467a0ce47f7f8e3f0a8ce6f3868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:11 +0000
Subject: [PATCH 34/35] fix: do not wrap logging handlers again in every run

Each CLMonitor wrapped the terminal's logging handlers once more, also those
wrapped by an earlier one, such that runs raised a RecursionError after about
a thousand runs in one process.
---
 daisy/cl_monitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daisy/cl_monitor.py b/daisy/cl_monitor.py
index 55a0d18..edfd636 100644
--- a/daisy/cl_monitor.py
+++ b/daisy/cl_monitor.py
@@ -69,7 +69,9 @@ class CLMonitor(ServerObserver):
 
     def _is_tty_stream_handler(self, handler):
         return (
-            hasattr(handler, "stream")
+            # (not wrapped already by the monitor of an earlier run)
+            not isinstance(handler, TqdmLoggingHandler)
+            and hasattr(handler, "stream")
             and hasattr(handler.stream, "isatty")
             and handler.stream.isatty()
         )
-- 
2.43.0


From 31eef92426509888b1297c8de18558edf0871496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:33 +0000
Subject: [PATCH 35/35] fix: create one IOLoop per process also if threads
 start at once

Servers that were created by several threads of a process at the same time
each got an IOLoop of their own, while their streams sent messages through the
last one: blocks got lost and were processed again, or runs did not end.
---
 daisy/tcp/io_looper.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/daisy/tcp/io_looper.py b/daisy/tcp/io_looper.py
index 5eb526f..d60ac6a 100644
--- a/daisy/tcp/io_looper.py
+++ b/daisy/tcp/io_looper.py
@@ -21,6 +21,7 @@ class IOLooper:
 
     threads: Dict[int, threading.Thread] = {}
     ioloops: Dict[int, tornado.ioloop.IOLoop] = {}
+    lock = threading.Lock()
 
     @staticmethod
     def clear():
@@ -28,6 +29,11 @@ class IOLooper:
         IOLooper.ioloops = {}
 
     def __init__(self):
+        # several threads of a process share one IOLoop
+        with IOLooper.lock:
+            self._init_ioloop()
+
+    def _init_ioloop(self):
         pid = os.getpid()
 
         if pid not in IOLooper.threads:
@@ -44,3 +50,11 @@ class IOLooper:
         else:
             logger.debug("Reusing IOLoop for process %d...", pid)
             self.ioloop = self.ioloops[pid]
+
+
+def _reset_lock():
+    # another thread might have held the lock when this process was forked
+    IOLooper.lock = threading.Lock()
+
+
+os.register_at_fork(after_in_child=_reset_lock)
-- 
2.43.0

