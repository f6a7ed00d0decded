From de8a285f37742b42deaa8eb01dace1f2db4339c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:46 +0000
Subject: [PATCH 01/43] fix: report failed MPI tasks as completed and do not
 crash the worker when a failing task has no outputs

A failing task never told the monitor that its outputs were completed, so
'wait' hung. A failing task with num_returns=0 crashed the worker, and a
failing coroutine method (or one with num_returns=0) died with
UnboundLocalError.
---
 unidist/core/backends/mpi/core/worker/task_store.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index f9be5c5..abd9fd3 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -233,6 +233,7 @@ class TaskStore:
         if inspect.iscoroutinefunction(task):
 
             async def execute():
+                completed_data_ids = []
                 try:
                     w_logger.debug("- Start task execution -")
 
@@ -263,8 +264,10 @@ class TaskStore:
                     ):
                         for output_id in output_data_ids:
                             local_store.put(output_id, e)
-                    else:
+                        completed_data_ids = list(output_data_ids)
+                    elif output_data_ids is not None:
                         local_store.put(output_data_ids, e)
+                        completed_data_ids = [output_data_ids]
                 else:
                     if output_data_ids is not None:
                         if (
@@ -352,8 +355,10 @@ class TaskStore:
                 ):
                     for output_id in output_data_ids:
                         local_store.put(output_id, e)
-                else:
+                    completed_data_ids = list(output_data_ids)
+                elif output_data_ids is not None:
                     local_store.put(output_data_ids, e)
+                    completed_data_ids = [output_data_ids]
             else:
                 if output_data_ids is not None:
                     if (
-- 
2.43.0


From 3048d13010964ca72ef54c475997089a001264bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:46 +0000
Subject: [PATCH 02/43] fix: do not consume the cached list of out-of-band
 buffers when deserializing

Getting an object from the serialization cache emptied the cached
'raw_buffers', so the object could not be passed to a task afterwards.
---
 unidist/core/backends/mpi/core/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index cb6d4d2..9f6e180 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -121,7 +121,9 @@ class ComplexDataSerializer:
     PICKLE_THRESHOLD = MpiPickleThreshold.get()
 
     def __init__(self, buffers=None, buffer_count=None):
-        self.buffers = buffers if buffers else []
+        # copy the list because `deserialize` consumes it,
+        # whereas the passed one can be a part of cached serialized data
+        self.buffers = list(buffers) if buffers else []
         self.buffer_count = list(buffer_count) if buffer_count else []
         self._callback_counter = 0
 
-- 
2.43.0


From 7ecb0ef5cf70a7d47820b194b97684e11e3550fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:46 +0000
Subject: [PATCH 03/43] fix: request every data ID only once in MPI get

An owner answers a repeated request for the same object only once, so
get([ref, ref]) hung.
---
 unidist/core/backends/mpi/core/controller/api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 2352392..a4ea98e 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -415,9 +415,12 @@ def get(data_ids):
     is_list = isinstance(data_ids, list)
     if not is_list:
         data_ids = [data_ids]
-    remote_data_ids = [
-        data_id for data_id in data_ids if not object_store.contains(data_id)
-    ]
+    # Every data ID should be requested only once even if it is passed several times
+    remote_data_ids = list(
+        dict.fromkeys(
+            data_id for data_id in data_ids if not object_store.contains(data_id)
+        )
+    )
     # Remote data gets available in the local store inside `request_worker_data`
     if remote_data_ids:
         request_worker_data(remote_data_ids)
-- 
2.43.0


From 682e3cd565750208ec81d94398d81d8a97105bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:46 +0000
Subject: [PATCH 04/43] fix: raise the exception of a failed MPI task at every
 fetch

The second get of the same reference returned the exception object.
---
 unidist/core/backends/mpi/core/controller/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index a4ea98e..11e9fe7 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -429,6 +429,12 @@ def get(data_ids):
 
     values = [object_store.get(data_id) for data_id in data_ids]
 
+    # If a task has failed, its output is the exception that should be raised at every fetch
+    local_store = LocalObjectStore.get_instance()
+    for data_id, value in zip(data_ids, values):
+        if isinstance(value, Exception) and local_store.contains_data_owner(data_id):
+            raise value
+
     # Initiate reference count based cleaup
     # if all the tasks were completed
     garbage_collector.regular_cleanup()
-- 
2.43.0


From 9ee57da47006e98db2ab65c60896054f98babcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:29 +0000
Subject: [PATCH 05/43] fix: fail the MPI task instead of crashing the worker
 when its result cannot be stored

A result that cannot be serialized crashed the worker, and a result with
less values than 'num_returns' left the remaining outputs never completed.
---
 .../backends/mpi/core/worker/task_store.py    | 54 +++++++++++++++++--
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index abd9fd3..e6c40d1 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -205,6 +205,46 @@ class TaskStore:
         else:
             return arg, False
 
+    def serialize_output(self, output_data_ids, output_values):
+        """
+        Serialize all the values to be stored as the outputs of a task/actor-task.
+
+        Parameters
+        ----------
+        output_data_ids : unidist.core.backends.mpi.core.common.MpiDataID, list or None
+            Output data IDs of the task.
+        output_values : object
+            The value returned by the task.
+
+        Returns
+        -------
+        tuple
+            The output values and a list of serialized output values.
+
+        Raises
+        ------
+        ValueError
+            If the task returned less values than the number of output data IDs.
+
+        Notes
+        -----
+        Should be called before storing any output because
+        the task is considered failed if any of the values cannot be an output.
+        """
+        if output_data_ids is None:
+            return output_values, []
+        if isinstance(output_data_ids, (list, tuple)) and len(output_data_ids) > 1:
+            output_values = list(output_values)
+            if len(output_values) < len(output_data_ids):
+                raise ValueError(
+                    f"The task returned {len(output_values)} values, but 'num_returns' is {len(output_data_ids)}."
+                )
+            return output_values, [
+                serialize_complex_data(value)
+                for _, value in zip(output_data_ids, output_values)
+            ]
+        return output_values, [serialize_complex_data(output_values)]
+
     def execute_received_task(self, output_data_ids, task, args, kwargs):
         """
         Execute a task/actor-task and handle results.
@@ -249,6 +289,9 @@ class TaskStore:
                     # Execute user task
                     f_to_execute = functools.partial(task, *args, **kwargs)
                     output_values = await f_to_execute()
+                    output_values, serialized_values = self.serialize_output(
+                        output_data_ids, output_values
+                    )
 
                     w_logger.info(
                         "Task evaluation time: {}".format(time.perf_counter() - start)
@@ -278,7 +321,7 @@ class TaskStore:
                             for idx, (output_id, value) in enumerate(
                                 zip(output_data_ids, output_values)
                             ):
-                                serialized_data = serialize_complex_data(value)
+                                serialized_data = serialized_values[idx]
                                 local_store.put(output_id, value)
                                 if (
                                     shared_store.is_allocated()
@@ -291,7 +334,7 @@ class TaskStore:
                                     )
                                 completed_data_ids[idx] = output_id
                         else:
-                            serialized_data = serialize_complex_data(output_values)
+                            serialized_data = serialized_values[0]
                             local_store.put(output_data_ids, output_values)
                             if (
                                 shared_store.is_allocated()
@@ -340,6 +383,9 @@ class TaskStore:
 
                 # Execute user task
                 output_values = task(*args, **kwargs)
+                output_values, serialized_values = self.serialize_output(
+                    output_data_ids, output_values
+                )
 
                 w_logger.info(
                     "Task evaluation time: {}".format(time.perf_counter() - start)
@@ -369,7 +415,7 @@ class TaskStore:
                         for idx, (output_id, value) in enumerate(
                             zip(output_data_ids, output_values)
                         ):
-                            serialized_data = serialize_complex_data(value)
+                            serialized_data = serialized_values[idx]
                             local_store.put(output_id, value)
                             if (
                                 shared_store.is_allocated()
@@ -382,7 +428,7 @@ class TaskStore:
                                 )
                             completed_data_ids[idx] = output_id
                     else:
-                        serialized_data = serialize_complex_data(output_values)
+                        serialized_data = serialized_values[0]
                         local_store.put(output_data_ids, output_values)
                         if (
                             shared_store.is_allocated()
-- 
2.43.0


From 59c4eab3bdf40b920b1dc5d47a7e3bb49223549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:29 +0000
Subject: [PATCH 06/43] fix: do not alias MPI task outputs with live objects of
 the worker

The worker kept the very object returned by a task next to its serialized
form, so a later mutation of it (e.g. of the state of an actor that returned
it) was visible to the calls executed in the same process.
---
 unidist/core/backends/mpi/core/worker/task_store.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index e6c40d1..bb237c2 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -322,7 +322,7 @@ class TaskStore:
                                 zip(output_data_ids, output_values)
                             ):
                                 serialized_data = serialized_values[idx]
-                                local_store.put(output_id, value)
+                                local_store.maybe_update_data_id_map(output_id)
                                 if (
                                     shared_store.is_allocated()
                                     and shared_store.should_be_shared(serialized_data)
@@ -335,7 +335,7 @@ class TaskStore:
                                 completed_data_ids[idx] = output_id
                         else:
                             serialized_data = serialized_values[0]
-                            local_store.put(output_data_ids, output_values)
+                            local_store.maybe_update_data_id_map(output_data_ids)
                             if (
                                 shared_store.is_allocated()
                                 and shared_store.should_be_shared(serialized_data)
@@ -416,7 +416,7 @@ class TaskStore:
                             zip(output_data_ids, output_values)
                         ):
                             serialized_data = serialized_values[idx]
-                            local_store.put(output_id, value)
+                            local_store.maybe_update_data_id_map(output_id)
                             if (
                                 shared_store.is_allocated()
                                 and shared_store.should_be_shared(serialized_data)
@@ -429,7 +429,7 @@ class TaskStore:
                             completed_data_ids[idx] = output_id
                     else:
                         serialized_data = serialized_values[0]
-                        local_store.put(output_data_ids, output_values)
+                        local_store.maybe_update_data_id_map(output_data_ids)
                         if (
                             shared_store.is_allocated()
                             and shared_store.should_be_shared(serialized_data)
-- 
2.43.0


From 519b3d72910196056602daeb5ca10f3a227b388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:23 +0000
Subject: [PATCH 07/43] fix: count submitted and executed MPI tasks per
 submitting process

Cleanup is allowed when the number of executed tasks equals the number of
tasks submitted by the process. Actor calls were counted as executed but not
as submitted, and tasks submitted by other processes were counted as well, so
cleanup either never happened again or happened while tasks were running.
---
 .../backends/mpi/core/controller/actor.py     |  4 +++
 .../core/backends/mpi/core/monitor/loop.py    | 26 +++++++++++++------
 unidist/core/backends/mpi/core/worker/loop.py |  2 ++
 .../backends/mpi/core/worker/task_store.py    | 12 ++++++---
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/actor.py b/unidist/core/backends/mpi/core/controller/actor.py
index cb994e6..795f7a3 100644
--- a/unidist/core/backends/mpi/core/controller/actor.py
+++ b/unidist/core/backends/mpi/core/controller/actor.py
@@ -61,6 +61,10 @@ class ActorMethod:
             is_serialized=False,
         )
         async_operations.extend(h_list)
+
+        # Track the task execution
+        garbage_collector.increment_task_counter()
+
         return output_id
 
 
diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index 7787133..37a1a43 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -4,6 +4,8 @@
 
 """Monitoring process."""
 
+from collections import defaultdict
+
 try:
     import mpi4py
 except ImportError:
@@ -33,7 +35,8 @@ class TaskCounter:
     __instance = None
 
     def __init__(self):
-        self.task_counter = 0
+        # Number of executed tasks for each process that submitted them
+        self.task_counter = defaultdict(int)
 
     @classmethod
     def get_instance(cls):
@@ -48,9 +51,16 @@ class TaskCounter:
             cls.__instance = TaskCounter()
         return cls.__instance
 
-    def increment(self):
-        """Increment task counter by one."""
-        self.task_counter += 1
+    def increment(self, source_rank):
+        """
+        Increment task counter of the process that submitted the task by one.
+
+        Parameters
+        ----------
+        source_rank : int
+            Rank of the process that submitted the task.
+        """
+        self.task_counter[source_rank] += 1
 
 
 class DataIDTracker:
@@ -195,11 +205,11 @@ def monitor_loop():
         )
         # Proceed the request
         if operation_type == common.Operation.TASK_DONE:
-            task_counter.increment()
-            output_data_ids = communication.mpi_recv_object(
+            operation_data = communication.mpi_recv_object(
                 mpi_state.global_comm, source_rank
             )
-            data_id_tracker.add_to_completed(output_data_ids)
+            task_counter.increment(operation_data["source_rank"])
+            data_id_tracker.add_to_completed(operation_data["data_ids"])
             wait_handler.process_wait_requests()
         elif operation_type == common.Operation.WAIT:
             # TODO: WAIT request can be received from several workers,
@@ -215,7 +225,7 @@ def monitor_loop():
             # We use a blocking send here because the receiver is waiting for the result.
             communication.mpi_send_object(
                 mpi_state.global_comm,
-                task_counter.task_counter,
+                task_counter.task_counter[source_rank],
                 source_rank,
             )
         elif operation_type == common.Operation.RESERVE_SHARED_MEMORY:
diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 5515ff5..6ebc941 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -113,6 +113,7 @@ async def worker_loop():
         if operation_type == common.Operation.EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
             if not ready_to_shutdown_posted:
+                request["source_rank"] = source_rank
                 # Execute the task if possible
                 pending_request = task_store.process_task_request(request)
                 if pending_request:
@@ -191,6 +192,7 @@ async def worker_loop():
                 handler = request["handler"]
                 actor_method = getattr(actor_map[handler], method_name)
                 request["task"] = actor_method
+                request["source_rank"] = source_rank
 
                 # Execute the actor task if possible
                 pending_actor_request = task_store.process_task_request(request)
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index bb237c2..362bd7d 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -245,7 +245,7 @@ class TaskStore:
             ]
         return output_values, [serialize_complex_data(output_values)]
 
-    def execute_received_task(self, output_data_ids, task, args, kwargs):
+    def execute_received_task(self, output_data_ids, task, args, kwargs, source_rank):
         """
         Execute a task/actor-task and handle results.
 
@@ -259,6 +259,8 @@ class TaskStore:
             Positional arguments to be passed in the `task`.
         kwargs : dict
             Keyword arguments to be passed in the `task`.
+        source_rank : int
+            Rank of the process that submitted the `task`.
 
         Notes
         -----
@@ -357,7 +359,7 @@ class TaskStore:
                 communication.send_simple_operation(
                     communication.MPIState.get_instance().global_comm,
                     common.Operation.TASK_DONE,
-                    completed_data_ids,
+                    {"data_ids": completed_data_ids, "source_rank": source_rank},
                     root_monitor,
                 )
 
@@ -450,7 +452,7 @@ class TaskStore:
             communication.send_simple_operation(
                 communication.MPIState.get_instance().global_comm,
                 common.Operation.TASK_DONE,
-                completed_data_ids,
+                {"data_ids": completed_data_ids, "source_rank": source_rank},
                 root_monitor,
             )
 
@@ -503,7 +505,9 @@ class TaskStore:
             request["kwargs"] = kwargs
             return request
         else:
-            self.execute_received_task(output_ids, task, args, kwargs)
+            self.execute_received_task(
+                output_ids, task, args, kwargs, request["source_rank"]
+            )
             if output_ids is not None:
                 RequestStore.get_instance().check_pending_get_requests(output_ids)
                 RequestStore.get_instance().check_pending_wait_requests(output_ids)
-- 
2.43.0


From 1a22ffc736b3a79f677ad124cff3c94d8f5505f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:23 +0000
Subject: [PATCH 08/43] fix: initiate cleanup from MPI put and actor calls

A program that only puts objects or only calls actors never released
anything on the other processes and in shared memory.
---
 unidist/core/backends/mpi/core/controller/actor.py | 4 ++++
 unidist/core/backends/mpi/core/controller/api.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/actor.py b/unidist/core/backends/mpi/core/controller/actor.py
index 795f7a3..8eaf135 100644
--- a/unidist/core/backends/mpi/core/controller/actor.py
+++ b/unidist/core/backends/mpi/core/controller/actor.py
@@ -34,6 +34,10 @@ class ActorMethod:
         self._method_name = method_name
 
     def __call__(self, *args, num_returns=1, **kwargs):
+        # Initiate reference count based cleanup
+        # if all the tasks were completed
+        garbage_collector.regular_cleanup()
+
         local_store = LocalObjectStore.get_instance()
         output_id = local_store.generate_output_data_id(
             self._actor._owner_rank, garbage_collector, num_returns
diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 11e9fe7..19540d8 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -382,6 +382,10 @@ def put(data):
     unidist.core.backends.mpi.core.common.MpiDataID
         An ID of an object in object storage.
     """
+    # Initiate reference count based cleanup
+    # if all the tasks were completed
+    garbage_collector.regular_cleanup()
+
     local_store = LocalObjectStore.get_instance()
     shared_store = SharedObjectStore.get_instance()
 
-- 
2.43.0


From 6b17f7b7dfab958a28fca08c70167e83d07f49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:14 +0000
Subject: [PATCH 09/43] fix: check all pending requests of a worker whenever a
 task completes

A request waiting for the output of a coroutine method, or of an actor task
executed in the same process, was never checked again and hung.
---
 unidist/core/backends/mpi/core/worker/loop.py       |  4 ++++
 unidist/core/backends/mpi/core/worker/task_store.py | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 6ebc941..2dafaad 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -121,6 +121,8 @@ async def worker_loop():
                 else:
                     # Check pending requests. Maybe some data became available.
                     task_store.check_pending_tasks()
+                    # Check pending actor requests also.
+                    task_store.check_pending_actor_tasks()
 
         elif operation_type == common.Operation.GET:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -200,6 +202,8 @@ async def worker_loop():
                     task_store.put_actor(pending_actor_request)
                 else:
                     # Check pending requests. Maybe some data became available.
+                    task_store.check_pending_tasks()
+                    # Check pending actor requests also.
                     task_store.check_pending_actor_tasks()
 
         elif operation_type == common.Operation.CLEANUP:
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 362bd7d..18ea653 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -94,7 +94,11 @@ class TaskStore:
                 pending_request = self.process_task_request(request)
                 if pending_request:
                     updated_list.append(pending_request)
+            is_any_executed = len(updated_list) < len(self._pending_tasks_list)
             self._pending_tasks_list = updated_list
+            if is_any_executed:
+                # Maybe some actor tasks wait for the output of the executed tasks
+                self.check_pending_actor_tasks()
 
     def clear_pending_tasks(self):
         """
@@ -118,7 +122,11 @@ class TaskStore:
                 pending_request = self.process_task_request(request)
                 if pending_request:
                     updated_list.append(pending_request)
+            is_any_executed = len(updated_list) < len(self._pending_actor_tasks_list)
             self._pending_actor_tasks_list = updated_list
+            if is_any_executed:
+                # Maybe some tasks wait for the output of the executed actor tasks
+                self.check_pending_tasks()
 
     def clear_pending_actor_tasks(self):
         """
@@ -362,6 +370,9 @@ class TaskStore:
                     {"data_ids": completed_data_ids, "source_rank": source_rank},
                     root_monitor,
                 )
+                # Check pending requests. Maybe some of them wait for the output of this task.
+                self.check_pending_tasks()
+                self.check_pending_actor_tasks()
 
             async_task = asyncio.create_task(execute())
             # Add task to the set. This creates a strong reference.
-- 
2.43.0


From 228aaf877c2dd4cb2dc4f3d0d8ad9de65bda34f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:59 +0000
Subject: [PATCH 10/43] fix: execute actor tasks of one caller in the order of
 submission in MPI backend

An actor task whose arguments were not available yet was overtaken by the
tasks submitted to the actor after it.
---
 unidist/core/backends/mpi/core/worker/loop.py |  3 +-
 .../backends/mpi/core/worker/task_store.py    | 37 ++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 2dafaad..d751413 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -194,10 +194,11 @@ async def worker_loop():
                 handler = request["handler"]
                 actor_method = getattr(actor_map[handler], method_name)
                 request["task"] = actor_method
+                request["actor"] = actor_map[handler]
                 request["source_rank"] = source_rank
 
                 # Execute the actor task if possible
-                pending_actor_request = task_store.process_task_request(request)
+                pending_actor_request = task_store.process_actor_task_request(request)
                 if pending_actor_request:
                     task_store.put_actor(pending_actor_request)
                 else:
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 18ea653..378af5c 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -108,6 +108,41 @@ class TaskStore:
 
         self._pending_tasks_list.clear()
 
+    def process_actor_task_request(self, request, pending_requests=None):
+        """
+        Parse request data and execute the actor task if possible.
+
+        Data dependencies should be resolved for actor task execution.
+
+        Parameters
+        ----------
+        request : dict
+            Actor task related data (args, function, output).
+        pending_requests : list, optional
+            Actor task requests received before the `request` but not executed yet.
+            If it isn't provided, all currently pending actor task requests will be used.
+
+        Returns
+        -------
+        dict or None
+            Same request if the task couldn`t be executed, otherwise ``None``.
+
+        Notes
+        -----
+        Tasks submitted to an actor by the same process are executed in the order of submission.
+        This doesn't relate to actors with coroutine methods,
+        where a task can wait for something that a later one provides.
+        """
+        if pending_requests is None:
+            pending_requests = self._pending_actor_tasks_list
+        if any(
+            pending_request["handler"] == request["handler"]
+            and pending_request["source_rank"] == request["source_rank"]
+            for pending_request in pending_requests
+        ) and not inspect.getmembers(type(request["actor"]), inspect.iscoroutinefunction):
+            return request
+        return self.process_task_request(request)
+
     def check_pending_actor_tasks(self):
         """
         Check a list of pending actor task execution requests and process all ready tasks.
@@ -119,7 +154,7 @@ class TaskStore:
         if self._pending_actor_tasks_list:
             updated_list = []
             for request in self._pending_actor_tasks_list:
-                pending_request = self.process_task_request(request)
+                pending_request = self.process_actor_task_request(request, updated_list)
                 if pending_request:
                     updated_list.append(pending_request)
             is_any_executed = len(updated_list) < len(self._pending_actor_tasks_list)
-- 
2.43.0


From 4c64713a8980c3f0f5965c73eb9dc6578f10f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:14 +0000
Subject: [PATCH 11/43] fix: keep MPI actor requests that arrive before the
 actor is created

A task that was given an actor handle could send a request to the actor
before the creation request arrived, which crashed the worker.
---
 unidist/core/backends/mpi/core/worker/loop.py | 63 +++++++++++++------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index d751413..920e0b4 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -5,6 +5,7 @@
 """Worker MPI process task processing functionality."""
 
 import asyncio
+from collections import defaultdict
 from functools import wraps, partial
 
 try:
@@ -37,6 +38,10 @@ log_file = "{}.log".format(logger_name)
 w_logger = common.get_logger(logger_name, log_file)
 # Actors map {handle : actor}
 actor_map = {}
+# Requests to the actors that are not created yet {handle : [(request, source_rank)]}.
+# A process that got an actor handle from another process
+# can send a request before the actor creation request arrives.
+early_actor_requests = defaultdict(list)
 
 
 # -------------- #
@@ -69,6 +74,39 @@ def async_wrap(func):
     return run
 
 
+def process_actor_request(request, source_rank):
+    """
+    Execute the actor task or save it for later processing if some data is not available.
+
+    Parameters
+    ----------
+    request : dict
+        Actor task execution request with arguments.
+    source_rank : int
+        Rank of the process that submitted the actor task.
+    """
+    task_store = TaskStore.get_instance()
+    object_store = ObjectStore.get_instance()
+    # Prepare the data
+    # Actor method here is a data id so we have to retrieve it from the storage
+    method_name = object_store.get(request["task"])
+    handler = request["handler"]
+    actor_method = getattr(actor_map[handler], method_name)
+    request["task"] = actor_method
+    request["actor"] = actor_map[handler]
+    request["source_rank"] = source_rank
+
+    # Execute the actor task if possible
+    pending_actor_request = task_store.process_actor_task_request(request)
+    if pending_actor_request:
+        task_store.put_actor(pending_actor_request)
+    else:
+        # Check pending requests. Maybe some data became available.
+        task_store.check_pending_tasks()
+        # Check pending actor requests also.
+        task_store.check_pending_actor_tasks()
+
+
 # ---------------------------- #
 # Worker event processing loop #
 # ---------------------------- #
@@ -86,7 +124,6 @@ async def worker_loop():
     ``unidist.core.backends.mpi.core.common.Operations`` defines a set of supported operations.
     """
     task_store = TaskStore.get_instance()
-    object_store = ObjectStore.get_instance()
     local_store = LocalObjectStore.get_instance()
     request_store = RequestStore.get_instance()
     async_operations = AsyncOperations.get_instance()
@@ -184,28 +221,18 @@ async def worker_loop():
                 kwargs = request["kwargs"]
                 handler = request["handler"]
                 actor_map[handler] = cls(*args, **kwargs)
+                for early_request in early_actor_requests.pop(handler, []):
+                    process_actor_request(*early_request)
 
         elif operation_type == common.Operation.ACTOR_EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
             if not ready_to_shutdown_posted:
-                # Prepare the data
-                # Actor method here is a data id so we have to retrieve it from the storage
-                method_name = object_store.get(request["task"])
-                handler = request["handler"]
-                actor_method = getattr(actor_map[handler], method_name)
-                request["task"] = actor_method
-                request["actor"] = actor_map[handler]
-                request["source_rank"] = source_rank
-
-                # Execute the actor task if possible
-                pending_actor_request = task_store.process_actor_task_request(request)
-                if pending_actor_request:
-                    task_store.put_actor(pending_actor_request)
+                if request["handler"] in actor_map:
+                    process_actor_request(request, source_rank)
                 else:
-                    # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_tasks()
-                    # Check pending actor requests also.
-                    task_store.check_pending_actor_tasks()
+                    early_actor_requests[request["handler"]].append(
+                        (request, source_rank)
+                    )
 
         elif operation_type == common.Operation.CLEANUP:
             cleanup_list = communication.recv_serialized_data(
-- 
2.43.0


From 371e43e45e858b3bd3928f0507fea4a33fc01671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:14 +0000
Subject: [PATCH 12/43] fix: fail the calls instead of crashing the MPI worker
 when an actor cannot be created or has no such method

---
 unidist/core/backends/mpi/core/worker/loop.py | 42 +++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 920e0b4..80e982f 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -38,6 +38,8 @@ log_file = "{}.log".format(logger_name)
 w_logger = common.get_logger(logger_name, log_file)
 # Actors map {handle : actor}
 actor_map = {}
+# Exceptions raised in constructors of actors {handle : exception}
+failed_actor_map = {}
 # Requests to the actors that are not created yet {handle : [(request, source_rank)]}.
 # A process that got an actor handle from another process
 # can send a request before the actor creation request arrives.
@@ -74,6 +76,36 @@ def async_wrap(func):
     return run
 
 
+def get_actor_method(handler, method_name):
+    """
+    Get the method of the actor.
+
+    Parameters
+    ----------
+    handler : unidist.core.backends.mpi.core.common.MpiDataID
+        An ID to the actor.
+    method_name : str
+        The name of the method.
+
+    Returns
+    -------
+    callable
+        The method to be executed. If the actor could not be created or doesn't have such method,
+        the callable that raises the corresponding exception is returned.
+    """
+    exception = failed_actor_map.get(handler, None)
+    if exception is None:
+        try:
+            return getattr(actor_map[handler], method_name)
+        except Exception as e:
+            exception = e
+
+    def raise_exception(*args, **kwargs):
+        raise exception
+
+    return raise_exception
+
+
 def process_actor_request(request, source_rank):
     """
     Execute the actor task or save it for later processing if some data is not available.
@@ -91,8 +123,7 @@ def process_actor_request(request, source_rank):
     # Actor method here is a data id so we have to retrieve it from the storage
     method_name = object_store.get(request["task"])
     handler = request["handler"]
-    actor_method = getattr(actor_map[handler], method_name)
-    request["task"] = actor_method
+    request["task"] = get_actor_method(handler, method_name)
     request["actor"] = actor_map[handler]
     request["source_rank"] = source_rank
 
@@ -220,7 +251,12 @@ async def worker_loop():
                 args = request["args"]
                 kwargs = request["kwargs"]
                 handler = request["handler"]
-                actor_map[handler] = cls(*args, **kwargs)
+                try:
+                    actor_map[handler] = cls(*args, **kwargs)
+                except Exception as e:
+                    # All calls of the actor methods will fail with this exception
+                    actor_map[handler] = None
+                    failed_actor_map[handler] = e
                 for early_request in early_actor_requests.pop(handler, []):
                     process_actor_request(*early_request)
 
-- 
2.43.0


From fc2ec6eb39127e09bea5f90abfea2385ee09ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:25 +0000
Subject: [PATCH 13/43] fix: keep MPI get requests of an async actor task
 output until the task completes

---
 unidist/core/backends/mpi/core/worker/request_store.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/worker/request_store.py b/unidist/core/backends/mpi/core/worker/request_store.py
index 89703cf..dd3c476 100644
--- a/unidist/core/backends/mpi/core/worker/request_store.py
+++ b/unidist/core/backends/mpi/core/worker/request_store.py
@@ -143,7 +143,13 @@ class RequestStore:
             An ID or list of IDs to data.
         """
 
+        object_store = ObjectStore.get_instance()
+
         def check_request(data_id):
+            # The output of an async actor task can be still unavailable,
+            # the requests should be kept until the task completes.
+            if not object_store.contains(data_id):
+                return
             # Check non-blocking data requests for one of the workers
             if data_id in self._nonblocking_get_requests:
                 ranks_with_get_request = self._nonblocking_get_requests[data_id]
@@ -162,7 +168,7 @@ class RequestStore:
         if isinstance(data_ids, (list, tuple)):
             for data_id in data_ids:
                 check_request(data_id)
-        else:
+        elif data_ids is not None:
             check_request(data_ids)
 
     def check_pending_wait_requests(self, data_ids):
-- 
2.43.0


From 55d0e2b50f7d4b6e6c94fe91f71e70d78f759e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:52 +0000
Subject: [PATCH 14/43] fix: do not keep an actor alive by a reference cycle
 after calling its method with options

---
 unidist/core/base/actor.py | 56 ++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/unidist/core/base/actor.py b/unidist/core/base/actor.py
index 7763546..38f4151 100644
--- a/unidist/core/base/actor.py
+++ b/unidist/core/base/actor.py
@@ -7,6 +7,50 @@
 from .common import filter_arguments
 
 
+class FuncWrapper:
+    """
+    A class that wraps an actor method with overridden invocation parameters.
+
+    Parameters
+    ----------
+    actor_method_cls : ActorMethod
+        An instance of the ``ActorMethod`` child class.
+    num_returns : int, optional
+        The number of object refs returned by the actor method invocation.
+
+    Notes
+    -----
+    The class is not defined locally for every invocation since a local class
+    is a part of a reference cycle, which would prevent the actor
+    from being released when its last handle gets out of scope.
+    """
+
+    def __init__(self, actor_method_cls, num_returns):
+        self._actor_method_cls = actor_method_cls
+        self._num_returns = num_returns
+
+    def remote(self, *args, **kwargs):
+        """
+        Call an actor method in a worker process.
+
+        Parameters
+        ----------
+        *args : iterable
+            Positional arguments to be passed in the actor method.
+        **kwargs : dict
+            Keyword arguments to be passed in the actor method.
+
+        Returns
+        -------
+        ObjectRef, list or None
+        """
+        args, kwargs = filter_arguments(*args, **kwargs)
+
+        return self._actor_method_cls._remote(
+            *args, num_returns=self._num_returns, **kwargs
+        )
+
+
 class ActorMethod:
     """
     A class that is base for any actor method class specific for the backend.
@@ -41,17 +85,7 @@ class ActorMethod:
         FuncWrapper
             An instance of wrapped method that a non-underscore .remote() can be called on.
         """
-        actor_method_cls = self._actor_method_cls
-
-        class FuncWrapper:
-            def remote(self, *args, **kwargs):
-                args, kwargs = filter_arguments(*args, **kwargs)
-
-                return actor_method_cls._remote(
-                    *args, num_returns=num_returns, **kwargs
-                )
-
-        return FuncWrapper()
+        return FuncWrapper(self._actor_method_cls, num_returns)
 
     def remote(self, *args, **kwargs):
         """
-- 
2.43.0


From db43bf3af5065e84c50d4fe0f3ae7fcbf3957314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:00 +0000
Subject: [PATCH 15/43] fix: do not send modified data if arguments of an MPI
 task are changed after the submission

---
 unidist/core/backends/mpi/core/communication.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index a864e66..206a121 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -799,7 +799,9 @@ def isend_complex_data(comm, data, dest_rank, is_serialized=False):
     else:
         serialized_data = serialize_complex_data(data)
         s_data = serialized_data["s_data"]
-        raw_buffers = serialized_data["raw_buffers"]
+        # We make a copy to avoid sending modified data if a user modifies
+        # the original objects until the asynchronous sending completes.
+        raw_buffers = [buf.tobytes() for buf in serialized_data["raw_buffers"]]
         buffer_count = serialized_data["buffer_count"]
         info_package = common.MetadataPackage.get_task_info(
             len(s_data), [len(sbuf) for sbuf in raw_buffers], buffer_count
-- 
2.43.0


From e34934b240429af3dffdc6802b9b9ef9755c53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:48 +0000
Subject: [PATCH 16/43] fix: do not pull shared data from monitors when the MPI
 worker is being shut down

---
 unidist/core/backends/mpi/core/worker/loop.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 80e982f..a93da9c 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -228,15 +228,20 @@ async def worker_loop():
                 )
 
         elif operation_type == common.Operation.PUT_SHARED_DATA:
-            result = pull_data(mpi_state.global_comm, source_rank)
+            if not ready_to_shutdown_posted:
+                result = pull_data(mpi_state.global_comm, source_rank)
 
-            # Clear cached request to another worker, if data_id became available
-            request_store.discard_data_request(result["id"])
+                # Clear cached request to another worker, if data_id became available
+                request_store.discard_data_request(result["id"])
 
-            # Check pending requests. Maybe some data became available.
-            task_store.check_pending_tasks()
-            # Check pending actor requests also.
-            task_store.check_pending_actor_tasks()
+                # Check pending requests. Maybe some data became available.
+                task_store.check_pending_tasks()
+                # Check pending actor requests also.
+                task_store.check_pending_actor_tasks()
+            else:
+                # Just receive the info package because the monitors,
+                # which the data should be requested from, can be already shut down.
+                communication.mpi_recv_object(mpi_state.global_comm, source_rank)
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
-- 
2.43.0


From 30aa38eb3d15d46a1d4078af7f33fa69dc4cde2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:05 +0000
Subject: [PATCH 17/43] fix: process MPI cleanup requests in the same order in
 all monitors

---
 .../mpi/core/controller/garbage_collector.py  |  5 ++++-
 .../core/backends/mpi/core/monitor/loop.py    | 20 +++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/garbage_collector.py b/unidist/core/backends/mpi/core/controller/garbage_collector.py
index 58b015b..0c5fba8 100644
--- a/unidist/core/backends/mpi/core/controller/garbage_collector.py
+++ b/unidist/core/backends/mpi/core/controller/garbage_collector.py
@@ -58,7 +58,10 @@ class GarbageCollector:
         # Cache serialized list of data IDs
         s_cleanup_list = SimpleDataSerializer().serialize_pickle(cleanup_list)
         async_operations = AsyncOperations.get_instance()
-        for rank_id in mpi_state.workers + mpi_state.monitor_processes:
+        # The other monitors get the list from the root monitor so that
+        # all of them process the cleanup requests in the same order.
+        root_monitor = mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT)
+        for rank_id in mpi_state.workers + [root_monitor]:
             if rank_id != mpi_state.global_rank:
                 h_list = communication.isend_serialized_operation(
                     mpi_state.global_comm,
diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index 37a1a43..8e22b84 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -18,6 +18,7 @@ import unidist.core.backends.mpi.core.communication as communication
 from unidist.core.backends.mpi.core.monitor.shared_memory_manager import (
     SharedMemoryManager,
 )
+from unidist.core.backends.mpi.core.serialization import SimpleDataSerializer
 from unidist.core.backends.mpi.core.shared_object_store import SharedObjectStore
 
 # TODO: Find a way to move this after all imports
@@ -265,8 +266,27 @@ def monitor_loop():
             cleanup_list = communication.recv_serialized_data(
                 mpi_state.global_comm, source_rank
             )
+            h_list = []
+            if mpi_state.global_rank == mpi_state.get_monitor_by_worker_rank(
+                communication.MPIRank.ROOT
+            ):
+                # Cleaning up is a collective operation of the monitors, hence
+                # the root monitor initiates it in the other ones.
+                s_cleanup_list = SimpleDataSerializer().serialize_pickle(cleanup_list)
+                for rank_id in mpi_state.monitor_processes:
+                    if rank_id != mpi_state.global_rank:
+                        h_list.extend(
+                            communication.isend_serialized_operation(
+                                mpi_state.global_comm,
+                                common.Operation.CLEANUP,
+                                s_cleanup_list,
+                                rank_id,
+                            )
+                        )
             cleanup_list = [common.MpiDataID(*tpl) for tpl in cleanup_list]
             shm_manager.clear(cleanup_list)
+            for handler, _ in h_list:
+                handler.Wait()
         elif operation_type == common.Operation.READY_TO_SHUTDOWN:
             workers_ready_to_shutdown.append(source_rank)
             shutdown_workers = len(workers_ready_to_shutdown) == len(mpi_state.workers)
-- 
2.43.0


From d96c7675939c3d44cd67253ce3d7d7f2e9911fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:58 +0000
Subject: [PATCH 18/43] fix: release exceptions of failed MPI tasks together
 with the data they refer to

---
 unidist/core/backends/mpi/core/controller/api.py    |  5 ++++-
 unidist/core/backends/mpi/core/controller/common.py |  7 -------
 unidist/core/backends/mpi/core/worker/task_store.py | 10 +++++++++-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 19540d8..4591647 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -4,6 +4,7 @@
 
 """High-level API of MPI backend."""
 
+import copy
 import os
 import sys
 import atexit
@@ -437,7 +438,9 @@ def get(data_ids):
     local_store = LocalObjectStore.get_instance()
     for data_id, value in zip(data_ids, values):
         if isinstance(value, Exception) and local_store.contains_data_owner(data_id):
-            raise value
+            # The traceback of an exception being raised refers to the frames of the caller
+            # so the exception from the local store itself must not be raised
+            raise copy.copy(value)
 
     # Initiate reference count based cleaup
     # if all the tasks were completed
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 6d6f368..5b2fce0 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -16,7 +16,6 @@ from unidist.core.backends.mpi.core.serialization import (
     serialize_complex_data,
 )
 
-
 logger = common.get_logger("common", "common.log")
 
 
@@ -215,13 +214,9 @@ def request_worker_data(data_ids):
         async_operations.extend(h_list)
 
     data_count = 0
-    # If some dataids raise an exception it will be captured in exception_raised variable and raised after the while loop ends.
-    exception_raised = None
     while data_count < len(data_ids):
         # Remote data gets available in the local store inside `pull_data`
         complex_data = pull_data(mpi_state.global_comm)
-        if isinstance(complex_data["data"], Exception) and exception_raised is None:
-            exception_raised = complex_data["data"]
         data_id = complex_data["id"]
         if data_id in data_ids:
             data_count += 1
@@ -229,8 +224,6 @@ def request_worker_data(data_ids):
             raise RuntimeError(
                 f"DataID {data_id} isn't in the requested list {data_ids}"
             )
-    if exception_raised:
-        raise exception_raised
 
 
 def _push_local_data(dest_rank, data_id, is_blocking_op, is_serialized):
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 378af5c..7079922 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -139,7 +139,9 @@ class TaskStore:
             pending_request["handler"] == request["handler"]
             and pending_request["source_rank"] == request["source_rank"]
             for pending_request in pending_requests
-        ) and not inspect.getmembers(type(request["actor"]), inspect.iscoroutinefunction):
+        ) and not inspect.getmembers(
+            type(request["actor"]), inspect.iscoroutinefunction
+        ):
             return request
         return self.process_task_request(request)
 
@@ -345,6 +347,9 @@ class TaskStore:
 
                 except Exception as e:
                     w_logger.debug("Exception - {}".format(e))
+                    # The traceback refers to `args` and `output_data_ids` so the exception
+                    # being stored would never be released because of it
+                    e.__traceback__ = None
 
                     if (
                         isinstance(output_data_ids, (list, tuple))
@@ -442,6 +447,9 @@ class TaskStore:
 
             except Exception as e:
                 w_logger.debug("Exception - {}".format(e))
+                # The traceback refers to `args` and `output_data_ids` so the exception
+                # being stored would never be released because of it
+                e.__traceback__ = None
 
                 if (
                     isinstance(output_data_ids, (list, tuple))
-- 
2.43.0


From 49fa2c4b0aa43e18b1cd285745c34f0a34a63b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:45 +0000
Subject: [PATCH 19/43] fix: do not crash when copying small buffers to the MPI
 shared memory

---
 unidist/core/backends/mpi/core/memory/_memory.pyx | 4 ++++
 unidist/core/backends/mpi/core/memory/memory.cpp  | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/memory/_memory.pyx b/unidist/core/backends/mpi/core/memory/_memory.pyx
index af43c07..fb8ff75 100644
--- a/unidist/core/backends/mpi/core/memory/_memory.pyx
+++ b/unidist/core/backends/mpi/core/memory/_memory.pyx
@@ -19,6 +19,8 @@ def parallel_memcopy(const uint8_t[:] src, uint8_t[:] dst, int memcopy_threads):
     memcopy_threads : int
         Number of threads to write.
     """
+    if len(src) == 0:
+        return
     with nogil:
         memory.parallel_memcopy(&dst[0],
                                 &src[0],
@@ -37,5 +39,7 @@ def fill(int64_t[:] buff, int64_t value):
     value : int64_t
         Value to fill.
     """
+    if len(buff) == 0:
+        return
     with nogil:
         memory.fill(&buff[0], len(buff), value)
diff --git a/unidist/core/backends/mpi/core/memory/memory.cpp b/unidist/core/backends/mpi/core/memory/memory.cpp
index 5eba543..decbe80 100644
--- a/unidist/core/backends/mpi/core/memory/memory.cpp
+++ b/unidist/core/backends/mpi/core/memory/memory.cpp
@@ -26,9 +26,14 @@ namespace unidist {
                         int64_t nbytes,
                         uintptr_t block_size,
                         int num_threads) {
-    std::vector<std::thread> threadpool(num_threads);
     uint8_t *left = pointer_logical_and(src + block_size - 1, ~(block_size - 1));
     uint8_t *right = pointer_logical_and(src + nbytes, ~(block_size - 1));
+    if (right <= left) {
+      // There is no whole block to be divided between threads.
+      std::memcpy(dst, src, nbytes);
+      return;
+    }
+    std::vector<std::thread> threadpool(num_threads);
     int64_t num_blocks = (right - left) / block_size;
 
     // Update right address
-- 
2.43.0


From b1786cdcde15c91e75f2d0f80271079917675846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:22 +0000
Subject: [PATCH 20/43] fix: serialize dictionaries with special keys,
 surrogates and containers of functions in MPI backend

---
 .../core/backends/mpi/core/serialization.py   | 97 +++++++------------
 1 file changed, 34 insertions(+), 63 deletions(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index 9f6e180..e9b1439 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -5,9 +5,7 @@
 """Serialization interface"""
 
 import importlib
-import inspect
 import sys
-from collections.abc import KeysView
 
 try:
     import mpi4py
@@ -47,29 +45,6 @@ for module_name in compatible_modules:
         pass
 
 
-def is_cpkl_serializable(data):
-    """
-    Check if the data should be serialized with cloudpickle.
-
-    Parameters
-    ----------
-    data : object
-        Python object
-
-    Returns
-    -------
-    bool
-        ``True` if the data should be serialized with cloudpickle library.
-    """
-    return (
-        inspect.isfunction(data)
-        or inspect.isclass(data)
-        or inspect.ismethod(data)
-        or data.__class__.__module__ != "builtins"
-        or isinstance(data, KeysView)
-    )
-
-
 def is_pickle5_serializable(data):
     """
     Check if the data should be serialized with pickle 5 protocol.
@@ -117,6 +92,11 @@ class ComplexDataSerializer:
     about the number of `buffers` for each internal object.
     """
 
+    # Codes of msgpack extension types for the objects msgpack couldn`t handle.
+    # Unlike dictionaries of a special form, they can't be mixed up with user data.
+    CLOUDPICKLE_EXT_TYPE = 1
+    PICKLE5_EXT_TYPE = 2
+
     # Minimum buffer size for serialization with pickle 5 protocol
     PICKLE_THRESHOLD = MpiPickleThreshold.get()
 
@@ -154,13 +134,13 @@ class ComplexDataSerializer:
 
         Returns
         -------
-        dict
-            Dictionary with array of serialized bytes.
+        msgpack.ExtType
+            Extension type with array of serialized bytes.
         """
         s_frame = pkl.dumps(frame, protocol=5, buffer_callback=self._buffer_callback)
         self.buffer_count.append(self._callback_counter)
         self._callback_counter = 0
-        return {"__pickle5_custom__": True, "as_bytes": s_frame}
+        return msgpack.ExtType(self.PICKLE5_EXT_TYPE, s_frame)
 
     def _cpkl_encode(self, obj):
         """
@@ -173,26 +153,10 @@ class ComplexDataSerializer:
 
         Returns
         -------
-        dict
-            Dictionary with array of serialized bytes.
-        """
-        return {"__cloud_custom__": True, "as_bytes": cpkl.dumps(obj)}
-
-    def _pkl_encode(self, obj):
-        """
-        Encode with pickle library.
-
-        Parameters
-        ----------
-        obj : object
-            Python object.
-
-        Returns
-        -------
-        dict
-            Dictionary with array of serialized bytes.
+        msgpack.ExtType
+            Extension type with array of serialized bytes.
         """
-        return {"__pickle_custom__": True, "as_bytes": pkl.dumps(obj)}
+        return msgpack.ExtType(self.CLOUDPICKLE_EXT_TYPE, cpkl.dumps(obj))
 
     def _encode_custom(self, obj):
         """
@@ -207,10 +171,9 @@ class ComplexDataSerializer:
         """
         if is_pickle5_serializable(obj):
             return self._dataframe_encode(obj)
-        elif is_cpkl_serializable(obj):
-            return self._cpkl_encode(obj)
-        else:
-            return self._pkl_encode(obj)
+        # Cloudpickle is used for built-in objects as well because
+        # they may contain the ones the pickle library couldn`t handle.
+        return self._cpkl_encode(obj)
 
     def serialize(self, data):
         """
@@ -230,9 +193,14 @@ class ComplexDataSerializer:
         -----
         Uses msgpack, cloudpickle and pickle libraries.
         """
-        return msgpack.packb(data, default=self._encode_custom, strict_types=True)
+        return msgpack.packb(
+            data,
+            default=self._encode_custom,
+            strict_types=True,
+            unicode_errors="surrogatepass",
+        )
 
-    def _decode_custom(self, obj):
+    def _decode_custom(self, code, s_obj):
         """
         De-serialization hook for msgpack library.
 
@@ -240,15 +208,15 @@ class ComplexDataSerializer:
 
         Parameters
         ----------
-        obj : object
-            Python object.
+        code : int
+            Code of the extension type.
+        s_obj : bytes
+            Serialized object.
         """
-        if "__cloud_custom__" in obj:
-            return cpkl.loads(obj["as_bytes"])
-        elif "__pickle_custom__" in obj:
-            return pkl.loads(obj["as_bytes"])
-        elif "__pickle5_custom__" in obj:
-            frame = pkl.loads(obj["as_bytes"], buffers=self.buffers)
+        if code == self.CLOUDPICKLE_EXT_TYPE:
+            return cpkl.loads(s_obj)
+        elif code == self.PICKLE5_EXT_TYPE:
+            frame = pkl.loads(s_obj, buffers=self.buffers)
             # check if there are out-of-band buffers
             # TODO: look at this condition and get rid of it because
             # `buffer_count` should always be a list with length greater 0.
@@ -256,7 +224,7 @@ class ComplexDataSerializer:
                 del self.buffers[: self.buffer_count.pop(0)]
             return frame
         else:
-            return obj
+            return msgpack.ExtType(code, s_obj)
 
     def deserialize(self, s_data):
         """
@@ -278,7 +246,10 @@ class ComplexDataSerializer:
         """
         gc.disable()  # Performance optimization for msgpack
         unpacked_data = msgpack.unpackb(
-            s_data, object_hook=self._decode_custom, strict_map_key=False
+            s_data,
+            ext_hook=self._decode_custom,
+            strict_map_key=False,
+            unicode_errors="surrogatepass",
         )
         gc.enable()
         return unpacked_data
-- 
2.43.0


From 30be76a0db9518a70deb7e8408a0b3936b978a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:29 +0000
Subject: [PATCH 21/43] fix: do not lose free shared memory if a reservation
 fails

---
 .../core/backends/mpi/core/monitor/shared_memory_manager.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
index 17d0063..b873ff4 100644
--- a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
+++ b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
@@ -174,10 +174,11 @@ class SharedMemoryManager:
                 "`SharedMemoryManager` cannot be used if the shared object storage is not enabled."
             )
         first_index, last_index = self.free_memory.occupy(memory_len)
-        service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
         if first_index is None:
             raise MemoryError("Overflow memory")
+        service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
         if service_index is None:
+            self.free_memory.release(first_index, last_index)
             raise MemoryError("Overflow service memory")
 
         reservation_info = ImmutableDict(
-- 
2.43.0


From 639ba0b77120de1f2ef4722bb9d92d4e58f216f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:34 +0000
Subject: [PATCH 22/43] fix: normalize strings put as a boolean config value

---
 unidist/config/parameter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unidist/config/parameter.py b/unidist/config/parameter.py
index 271a344..30389f5 100644
--- a/unidist/config/parameter.py
+++ b/unidist/config/parameter.py
@@ -51,7 +51,11 @@ _TYPE_PARAMS = {
     ),
     bool: TypeDescriptor(
         decode=lambda value: value.strip().lower() in {"true", "yes", "1"},
-        normalize=bool,
+        normalize=lambda value: (
+            value.strip().lower() in {"true", "yes", "1"}
+            if isinstance(value, str)
+            else bool(value)
+        ),
         verify=lambda value: isinstance(value, bool)
         or (
             isinstance(value, str)
-- 
2.43.0


From 57607e4ff80935d8a102e4266acfff3274c5f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:35 +0000
Subject: [PATCH 23/43] fix: reject unsupported config values when they are set

---
 unidist/config/parameter.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/unidist/config/parameter.py b/unidist/config/parameter.py
index 30389f5..c49bbc4 100644
--- a/unidist/config/parameter.py
+++ b/unidist/config/parameter.py
@@ -212,14 +212,27 @@ class Parameter(object):
             else:
                 if not _TYPE_PARAMS[cls.type].verify(raw):
                     raise ValueError(f"Unsupported raw value: {raw}")
-                cls._value = _TYPE_PARAMS[cls.type].decode(raw)
+                value = _TYPE_PARAMS[cls.type].decode(raw)
+                cls._check_choices(value)
+                cls._value = value
                 cls._value_source = ValueSource.GOT_FROM_CFG_SOURCE
 
-        if cls.choices is not None and cls._value not in cls.choices:
+        return cls._value
+
+    @classmethod
+    def _check_choices(cls, value):
+        """
+        Check that `value` is one of the supported values of the config.
+
+        Parameters
+        ----------
+        value : Any
+            Decoded or normalized config value.
+        """
+        if cls.choices is not None and value not in cls.choices:
             raise ValueError(
-                f"Unsupported value '{cls._value}'. Supported set of values is {cls.choices}."
+                f"Unsupported value '{value}'. Supported set of values is {cls.choices}."
             )
-        return cls._value
 
     @classmethod
     def put(cls, value):
@@ -233,7 +246,9 @@ class Parameter(object):
         """
         if not _TYPE_PARAMS[cls.type].verify(value):
             raise ValueError(f"Unsupported value: {value}")
-        cls._value = _TYPE_PARAMS[cls.type].normalize(value)
+        value = _TYPE_PARAMS[cls.type].normalize(value)
+        cls._check_choices(value)
+        cls._value = value
         cls._value_source = ValueSource.SET_BY_USER
 
 
-- 
2.43.0


From d615de42b726b03dd8247796410bf67a2d8f247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:35 +0000
Subject: [PATCH 24/43] fix: keep value source of MpiPickleThreshold if it is
 overridden by the shared store threshold

---
 unidist/config/backends/mpi/envvars.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/unidist/config/backends/mpi/envvars.py b/unidist/config/backends/mpi/envvars.py
index 417cfa7..e68ef8b 100644
--- a/unidist/config/backends/mpi/envvars.py
+++ b/unidist/config/backends/mpi/envvars.py
@@ -56,11 +56,23 @@ class MpiPickleThreshold(EnvironmentVariable, type=int):
         """
         if MpiSharedObjectStore.get():
             mpi_pickle_threshold = MpiSharedObjectStoreThreshold.get()
-            cls.put_value_source(MpiSharedObjectStoreThreshold.get_value_source())
         else:
             mpi_pickle_threshold = super().get()
         return mpi_pickle_threshold
 
+    @classmethod
+    def get_value_source(cls):
+        """
+        Get value source of the config.
+
+        Returns
+        -------
+        int
+        """
+        if MpiSharedObjectStore.get():
+            return MpiSharedObjectStoreThreshold.get_value_source()
+        return super().get_value_source()
+
 
 class MpiBackoff(EnvironmentVariable, type=float):
     """
-- 
2.43.0


From 424b05953a7acb0757afa72a3fbcada57e185a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:35 +0000
Subject: [PATCH 25/43] fix: pass any values of environment variables to
 spawned MPI processes

---
 unidist/core/backends/mpi/core/controller/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 4591647..95eae57 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -158,7 +158,7 @@ def init():
         if MpiSpawn.get_value_source() != ValueSource.DEFAULT:
             py_str += [f"cfg.MpiSpawn.put({MpiSpawn.get()})"]
         if MpiHosts.get_value_source() != ValueSource.DEFAULT:
-            py_str += [f"cfg.MpiHosts.put('{MpiHosts.get()}')"]
+            py_str += [f"cfg.MpiHosts.put({MpiHosts.get()!r})"]
         if CpuCount.get_value_source() != ValueSource.DEFAULT:
             py_str += [f"cfg.CpuCount.put({CpuCount.get()})"]
         if MpiPickleThreshold.get_value_source() != ValueSource.DEFAULT:
@@ -188,7 +188,7 @@ def init():
                 if option == MpiRuntimeEnv.env_vars:
                     for env_var_name, env_var_value in value.items():
                         env_vars += [
-                            f"os.environ['{env_var_name}'] = '{env_var_value}'"
+                            f"os.environ[{env_var_name!r}] = {str(env_var_value)!r}"
                         ]
             py_str += env_vars
         py_str += ["unidist.init()"]
-- 
2.43.0


From 6de633afeebb12b19c158bd4cc1b5f6f4fe6cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:35 +0000
Subject: [PATCH 26/43] fix: reject MPI process layouts without workers instead
 of hanging at shutdown

---
 unidist/core/backends/mpi/core/communication.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index 206a121..48c5699 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -177,6 +177,10 @@ class MPIState:
                     and not self.is_monitor_process(rank)
                 ]
             )
+        if self.is_root_process() and len(self.workers) == 0:
+            raise ValueError(
+                "At least one worker process is required in addition to the root and monitor processes."
+            )
 
     @classmethod
     def get_instance(cls, *args):
-- 
2.43.0


From 7c9f51196f66dde83e751142763e696efaedbb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:47 +0000
Subject: [PATCH 27/43] fix: wait for the root monitor at MPI shutdown for any
 placement of processes

---
 unidist/core/backends/mpi/core/controller/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 95eae57..d7f86b5 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -327,9 +327,12 @@ def shutdown():
             )
             logger.debug("Shutdown rank {}".format(rank_id))
         # Make sure that monitor has sent the shutdown signal to all workers.
+        root_monitor = mpi_state.get_monitor_by_worker_rank(
+            communication.MPIRank.ROOT
+        )
         op_type = communication.mpi_recv_object(
             mpi_state.global_comm,
-            communication.MPIRank.MONITOR,
+            root_monitor,
         )
         if op_type != common.Operation.SHUTDOWN:
             raise ValueError(f"Got wrong operation type {op_type}.")
-- 
2.43.0


From bce79c9dfa11f86e68119b6e5f0f1347ae42300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:00 +0000
Subject: [PATCH 28/43] fix: pyseq: a call with a failed argument or too few
 results fails at fetch, not at submission

---
 unidist/core/backends/pyseq/core/api.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/unidist/core/backends/pyseq/core/api.py b/unidist/core/backends/pyseq/core/api.py
index 84dcfbb..f0a0a14 100644
--- a/unidist/core/backends/pyseq/core/api.py
+++ b/unidist/core/backends/pyseq/core/api.py
@@ -100,23 +100,24 @@ def submit(func, *args, num_returns=1, **kwargs):
     """
     obj_store = ObjectStore.get_instance()
 
-    materialized_args = [
-        obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
-    ]
-    materialized_kwargs = {
-        key: obj_store.get(value) if isinstance(value, DataID) else value
-        for key, value in kwargs.items()
-    }
-
     try:
+        materialized_args = [
+            obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
+        ]
+        materialized_kwargs = {
+            key: obj_store.get(value) if isinstance(value, DataID) else value
+            for key, value in kwargs.items()
+        }
         result = func(*materialized_args, **materialized_kwargs)
+        if num_returns > 1:
+            result = [result[idx] for idx in range(num_returns)]
     except Exception as e:
         result = [e] * num_returns if num_returns > 1 else e
 
     if num_returns == 0:
         data_ids = None
     elif num_returns > 1:
-        data_ids = [obj_store.put(result[idx]) for idx in range(num_returns)]
+        data_ids = [obj_store.put(value) for value in result]
     else:
         data_ids = obj_store.put(result)
 
-- 
2.43.0


From c67d417ef829a935e514448ff63af132e8e81b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:58 +0000
Subject: [PATCH 29/43] fix: pymp: bytes are stored as they are, results that
 can't be stored or are missing fail the call

---
 .../core/backends/pymp/core/object_store.py   |  8 +--
 .../backends/pymp/core/process_manager.py     | 53 ++++++++++++++-----
 2 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 8af83c8..be7bc21 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -66,7 +66,9 @@ class ObjectStore:
         """
         data_id = DataID() if data_id is None else data_id
 
-        self.store_delayed[data_id] = pkl.dumps(data) if callable(data) else data
+        self.store_delayed[data_id] = (
+            data if isinstance(data, Delayed) else pkl.dumps(data)
+        )
         return data_id
 
     def get(self, data_ids):
@@ -97,11 +99,11 @@ class ObjectStore:
             while isinstance(self.store_delayed[data_id], Delayed):
                 pass
 
-            value = self.store_delayed[data_id]
+            value = pkl.loads(self.store_delayed[data_id])
             if isinstance(value, Exception):
                 raise value
 
-            values[idx] = pkl.loads(value) if isinstance(value, bytes) else value
+            values[idx] = value
 
         return values if is_list else values[0]
 
diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 07037af..3c70e38 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -39,25 +39,54 @@ class Worker(Process):
             task = pkl.loads(task)
 
             data_ids = task.data_ids
+            if data_ids is None:
+                data_ids = []
+            elif not isinstance(data_ids, list):
+                data_ids = [data_ids]
             try:
                 value = task()
-            except Exception as e:
-                if isinstance(data_ids, list) and len(data_ids) > 1:
-                    for i, data_id in enumerate(data_ids):
-                        self._obj_store.store_delayed[data_id] = e
+                # All the outputs have to exist and to be serializable, otherwise the task fails
+                if len(data_ids) > 1:
+                    values = [val for _, val in zip(data_ids, value)]
                 else:
-                    self._obj_store.store_delayed[data_ids] = e
-            else:
-                if data_ids is not None:
-                    if isinstance(data_ids, list) and len(data_ids) > 1:
-                        for data_id, val in zip(data_ids, value):
-                            self._obj_store.store_delayed[data_id] = val
-                    else:
-                        self._obj_store.store_delayed[data_ids] = value
+                    values = [value] * len(data_ids)
+                if len(values) < len(data_ids):
+                    raise ValueError(
+                        f"Task returned {len(values)} objects, but num_returns={len(data_ids)}."
+                    )
+                values = [pkl.dumps(val) for val in values]
+            except Exception as e:
+                values = [self._dump_exception(e)] * len(data_ids)
+            try:
+                for data_id, val in zip(data_ids, values):
+                    self._obj_store.store_delayed[data_id] = val
             finally:
                 self.task_queue.task_done()
         return
 
+    @staticmethod
+    def _dump_exception(exception):
+        """
+        Serialize an exception raised by a task.
+
+        Parameters
+        ----------
+        exception : Exception
+            Exception to be serialized.
+
+        Returns
+        -------
+        bytes
+            Serialized `exception`, or serialized ``RuntimeError``
+            describing it if it can't be transferred to another process.
+        """
+        try:
+            data = pkl.dumps(exception)
+            pkl.loads(data)
+            return data
+        except Exception:
+            return pkl.dumps(RuntimeError(repr(exception)))
+
     def add_task(self, task):
         """
         Add `task` to `self.task_queue`.
-- 
2.43.0


From 77fa1dda431d42b68a03c26732bea23a104bc7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:58 +0000
Subject: [PATCH 30/43] fix: pymp: wait returns any calls that have completed,
 including failed ones

---
 .../core/backends/pymp/core/object_store.py   | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index be7bc21..0e56ccf 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -130,20 +130,16 @@ class ObjectStore:
         if not isinstance(data_ids, list):
             data_ids = [data_ids]
 
-        ready = list()
-        not_ready = list()
-
-        for idx, data_id in enumerate(data_ids[:]):
-            if not isinstance(self.store_delayed[data_id], Delayed):
-                ready.append(data_ids.pop(idx))
+        if num_returns > len(data_ids):
+            raise ValueError("`num_returns` can't exceed the number of `data_ids`.")
 
-            if len(ready) == num_returns:
-                break
-
-        not_ready = data_ids
+        ready = list()
+        not_ready = list(data_ids)
 
-        while len(ready) != num_returns:
-            self.get(not_ready[0])
-            ready.append(not_ready.pop(0))
+        while len(ready) < num_returns:
+            for idx, data_id in enumerate(not_ready):
+                if not isinstance(self.store_delayed[data_id], Delayed):
+                    ready.append(not_ready.pop(idx))
+                    break
 
         return ready, not_ready
-- 
2.43.0


From 0c16818dc3375404759b17c5dd582c913bd42dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:16 +0000
Subject: [PATCH 31/43] fix: pymp: calls made before an actor handle is dropped
 are executed

---
 unidist/core/backends/pymp/core/actor.py | 25 +++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/pymp/core/actor.py b/unidist/core/backends/pymp/core/actor.py
index 8a5b75e..1b46fea 100644
--- a/unidist/core/backends/pymp/core/actor.py
+++ b/unidist/core/backends/pymp/core/actor.py
@@ -14,6 +14,10 @@ from unidist.core.backends.pymp.core.process_manager import (
 )
 
 
+def _finish():
+    """Follow the last call of a dropped actor in the queue of its worker."""
+
+
 class ActorMethod:
     """
     Class is responsible to execute `method_name` of
@@ -96,10 +100,15 @@ class Actor:
     Methods of `cls` class object are executed in the worker, grabbed from a workers pool.
     """
 
+    # Objects of dropped actors, which may still be needed by queued calls
+    _dropped = []
+    _finishing = {}
+
     def __init__(self, cls, *args, **kwargs):
         self._worker = None
         self._worker_id = None
         self._obj_store = ObjectStore.get_instance()
+        self._release_dropped()
 
         # FIXME : Change "WrappedClass" -> cls.__name__ + "Manager", for example.
         BaseManager.register("WrappedClass", cls)
@@ -142,7 +151,21 @@ class Actor:
         """
         Destructor of the actor.
 
-        Free worker, grabbed from the workers pool.
+        Free worker, grabbed from the workers pool. The object is kept
+        until the calls that are still in the queue of the worker get finished.
         """
         if self._worker_id is not None:
             ProcessManager.get_instance().free_worker(self._worker_id)
+            self._dropped.append((self._cls_obj, self._worker))
+
+    def _release_dropped(self):
+        """Release the objects of dropped actors, whose calls have been finished."""
+        while self._dropped:
+            cls_obj, worker = self._dropped.pop()
+            data_id = self._obj_store.put(Delayed())
+            worker.add_task(pkl.dumps(Task(_finish, data_id, self._obj_store)))
+            self._finishing[data_id] = cls_obj
+        for data_id in list(self._finishing):
+            if not isinstance(self._obj_store.store_delayed[data_id], Delayed):
+                del self._obj_store.store_delayed[data_id]
+                del self._finishing[data_id]
-- 
2.43.0


From 6262c8b6aa2247f90d2a96484c49586ffd9f062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:23 +0000
Subject: [PATCH 32/43] fix: dask, pyseq: reject values that aren't object refs
 in get and wait

---
 unidist/core/backends/dask/backend.py  | 12 ++++++------
 unidist/core/backends/pyseq/backend.py |  3 +++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/unidist/core/backends/dask/backend.py b/unidist/core/backends/dask/backend.py
index 0685fa2..e180b7b 100644
--- a/unidist/core/backends/dask/backend.py
+++ b/unidist/core/backends/dask/backend.py
@@ -6,7 +6,7 @@
 
 from collections import defaultdict
 
-from distributed.client import get_client, wait
+from distributed.client import Future, get_client, wait
 from distributed.utils import get_ip
 
 from unidist.core.backends.dask.actor import DaskActor
@@ -74,11 +74,11 @@ class DaskBackend(Backend):
         object
             A Python object or a list of Python objects.
         """
-        return (
-            get_client().gather(futures)
-            if isinstance(futures, list)
-            else futures.result()
-        )
+        if not isinstance(futures, list):
+            return futures.result()
+        if not all(isinstance(future, Future) for future in futures):
+            raise ValueError("`futures` must either be a future or a list of futures.")
+        return get_client().gather(futures)
 
     @staticmethod
     def put(data):
diff --git a/unidist/core/backends/pyseq/backend.py b/unidist/core/backends/pyseq/backend.py
index 89ae3c2..46696bd 100644
--- a/unidist/core/backends/pyseq/backend.py
+++ b/unidist/core/backends/pyseq/backend.py
@@ -7,6 +7,7 @@
 import socket
 
 import unidist.core.backends.pyseq.core as py
+from unidist.core.backends.common.data_id import DataID
 from unidist.core.backends.pyseq.actor import PySeqActor
 from unidist.core.backends.pyseq.remote_function import (
     PySeqRemoteFunction,
@@ -118,6 +119,8 @@ class PySeqBackend(Backend):
         Method serves to maintain behavior compatibility between backends. All objects
         completed computation before putting into an object storage for Python Sequential backend.
         """
+        if not all(isinstance(data_id, DataID) for data_id in data_ids):
+            raise ValueError("`data_ids` must be a list of data IDs.")
         return data_ids[:num_returns], data_ids[num_returns:]
 
     @staticmethod
-- 
2.43.0


From 6485bf9d7b1e43c2284b77a91b2f291d0987364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:20 +0000
Subject: [PATCH 33/43] fix: dask: put stores containers as a whole

---
 unidist/core/backends/dask/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/dask/backend.py b/unidist/core/backends/dask/backend.py
index e180b7b..f6b08b8 100644
--- a/unidist/core/backends/dask/backend.py
+++ b/unidist/core/backends/dask/backend.py
@@ -95,7 +95,8 @@ class DaskBackend(Backend):
         distributed.client.Future
             Dask Future matching to data.
         """
-        return get_client().scatter(data, hash=False)
+        # a list, a tuple, a set or a dictionary is scattered by elements unless wrapped
+        return get_client().scatter([data], hash=False)[0]
 
     @staticmethod
     def wait(futures, num_returns=1):
-- 
2.43.0


From 754b43e073daedb58aea468ea9954d9f04c6f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:01 +0000
Subject: [PATCH 34/43] fix: mpi: reject values that aren't object refs in get
 and wait

---
 unidist/core/backends/mpi/core/controller/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index d7f86b5..2f9fddb 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -423,6 +423,8 @@ def get(data_ids):
     is_list = isinstance(data_ids, list)
     if not is_list:
         data_ids = [data_ids]
+    if not all(common.is_data_id(data_id) for data_id in data_ids):
+        raise ValueError("`data_ids` must either be a data ID or a list of data IDs.")
     # Every data ID should be requested only once even if it is passed several times
     remote_data_ids = list(
         dict.fromkeys(
@@ -475,6 +477,8 @@ def wait(data_ids, num_returns=1):
     object_store = ObjectStore.get_instance()
     if not isinstance(data_ids, list):
         data_ids = [data_ids]
+    if not all(common.is_data_id(data_id) for data_id in data_ids):
+        raise ValueError("`data_ids` must either be a data ID or a list of data IDs.")
     # Since the controller should operate MpiDataID(s),
     # we use this map to retrieve and return them
     # instead of DataID(s) received from workers.
-- 
2.43.0


From 726c7a65d4ac4e192d21fb139dbcd518333a2733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:46 +0000
Subject: [PATCH 35/43] fix: dask: reject values that aren't object refs in
 wait

---
 unidist/core/backends/dask/backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unidist/core/backends/dask/backend.py b/unidist/core/backends/dask/backend.py
index f6b08b8..435c9a3 100644
--- a/unidist/core/backends/dask/backend.py
+++ b/unidist/core/backends/dask/backend.py
@@ -119,6 +119,10 @@ class DaskBackend(Backend):
         tuple
             Two lists of futures that are ready and list of the remaining futures.
         """
+        if not isinstance(futures, list):
+            futures = [futures]
+        if not all(isinstance(future, Future) for future in futures):
+            raise ValueError("`futures` must either be a future or a list of futures.")
         done, not_done = wait(futures, return_when="FIRST_COMPLETED")
         while len(done) < num_returns:
             extra_done, not_done = wait(not_done, return_when="FIRST_COMPLETED")
-- 
2.43.0


From 4a63cb8da3389c7527a193749693f3bf88b6d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:13 +0000
Subject: [PATCH 36/43] fix: dask: execute calls that have no outputs

---
 unidist/core/backends/dask/actor.py           | 4 +++-
 unidist/core/backends/dask/remote_function.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/dask/actor.py b/unidist/core/backends/dask/actor.py
index 73d87c7..0009378 100644
--- a/unidist/core/backends/dask/actor.py
+++ b/unidist/core/backends/dask/actor.py
@@ -4,7 +4,7 @@
 
 """Actor specific functionality using Dask backend."""
 
-from distributed.client import get_client
+from distributed.client import fire_and_forget, get_client
 
 from unidist.core.base.actor import Actor, ActorMethod
 from unidist.core.base.object_ref import ObjectRef
@@ -88,6 +88,8 @@ class DaskActorMethod(ActorMethod):
                 for i in range(num_returns)
             ]
         elif num_returns == 0:
+            # Dask doesn't have to execute a task, whose future isn't held
+            fire_and_forget(future)
             return None
 
 
diff --git a/unidist/core/backends/dask/remote_function.py b/unidist/core/backends/dask/remote_function.py
index 8102948..3e9193a 100644
--- a/unidist/core/backends/dask/remote_function.py
+++ b/unidist/core/backends/dask/remote_function.py
@@ -4,7 +4,7 @@
 
 """An implementation of ``RemoteFunction`` interface using Dask."""
 
-from distributed.client import get_client
+from distributed.client import fire_and_forget, get_client
 
 from unidist.core.base.object_ref import ObjectRef
 from unidist.core.base.remote_function import RemoteFunction
@@ -91,4 +91,6 @@ class DaskRemoteFunction(RemoteFunction):
                 for i in range(num_returns)
             ]
         elif num_returns == 0:
+            # Dask doesn't have to execute a task, whose future isn't held
+            fire_and_forget(future)
             return None
-- 
2.43.0


From ea9d75f72098cf6e96aa2608237eab91c25e4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:59 +0000
Subject: [PATCH 37/43] fix: do not reuse MPI shared memory while data obtained
 from it is in use

---
 .../backends/mpi/core/shared_object_store.py  | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/unidist/core/backends/mpi/core/shared_object_store.py b/unidist/core/backends/mpi/core/shared_object_store.py
index 4aff7c4..2b85d0c 100644
--- a/unidist/core/backends/mpi/core/shared_object_store.py
+++ b/unidist/core/backends/mpi/core/shared_object_store.py
@@ -4,6 +4,7 @@
 
 """`SharedObjectStore` functionality."""
 
+import ctypes
 import os
 import sys
 import time
@@ -279,7 +280,7 @@ class SharedObjectStore:
         splited_id = str(data_id).replace(")", "").split("_")
         return int(splited_id[1]), int(splited_id[3])
 
-    def _increment_ref_number(self, data_id, service_index):
+    def _increment_ref_number(self, data_id, service_index, user=None):
         """
         Increment the number of references to indicate to the monitor that this data is being used.
 
@@ -288,10 +289,12 @@ class SharedObjectStore:
         data_id : unidist.core.backends.mpi.core.common.MpiDataID
         service_index : int
             The service buffer index.
+        user : object, default: None
+            The object that uses the data. If ``None``, it is the `data_id`.
 
         Notes
         -----
-        This function create `weakref.finalizer' with decrement function which will be called after data_id collecting.
+        This function create `weakref.finalizer' with decrement function which will be called after `user` collecting.
         """
         if MPI.Is_finalized():
             return
@@ -311,7 +314,10 @@ class SharedObjectStore:
             )
         self.finalizers.append(
             weakref.finalize(
-                data_id, self._decrement_ref_number, str(data_id), service_index
+                data_id if user is None else user,
+                self._decrement_ref_number,
+                str(data_id),
+                service_index,
             )
         )
 
@@ -450,12 +456,25 @@ class SharedObjectStore:
         )
         prev_last_index = s_data_last_index
         raw_buffers = []
+        raw_data_len = sum(buffer_lens)
+        if raw_data_len > 0:
+            # The deserialized data refers to the shared memory, which mustn't be reused
+            # as long as the data is in use, even if `data_id` has been collected.
+            raw_data = (ctypes.c_char * raw_data_len).from_buffer(
+                self.shared_buffer, s_data_last_index
+            )
+            self._increment_ref_number(data_id, service_index, raw_data)
+            raw_data = memoryview(raw_data).cast("b").toreadonly()
+        else:
+            raw_data = memoryview(b"").cast("b")
         for raw_buffer_len in buffer_lens:
             raw_last_index = prev_last_index + raw_buffer_len
             raw_buffers.append(
-                self.shared_buffer[prev_last_index:raw_last_index]
-                .cast("b")
-                .toreadonly()
+                raw_data[
+                    prev_last_index
+                    - s_data_last_index : raw_last_index
+                    - s_data_last_index
+                ]
             )
             prev_last_index = raw_last_index
 
-- 
2.43.0


From 3bc97bb8ac9ab382f39e1a093fe74889a0b4d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:18 +0000
Subject: [PATCH 38/43] fix: do not mix up buffers of a blocking MPI get with
 other data sent by the same process

---
 unidist/core/backends/mpi/core/common.py      |  4 ++++
 .../core/backends/mpi/core/communication.py   | 19 ++++++++-----------
 .../backends/mpi/core/controller/common.py    |  7 +++++--
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/unidist/core/backends/mpi/core/common.py b/unidist/core/backends/mpi/core/common.py
index 8e61ab7..77dde88 100755
--- a/unidist/core/backends/mpi/core/common.py
+++ b/unidist/core/backends/mpi/core/common.py
@@ -104,12 +104,16 @@ class MPITag:
     OBJECT_BLOCKING : int, default: 114
         The tag for send/recv of a regular Python object
         to indicate the blocking get request.
+    BUFFER_BLOCKING : int, default: 115
+        The tag for send/recv of a buffer-like object
+        to indicate the blocking get request.
     """
 
     OPERATION = 111
     OBJECT = 112
     BUFFER = 113
     OBJECT_BLOCKING = 114
+    BUFFER_BLOCKING = 115
 
 
 class MetadataPackage(ImmutableDict):
diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index 48c5699..190f6e9 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -655,14 +655,14 @@ def _send_complex_data_impl(comm, s_data, raw_buffers, dest_rank, info_package):
     Notes
     -----
     The special tags are used for this communication, namely,
-    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
+    ``common.MPITag.OBJECT_BLOCKING`` and ``common.MPITag.BUFFER_BLOCKING``.
     """
     # wrap to dict for sending and correct deserialization of the object by the recipient
     comm.send(dict(info_package), dest=dest_rank, tag=common.MPITag.OBJECT_BLOCKING)
     with pkl5._bigmpi as bigmpi:
-        comm.Send(bigmpi(s_data), dest=dest_rank, tag=common.MPITag.BUFFER)
+        comm.Send(bigmpi(s_data), dest=dest_rank, tag=common.MPITag.BUFFER_BLOCKING)
         for sbuf in raw_buffers:
-            comm.Send(bigmpi(sbuf), dest=dest_rank, tag=common.MPITag.BUFFER)
+            comm.Send(bigmpi(sbuf), dest=dest_rank, tag=common.MPITag.BUFFER_BLOCKING)
 
 
 def send_complex_data(comm, data, dest_rank, is_serialized=False):
@@ -819,7 +819,7 @@ def isend_complex_data(comm, data, dest_rank, is_serialized=False):
     return handlers, s_data, raw_buffers, buffer_count
 
 
-def recv_complex_data(comm, source_rank, info_package):
+def recv_complex_data(comm, source_rank, info_package, tag=common.MPITag.BUFFER):
     """
     Receive the data that may consist of different user provided complex types, lambdas and buffers.
 
@@ -833,24 +833,21 @@ def recv_complex_data(comm, source_rank, info_package):
         Source MPI process to receive data from.
     info_package : unidist.core.backends.mpi.core.common.MetadataPackage
         Required information to deserialize data.
+    tag : common.MPITag, default: common.MPITag.BUFFER
+        Tag of the messages that contain the data.
 
     Returns
     -------
     object
         Received data object from another MPI process.
-
-    Notes
-    -----
-    The special tags are used for this communication, namely,
-    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
     """
     msgpack_buffer = bytearray(info_package["s_data_len"])
     buffer_count = info_package["buffer_count"]
     raw_buffers = list(map(bytearray, info_package["raw_buffers_len"]))
     with pkl5._bigmpi as bigmpi:
-        comm.Recv(bigmpi(msgpack_buffer), source=source_rank, tag=common.MPITag.BUFFER)
+        comm.Recv(bigmpi(msgpack_buffer), source=source_rank, tag=tag)
         for rbuf in raw_buffers:
-            comm.Recv(bigmpi(rbuf), source=source_rank, tag=common.MPITag.BUFFER)
+            comm.Recv(bigmpi(rbuf), source=source_rank, tag=tag)
 
     return deserialize_complex_data(msgpack_buffer, raw_buffers, buffer_count)
 
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 5b2fce0..0ac646e 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -132,8 +132,11 @@ def pull_data(comm, owner_rank=None):
             comm, tag=common.MPITag.OBJECT_BLOCKING
         )
         owner_rank = source
+        # There may be other data from this process that has not been received yet
+        buffer_tag = common.MPITag.BUFFER_BLOCKING
     else:
         info_package = communication.mpi_recv_object(comm, owner_rank)
+        buffer_tag = common.MPITag.BUFFER
     if info_package["package_type"] == common.MetadataPackage.SHARED_DATA:
         local_store = LocalObjectStore.get_instance()
         shared_store = SharedObjectStore.get_instance()
@@ -154,7 +157,7 @@ def pull_data(comm, owner_rank=None):
     elif info_package["package_type"] == common.MetadataPackage.LOCAL_DATA:
         local_store = LocalObjectStore.get_instance()
         data = communication.recv_complex_data(
-            comm, owner_rank, info_package=info_package
+            comm, owner_rank, info_package=info_package, tag=buffer_tag
         )
         data_id = info_package["id"]
         local_store.put(data_id, data)
@@ -164,7 +167,7 @@ def pull_data(comm, owner_rank=None):
         }
     elif info_package["package_type"] == common.MetadataPackage.TASK_DATA:
         return communication.recv_complex_data(
-            comm, owner_rank, info_package=info_package
+            comm, owner_rank, info_package=info_package, tag=buffer_tag
         )
     else:
         raise ValueError("Unexpected package of data info!")
-- 
2.43.0


From f44992b8f53f3bc55e1f3b0001e976a7156a46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:04 +0000
Subject: [PATCH 39/43] fix: release completed data ids in the monitor once
 they are cleaned up

The monitor remembered the ID of every output ever produced, so its memory
grew without bound even if all references had been dropped.
---
 unidist/core/backends/mpi/core/monitor/loop.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index 8e22b84..23aa917 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -98,6 +98,17 @@ class DataIDTracker:
         """
         self.completed_data_ids.update(data_ids)
 
+    def remove_from_completed(self, data_ids):
+        """
+        Remove the given data IDs, which are not referenced anymore, from the set of completed data IDs.
+
+        Parameters
+        ----------
+        data_ids : list
+            List of data IDs to be removed.
+        """
+        self.completed_data_ids.difference_update(data_ids)
+
 
 class WaitHandler:
     """
@@ -284,6 +295,7 @@ def monitor_loop():
                             )
                         )
             cleanup_list = [common.MpiDataID(*tpl) for tpl in cleanup_list]
+            data_id_tracker.remove_from_completed(cleanup_list)
             shm_manager.clear(cleanup_list)
             for handler, _ in h_list:
                 handler.Wait()
-- 
2.43.0


From 83930cd35b88c8ffd4792c88c33963236e84ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:09 +0000
Subject: [PATCH 40/43] fix: drop finalizers of released shared data

The list of finalizers kept an entry for every object that has ever been in
the shared memory, so the memory of the process grew without bound.
---
 .../backends/mpi/core/shared_object_store.py  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/shared_object_store.py b/unidist/core/backends/mpi/core/shared_object_store.py
index 2b85d0c..b78dbc7 100644
--- a/unidist/core/backends/mpi/core/shared_object_store.py
+++ b/unidist/core/backends/mpi/core/shared_object_store.py
@@ -119,6 +119,7 @@ class SharedObjectStore:
         self._shared_info = weakref.WeakKeyDictionary()
         # The list of `weakref.finalize` which should be canceled before closing the shared memory.
         self.finalizers = []
+        self._finalizers_threshold = 100
 
     def _get_allowed_memory_size(self):
         """
@@ -280,6 +281,24 @@ class SharedObjectStore:
         splited_id = str(data_id).replace(")", "").split("_")
         return int(splited_id[1]), int(splited_id[3])
 
+    def _add_finalizer(self, finalizer):
+        """
+        Keep `finalizer` to be able to detach it when the shared memory gets freed.
+
+        Parameters
+        ----------
+        finalizer : weakref.finalize
+            Finalizer to keep.
+
+        Notes
+        -----
+        The finalizers that have already been called are dropped from time to time.
+        """
+        self.finalizers.append(finalizer)
+        if len(self.finalizers) > self._finalizers_threshold:
+            self.finalizers = [f for f in self.finalizers if f.alive]
+            self._finalizers_threshold = max(100, 2 * len(self.finalizers))
+
     def _increment_ref_number(self, data_id, service_index, user=None):
         """
         Increment the number of references to indicate to the monitor that this data is being used.
@@ -312,7 +331,7 @@ class SharedObjectStore:
             self.logger.debug(
                 f"Rank {communication.MPIState.get_instance().global_rank}: Increment references number for {data_id} from {prev_ref_number} to {prev_ref_number + 1}"
             )
-        self.finalizers.append(
+        self._add_finalizer(
             weakref.finalize(
                 data_id if user is None else user,
                 self._decrement_ref_number,
@@ -382,7 +401,7 @@ class SharedObjectStore:
             )
             self.service_shared_buffer[service_index + self.WORKER_ID_INDEX] = worker_id
 
-        self.finalizers.append(
+        self._add_finalizer(
             weakref.finalize(
                 data_id, self._decrement_ref_number, str(data_id), service_index
             )
-- 
2.43.0


From f8aae7ccfa4a73fdab50f900ddd55ee86ffd6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:34 +0000
Subject: [PATCH 41/43] fix: keep receiving messages while sends of a canceled
 MPI worker are not completed

---
 .../backends/mpi/core/async_operations.py     | 12 ++++++++
 unidist/core/backends/mpi/core/worker/loop.py | 30 +++++++++++++++----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/unidist/core/backends/mpi/core/async_operations.py b/unidist/core/backends/mpi/core/async_operations.py
index 03a9ebb..7dd35ad 100644
--- a/unidist/core/backends/mpi/core/async_operations.py
+++ b/unidist/core/backends/mpi/core/async_operations.py
@@ -60,6 +60,18 @@ class AsyncOperations:
             tup for tup in self._send_async_handlers if not is_ready(tup[0])
         ]
 
+    def is_completed(self):
+        """
+        Check if all MPI async send requests are completed.
+
+        Returns
+        -------
+        bool
+            True or False.
+        """
+        self.check()
+        return not self._send_async_handlers
+
     def finish(self):
         """Finish all MPI async send requests."""
         for handler, _ in self._send_async_handlers:
diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index a93da9c..5f9f019 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -15,6 +15,7 @@ except ImportError:
         "Missing dependency 'mpi4py'. Use pip or conda to install it."
     ) from None
 
+from unidist.config import MpiBackoff
 import unidist.core.backends.mpi.core.common as common
 import unidist.core.backends.mpi.core.communication as communication
 from unidist.core.backends.mpi.core.object_store import ObjectStore
@@ -138,6 +139,26 @@ def process_actor_request(request, source_rank):
         task_store.check_pending_actor_tasks()
 
 
+async def post_ready_to_shutdown():
+    """
+    Send the ready to shutdown signal to ``Monitor`` when all asynchronous sends are completed.
+
+    Notes
+    -----
+    The sends must not be waited for in a blocking way because the worker
+    has to keep receiving messages, which other workers wait for completion of as well.
+    """
+    async_operations = AsyncOperations.get_instance()
+    backoff = MpiBackoff.get()
+    while not async_operations.is_completed():
+        await asyncio.sleep(backoff)
+    communication.mpi_send_operation(
+        mpi_state.global_comm,
+        common.Operation.READY_TO_SHUTDOWN,
+        mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
+    )
+
+
 # ---------------------------- #
 # Worker event processing loop #
 # ---------------------------- #
@@ -287,14 +308,11 @@ async def worker_loop():
             task_store.clear_pending_actor_tasks()
             request_store.clear_get_requests()
             request_store.clear_wait_requests()
-            async_operations.finish()
-            communication.mpi_send_operation(
-                mpi_state.global_comm,
-                common.Operation.READY_TO_SHUTDOWN,
-                mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
-            )
+            # Keep a reference to the task to save it from garbage collection
+            ready_to_shutdown_task = asyncio.create_task(post_ready_to_shutdown())
             ready_to_shutdown_posted = True
         elif operation_type == common.Operation.SHUTDOWN and ready_to_shutdown_posted:
+            await ready_to_shutdown_task
             w_logger.debug("Exit worker event loop")
             SharedObjectStore.get_instance().finalize()
             if not MPI.Is_finalized():
-- 
2.43.0


From e8ff9361fd8a619d4626a25f3156ebfae8512e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:31 +0000
Subject: [PATCH 42/43] fix: pass keyword arguments with any names to remote
 functions and actors

---
 unidist/core/backends/dask/actor.py                | 12 +++++++++---
 unidist/core/backends/dask/remote_function.py      |  8 +++++++-
 unidist/core/backends/mpi/core/controller/actor.py |  2 +-
 unidist/core/backends/mpi/core/controller/api.py   |  2 +-
 unidist/core/backends/pymp/core/actor.py           |  2 +-
 unidist/core/backends/pymp/core/api.py             |  2 +-
 unidist/core/backends/pymp/core/process_manager.py |  2 +-
 unidist/core/backends/pyseq/core/api.py            |  2 +-
 8 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/unidist/core/backends/dask/actor.py b/unidist/core/backends/dask/actor.py
index 0009378..4da47e9 100644
--- a/unidist/core/backends/dask/actor.py
+++ b/unidist/core/backends/dask/actor.py
@@ -67,14 +67,16 @@ class DaskActorMethod(ActorMethod):
         for k, v in kwargs.items():
             unwrapped_kwargs[k] = unwrap_object_refs(v)
 
+        # Keyword arguments are passed in a dictionary, otherwise Dask takes those,
+        # which have names of the parameters of `client.submit`, for its own
         future = client.submit(
-            lambda actor_cls, method, *args, **kwargs: getattr(actor_cls, method)(
+            lambda actor_cls, method, kwargs, *args: getattr(actor_cls, method)(
                 *args, **kwargs
             ),
             self._cls,
             self._method_name,
+            unwrapped_kwargs,
             *unwrapped_args,
-            **unwrapped_kwargs,
             pure=False,
         )
 
@@ -218,6 +220,10 @@ class DaskActor(Actor):
         client = get_client()
 
         self._actor_handle = client.submit(
-            self._cls, *args, **kwargs, actor=True
+            lambda cls, kwargs, *args: cls(*args, **kwargs),
+            self._cls,
+            kwargs,
+            *args,
+            actor=True,
         ).result()
         return self
diff --git a/unidist/core/backends/dask/remote_function.py b/unidist/core/backends/dask/remote_function.py
index 3e9193a..a1ec3b5 100644
--- a/unidist/core/backends/dask/remote_function.py
+++ b/unidist/core/backends/dask/remote_function.py
@@ -79,8 +79,14 @@ class DaskRemoteFunction(RemoteFunction):
         unwrapped_args = [unwrap_object_refs(arg) for arg in args]
         unwrapped_kwargs = {k: unwrap_object_refs(v) for k, v in kwargs.items()}
 
+        # Keyword arguments are passed in a dictionary, otherwise Dask takes those,
+        # which have names of the parameters of `client.submit`, for its own
         future = client.submit(
-            self._remote_function, *unwrapped_args, pure=False, **unwrapped_kwargs
+            lambda function, kwargs, *args: function(*args, **kwargs),
+            self._remote_function,
+            unwrapped_kwargs,
+            *unwrapped_args,
+            pure=False,
         )
 
         if num_returns == 1:
diff --git a/unidist/core/backends/mpi/core/controller/actor.py b/unidist/core/backends/mpi/core/controller/actor.py
index 8eaf135..27aa9c4 100644
--- a/unidist/core/backends/mpi/core/controller/actor.py
+++ b/unidist/core/backends/mpi/core/controller/actor.py
@@ -96,7 +96,7 @@ class Actor:
     Instance of the `cls` will be created on the worker.
     """
 
-    def __init__(self, cls, *args, owner_rank=None, handler_id=None, **kwargs):
+    def __init__(self, cls, /, *args, owner_rank=None, handler_id=None, **kwargs):
         self._cls = cls
         self._args = args
         self._kwargs = kwargs
diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 2f9fddb..ac531e3 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -528,7 +528,7 @@ def wait(data_ids, num_returns=1):
     return ready, not_ready
 
 
-def submit(task, *args, num_returns=1, **kwargs):
+def submit(task, /, *args, num_returns=1, **kwargs):
     """
     Execute function on a worker process.
 
diff --git a/unidist/core/backends/pymp/core/actor.py b/unidist/core/backends/pymp/core/actor.py
index 1b46fea..1292200 100644
--- a/unidist/core/backends/pymp/core/actor.py
+++ b/unidist/core/backends/pymp/core/actor.py
@@ -104,7 +104,7 @@ class Actor:
     _dropped = []
     _finishing = {}
 
-    def __init__(self, cls, *args, **kwargs):
+    def __init__(self, cls, /, *args, **kwargs):
         self._worker = None
         self._worker_id = None
         self._obj_store = ObjectStore.get_instance()
diff --git a/unidist/core/backends/pymp/core/api.py b/unidist/core/backends/pymp/core/api.py
index 9cc6f21..a126d5d 100644
--- a/unidist/core/backends/pymp/core/api.py
+++ b/unidist/core/backends/pymp/core/api.py
@@ -109,7 +109,7 @@ def wait(data_ids, num_returns=1):
     return ObjectStore.get_instance().wait(data_ids, num_returns=num_returns)
 
 
-def submit(func, *args, num_returns=1, **kwargs):
+def submit(func, /, *args, num_returns=1, **kwargs):
     """
     Execute function in a worker process.
 
diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 3c70e38..c8beb3c 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -228,7 +228,7 @@ class Task:
         Keyword arguments to be passed in the `func`.
     """
 
-    def __init__(self, func, data_ids, obj_store, *args, **kwargs):
+    def __init__(self, func, data_ids, obj_store, /, *args, **kwargs):
         self._func = func
         self._args = args
         self._kwargs = kwargs
diff --git a/unidist/core/backends/pyseq/core/api.py b/unidist/core/backends/pyseq/core/api.py
index f0a0a14..d71501b 100644
--- a/unidist/core/backends/pyseq/core/api.py
+++ b/unidist/core/backends/pyseq/core/api.py
@@ -74,7 +74,7 @@ def get(data_ids):
     return ObjectStore.get_instance().get(data_ids)
 
 
-def submit(func, *args, num_returns=1, **kwargs):
+def submit(func, /, *args, num_returns=1, **kwargs):
     """
     Execute function.
 
-- 
2.43.0


From 2f2f6c066a599c9c659d7155f1f01a24e2d41add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:31 +0000
Subject: [PATCH 43/43] fix: pymp: do not lose the connection of a worker when
 garbage of a failed call is collected

---
 unidist/core/backends/pymp/core/process_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index c8beb3c..acb3b04 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -37,6 +37,9 @@ class Worker(Process):
         while 1:
             task = self.task_queue.get()
             task = pkl.loads(task)
+            # A proxy closes the connection shared by all the proxies of the process when it is deleted,
+            # so the garbage collector must not find any of those while the others are being used
+            task.obj_store = self._obj_store
 
             data_ids = task.data_ids
             if data_ids is None:
@@ -56,6 +59,8 @@ class Worker(Process):
                     )
                 values = [pkl.dumps(val) for val in values]
             except Exception as e:
+                # the traceback refers to the proxies and is a part of a reference cycle
+                e.__traceback__ = None
                 values = [self._dump_exception(e)] * len(data_ids)
             try:
                 for data_id, val in zip(data_ids, values):
-- 
2.43.0

