"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to review)."""
import json, os
M = "unidist/core/backends/mpi/core/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Task graphs give exactly the sequential result on every backend",
 "For any acyclic graph of remote-function calls whose positional and keyword arguments are plain values or object references (at any depth inside list/tuple/dict arguments of remote functions on MPI and Dask), fetching any reference returns what a plain sequential evaluation of the same calls returns, on every backend and under every message-delivery order and placement of tasks. Each call executes exactly once. Fetching always terminates once the tasks it depends on can run.",
 ["programs", "schedules", "inputs", "configurations"],
 "every DAG of pure tasks, every mixing of values and refs, all argument sizes around the transfer thresholds, every interleaving of message deliveries, any number of workers >= 1",
 "Tests run a handful of one- or two-task programs with tiny arguments in the one interleaving the machine happens to give; dependency chasing between workers (ownership messages, deferred tasks, relayed data) depends on arrival order.",
 ["unidist/core/base/remote_function.py", "unidist/core/base/common.py", M+"controller/api.py", M+"controller/common.py", M+"worker/loop.py", M+"worker/task_store.py", M+"worker/request_store.py", "unidist/core/backends/pymp/core/api.py", "unidist/core/backends/pyseq/core/api.py", "unidist/core/backends/dask/remote_function.py", "unidist/core/backends/ray/remote_function.py"],
 [("reference unwrapping of arguments", "unidist/core/base/common.py:filter_arguments"), ("submission and data push", M+"controller/api.py:submit, "+M+"controller/common.py:push_data"), ("deferred execution until arguments arrive", M+"worker/task_store.py:process_task_request"), ("data requests between workers", M+"worker/request_store.py:process_get_request")])

prop("C02", "put/get returns an equal value of the same type, every time, in order",
 "Any supported value placed in the object store or returned by a task is obtained back equal and of the same type, however often it is fetched, whether before or after it was passed to tasks, and from whichever process fetches it; a fetched value does not change afterwards. Fetching a list of references returns the values position by position, including repeated references.",
 ["inputs", "histories", "configurations"],
 "all nested Python containers, scalars, bytes, strings, arrays (any dtype/shape/order), frames and user objects of any size around the in-band/out-of-band and shared-memory thresholds; all histories of get/pass/get",
 "Tests fetch each reference once and use ints and short lists; caching of serialized buffers and out-of-band transfer only matter for larger values fetched or forwarded several times.",
 [M+"controller/api.py", M+"object_store.py", M+"local_object_store.py", M+"serialization.py", M+"communication.py", "unidist/core/backends/pymp/core/object_store.py", "unidist/core/backends/pyseq/core/object_store.py", "unidist/core/backends/dask/backend.py", "unidist/core/backends/ray/backend.py"],
 [("store lookups and caches", M+"object_store.py:get, "+M+"local_object_store.py"), ("multi-reference fetch", M+"controller/common.py:request_worker_data"), ("backend put", "unidist/core/backends/dask/backend.py:put")])

prop("C03", "Stored objects are snapshots: later mutation of the original is invisible",
 "On backends that copy data between processes (MPI, Ray, Multiprocessing), mutating an object after it was put in the store, after it was passed by value to a remote call, or (in a task or actor) after it was returned, never changes what any reference or any already submitted call observes.",
 ["histories", "schedules", "inputs"],
 "all mutation points between submission and (arbitrarily late) delivery, all values including large buffers sent out of band without copying",
 "Requires mutating a buffer while its asynchronous transfer is still in flight or its serialized form is cached; tests never mutate after put.",
 [M+"controller/api.py", M+"local_object_store.py", M+"communication.py", M+"serialization.py", "unidist/core/backends/pymp/core/object_store.py"],
 [("copy of out-of-band buffers when caching", M+"local_object_store.py:cache_serialized_data"), ("serialization at put time", M+"controller/api.py:put")])

prop("C04", "num_returns decides the shape of the result and maps outputs in order",
 "A remote function or actor method called with num_returns=0 yields None and still executes, with 1 yields a single reference to the whole returned value, and with n>1 yields a list of n distinct references where the i-th refers to the i-th element of the returned sequence. Per-call options override the declared value for that call only, on every backend.",
 ["programs", "inputs", "configurations"],
 "all num_returns, declared by decorator or overridden per call, functions and (async) actor methods, arbitrary element values including None, tuples and large arrays",
 "Tests use num_returns 0, 1 and 2 with small ints; mixing options objects, reuse and larger n with heterogeneous outputs is untested.",
 ["unidist/core/base/remote_function.py", "unidist/core/base/actor.py", M+"local_object_store.py", M+"worker/task_store.py", "unidist/core/backends/pymp/core/api.py", "unidist/core/backends/pymp/core/process_manager.py", "unidist/core/backends/pyseq/core/api.py", "unidist/core/backends/dask/remote_function.py", "unidist/core/backends/dask/actor.py"],
 [("options handling", "unidist/core/base/remote_function.py:options"), ("output id generation", M+"local_object_store.py:generate_output_data_id"), ("output assignment", M+"worker/task_store.py:execute_received_task")])

prop("C05", "A failing call raises its exception at every fetch and at every dependent",
 "If a remote call raises, submitting it still succeeds, every fetch of each of its outputs raises that exception (same type and message; any picklable Exception), every call that received one of its outputs directly as a positional or keyword argument fails with it as well, and all unrelated calls, past and future, are unaffected. This holds for functions, sync and async actor methods and every num_returns, including 0.",
 ["programs", "schedules", "histories", "configurations"],
 "all DAGs with any set of failing nodes, all orders of fetch/wait/dependent submission, repeated fetches, any exception class",
 "Tests fetch one failing task once; caching of the exception object, multi-output failures, dependents waiting for the failure and recovery afterwards need generated histories.",
 [M+"worker/task_store.py", M+"controller/common.py", M+"controller/api.py", "unidist/core/backends/pymp/core/process_manager.py", "unidist/core/backends/pymp/core/object_store.py", "unidist/core/backends/pyseq/core/api.py", "unidist/core/backends/pyseq/core/object_store.py"],
 [("exception stored as output", M+"worker/task_store.py:execute_received_task"), ("raise on fetch", M+"controller/common.py:request_worker_data"), ("propagation through arguments", M+"worker/task_store.py:execute_received_task")])

prop("C06", "wait returns an exact partition whose ready part has really completed",
 "wait(refs, n) terminates whenever n of the given references can complete (successfully or by failing), and returns two lists that together contain exactly the given references with exactly n in the ready list. Every ready reference refers to a finished call, so fetching it does not depend on any unfinished call.",
 ["histories", "schedules", "inputs"],
 "all reference lists (stored, finished, running, failing), all n, repeated waits on overlapping lists, every completion order",
 "Tests call wait on one or two finished or sleeping tasks; bookkeeping across successive waits, multi-output tasks and failures is unexplored.",
 [M+"controller/api.py", M+"monitor/loop.py", "unidist/core/base/backend.py", "unidist/core/backends/pyseq/backend.py", "unidist/core/backends/pymp/core/api.py", "unidist/core/backends/pymp/core/object_store.py", "unidist/core/backends/dask/backend.py", "unidist/core/backends/ray/backend.py"],
 [("completion tracking", M+"monitor/loop.py:DataIDTracker/WaitHandler"), ("root side", M+"controller/api.py:wait")])

prop("C07", "An actor behaves like one private object receiving its calls one by one",
 "Each actor behaves like an ordinary object of its class built with the given arguments: calls made through its handle take effect exactly once, one at a time, in the order they were made by a given caller (methods that are not coroutines; on Dask a call takes effect before the next one only if it was fetched first), and never affect another actor, even of the same class or hosted by the same process.",
 ["programs", "schedules", "histories"],
 "all interleavings of calls on several actors, calls with arguments that are still being computed, handles dropped and actors created anew, all delivery orders",
 "Tests call two or three methods on a single actor with ready arguments; ordering and isolation only fail for particular arrival orders and several live actors.",
 ["unidist/core/base/actor.py", M+"controller/actor.py", M+"worker/loop.py", M+"worker/task_store.py", "unidist/core/backends/mpi/actor.py", "unidist/core/backends/pymp/core/actor.py", "unidist/core/backends/pymp/core/process_manager.py", "unidist/core/backends/pyseq/actor.py", "unidist/core/backends/dask/actor.py", "unidist/core/backends/ray/actor.py"],
 [("actor map on the worker", M+"worker/loop.py:worker_loop"), ("pending actor calls", M+"worker/task_store.py:check_pending_actor_tasks")])

prop("C08", "Async actor methods all complete, concurrently, and feed their dependents",
 "On backends with async actors (MPI, Ray), calls to coroutine methods of an actor all eventually complete provided the method itself can: a method suspended on something a later call of the same actor provides does not block that later call. Results, failures and calls depending on them behave exactly as for synchronous methods, and no completion is lost whatever the order in which the coroutines finish.",
 ["programs", "schedules", "histories"],
 "all sets of concurrently suspended coroutine calls, all finish orders, sync and async methods mixed, dependents on the same or another worker, num_returns 0/1/n",
 "Tests run one coroutine at a time and fetch it directly; lost wake-ups need a dependent waiting while the coroutine finishes after the event that usually triggers re-checking.",
 [M+"worker/task_store.py", M+"worker/loop.py", "unidist/core/backends/ray/actor.py", "unidist/core/backends/mpi/actor.py"],
 [("coroutine execution and completion", M+"worker/task_store.py:execute_received_task")])

prop("C09", "A reference that is still held can always be fetched and passed on",
 "While the program holds a reference, or a submitted call still needs it as an argument, the referenced object is never discarded: fetching it or passing it to calls works no matter how many other references have been created and dropped and how cleanup is interleaved with running calls.",
 ["histories", "schedules", "programs"],
 "all histories of put/submit/get/drop, all timings of cleanup relative to queued or running calls, plain tasks, actor calls and nested submissions mixed",
 "Cleanup is triggered only after enough drops, calls and time; tests neither drop references in bulk nor interleave cleanup with pending work.",
 [M+"controller/garbage_collector.py", M+"common.py", M+"local_object_store.py", M+"monitor/loop.py", M+"monitor/shared_memory_manager.py", M+"shared_object_store.py"],
 [("finished-versus-submitted accounting before cleanup", M+"controller/garbage_collector.py:regular_cleanup"), ("strong references on workers", M+"local_object_store.py:maybe_update_data_id_map"), ("reference identity", M+"common.py:MpiDataID")])

prop("C10", "Objects whose references are all dropped are eventually released",
 "After all references to an object are dropped and the work using it has finished, continued use of the MPI backend releases the object's memory in every process and in shared memory, so a program that repeatedly creates and drops objects runs in bounded memory (each process may still hold on to its most recent request), including when it uses actors, failing calls and calls without outputs.",
 ["histories", "schedules", "configurations"],
 "all create/drop histories whose live set fits, all mixes of tasks, actor calls, failures and num_returns, one or several hosts",
 "A leak is invisible to functional tests; only long generated histories with a small store or with tracked objects expose it.",
 [M+"controller/garbage_collector.py", M+"common.py", M+"local_object_store.py", M+"monitor/loop.py", M+"monitor/shared_memory_manager.py", M+"shared_object_store.py"],
 [("cleanup requests", M+"controller/garbage_collector.py:_send_cleanup_request"), ("release of shared ranges", M+"monitor/shared_memory_manager.py:clear")])

prop("C11", "Shared-memory objects stay intact for every holder, on every host",
 "With the shared object store enabled, every process on every host reads exactly the bytes that were stored, for as long as any process still holds the reference or a value fetched through it, regardless of concurrent puts, transfers between hosts and releases of other objects.",
 ["histories", "schedules", "configurations", "inputs"],
 "all interleavings of put/forward/read/drop on 1..3 hosts with a small store so ranges are reused, object sizes from one byte to most of the store, several workers fetching the same object at once",
 "Tests run one host with gigabytes of store, so ranges are never reused and the cross-host copy path never runs.",
 [M+"shared_object_store.py", M+"monitor/shared_memory_manager.py", M+"monitor/loop.py", M+"controller/common.py"],
 [("range reservation and first-request election", M+"monitor/loop.py:monitor_loop"), ("reference counts in the service buffer", M+"shared_object_store.py:_increment_ref_number/_decrement_ref_number"), ("cross-host copy", M+"shared_object_store.py:_sync_shared_memory_from_another_host")])

prop("C12", "Shared-memory ranges never overlap, and released space becomes usable again",
 "For any sequence of reservations and releases, live reservations are disjoint and inside the store, a reservation fails only when no contiguous free gap is large enough, and releasing makes exactly that range available again, merged with adjacent free space. A failed reservation changes nothing.",
 ["histories", "inputs"],
 "all reserve/release sequences, sizes and release orders (including exact fits, full store, release of first/middle/last)",
 "There is no test of the allocator at all; off-by-one and merge errors need particular adjacency patterns.",
 [M+"monitor/shared_memory_manager.py"],
 [("free-range list", M+"monitor/shared_memory_manager.py:FreeMemoryRange"), ("reservation table", M+"monitor/shared_memory_manager.py:SharedMemoryManager")])

prop("C13", "The parallel copy writes exactly the source bytes and nothing else",
 "The native parallel copy makes the destination equal to the source for every length, alignment and thread count, touches no byte outside the destination range and never crashes; the native fill sets every element of the buffer and nothing else.",
 ["inputs"],
 "all lengths (0, 1, around 64-byte blocks and chunk boundaries, megabytes), all alignments of source and destination, thread counts 1..many",
 "Only large page-aligned buffers with 6 threads are ever copied by tests; prefix/suffix arithmetic errors need odd offsets and small sizes.",
 [M+"memory/memory.cpp", M+"memory/_memory.pyx", M+"shared_object_store.py"],
 [("block split", M+"memory/memory.cpp:parallel_memcopy"), ("fill", M+"memory/memory.cpp:fill")])

prop("C14", "Configuration parameters are validated, typed and consistently sourced",
 "For every parameter and every raw value: an acceptable environment string or put value is normalised to the documented type and read back, an unacceptable one is rejected with an error and changes nothing, an explicit put always wins over the environment (as it is when the parameter is first used), which wins over the default, and the reported source is accurate. Setting one parameter never changes another.",
 ["inputs", "histories", "configurations"],
 "all parameters, all strings and typed values, all histories of put/get/environment changes, case and whitespace variants, subscription order",
 "Tests only set one or two parameters to ordinary values.",
 ["unidist/config/parameter.py", "unidist/config/backends/common/envvars.py", "unidist/config/backends/mpi/envvars.py", "unidist/config/backends/dask/envvars.py", "unidist/config/backends/ray/envvars.py"],
 [("decode/verify/normalize tables", "unidist/config/parameter.py"), ("value source", "unidist/config/parameter.py:get/put")])

prop("C15", "MPI serialization round-trips every value at every threshold",
 "Serializing and deserializing any value for transfer yields an equal value of the same type, for any nesting (up to 100 levels), any mix of large buffers, lambdas, classes and plain data, any in-band/out-of-band threshold, and repeatedly from the same serialized form; large contiguous buffers travel out of band and in their original order.",
 ["inputs", "configurations"],
 "all nested values with several buffers of assorted dtypes/layouts, thresholds 0..large, repeated deserialization, user-defined and lambda objects at any depth",
 "Tests never place several large buffers inside one nested value nor change the threshold; buffer bookkeeping errors need several buffers at different depths.",
 [M+"serialization.py", M+"common.py"],
 [("encoder with out-of-band buffers", M+"serialization.py:ComplexDataSerializer"), ("simple packages", M+"serialization.py:SimpleDataSerializer")])

prop("C16", "Work is spread over all free workers and never lands on an actor's worker",
 "On backends where unidist places the work itself (MPI, Multiprocessing), a worker hosting a live actor created by this program is never given a plain task or another actor by it, every other worker is used, with consecutive submissions differing by at most one task between free workers, and when the actor's last handle is dropped its worker becomes available again. If no worker is free, submission reports an error and nothing else breaks.",
 ["histories", "configurations"],
 "all histories of task submissions, actor creations, handle copies through tasks and drops, any worker count and host layout",
 "Tests create one actor with four workers and never look at where tasks run.",
 [M+"controller/common.py", M+"controller/actor.py", "unidist/core/backends/pymp/core/process_manager.py"],
 [("round robin with reservations", M+"controller/common.py:RoundRobin"), ("release on handle collection", M+"controller/actor.py:Actor.__del__")])

prop("C17", "Shutdown always terminates every process, after any history",
 "Whatever was submitted before - finished, running, queued on data that will never be needed, failed, or unfetched calls, live actors, held references - shutting down returns, and every process of the system leaves its loop cleanly; calling it twice is harmless.",
 ["histories", "schedules", "configurations"],
 "all prior histories cut at any point, every interleaving of the cancellation handshake with in-flight data, tasks and cleanup, 1..3 hosts",
 "The test runner kills the processes at the end, so a hang or crash at exit is never noticed.",
 [M+"controller/api.py", M+"worker/loop.py", M+"monitor/loop.py", M+"async_operations.py", M+"shared_object_store.py"],
 [("cancel / ready / shutdown handshake", M+"controller/api.py:shutdown, "+M+"worker/loop.py:worker_loop, "+M+"monitor/loop.py:monitor_loop")])

prop("C18", "Messages carry their payload intact and are matched to their operation",
 "Whatever sequence of operations and payloads is sent between processes, blocking or not, each receiver gets every operation exactly once with exactly the payload that belongs to it, for any payload size including zero-length, exactly-one-block and multi-block buffers, and per-sender order is preserved.",
 ["inputs", "schedules", "histories"],
 "all payload sizes and buffer counts around the block size (made small), all mixes of blocking/non-blocking sends from several senders, all delivery orders",
 "The block size is 2 GB, so splitting never happens in tests; cross-talk between senders needs concurrent multi-part messages.",
 [M+"communication.py", M+"serialization.py", M+"common.py"],
 [("block partitioning", M+"communication.py:mpi_send_buffer/mpi_isend_buffer/mpi_recv_buffer"), ("multi-part packages", M+"communication.py:send_complex_data/recv_complex_data")])

prop("C19", "Tasks may use the whole API: nested calls, stored objects and actor handles",
 "On MPI, code running inside a remote call may itself submit calls, put and fetch objects and use actor handles it was given, with the same results as the same code run sequentially; references and handles keep denoting the same object or actor in whichever process they are used, and the enclosing program's references stay valid.",
 ["programs", "schedules", "histories"],
 "all nesting of submissions within the available workers, references created in a task and fetched there, actor handles passed to tasks and other actors, all delivery orders",
 "One test passes an actor handle to a task; nested submission, handles used concurrently with the creator and repeated transfer of handles are untested.",
 [M+"controller/api.py", M+"controller/common.py", M+"controller/actor.py", M+"common.py", M+"worker/request_store.py", "unidist/core/backends/mpi/actor.py", "unidist/core/backends/pymp/core/actor.py"],
 [("workers acting as controllers", M+"controller/common.py:request_worker_data"), ("handle serialization", M+"controller/actor.py:Actor.__reduce__")])

prop("C20", "Spawned workers see exactly the configuration and runtime environment given",
 "Every configuration value and runtime environment variable set in the program before initialization is in force, unchanged, in every worker process, for any legal name and string value, in both the spawning and the single-program model.",
 ["inputs", "configurations"],
 "all parameter values, all environment variable names and values including quotes, backslashes, newlines, braces, unicode and empty strings",
 "One test passes a single alphanumeric variable; quoting and typing errors depend on the value.",
 [M+"controller/api.py", "unidist/config/backends/mpi/envvars.py", "unidist/config/parameter.py"],
 [("construction of the worker start-up code", M+"controller/api.py:init"), ("environment set-up in single-program mode", M+"controller/api.py:init")])

prop("C21", "Process roles and reported resources are right for any host layout",
 "For any assignment of processes to hosts, there is one root, one monitor per host with the shared store (one overall without it), every remaining process is a worker, all processes agree on the roles, and the reported cluster resources count exactly the workers per host. Layouts that cannot work (no worker, or a host left with a single process when the shared store needs a monitor there) are rejected with an error.",
 ["configurations"],
 "all placements of 3..12 processes on 1..4 hosts, contiguous or interleaved ranks, with and without the shared object store",
 "Tests only run on one host with four workers.",
 [M+"communication.py", M+"controller/api.py", M+"controller/common.py"],
 [("topology", M+"communication.py:MPIState"), ("resources", M+"controller/api.py:cluster_resources")])

prop("C22", "The public API accepts and rejects exactly what it documents",
 "References, actor classes and remote functions can be used in every documented form with any legal option; calling a remote function, actor class or actor method directly, decorating the wrong thing, or passing ill-typed references to get/wait is rejected with an error on every backend and leaves the system usable. A value is reported to be an object reference if and only if it is one.",
 ["inputs", "programs", "configurations"],
 "all combinations of decorator/options arguments and values, all kinds of non-reference arguments, all backends",
 "Tests check two or three individual misuse cases.",
 ["unidist/api.py", "unidist/core/base/backend.py", "unidist/core/base/actor.py", "unidist/core/base/remote_function.py", "unidist/core/base/utils.py"],
 [("argument checks", "unidist/core/base/backend.py:BackendProxy"), ("direct-call guards", "unidist/core/base/remote_function.py, unidist/core/base/actor.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
