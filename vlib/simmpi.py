"""
A deterministic simulated MPI.

The unmodified unidist MPI backend runs in forked processes ("ranks") whose `mpi4py.MPI` is the module
object built here.  Every MPI call (and `time.sleep`) is a request to the broker, which lives in the process
that forked the ranks.  The broker lets exactly one rank run at a time and decides, from the schedule of the
case, who continues and which of several deliverable messages a wildcard receive gets.  MPI's ordering rule
is kept: between two processes on one communicator, messages that match the same receive are taken in order.

Deadlock is exact: every rank is parked in an operation nothing in flight can complete (polls are answered
"no" a bounded number of times first, so code that polls and does something else in between may go on).
"""
import asyncio
import gc
import mmap
import os
import pickle
import random
import resource
import select
import selectors
import signal
import socket
import struct
import sys
import threading
import time
import traceback
import types
from collections import deque

import mpi4py

mpi4py.rc(recv_mprobe=False, initialize=False, finalize=False)
from mpi4py import MPI as REAL  # noqa: E402
from mpi4py.util import pkl5  # noqa: E402,F401

ANY_SOURCE = REAL.ANY_SOURCE
ANY_TAG = REAL.ANY_TAG
_real_sleep = time.sleep
_real_monotonic = time.monotonic

N_CHANNELS = 6          # sockets per rank: one per thread that uses MPI
IDLE_ROUNDS = 40        # unanswered poll rounds before a deadlock is declared
STUCK_SECONDS = 90.0    # a rank that computes that long without any MPI call
MAX_GRANTS = 200000


# --------------------------------------------------------------------------------------
# framing
# --------------------------------------------------------------------------------------
def _send_frame(sock, obj):
    data = pickle.dumps(obj, protocol=5)
    sock.sendall(struct.pack("!Q", len(data)) + data)


def _recv_exact(sock, n):
    chunks = []
    while n:
        b = sock.recv(min(n, 1 << 20))
        if not b:
            raise EOFError
        chunks.append(b)
        n -= len(b)
    return b"".join(chunks)


def _recv_frame(sock):
    (n,) = struct.unpack("!Q", _recv_exact(sock, 8))
    return pickle.loads(_recv_exact(sock, n))


# --------------------------------------------------------------------------------------
# rank side
# --------------------------------------------------------------------------------------
class _Rank:
    """State of the rank this process is (set after fork)."""

    rank = None
    size = None
    host = None
    socks = None
    tls = None
    lock = threading.RLock()
    next_channel = 0
    free_channels = set()
    jobs = parked = 0       # running in threads of executors; those that are in a request
    sleeping = calling = woken = False
    skipped = 0.0
    loop_thread = None
    idle = threading.Event()
    clock = 0.0
    clock_step = 0.3
    initialized = False
    finalized = False
    checksend = True
    census = None


R = _Rank()


def _channel():
    ch = getattr(R.tls, "ch", None)
    if ch is None:
        with R.lock:
            if R.free_channels:
                idx = min(R.free_channels)
                R.free_channels.remove(idx)
            else:
                idx = R.next_channel
                R.next_channel += 1
        if idx >= len(R.socks):
            raise RuntimeError("simmpi: too many threads")
        ch = R.tls.ch = R.socks[idx]
        R.tls.idx = idx
    return ch


def _release_channel():
    """The thread finished its job: another thread of the executor may use its channel."""
    if getattr(R.tls, "ch", None) is not None:
        R.tls.ch = None
        with R.lock:
            R.free_channels.add(R.tls.idx)


def rpc(*req):
    sock = _channel()
    other = R.loop_thread is not None and threading.get_ident() != R.loop_thread
    if other and not getattr(R.tls, "granted", False):
        # Another thread than the event loop's: wait until the loop has nothing left to run, so that
        # the order of events inside a rank does not depend on timing.
        R.idle.wait()
    if R.census is not None:
        R.census()
    with R.lock:
        if other:
            R.parked += 1
        else:
            R.calling = True
    _send_frame(sock, req)
    kind, val = _recv_frame(sock)
    with R.lock:
        if other:
            # from now on this thread runs only while the loop is parked
            R.tls.granted = True
            R.parked -= 1
        else:
            R.calling = False
    if kind == "ok":
        return val
    if kind == "exit":
        os._exit(0)
    raise RuntimeError("simmpi: " + str(val))


def note(*event):
    """Record an event in the global history of the case (no effect outside the simulator)."""
    if R.rank is not None:
        rpc("note", event)


def quiesce():
    """Block until no other rank can do anything but poll."""
    if R.rank is not None:
        rpc("quiesce")


class _IdleSelector(selectors.DefaultSelector):
    def select(self, timeout=None):
        if R.loop_thread is None:
            R.loop_thread = threading.get_ident()
        if timeout is None:
            ready = super().select(0)
            if ready:
                return ready
            if R.jobs and R.parked == R.jobs:
                # all that is left are jobs the broker knows of already
                _send_frame(_channel(), ("detach",))
            R.idle.set()
            try:
                return super().select(None)
            finally:
                R.idle.clear()
        ready = super().select(0)
        if ready or timeout <= 0:
            return ready
        # Waiting for a timer is a poll.  Jobs of other threads go on meanwhile: the broker continues when the
        # rank is parked in this request and in one of each job that is running.
        with R.lock:
            R.sleeping, R.woken = True, False
            need = 1 + R.jobs
        sock = _channel()
        _send_frame(sock, ("tsleep", need))
        R.idle.set()
        kind, _ = _recv_frame(sock)
        if kind == "exit":
            os._exit(0)
        with R.lock:
            R.sleeping = False
        R.idle.clear()
        R.skipped += timeout
        return super().select(5 if R.woken else 0)

    def close(self):
        R.loop_thread = None
        R.idle.set()
        super().close()


class _Loop(asyncio.SelectorEventLoop):
    def time(self):
        return _real_monotonic() + R.skipped

    def run_in_executor(self, executor, func, *args):
        def job():
            R.tls.granted = False
            try:
                return func(*args)
            finally:
                with R.lock:
                    R.jobs -= 1
                    R.woken = True
                    detach = R.sleeping or R.calling and R.tls.granted
                R.tls.granted = False
                if detach:
                    _send_frame(_channel(), ("detach",))
                _release_channel()

        with R.lock:
            R.jobs += 1
        return super().run_in_executor(executor, job)


class _Policy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        R.idle.clear()
        return _Loop(_IdleSelector())


class Datatype:
    def __init__(self, name, size, code):
        self.name, self.size, self.code = name, size, code

    def Get_size(self):
        return self.size

    def Commit(self):
        return self

    def Free(self):
        pass

    def Create_contiguous(self, count):
        return Datatype(self.name + "[]", self.size * count, self.code)

    extent = property(lambda s: s.size)


class Status:
    def __init__(self, status=None):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.count = 0
        self.error = 0

    def _set(self, src, tag, n):
        self.source, self.tag, self.count = src, tag, n

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, datatype=None):
        return self.count // (datatype.size if datatype is not None else 1)

    Get_elements = Get_count

    def Get_error(self):
        return 0


class Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)


def _buf(spec):
    """The memoryview a buffer specification denotes."""
    if isinstance(spec, (tuple, list)):
        buf = spec[0]
        count = spec[1] if len(spec) > 1 and isinstance(spec[1], int) else None
        dt = spec[-1] if len(spec) > 1 and not isinstance(spec[-1], int) else None
        if buf is None:
            return memoryview(b"")
        mv = memoryview(buf)
        mv = mv.cast("B") if mv.nbytes else memoryview(bytearray(b""))
        if count is not None:
            size = 1
            if isinstance(dt, Datatype):
                size = dt.size
            mv = mv[: count * size] if count * size <= mv.nbytes else mv
        return mv
    mv = memoryview(spec)
    if not mv.nbytes:
        return memoryview(b"")
    if not mv.c_contiguous:
        raise BufferError("simmpi: buffer is not contiguous")
    return mv.cast("B")


def _fingerprint(mv):
    import zlib

    return zlib.crc32(mv)


class Request:
    def __init__(self, rid=None, kind="send", buf=None, pick=False, into=None):
        self.rid, self.kind, self.pick, self.into = rid, kind, pick, into
        self._buf = buf
        self._crc = _fingerprint(buf) if buf is not None else None
        self._done = rid is None
        self._msg = None

    def _finish(self, res, status):
        self._done = True
        if self._buf is not None:
            if res == "late" and _fingerprint(self._buf) != self._crc:
                note("isend-buffer-modified", R.rank)
            self._buf = None
        if self.kind == "recv":
            payload, src, tag = res
            if status is not None:
                status._set(src, tag, len(payload))
            if self.pick:
                self._msg = pickle.loads(payload)
            elif self.into is not None:
                self.into[: len(payload)] = payload

    def Test(self, status=None):
        if self._done:
            return True
        ok, res = rpc("test", self.rid)
        if ok:
            self._finish(res, status)
        return ok

    def Wait(self, status=None):
        if not self._done:
            self._finish(rpc("waitreq", self.rid), status)
        return True

    def test(self, status=None):
        ok = self.Test(status)
        return ok, (self._msg if ok else None)

    def wait(self, status=None):
        self.Wait(status)
        return self._msg

    def Free(self):
        pass

    def Cancel(self):
        if not self._done:
            rpc("cancel", self.rid)
            self._done = True

    cancel = Cancel

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.Wait()
        return True

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    @staticmethod
    def Testall(reqs, statuses=None):
        return all([r.Test() for r in reqs])


def _dumps(obj):
    return pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)


class Group:
    def __init__(self, ranks):
        self.ranks = list(ranks)

    def Incl(self, ranks):
        return Group([self.ranks[r] for r in ranks])

    def Excl(self, ranks):
        return Group([r for i, r in enumerate(self.ranks) if i not in set(ranks)])

    def Get_size(self):
        return len(self.ranks)

    def Free(self):
        pass

    size = property(Get_size)


class Comm:
    def __init__(self, cid, members):
        self.cid, self.members = cid, list(members)

    def __eq__(self, other):
        return isinstance(other, Comm) and other.cid == self.cid

    def __hash__(self):
        return hash(self.cid)

    def __bool__(self):
        return self.cid is not None

    # -- basics
    def Get_rank(self):
        return self.members.index(R.rank)

    def Get_size(self):
        return len(self.members)

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_group(self):
        return Group(self.members)

    @staticmethod
    def Get_parent():
        return COMM_NULL

    def Is_inter(self):
        return False

    def Free(self):
        pass

    def Set_errhandler(self, *a):
        pass

    def Get_name(self):
        return str(self.cid)

    def Abort(self, errorcode=0):
        raise RuntimeError(f"MPI_Abort({errorcode})")

    # -- point to point
    def _w(self, r):
        return ANY_SOURCE if r == ANY_SOURCE else self.members[r]

    def _l(self, w):
        return self.members.index(w)

    def _send(self, payload, dest, tag, sync=False):
        rpc("send", self.cid, self._w(dest), tag, payload, sync)

    def send(self, obj, dest, tag=0):
        self._send(_dumps(obj), dest, tag)

    bsend = send

    def ssend(self, obj, dest, tag=0):
        self._send(_dumps(obj), dest, tag, True)

    def Send(self, buf, dest, tag=0):
        self._send(bytes(_buf(buf)), dest, tag)

    def Ssend(self, buf, dest, tag=0):
        self._send(bytes(_buf(buf)), dest, tag, True)

    def isend(self, obj, dest, tag=0):
        rid = rpc("isend", self.cid, self._w(dest), tag, _dumps(obj), False)
        return Request(rid)

    def issend(self, obj, dest, tag=0):
        return Request(rpc("isend", self.cid, self._w(dest), tag, _dumps(obj), True))

    def Isend(self, buf, dest, tag=0):
        mv = _buf(buf)
        rid = rpc("isend", self.cid, self._w(dest), tag, bytes(mv), False)
        return Request(rid, buf=mv)

    def _recv(self, source, tag, status):
        payload, src, t = rpc("recv", self.cid, self._w(source), tag)
        if status is not None:
            status._set(self._l(src), t, len(payload))
        return payload

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return pickle.loads(self._recv(source, tag, status))

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        mv = _buf(buf)
        payload = self._recv(source, tag, status)
        if len(payload) > mv.nbytes:
            raise RuntimeError("MPI_ERR_TRUNCATE: message truncated")
        mv[: len(payload)] = payload

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(rpc("irecv", self.cid, self._w(source), tag), kind="recv", pick=True)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(rpc("irecv", self.cid, self._w(source), tag), kind="recv", into=_buf(buf))

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        res = rpc("iprobe", self.cid, self._w(source), tag)
        if res is None:
            return False
        src, t, n = res
        if status is not None:
            status._set(self._l(src), t, n)
        return True

    Iprobe = iprobe

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, t, n = rpc("probe", self.cid, self._w(source), tag)
        if status is not None:
            status._set(self._l(src), t, n)
        return True

    Probe = probe

    # -- collectives
    def _coll(self, kind, data=None):
        return rpc("coll", self.cid, kind, data)

    def Barrier(self):
        self._coll("barrier")

    barrier = Barrier

    def allgather(self, obj):
        return [pickle.loads(b) for b in self._coll("allgather", _dumps(obj))]

    def gather(self, obj, root=0):
        res = self.allgather(obj)
        return res if self.Get_rank() == root else None

    def bcast(self, obj=None, root=0):
        return self.allgather(obj if self.Get_rank() == root else None)[root]

    def allreduce(self, obj, op=None):
        vals = self.allgather(obj)
        out = vals[0]
        for v in vals[1:]:
            out = (op or SUM)(out, v)
        return out

    def Allreduce(self, sendbuf, recvbuf, op=None):
        s = memoryview(sendbuf[0] if isinstance(sendbuf, (tuple, list)) else sendbuf)
        r = memoryview(recvbuf[0] if isinstance(recvbuf, (tuple, list)) else recvbuf)
        vals = self.allgather((s.tolist(), s.nbytes))
        if len({n for _, n in vals}) != 1:
            raise RuntimeError("MPI_ERR_TRUNCATE: Allreduce with different counts")
        out = vals[0][0]
        for v, _ in vals[1:]:
            out = [(op or SUM)(a, b) for a, b in zip(out, v)]
        if r.nbytes < s.nbytes:
            raise RuntimeError("MPI_ERR_TRUNCATE: receive buffer too small")
        for i, v in enumerate(out):
            r[i] = v

    def Split_type(self, split_type, key=0, info=None):
        infos = self.allgather((R.host, key, R.rank))
        mine = sorted((k, self.members.index(r), r) for h, k, r in infos if h == R.host)
        return self._newcomm("split", [r for _, _, r in mine])

    def Split(self, color=0, key=0):
        infos = self.allgather((color, key, R.rank))
        mine = sorted((k, self.members.index(r), r) for c, k, r in infos if c == color)
        return self._newcomm("split", [r for _, _, r in mine])

    def Dup(self, info=None):
        return self._newcomm("dup", self.members)

    def Create_group(self, group, tag=0):
        if R.rank not in group.ranks:
            return COMM_NULL
        cid = rpc("group", self.cid, tuple(group.ranks))
        return Comm(cid, group.ranks)

    def Create(self, group):
        self.Barrier()
        return self.Create_group(group)

    def _newcomm(self, kind, members):
        cid = rpc("group", (self.cid, kind), tuple(members))
        return Comm(cid, members)

    def Merge(self, high=False):
        return self


class Info(dict):
    @staticmethod
    def Create():
        return Info()

    def Set(self, k, v):
        self[k] = v

    def Get(self, k, maxlen=-1):
        return self.get(k)

    def Free(self):
        pass


class Win:
    def __init__(self, wid, maps, comm):
        self.wid, self.maps, self.comm = wid, maps, comm

    @staticmethod
    def Allocate_shared(size, disp_unit=1, info=None, comm=None):
        sizes = comm.allgather(size)
        wid, path = rpc("winalloc", comm.cid, tuple(comm.members), tuple(sizes))
        offs, off = [], 0
        for s in sizes:
            offs.append((off, s))
            off += s
        fd = os.open(path, os.O_RDWR)
        mm = mmap.mmap(fd, max(off, 1))
        os.close(fd)
        comm.Barrier()
        w = Win(wid, offs, comm)
        w.mm = mm
        w.unit = disp_unit
        return w

    def Shared_query(self, rank):
        off, n = self.maps[rank]
        return REAL.buffer.frombuffer(memoryview(self.mm)[off : off + n]), self.unit

    def Lock(self, rank, lock_type=None, assertion=0):
        rpc("winlock", self.wid, rank)

    def Unlock(self, rank):
        rpc("winunlock", self.wid, rank)

    def Lock_all(self, assertion=0):
        rpc("winlock", self.wid, -1)

    def Unlock_all(self):
        rpc("winunlock", self.wid, -1)

    def Sync(self):
        pass

    def Flush(self, rank):
        pass

    def Fence(self, assertion=0):
        self.comm.Barrier()

    def Free(self):
        self.comm._coll("winfree")


COMM_NULL = Comm(None, [])
SUM = Op("SUM", lambda a, b: a + b)
MAX = Op("MAX", max)
MIN = Op("MIN", min)
LOR = Op("LOR", lambda a, b: a or b)
BOR = Op("BOR", lambda a, b: a | b)


def _build_module():
    m = types.ModuleType("mpi4py.MPI")
    m.__file__ = __file__
    m._real = REAL
    for k, v in dict(
        Comm=Comm, Intracomm=Comm, Request=Request, Status=Status, Win=Win, Info=Info, Group=Group,
        Datatype=Datatype, COMM_NULL=COMM_NULL, ANY_SOURCE=ANY_SOURCE, ANY_TAG=ANY_TAG,
        BYTE=Datatype("BYTE", 1, "B"), CHAR=Datatype("CHAR", 1, "b"), LONG=Datatype("LONG", 8, "l"),
        INT=Datatype("INT", 4, "i"), DOUBLE=Datatype("DOUBLE", 8, "d"), INT64_T=Datatype("INT64_T", 8, "q"),
        SUM=SUM, MAX=MAX, MIN=MIN, LOR=LOR, BOR=BOR, INFO_NULL=Info(), VERSION=3, SUBVERSION=1,
        THREAD_SINGLE=0, THREAD_FUNNELED=1, THREAD_SERIALIZED=2, THREAD_MULTIPLE=3,
        COMM_TYPE_SHARED=REAL.COMM_TYPE_SHARED, LOCK_EXCLUSIVE=REAL.LOCK_EXCLUSIVE,
        LOCK_SHARED=REAL.LOCK_SHARED, memory=REAL.memory, buffer=REAL.buffer,
    ).items():
        setattr(m, k, v)
    m.COMM_WORLD = Comm("world", [])
    m.COMM_SELF = Comm("self", [])

    def _Init_thread(required=3):
        R.initialized = True
        return 3

    def _Finalize():
        R.finalized = True
        rpc("finalize")

    m.Init = _Init_thread
    m.Init_thread = _Init_thread
    m.Query_thread = lambda: 3
    m.Is_initialized = lambda: R.initialized
    m.Is_finalized = lambda: R.finalized
    m.Finalize = _Finalize
    m.Get_library_version = lambda: "Open MPI v4.1.6, simulated"
    m.Get_version = lambda: (3, 1)
    m.Get_processor_name = lambda: str(R.host)
    m.Wtime = time.perf_counter

    def __getattr__(name):
        return getattr(REAL, name)

    m.__getattr__ = __getattr__
    return m


MODULE = None


def install():
    """Make `from mpi4py import MPI` yield the simulation (call before unidist is imported)."""
    global MODULE
    if MODULE is None:
        MODULE = _build_module()
        sys.modules["mpi4py.MPI"] = MODULE
        pkl5.MPI = MODULE          # datatypes of large messages
        mpi4py.MPI = MODULE
    return MODULE


# --------------------------------------------------------------------------------------
# broker
# --------------------------------------------------------------------------------------
class Msg:
    __slots__ = ("src", "dst", "cid", "tag", "data", "seq", "rid", "sync", "matched")

    def __init__(self, src, dst, cid, tag, data, seq, sync):
        self.src, self.dst, self.cid, self.tag, self.data, self.seq = src, dst, cid, tag, data, seq
        self.sync = sync
        self.matched = False


class Strand:
    __slots__ = ("rank", "sock", "req", "ready", "waiting")

    def __init__(self, rank, sock):
        self.rank, self.sock = rank, sock
        self.req = None      # outstanding request
        self.ready = None    # response that can be granted
        self.waiting = False


class Result:
    def __init__(self):
        self.status = "ok"           # ok | deadlock | crash | stuck | overrun
        self.detail = ""
        self.result = None           # what the root program returned
        self.notes = []
        self.trace = deque(maxlen=120)
        self.grants = 0
        self.msgs = 0
        self.switches = 0
        self.races = 0               # wildcard receives with more than one possible sender
        self.stderr = ""
        self.exited = {}

    def describe(self):
        return {"status": self.status, "detail": self.detail, "trace": list(self.trace)[-60:],
                "stderr": self.stderr[-3000:]}


class Schedule:
    """Decides who runs next.  kind: fifo | random | prio."""

    def __init__(self, kind="fifo", seed=0, size=1):
        self.kind = kind
        self.rnd = random.Random(seed)
        self.prio = list(range(size))
        self.change = 0
        if kind == "prio":
            self.rnd.shuffle(self.prio)
            self.change = self.rnd.choice([0, 0, 0.005, 0.02, 0.1])
        self.stick = {"fifo": 1.0, "random": self.rnd.choice([0.0, 0.5, 0.9]), "prio": 0.0}[kind]
        self.last = 0

    def pick_strand(self, cands):
        # cands: list of strands, runnable
        if len(cands) == 1:
            s = cands[0]
        elif self.kind == "fifo":
            same = [s for s in cands if s.rank == self.last]
            if same:
                s = same[0]
            else:
                s = min(cands, key=lambda c: (c.rank - self.last) % 1000)
        elif self.kind == "random":
            same = [s for s in cands if s.rank == self.last]
            if same and self.rnd.random() < self.stick:
                s = same[0]
            else:
                s = self.rnd.choice(cands)
        else:
            if self.change and self.rnd.random() < self.change:
                i = self.rnd.randrange(len(self.prio))
                self.prio[i], self.prio[0] = self.prio[0], self.prio[i]
            s = min(cands, key=lambda c: self.prio[c.rank])
        self.last = s.rank
        return s

    def pick_msg(self, msgs):
        # one candidate per sender, oldest first
        if len(msgs) == 1 or self.kind == "fifo":
            return msgs[0]
        if self.kind == "prio":
            return min(msgs, key=lambda m: self.prio[m.src]) if self.rnd.random() < 0.7 else self.rnd.choice(msgs)
        return self.rnd.choice(msgs)


class Broker:
    def __init__(self, hosts, schedule, eager=4096, scratch=None, ieager=None):
        self.hosts = hosts
        self.size = len(hosts)
        self.sched = schedule
        self.eager = eager
        self.ieager = eager if ieager is None else min(ieager, eager)
        self.scratch = scratch
        self.res = Result()
        self.strands = []
        self.inbox = [[] for _ in hosts]
        self.posted = [[] for _ in hosts]
        self.seq = 0
        self.rids = {}
        self.next_rid = 1
        self.colls = {}
        self.collseq = {}
        self.groups = {}
        self.groupseq = {}
        self.wins = {}
        self.locks = {}
        self.alive = set(range(self.size))
        self.finalized = set()
        self.root_done = False
        self.need = {}

    # -- matching
    def _match(self, dst, cid, source, tag):
        best = {}
        for m in self.inbox[dst]:
            if m.cid == cid and (source == ANY_SOURCE or m.src == source) and (tag == ANY_TAG or m.tag == tag):
                if m.src not in best:
                    best[m.src] = m
        return sorted(best.values(), key=lambda m: m.seq)

    def _take(self, m):
        self.inbox[m.dst].remove(m)
        m.matched = True
        if m.rid is not None:
            self.rids[m.rid] = ("done", "late" if m.sync else "now")

    def _enqueue(self, src, cid, dst, tag, data, sync):
        self.seq += 1
        m = Msg(src, dst, cid, tag, data, self.seq, sync or len(data) > self.eager)
        m.rid = None
        self.res.msgs += 1
        # posted receives match first
        for p in self.posted[dst]:
            rid, pcid, psrc, ptag = p
            if pcid == cid and psrc in (ANY_SOURCE, src) and ptag in (ANY_TAG, tag):
                self.posted[dst].remove(p)
                self.rids[rid] = ("done", (data, src, tag))
                m.matched = True
                return m
        self.inbox[dst].append(m)
        return m

    # -- request arrival: immediate effects
    def arrive(self, s, req):
        op = req[0]
        s.ready = None
        s.req = req
        r = s.rank
        if op == "send":
            _, cid, dst, tag, data, sync = req
            m = self._enqueue(r, cid, dst, tag, data, sync)
            if m.matched or not m.sync:
                s.ready = (None,)
            else:
                s.req = ("sendwait", m)
            self.res.trace.append(f"{r}->{dst} tag{tag} {len(data)}B")
        elif op == "isend":
            _, cid, dst, tag, data, sync = req
            m = self._enqueue(r, cid, dst, tag, data, sync or len(data) > self.ieager)
            rid = self.next_rid
            self.next_rid += 1
            if m.matched or not m.sync:
                self.rids[rid] = ("done", "now")
            else:
                self.rids[rid] = ("pending", None)
                m.rid = rid
            s.ready = (rid,)
            self.res.trace.append(f"{r}=>{dst} tag{tag} {len(data)}B")
        elif op == "irecv":
            _, cid, src, tag = req
            rid = self.next_rid
            self.next_rid += 1
            ms = self._match(r, cid, src, tag)
            if ms:
                m = self.sched.pick_msg(ms)
                self._take(m)
                self.rids[rid] = ("done", (m.data, m.src, m.tag))
            else:
                self.rids[rid] = ("pending", None)
                self.posted[r].append((rid, cid, src, tag))
            s.ready = (rid,)
        elif op == "test":
            st, val = self.rids[req[1]]
            s.ready = ((st == "done", val),)
        elif op == "cancel":
            self.posted[r] = [p for p in self.posted[r] if p[0] != req[1]]
            s.ready = (None,)
        elif op == "coll":
            _, cid, kind, data = req
            n = self.collseq.get((cid, r), 0)
            self.collseq[(cid, r)] = n + 1
            c = self.colls.setdefault((cid, n), {})
            c[r] = (kind, data)
            members = self.members(cid)
            s.req = ("collwait", cid, n)
            if len(c) == len(members):
                kinds = {k for k, _ in c.values()}
                if len(kinds) != 1:
                    raise Violation("crash", f"mismatched collectives {kinds} on {cid}")
        elif op == "group":
            _, key, members = req
            n = self.groupseq.get((key, members, r), 0)
            self.groupseq[(key, members, r)] = n + 1
            cid = ("g", key, members, n)
            self.groups[cid] = members
            c = self.colls.setdefault((cid, "make"), {})
            c[r] = ("make", None)
            s.req = ("groupwait", cid)
        elif op == "winalloc":
            _, cid, members, sizes = req
            n = self.groupseq.get(("win", cid, r), 0)
            self.groupseq[("win", cid, r)] = n + 1
            wid = ("w", cid, n)
            if wid not in self.wins:
                path = os.path.join(self.scratch, f"win{len(self.wins)}")
                with open(path, "wb") as f:
                    f.truncate(max(sum(sizes), 1))
                self.wins[wid] = path
            s.ready = ((wid, self.wins[wid]),)
        elif op == "winunlock":
            key = (req[1], req[2])
            if self.locks.get(key) != r:
                raise Violation("crash", f"rank {r} unlocks a window it has not locked")
            del self.locks[key]
            s.ready = (None,)
        elif op == "note":
            self.res.notes.append((r,) + tuple(req[1]))
            s.ready = (None,)
        elif op == "sleep":
            s.ready = (None,)
        elif op == "tsleep":
            s.ready = (None,)
            s.req = ("sleep",)
            self.need[r] = req[1]
        elif op == "detach":
            s.req = None
            self.need[r] = self.need.get(r, 1) - 1
        elif op == "finalize":
            open_ = [m for box in self.inbox for m in box if m.src == r and m.rid is not None]
            if open_:
                m = open_[0]
                raise Violation("crash", f"rank {r} finalizes MPI while a send of {len(m.data)} bytes to rank {m.dst} "
                                         f"is not complete")
            self.finalized.add(r)
            s.ready = (None,)
        elif op == "done":
            if r == 0:
                self.res.result = req[1]
                self.root_done = True
            self.res.exited[r] = req[2]
            self.alive.discard(r)
            s.req = None
            try:
                _send_frame(s.sock, ("exit", None))
            except OSError:
                pass
        elif op == "crash":
            raise Violation("crash", f"rank {r}: {req[1]}")
        # recv, iprobe, probe, waitreq, winlock: decided at grant time

    def members(self, cid):
        if cid == "world":
            return range(self.size)
        return self.groups[cid]

    # -- can this strand continue?
    def runnable(self, s):
        if s.ready is not None:
            return True
        req = s.req
        if req is None:
            return False
        op = req[0]
        if op in ("recv", "iprobe", "probe"):
            return bool(self._match(s.rank, req[1], req[2], req[3]))
        if op == "sendwait":
            return req[1].matched
        if op == "waitreq":
            return self.rids[req[1]][0] == "done"
        if op == "collwait":
            return len(self.colls[(req[1], req[2])]) == len(self.members(req[1]))
        if op == "groupwait":
            return len(self.colls[(req[1], "make")]) == len(self.groups[req[1]])
        if op == "winlock":
            return (req[1], req[2]) not in self.locks
        return False

    def response(self, s):
        if s.ready is not None:
            return s.ready[0]
        req = s.req
        op = req[0]
        r = s.rank
        if op in ("recv", "iprobe", "probe"):
            ms = self._match(r, req[1], req[2], req[3])
            if len(ms) > 1:
                self.res.races += 1
            m = self.sched.pick_msg(ms)
            if op == "recv":
                self._take(m)
                self.res.trace.append(f"{r}<-{m.src} tag{m.tag}")
                return (m.data, m.src, m.tag)
            return (m.src, m.tag, len(m.data))
        if op == "sendwait":
            return None
        if op == "waitreq":
            return self.rids[req[1]][1]
        if op == "collwait":
            c = self.colls[(req[1], req[2])]
            if req[0] and c[r][0] == "allgather":
                return [c[m][1] for m in self.members(req[1])]
            return None
        if op == "groupwait":
            return req[1]
        if op == "winlock":
            self.locks[(req[1], req[2])] = r
            return None
        raise AssertionError(op)


class Violation(Exception):
    def __init__(self, status, detail):
        self.status, self.detail = status, detail
        super().__init__(detail)


def _rank_main(rank, hosts, socks, target, args, scratch, env, clock_step):
    R.rank, R.size, R.host = rank, len(hosts), hosts[rank]
    R.socks, R.tls = socks, threading.local()
    R.clock_step = clock_step
    R.clock = 100.0
    MODULE.COMM_WORLD.members = list(range(len(hosts)))
    MODULE.COMM_SELF.members = [rank]
    MODULE.COMM_SELF.cid = ("self", rank)
    err = os.open(os.path.join(scratch, f"err{rank}"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(err, 2)
    os.dup2(err, 1)
    os.chdir(scratch)
    os.environ.update(env)
    time.sleep = lambda t=0: rpc("sleep", t)
    def perf_counter():
        R.clock += R.clock_step
        return R.clock
    time.perf_counter = perf_counter
    host_ip = hosts[rank]
    socket.gethostbyname = lambda name: host_ip
    asyncio.set_event_loop_policy(_Policy())
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    out, how = None, "return"
    try:
        out = target(rank, *args)
    except SystemExit as e:
        how = f"sysexit {e.code}"
    except BaseException:
        tb = traceback.format_exc()
        try:
            R.loop_thread = None
            rpc("crash", tb)
        finally:
            os._exit(3)
    R.loop_thread = None
    try:
        rpc("done", out, how)
    except BaseException:
        traceback.print_exc()
    os._exit(0)


def _limit_memory(extra=2 << 30):
    """A value that was corrupted may ask for any amount of memory: fail in that process, not in the whole sandbox."""
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * os.sysconf("SC_PAGE_SIZE")
    resource.setrlimit(resource.RLIMIT_AS, (now + extra, now + extra))


def run(hosts, target, args=(), schedule=None, eager=4096, scratch=None, env=None, clock_step=0.3,
        stuck_seconds=None, ieager=None):
    """Run one case: fork len(hosts) ranks executing target(rank, *args); returns Result."""
    stuck_seconds = stuck_seconds or STUCK_SECONDS
    n = len(hosts)
    sched = schedule or Schedule(size=n)
    br = Broker(hosts, sched, eager, scratch, ieager)
    res = br.res
    pids = {}
    parent_socks = {}
    pairs = [[socket.socketpair() for _ in range(N_CHANNELS)] for _ in range(n)]
    sys.stdout.flush()
    sys.stderr.flush()
    for r in range(n):
        pid = os.fork()
        if pid == 0:
            try:
                gc.disable()
                for q in range(n):
                    for a, b in pairs[q]:
                        a.close()
                        if q != r:
                            b.close()
                gc.enable()
                _limit_memory()
                _rank_main(r, hosts, [b for _, b in pairs[r]], target, args, scratch, env or {}, clock_step)
            finally:
                os._exit(4)
        pids[pid] = r
    poller = select.poll()
    fd2s = {}
    for r in range(n):
        for a, b in pairs[r]:
            b.close()
            s = Strand(r, a)
            br.strands.append(s)
            poller.register(a.fileno(), select.POLLIN)
            fd2s[a.fileno()] = s
    outstanding = set(range(n))   # ranks that run and have not come back
    idle_rounds = 0
    polled = {}
    tested = set()
    try:
        while True:
            # take in whatever has arrived; wait for the running rank(s)
            block = bool(outstanding)
            t0 = _real_monotonic()
            while True:
                evs = poller.poll(1000 if block else 0)
                for fd, ev in evs:
                    s = fd2s[fd]
                    try:
                        req = _recv_frame(s.sock)
                    except (EOFError, ConnectionError):
                        poller.unregister(fd)
                        if s.rank in br.alive:
                            raise Violation("crash", f"rank {s.rank} died")
                        continue
                    br.arrive(s, req)
                    outstanding.discard(s.rank)
                    if s.rank in br.need:
                        if sum(x.req is not None for x in br.strands if x.rank == s.rank) < br.need[s.rank]:
                            outstanding.add(s.rank)
                        else:
                            del br.need[s.rank]
                    if req[0] == "done":
                        idle_rounds = 0
                if not outstanding:
                    break
                if evs:
                    block = bool(outstanding)
                    continue
                if _real_monotonic() - t0 > stuck_seconds:
                    raise Violation("stuck", f"rank(s) {sorted(outstanding)} computed {stuck_seconds} s without any communication")
            if not br.alive:
                break
            cands = [s for s in br.strands if s.req is not None and br.runnable(s)]
            active = [s for s in cands if not (s.ready is not None and (
                s.req[0] == "sleep" or s.req[0] == "test" and not s.ready[0][0]))]
            if active:
                tested.clear()
                idle_rounds = 0 if any(s.req[0] not in ("note",) for s in active) else idle_rounds
                # a rank that only polls may not starve the others for ever
                s = sched.pick_strand([c for c in cands if c in active or polled.get(id(c), 0) < 3])
                if s in active:
                    polled.clear()
                else:
                    polled[id(s)] = polled.get(id(s), 0) + 1
            else:
                # nothing can make progress except pollers
                pollers = [s for s in br.strands if s.req is not None and (s in cands or s.req[0] == "iprobe")]
                waiting = [s for s in br.strands if s.req is not None and s.req[0] == "quiesce"]
                idle_rounds += 1
                if waiting and idle_rounds > 10 * len(pollers) + 10:
                    idle_rounds = 0
                    s = waiting[0]
                elif waiting and not pollers:
                    s = waiting[0]
                elif not pollers or idle_rounds > IDLE_ROUNDS * len(pollers):
                    raise Violation("deadlock", br_state(br))
                else:
                    s = pollers[idle_rounds % len(pollers)]
                if s.req[0] == "test" and s.req[1] not in tested:
                    # going through a list of requests is not idling
                    tested.add(s.req[1])
                    idle_rounds -= 1
                if s.ready is None:
                    s.ready = (None,)
            val = br.response(s)
            if sched.last != s.rank:
                res.switches += 1
            s.req = None
            s.ready = None
            outstanding.add(s.rank)
            res.grants += 1
            if res.grants > MAX_GRANTS:
                raise Violation("overrun", "too many scheduling steps")
            try:
                _send_frame(s.sock, ("ok", val))
            except (BrokenPipeError, ConnectionError):
                raise Violation("crash", f"rank {s.rank} died")
    except Violation as v:
        res.status, res.detail = v.status, v.detail
    finally:
        for s in br.strands:
            try:
                s.sock.close()
            except OSError:
                pass
        if res.status != "ok":
            for pid in pids:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for pid in pids:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        errs = []
        for r in range(n):
            p = os.path.join(scratch, f"err{r}")
            try:
                with open(p, errors="replace") as f:
                    t = f.read()
                if t.strip():
                    errs.append(f"--- rank {r} ---\n{t[-2000:]}")
                os.unlink(p)
            except OSError:
                pass
        res.stderr = "\n".join(errs)
        for p in br.wins.values():
            try:
                os.unlink(p)
            except OSError:
                pass
    return res


def br_state(br):
    lines = []
    for s in br.strands:
        if s.req is not None:
            q = s.req
            d = q[0]
            if d in ("recv", "iprobe", "probe"):
                d += f" from {q[2]} tag {q[3]}"
            elif d == "sendwait":
                d += f" to {q[1].dst} tag {q[1].tag}"
            elif d == "collwait":
                d += f" {q[1]}"
            lines.append(f"rank {s.rank}: {d}")
    left = [f"{m.src}->{m.dst} tag {m.tag}" for q in br.inbox for m in q]
    return "no rank can continue; " + "; ".join(lines) + "; undelivered: " + (", ".join(left[:20]) or "none")
