"""C12, C13, C15: components of the MPI backend against reference models."""
import ctypes
import mmap
import sys
import types

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from vlib import gen, harness, simrun, values  # noqa: E402,F401  (simrun installs the simulated MPI)
from checks.conf import forked  # noqa: E402


# ------------------------------------------------------------------------------ C12: free ranges
class Intervals:
    """Reference: the set of free cells."""

    def __init__(self, n):
        self.n = n
        self.free = bytearray(b"\1" * n)

    def gap(self, count):
        return (b"\1" * count) in self.free

    def take(self, a, b):
        self.free[a:b] = bytes(b - a)

    def give(self, a, b):
        self.free[a:b] = b"\1" * (b - a)


@st.composite
def range_ops(draw):
    n = draw(st.integers(1, 60))
    ops = []
    for _ in range(draw(st.integers(1, 40))):
        if draw(st.integers(0, 9)) < 6:
            ops.append(["take", draw(st.one_of(st.integers(1, 8), st.integers(1, n + 3)))])
        else:
            ops.append(["give", draw(st.integers(0, 99))])
    return {"n": n, "ops": ops}


class Ranges(harness.Part):
    name = "free-ranges"
    quick = 12000
    thorough = 400000

    def case(self):
        return range_ops()

    def run(self, case):
        from unidist.core.backends.mpi.core.monitor.shared_memory_manager import FreeMemoryRange

        real, ref = FreeMemoryRange(case["n"]), Intervals(case["n"])
        live = []
        self.info = {"gives": 0, "fails": 0}
        for i, (op, x) in enumerate(case["ops"]):
            if op == "take":
                a, b = real.occupy(x)
                if a is None or b is None:
                    self.info["fails"] += 1
                    if ref.gap(x):
                        return [f"op {i}: a reservation of {x} failed although there is a free gap; live {live}"]
                    continue
                if not (isinstance(a, int) and 0 <= a and b <= case["n"] and b - a == x):
                    return [f"op {i}: a reservation of {x} in {case['n']} returned [{a}, {b})"]
                if 0 in ref.free[a:b]:
                    return [f"op {i}: the reservation [{a}, {b}) overlaps a live one; live {live}"]
                ref.take(a, b)
                live.append((a, b))
            elif live:
                a, b = live.pop(x % len(live))
                real.release(a, b)
                ref.give(a, b)
                self.info["gives"] += 1
        # release everything: the whole memory must be one gap again
        for a, b in live:
            real.release(a, b)
        a, b = real.occupy(case["n"])
        if (a, b) != (0, case["n"]):
            return [f"after releasing everything a reservation of the whole memory returned {(a, b)}"]
        return []

    def nontrivial(self, case, info):
        return info.get("gives", 0) >= 2


# ------------------------------------------------------------------------------ C12: manager
class FakeStore:
    def __init__(self, size, count):
        self.shared_memory_size, self.service_info_max_count = size, count
        self.refs = {}
        self.deleted = []

    def get_ref_number(self, data_id, service_index):
        return self.refs.get((data_id, service_index), 0)

    def delete_service_info(self, data_id, service_index):
        self.deleted.append((data_id, service_index))


class FakeComm:
    remote = ()     # what the other monitors contribute, by position
    ids = None

    def Get_group(self):
        return self

    def Incl(self, ranks):
        return self

    def Create_group(self, g, tag=0):
        return self

    def Get_size(self):
        return 2

    def Get_rank(self):
        return 0

    def Allreduce(self, send, recv, op=None):
        src = memoryview(send[0] if isinstance(send, (list, tuple)) else send)
        dst = memoryview(recv[0] if isinstance(recv, (list, tuple)) else recv)
        for k in range(len(src)):
            dst[k] = max(src[k], 1 if k < len(self.remote) and self.remote[k] else 0)


def make_manager(size, count):
    from unidist.core.backends.mpi.core.monitor import shared_memory_manager as smm

    store = FakeStore(size, count)
    comm = FakeComm()
    state = types.SimpleNamespace(global_comm=comm, monitor_processes=[1, 4], global_rank=1, host_comm=comm)
    saved = []

    def patch(obj, name, val):
        if hasattr(obj, name):
            saved.append((obj, name, obj.__dict__.get(name) if isinstance(obj, type) else getattr(obj, name)))
            setattr(obj, name, val)

    try:
        from unidist.core.backends.mpi.core import common, communication
        from unidist.core.backends.mpi.core.shared_object_store import SharedObjectStore

        patch(common, "is_shared_memory_supported", lambda *a, **k: True)
        patch(smm, "is_shared_memory_supported", lambda *a, **k: True)
        patch(SharedObjectStore, "get_instance", classmethod(lambda cls, *a: store))
        patch(communication.MPIState, "get_instance", classmethod(lambda cls, *a: state))
        m = smm.SharedMemoryManager()
    finally:
        for obj, name, val in reversed(saved):
            setattr(obj, name, val)
    return m, store, comm, SharedObjectStore.INFO_SIZE


@st.composite
def manager_ops(draw):
    size = draw(st.integers(1, 80))
    slots = draw(st.integers(1, 7))
    extra = draw(st.integers(0, 3))
    ops = []
    for _ in range(draw(st.integers(1, 30))):
        k = draw(st.integers(0, 9))
        if k < 5:
            ops.append(["put", draw(st.one_of(st.integers(1, 12), st.integers(1, size + 3)))])
        elif k < 7:
            ops.append(["ref", draw(st.integers(0, 99)), draw(st.integers(0, 2))])
        else:
            ops.append(["clear", draw(st.lists(st.integers(0, 99), max_size=4)), draw(st.lists(st.booleans(), max_size=8)),
                        draw(st.booleans())])
    return {"size": size, "slots": slots, "extra": extra, "ops": ops}


class Manager(harness.Part):
    name = "memory-manager"
    quick = 8000
    thorough = 250000

    def case(self):
        return manager_ops()

    def run(self, case):
        from unidist.core.backends.mpi.core.shared_object_store import SharedObjectStore

        info = SharedObjectStore.INFO_SIZE
        count = case["slots"] * info + min(case["extra"], info - 1)
        m, store, comm, info = make_manager(case["size"], count)
        mem, svc = Intervals(case["size"]), Intervals(count)
        live, ids, pending, nid, dead = {}, [], [], 0, []
        self.info = {"released": 0, "pending": 0, "fails": 0}
        for i, op in enumerate(case["ops"]):
            if op[0] == "put":
                d = f"id{nid}"
                nid += 1
                try:
                    r = m.put(d, op[1])
                except MemoryError:
                    self.info["fails"] += 1
                    if mem.gap(op[1]) and svc.gap(info):
                        return [f"op {i}: reservation of {op[1]} failed although memory and service slots are free"]
                    if m.get(d) is not None:
                        return [f"op {i}: a failed reservation left information for {d}"]
                    continue
                a, b, s = r["first_index"], r["last_index"], r["service_index"]
                if not (0 <= a and b <= case["size"] and b - a == op[1]) or 0 in mem.free[a:b]:
                    return [f"op {i}: reservation of {op[1]} got [{a}, {b}); live {sorted(live.values())}"]
                if not (0 <= s and s + info <= count) or 0 in svc.free[s:s + info]:
                    return [f"op {i}: reservation got the service slot {s}, which is in use or outside; live {live}"]
                mem.take(a, b)
                svc.take(s, s + info)
                live[d] = (a, b, s)
                ids.append(d)
                store.refs[(d, s)] = 1
            elif op[0] == "ref":
                if ids:
                    d = ids[op[1] % len(ids)]
                    if d in live:
                        store.refs[(d, live[d][2])] = op[2]
            else:
                # never the same ID twice: an ID is put up for cleanup once
                want = []
                for k in op[1]:
                    if ids:
                        d = ids[k % len(ids)]
                        if d not in want and d not in pending and d not in dead:
                            want.append(d)
                if op[3]:
                    want.append(f"unknown{i}")
                comm.remote = op[2]
                before = list(store.deleted)
                order = pending + want
                keep = []
                gone = []
                for k, d in enumerate(order):
                    here = d in live and store.refs.get((d, live[d][2]), 0) > 0
                    there = k < len(op[2]) and op[2][k]
                    (keep if here or there else gone).append(d)
                m.clear(list(want))
                pending = keep
                self.info["pending"] += len(keep)
                for d in gone:
                    if d in live:
                        a, b, s = live.pop(d)
                        mem.give(a, b)
                        svc.give(s, s + info)
                        dead.append(d)
                        self.info["released"] += 1
                        if (d, s) not in store.deleted[len(before):]:
                            return [f"op {i}: released {d} but its service information was not deleted"]
                for d, s in store.deleted[len(before):]:
                    if d in live:
                        return [f"op {i}: service information of {d} deleted although it is still referenced"]
            for d in ids:
                r = m.get(d)
                if (r is None) != (d not in live):
                    return [f"op {i}: get({d}) is {r} but the reservation is {'live' if d in live else 'released'}"]
                if r is not None and (r["first_index"], r["last_index"], r["service_index"]) != live[d]:
                    return [f"op {i}: the reservation of {d} changed from {live[d]} to {dict(r)}"]
        # drop everything: all of the memory is usable again
        for d in live:
            store.refs[(d, live[d][2])] = 0
        comm.remote = ()
        m.clear([d for d in live if d not in pending])
        r = m.put("last", case["size"])
        if (r["first_index"], r["last_index"]) != (0, case["size"]):
            return [f"after releasing everything the whole memory is not one range: {dict(r)}"]
        for k in range(case["slots"] - 1):
            try:
                m.put(f"svc{k}", 1)
                return ["a reservation in full memory succeeded"]
            except MemoryError:
                pass
        return []

    def nontrivial(self, case, info):
        return info.get("released", 0) >= 1 and info.get("pending", 0) + info.get("fails", 0) >= 1

    def classify(self, case, info):
        for k in ("released", "pending", "fails"):
            if info.get(k):
                yield k


# ------------------------------------------------------------------------------ C12: size of the store
SIZE = st.one_of(st.none(), st.integers(0, 2**34), st.integers(0, 2**20), st.integers(0, 200))


@st.composite
def size_case(draw):
    return {"avail": draw(st.one_of(st.integers(1000, 2**34), st.sampled_from([2**20, 2**30, 10**6]))),
            "memory": draw(SIZE), "service": draw(SIZE),
            "threshold": draw(st.sampled_from([None, 0, 1, 100, 10**3, 3168, 3169, 10**5, 10**7]))}


# ------------------------------------------------------------------------------ C13: native copies
_libc = ctypes.CDLL(None, use_errno=True)
PAGE = mmap.PAGESIZE


class Guarded:
    """n bytes that end (or start) at a page that cannot be touched."""

    def __init__(self, nbytes, tail, align):
        self.n = nbytes
        pages = (nbytes + align + PAGE - 1) // PAGE + 1
        self.total = (pages + 2) * PAGE
        addr = _mmap(None, self.total, mmap.PROT_READ | mmap.PROT_WRITE, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
        self.base = addr
        lo, hi = addr + PAGE, addr + self.total - PAGE
        ctypes.memset(lo, 0xA5, hi - lo)
        _mprotect(addr, PAGE, 0)
        _mprotect(hi, PAGE, 0)
        self.start = hi - nbytes - align if tail else lo + align
        self.lo, self.hi = lo, hi
        self.arr = np.frombuffer((ctypes.c_uint8 * nbytes).from_address(self.start), dtype=np.uint8) if nbytes else np.empty(0, np.uint8)

    def intact(self):
        a = np.frombuffer((ctypes.c_uint8 * (self.hi - self.lo)).from_address(self.lo), dtype=np.uint8)
        off = self.start - self.lo
        return bool((a[:off] == 0xA5).all() and (a[off + self.n:] == 0xA5).all())

    def close(self):
        self.arr = None
        _munmap(self.base, self.total)


def _mmap(*a):
    f = _libc.mmap
    f.restype = ctypes.c_void_p
    f.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
    p = f(*a)
    if p is None or p == ctypes.c_void_p(-1).value:
        raise MemoryError("mmap")
    return p


def _mprotect(addr, n, prot):
    f = _libc.mprotect
    f.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
    if f(addr, n, prot):
        raise OSError("mprotect")


def _munmap(addr, n):
    f = _libc.munmap
    f.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
    f(addr, n)


_len = st.one_of(st.integers(0, 300), st.integers(0, 70000), st.sampled_from(
    [63, 64, 65, 127, 128, 129, 383, 384, 385, 4095, 4096, 4097, 1 << 20, (1 << 20) + 13]))


@st.composite
def copies(draw):
    items = []
    for _ in range(draw(st.integers(1, 8))):
        items.append([draw(st.sampled_from(["copy", "copy", "copy", "fill"])), draw(_len), draw(st.integers(0, 66)),
                      draw(st.integers(0, 66)), draw(st.one_of(st.integers(1, 16), st.just(6), st.just(1))),
                      draw(st.booleans()), draw(st.booleans()),
                      draw(st.one_of(st.integers(-5, 5), st.integers(-(2**63), 2**63 - 1)))])
    return {"items": items}


def run_copies(case):
    from unidist.core.backends.mpi.core._memory import fill, parallel_memcopy

    out = []
    for k, (op, n, sa, da, threads, stail, dtail, val) in enumerate(case["items"]):
        if op == "copy":
            s, d = Guarded(n, stail, sa), Guarded(n, dtail, da)
            s.arr[:] = (np.arange(n) * 7 + 3 + k) % 251
            src = memoryview(s.arr).toreadonly() if k % 2 else s.arr
            parallel_memcopy(src, d.arr, threads)
            if n and bytes(d.arr) != bytes((np.arange(n) * 7 + 3 + k).astype(np.int64) % 251 % 256 & 255) and \
                    not np.array_equal(np.asarray(d.arr), ((np.arange(n) * 7 + 3 + k) % 251).astype(np.uint8)):
                bad = int(np.argmax(np.asarray(d.arr) != ((np.arange(n) * 7 + 3 + k) % 251).astype(np.uint8)))
                out.append(f"item {k}: byte {bad} of {n} differs after the copy with {threads} threads")
            if not np.array_equal(np.asarray(s.arr), ((np.arange(n) * 7 + 3 + k) % 251).astype(np.uint8)):
                out.append(f"item {k}: the source changed")
            if not d.intact() or not s.intact():
                out.append(f"item {k}: bytes outside the destination changed (length {n}, {threads} threads)")
            del src
            s.close()
            d.close()
        else:
            n = n % 5000
            d = Guarded(n * 8, dtail, (da // 8) * 8)
            buf = d.arr.view(np.int64) if n else np.empty(0, np.int64)
            fill(buf, val)
            if n and not (buf == val).all():
                out.append(f"item {k}: fill with {val} left other elements")
            if not d.intact():
                out.append(f"item {k}: bytes outside the filled buffer changed")
            del buf
            d.close()
    return out


class Copies(harness.Part):
    name = "native-copy"
    quick = 4000
    thorough = 100000

    def case(self):
        return copies()

    def run(self, case):
        self.info = {}
        return forked(run_copies, case)

    def nontrivial(self, case, info):
        return any(i[0] == "copy" and i[1] > 64 and i[4] > 1 for i in case["items"])

    def classify(self, case, info):
        for i in case["items"]:
            if i[0] == "copy":
                yield "length 0" if i[1] == 0 else "length < 64" if i[1] < 64 else "length >= 64"
            else:
                yield "fill"


# ------------------------------------------------------------------------------ C15: serialization
_special = st.one_of(
    st.integers(0, 99).map(lambda n: ["lam", n]),
    st.lists(gen._scalar, max_size=2).map(lambda x: ["local", [[f"f{i}", v] for i, v in enumerate(x)]]),
    st.sampled_from(["\ud800", "a\udfffb", "\udcff\ud800x"]).map(lambda s: ["str", s]),
    st.tuples(st.sampled_from(["__pickle_custom__", "__cloud_custom__", "__pickle5_custom__", "as_bytes", "__custom__", "data"]),
              st.sampled_from(["__pickle_custom__", "as_bytes", "__pickle5_custom__", "z"]), gen._scalar, gen._scalar).map(
        lambda t: ["dict", [[["str", t[0]], t[2]]] + ([[["str", t[1]], t[3]]] if t[1] != t[0] else [])]),
)
_leaf = st.one_of(gen.leaf, gen.leaf, _special, gen._buffers)
_value = st.one_of(_leaf, st.recursive(_leaf, gen._containers, max_leaves=10))
_oob = st.recursive(
    st.one_of(st.tuples(st.sampled_from(["uint8", "float64", "int16", "uint8"]), st.sampled_from(gen.SIZES),
                        st.sampled_from(["C", "C", "ro"]), st.integers(0, 99)).map(lambda t: ["arr", t[0], [t[1]], t[2], t[3]]),
              st.integers(0, 9).map(lambda n: ["int", str(n)])),
    lambda ch: st.one_of(st.lists(ch, max_size=4).map(lambda x: ["list", x]),
                         st.lists(ch, max_size=3).map(lambda x: ["dict", [[["str", f"k{i}"], v] for i, v in enumerate(x)]])),
    max_leaves=8)


@st.composite
def deep(draw):
    spec = draw(_leaf)
    for _ in range(draw(st.integers(0, 60))):
        spec = draw(st.sampled_from([["list", [spec]], ["dict", [[["int", "1"], spec]]], ["tuple", [spec]], ["list", [["none"], spec]]]))
    return spec


@st.composite
def ser_case(draw):
    kind = draw(st.sampled_from(["any", "any", "any", "oob", "deep"]))
    spec = draw({"any": _value, "oob": _oob, "deep": deep()}[kind])
    return {"kind": kind, "spec": spec, "thr": draw(st.sampled_from([0, 1, 8, 64, 200, 512, 1000, 4096, 1 << 18])),
            "times": draw(st.integers(1, 3)), "wire": draw(st.sampled_from(["same", "copy", "readonly"]))}


def arrays_in(spec, out):
    if spec[0] == "arr":
        out.append(values.build(spec))
    elif spec[0] == "list":
        for s in spec[1]:
            arrays_in(s, out)
    elif spec[0] == "dict":
        for _, s in spec[1]:
            arrays_in(s, out)
    return out


class Serialization(harness.Part):
    name = "serialization"
    quick = 9000
    thorough = 250000

    def case(self):
        return ser_case()

    def run(self, case):
        import unidist.config as ucfg
        from unidist.core.backends.mpi.core import serialization as ser

        ucfg.MpiPickleThreshold.put(case["thr"])
        ser.ComplexDataSerializer.PICKLE_THRESHOLD = case["thr"]
        val = values.build(case["spec"])
        want = values.build(case["spec"])
        self.info = {"oob": 0}
        try:
            sd = ser.serialize_complex_data(val)
        except Exception as e:
            return [f"serialization failed: {type(e).__name__}: {e}"]
        s_data, raw, count = sd["s_data"], sd["raw_buffers"], sd["buffer_count"]
        self.info["oob"] = len(raw)
        if case["kind"] == "oob":
            big = [a for a in arrays_in(case["spec"], []) if a.nbytes >= case["thr"]]
            if len(raw) != len(big):
                return [f"{len(big)} arrays are not smaller than the threshold {case['thr']}, but {len(raw)} buffers travel out of band"]
            for i, (a, b) in enumerate(zip(big, raw)):
                if bytes(b) != a.tobytes():
                    return [f"out-of-band buffer {i} has wrong contents"]
        if case["wire"] == "copy":
            s_data = bytearray(s_data)
            raw = [bytearray(bytes(b)) for b in raw]
            count = list(count)
        elif case["wire"] == "readonly":
            s_data = memoryview(bytes(s_data)).cast("b").toreadonly()
            raw = [memoryview(bytes(b)).cast("b").toreadonly() for b in raw]
        for k in range(case["times"]):
            try:
                got = ser.deserialize_complex_data(s_data, raw, count)
            except Exception as e:
                return [f"deserialization number {k + 1} failed: {type(e).__name__}: {e}"]
            if not values.same(want, got):
                return [f"deserialization number {k + 1} gives {values.brief(got)} instead of {values.brief(want)}"]
        if not values.same(want, val):
            return ["serialization changed the original value"]
        simple = ser.SimpleDataSerializer()
        try:
            got = simple.deserialize_cloudpickle(simple.serialize_cloudpickle(val))
        except Exception as e:
            return [f"the simple serializer failed: {type(e).__name__}: {e}"]
        if not values.same(want, got):
            return [f"the simple serializer gives {values.brief(got)} instead of {values.brief(want)}"]
        return []

    def nontrivial(self, case, info):
        return info.get("oob", 0) >= 1 or case["kind"] == "deep"

    def classify(self, case, info):
        yield f"out-of-band buffers: {min(info.get('oob', 0), 3)}"
        yield "kind " + case["kind"]
        yield f"threshold {case['thr']}"


def bytearray_probe():
    """Known finding: msgpack turns bytearray into bytes."""
    from unidist.core.backends.mpi.core import serialization as ser

    def trip(v):
        d = ser.serialize_complex_data(v)
        return ser.deserialize_complex_data(d["s_data"], d["raw_buffers"], d["buffer_count"])

    v = bytearray(b"abc")
    got = trip(v)
    if type(got) is bytearray and got == v:
        return None, None
    if type(got) is bytes and got == bytes(v) and trip([1, v]) == [1, b"abc"]:
        return "bytearray", None
    return None, {"part": "serialization", "case": {"probe": "bytearray"}, "problems": [f"bytearray(b'abc') became {got!r}"]}
