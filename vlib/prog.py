"""
The program language: generated programs over the unidist API, and the two engines that execute them -
`Model` (plain sequential Python, the oracle) and `Live` (the real unidist API).

A program is a JSON-able list of operations.  References and actors live in numbered slots.
Argument forms: ["v", spec] value, ["r", slot] reference, ["list"|"tuple", [A..]], ["dict", [[key, A]..]],
["a", actor-slot] actor handle.
"""
import asyncio
import copy
import os
import time

from vlib import values
from vlib.values import build, digest, brief, Point


# --------------------------------------------------------------------------------------
# events: which body ran, where and when
# --------------------------------------------------------------------------------------
def record(*ev):
    from vlib import simmpi_link

    if simmpi_link.note is not None:
        simmpi_link.note(*ev)
        return
    path = os.environ.get("VP_EVENTS")
    if path:
        fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        try:
            os.write(fd, (repr((os.getpid(),) + ev) + "\n").encode())
        finally:
            os.close(fd)


# --------------------------------------------------------------------------------------
# what remote bodies do
# --------------------------------------------------------------------------------------
class CustomError(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.a, self.b = a, b


class ReduceError(Exception):
    """Built from other things than its `args`."""

    def __init__(self, code, *, hint):
        super().__init__("reduce")
        self.code, self.hint = code, hint

    def __reduce__(self):
        return _reduce_error, (self.code, self.hint)

    def __str__(self):
        return f"{self.code}/{self.hint}"


def _reduce_error(code, hint):
    return ReduceError(code, hint=hint)


class AttrError(ValueError):
    """Carries a part of what it says in an attribute."""

    tag = None

    def __str__(self):
        return f"{super().__str__()}<{self.tag}>"


EXCS = ["ReduceError", "AttrError", "Decode", "Errno", "NoArgs", "ValueError", "KeyError", "ZeroDivisionError", "CustomError", "RuntimeError", "StopIteration",
        "TypeError", "IndexError", "OSError", "AssertionError"]


def make_exc(name, tag):
    if name == "CustomError":
        return CustomError(f"boom{tag}", tag)
    if name == "ReduceError":
        return ReduceError(tag, hint=f"boom{tag}")
    if name == "AttrError":
        e = AttrError(f"boom{tag}")
        e.tag = tag
        return e
    if name == "Decode":
        return UnicodeDecodeError("utf8", b"\xff\xfe", 0, 1, f"boom{tag}")
    if name == "Errno":
        return FileNotFoundError(2, f"boom{tag}", f"file{tag}")
    if name == "NoArgs":
        return LookupError()
    import builtins

    return getattr(builtins, name)(f"boom{tag}")


def _slow(meta):
    gate = meta.get("gate")
    if gate:
        while not os.path.exists(gate):
            time.sleep(0.002)


def body(meta, *args, **kw):
    """The single task body; `meta` says what to do.  Pure: the result depends on the arguments only."""
    uid = meta["uid"]
    record("start", uid)
    _slow(meta)
    k = meta["k"]
    try:
        if k == "raise":
            raise make_exc(meta["exc"], uid)
        out = compute(meta, args, kw)
    finally:
        record("end", uid)
    return out


def compute(meta, args, kw):
    k = meta["k"]
    uid = meta["uid"]
    n = meta.get("n", 1)
    if n > 1:
        n += meta.get("extra", 0)
    if k == "digest":
        d = digest([list(args), kw])
        if n <= 1:
            return f"{uid}:{d}"
        return tuple(f"{uid}.{i}:{d}" for i in range(n))
    if k == "echo":
        return args[0]
    if k == "pack":
        r = [list(args), dict(kw)]
        if n <= 1:
            return r
        return [[i, r] for i in range(n)]
    if k == "gen":
        seed = int(digest([list(args), kw])[:7], 16)
        if n <= 1:
            return build(["arr", "uint8", [meta["size"]], "C", seed])
        return [build(["arr", "uint8", [meta["size"] * (i % 3)], "C", seed + i]) for i in range(n)]
    if k == "vals":
        vals = [build(s) for s in meta["vals"]]
        return vals[0] if n <= 1 else (vals if meta.get("seq", "list") == "list" else tuple(vals))
    if k == "none":
        return None
    if k == "mark":
        v = values.marked(meta["form"], meta["size"])
        return v if n <= 1 else [v] * n
    if k == "probe":
        return values.marked_in_memory()
    if k == "keep":
        v = build(meta["v"])
        KEPT.append(v)
        return v if n <= 1 else [v] * n
    if k == "poke":
        for v in KEPT:
            mutate(v)
        return uid if n <= 1 else [uid] * n
    raise AssertionError(k)


# objects that a body returned and still holds
KEPT = []


class Account:
    """A stateful class: everything it was told, in order."""

    def __init__(self, *args, **kw):
        self.log = [["init", digest([list(args), kw])]]

    def add(self, meta, *args, **kw):
        record("start", meta["uid"])
        self.log.append([meta["uid"], digest([list(args), kw])])
        try:
            if meta.get("exc"):
                raise make_exc(meta["exc"], meta["uid"])
            n = meta.get("n", 1)
            if n == 0:
                return None
            if n == 1:
                return len(self.log)
            return [[i, len(self.log)] for i in range(n + meta.get("extra", 0))]
        finally:
            record("end", meta["uid"])

    def read(self, meta, *args, **kw):
        record("start", meta["uid"])
        self.log.append([meta["uid"], "read"])
        out = [list(x) for x in self.log]
        record("end", meta["uid"])
        n = meta.get("n", 1)
        return out if n <= 1 else [out] * n

    def big(self, meta, *args, **kw):
        record("start", meta["uid"])
        self.log.append([meta["uid"], "big"])
        seed = int(digest([list(args), kw, len(self.log)])[:7], 16)
        out = build(["arr", "uint8", [meta["size"]], "C", seed])
        record("end", meta["uid"])
        n = meta.get("n", 1)
        return out if n <= 1 else [out] * n

    def hold(self, meta, *args, **kw):
        """Keeps its arguments; returns what everything kept so far looks like."""
        record("start", meta["uid"])
        self.log.append([meta["uid"], "hold"])
        if not hasattr(self, "kept"):
            self.kept = []
        self.kept.append([list(args), kw])
        out = digest(self.kept)
        record("end", meta["uid"])
        n = meta.get("n", 1)
        return out if n <= 1 else [out] * n

    def alias(self, meta, *args, **kw):
        """Returns a part of its own state, not a copy."""
        record("start", meta["uid"])
        self.log.append([meta["uid"], "alias"])
        record("end", meta["uid"])
        n = meta.get("n", 1)
        return self.log if n <= 1 else [self.log] * n

    def mark(self, meta, *args, **kw):
        record("start", meta["uid"])
        record("end", meta["uid"])
        if meta.get("exc"):
            raise make_exc(meta["exc"], meta["uid"])
        n = meta.get("n", 1)
        v = values.marked(meta["form"], meta["size"])
        return v if n <= 1 else [v] * n

    def probe(self, meta, *args, **kw):
        return values.marked_in_memory()

    def where(self, meta):
        return os.getpid()


class Broken:
    """Cannot be built."""

    def __init__(self, *args, **kw):
        raise ValueError("broken actor")


class AsyncAccount:
    """Coroutine methods; every result depends on the call only, not on the order of completion."""

    def __init__(self, *args, **kw):
        self.init = digest([list(args), kw])
        self.events = {}

    def _ev(self, k):
        if k not in self.events:
            self.events[k] = asyncio.Event()
        return self.events[k]

    async def work(self, meta, *args, **kw):
        record("start", meta["uid"])
        for _ in range(meta.get("steps", 0)):
            await asyncio.sleep(0)
        for k in meta.get("set_first", ()):
            self._ev(k).set()
        if meta.get("await") is not None:
            await self._ev(meta["await"]).wait()
        for _ in range(meta.get("steps2", 0)):
            await asyncio.sleep(0)
        for k in meta.get("set", ()):
            self._ev(k).set()
        record("end", meta["uid"])
        if meta.get("exc"):
            raise make_exc(meta["exc"], meta["uid"])
        return _async_result(self.init, meta, args, kw)

    def sync(self, meta, *args, **kw):
        record("start", meta["uid"])
        for k in meta.get("set", ()):
            self._ev(k).set()
        record("end", meta["uid"])
        if meta.get("exc"):
            raise make_exc(meta["exc"], meta["uid"])
        return _async_result(self.init, meta, args, kw)


def _async_result(init, meta, args, kw):
    n = meta.get("n", 1)
    if n == 0:
        return None
    d = digest([init, list(args), kw])
    if meta.get("size"):
        one = build(["arr", "uint8", [meta["size"]], "C", int(d[:7], 16)])
    else:
        one = f"{meta['uid']}:{d}"
    return one if n == 1 else [[i, one] for i in range(n)]


# --------------------------------------------------------------------------------------
# engines
# --------------------------------------------------------------------------------------
CLASSES = {"Account": Account, "AsyncAccount": AsyncAccount, "Broken": Broken}


class Failed:
    def __init__(self, exc):
        self.exc = exc


class Dropped:
    pass


def _first_failed(args, kw):
    out = []

    def walk(x):
        if isinstance(x, Failed):
            out.append(x)
        elif type(x) in (list, tuple):
            for y in x:
                walk(y)
        elif type(x) is dict:
            for y in x.values():
                walk(y)

    for a in args:
        if isinstance(a, Failed):
            out.append(a)
    for a in kw.values():
        if isinstance(a, Failed):
            out.append(a)
    return out


class Model:
    """Sequential evaluation.  Slots hold plain values, or Failed(set of possible exceptions)."""

    def __init__(self):
        self.slots = []
        self.actors = []
        self.obs = {}
        self.holds = {}
        self.executed = set()     # uids of bodies that must run exactly once

    def arg(self, a):
        k = a[0]
        if k == "v":
            return build(a[1])
        if k == "r":
            return self.slots[a[1]]
        if k == "list":
            return [self.arg(x) for x in a[1]]
        if k == "tuple":
            return tuple(self.arg(x) for x in a[1])
        if k == "dict":
            return {x: self.arg(y) for x, y in a[1]}
        if k == "a":
            return self.actors[a[1]]
        raise AssertionError(k)

    def _store(self, n, fn):
        """Run fn() -> value; append its outputs to the slots."""
        try:
            out = fn()
        except Exception as e:
            f = e.args[0] if isinstance(e, _Propagate) else Failed([e])
            for _ in range(n):
                self.slots.append(f)
            return
        if n == 1:
            self.slots.append(copy.deepcopy(out))
        elif n > 1:
            for i in range(n):
                self.slots.append(copy.deepcopy(out[i]))

    def _args(self, o):
        args = [self.arg(a) for a in o.get("args", [])]
        kw = {k: self.arg(a) for k, a in o.get("kw", [])}
        return args, kw

    def run(self, ops):
        for i, o in enumerate(ops):
            getattr(self, "op_" + o["op"])(i, o)
        return self.obs

    def op_put(self, i, o):
        self.slots.append(build(o["v"]))

    def op_task(self, i, o):
        args, kw = self._args(o)
        ff = _first_failed(args, kw)

        def fn():
            if ff:
                excs = []
                for f in ff:
                    excs.extend(f.exc)
                raise _Propagate(Failed(excs))
            self.executed.add(o["meta"]["uid"])
            if o["meta"]["k"] == "raise":
                raise make_exc(o["meta"]["exc"], o["meta"]["uid"])
            if o["meta"]["k"] == "nested":
                return nested_model(o["meta"], args, kw, self.executed)
            if o["meta"]["k"] == "viactor":
                self.executed.update([c[0] for c in o["meta"]["calls"]] + ([o["meta"]["relay"]] if o["meta"].get("relay") else []))
                return viactor_model(o["meta"], args, kw)
            return compute(o["meta"], tuple(args), kw)

        self._store(o["meta"].get("n", 1), fn)

    def op_actor(self, i, o):
        args, kw = self._args(o)
        self.actors.append(None if o["cls"] == "Broken" else CLASSES[o["cls"]](*args, **kw))

    def op_call(self, i, o):
        args, kw = self._args(o)
        ff = _first_failed(args, kw)
        a = self.actors[o["a"]]

        def fn():
            if ff:
                excs = []
                for f in ff:
                    excs.extend(f.exc)
                raise _Propagate(Failed(excs))
            if a is None:
                raise ValueError("broken actor")
            self.executed.add(o["meta"]["uid"])
            if isinstance(a, AsyncAccount):
                if o["meta"].get("exc"):
                    raise make_exc(o["meta"]["exc"], o["meta"]["uid"])
                return _async_result(a.init, o["meta"], args, kw)
            return getattr(a, o["m"])(o["meta"], *args, **kw)

        self._store(o["meta"].get("n", 1), fn)

    def op_get(self, i, o):
        rs = o["r"] if isinstance(o["r"], list) else [o["r"]]
        vals = [self.slots[r] for r in rs]
        bad = [e for v in vals if isinstance(v, Failed) for e in v.exc]
        if bad:
            self.obs[i] = ("exc", [(type(e).__name__, str(e)) for e in bad])
        else:
            v = vals if isinstance(o["r"], list) else vals[0]
            self.obs[i] = ("val", digest(v), brief(v))
        if o.get("hold") is not None:
            self.holds[o["hold"]] = self.obs[i]

    def op_recheck(self, i, o):
        self.obs[i] = self.holds[o["g"]]

    def op_wait(self, i, o):
        self.obs[i] = ("wait", o["r"], o["n"])

    def op_drop(self, i, o):
        pass

    def op_dropactor(self, i, o):
        pass

    def op_churn(self, i, o):
        pass

    def op_mutate(self, i, o):
        pass

    def op_tick(self, i, o):
        pass

    def op_open(self, i, o):
        pass

    def op_quiesce(self, i, o):
        pass

    def op_full(self, i, o):
        pass

    def op_probe(self, i, o):
        pass

    def op_dropall(self, i, o):
        pass

    def op_bigput(self, i, o):
        pass

    def op_echoactor(self, i, o):
        self.executed.add(o["meta"]["uid"])


class _Propagate(Exception):
    pass


def mutate(v):
    """Change a mutable value in place; True when something changed."""
    import numpy as np

    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size and v.dtype.kind in "iufb":
            v[...] = ~v if v.dtype.kind in "iub" else v + 1
            return True
        return False
    if isinstance(v, bytearray):
        for i in range(len(v)):
            v[i] ^= 0xFF
        v.append(7)
        return True
    if isinstance(v, list):
        for x in v:
            mutate(x)
        v.append("mutated")
        return True
    if isinstance(v, dict):
        for x in v.values():
            mutate(x)
        v["mutated"] = 1
        return True
    if isinstance(v, set):
        v.add("mutated")
        return True
    if isinstance(v, Point):
        for x in v.__dict__.values():
            mutate(x)
        v.__dict__["mutated"] = 1
        return True
    if isinstance(v, tuple):
        return any([mutate(x) for x in v])
    return False


# ---- nested bodies -------------------------------------------------------------------
def nested_body(meta, *args, **kw):
    """Runs inside a remote call and uses the API itself."""
    import unidist

    record("start", meta["uid"])
    f = unidist.remote(body)
    refs = []
    outs = []
    for step in meta["sub"]:
        if step[0] == "put":
            refs.append(unidist.put(build(step[1])))
        elif step[0] == "puta":
            refs.append(unidist.put(args[step[1] % len(args)] if args else None))
        elif step[0] == "task":
            sub = {"uid": step[1], "k": step[2], "n": 1, "size": 300}
            refs.append(f.remote(sub, *[refs[j] for j in step[3]], *step[4]))
        elif step[0] == "tk":
            _, uid, k, n, deps, kwdeps, cont, exc = step
            out = f.options(num_returns=n).remote(
                {"uid": uid, "k": k, "n": n, "size": 300, "exc": exc}, *[refs[j] for j in deps],
                *([[refs[j] for j in cont]] if cont else []), **{f"k{j}": refs[j] for j in kwdeps})
            refs += [] if n == 0 else [out] if n == 1 else out
        elif step[0] == "try":
            try:
                outs.append(digest(unidist.get(refs[step[1]])))
            except Exception as e:
                outs.append([type(e).__name__, str(e)])
        elif step[0] == "get":
            outs.append(digest(unidist.get([refs[j] for j in step[1]])))
        elif step[0] == "churn":
            for j in range(step[1]):
                r = unidist.put(build(["bigbytes", step[2], j]))
                del r
    refs = [r for j, r in enumerate(refs) if j not in meta.get("bad", [])]
    if meta.get("final", True) and refs:
        outs.append(digest(unidist.get(refs)))
    record("end", meta["uid"])
    return [outs, digest([list(args), kw])]


def nested_model(meta, args, kw, executed):
    refs = []
    outs = []
    for step in meta["sub"]:
        if step[0] == "put":
            refs.append(build(step[1]))
        elif step[0] == "puta":
            refs.append(args[step[1] % len(args)] if args else None)
        elif step[0] == "task":
            sub = {"uid": step[1], "k": step[2], "n": 1, "size": 300}
            executed.add(step[1])
            refs.append(compute(sub, tuple([refs[j] for j in step[3]] + list(step[4])), {}))
        elif step[0] == "tk":
            _, uid, k, n, deps, kwdeps, cont, exc = step
            bad = [refs[j] for j in deps + kwdeps if isinstance(refs[j], Failed)]
            if not bad:
                executed.add(uid)
            if bad or k == "raise":
                out = bad[0] if bad else Failed([make_exc(exc, uid)])
                refs += [out] * n
            else:
                out = compute({"uid": uid, "k": k, "n": n, "size": 300},
                              tuple([refs[j] for j in deps] + ([[refs[j] for j in cont]] if cont else [])),
                              {f"k{j}": refs[j] for j in kwdeps})
                refs += [] if n == 0 else [out] if n == 1 else list(out)
        elif step[0] == "try":
            v = refs[step[1]]
            outs.append([type(v.exc[0]).__name__, str(v.exc[0])] if isinstance(v, Failed) else digest(v))
        elif step[0] == "get":
            outs.append(digest([refs[j] for j in step[1]]))
    refs = [r for j, r in enumerate(refs) if j not in meta.get("bad", [])]
    if meta.get("final", True) and refs:
        outs.append(digest(refs))
    return [outs, digest([list(args), kw])]


def viactor_body(meta, *args, **kw):
    """A task that calls an actor through the handle it was given (directly, in a container, by keyword), possibly passing
    the handle on to a further task."""
    import unidist

    record("start", meta["uid"])
    if meta.get("wrap") == "kw":
        handle = kw.pop("handle")
    else:
        handle, args = args[0], args[1:]
        if meta.get("wrap"):
            handle = handle["h"] if isinstance(handle, dict) else handle[0]
    if meta.get("relay"):
        inner = dict(meta, uid=meta["relay"], relay=None, wrap=None)
        out = unidist.get(unidist.remote(viactor_body).remote(inner, handle, *args))
        record("end", meta["uid"])
        return out
    out, refs = [], []
    for u, m, n in meta["calls"]:
        r = getattr(handle, m).options(num_returns=n).remote({"uid": u, "n": n}, *args)
        r = [] if n == 0 else [r] if n == 1 else r
        if meta.get("batch"):
            refs += r
        else:
            out += unidist.get(r) if r else []
    if refs:
        out = unidist.get(refs)
    record("end", meta["uid"])
    return out


def viactor_model(meta, args, kw):
    if meta.get("wrap") == "kw":
        a = kw["handle"]
    else:
        a, args = args[0], args[1:]
        if meta.get("wrap"):
            a = a["h"] if isinstance(a, dict) else a[0]
    out = []
    for u, m, n in meta["calls"]:
        call = {"uid": u, "n": n}
        v = _async_result(a.init, call, args, {}) if isinstance(a, AsyncAccount) else getattr(a, m)(call, *args)
        out += [] if n == 0 else [copy.deepcopy(v)] if n == 1 else copy.deepcopy(list(v))
    return out


class Live:
    """Executes a program through the unidist API."""

    def __init__(self, gates=None, on_op=None):
        import unidist

        self.u = unidist
        self.slots = []
        self.actors = []
        self.orig = []
        self.dups = []
        self.held = {}            # values fetched and kept
        self.obs = {}
        self.f = {}
        self.cls = {}
        self.on_op = on_op
        self.gates = gates

    def close(self):
        """Drop everything the program holds."""
        self.keep = []
        self.slots, self.actors, self.orig, self.dups, self.f, self.cls = [], [], [], [], {}, {}
        self.held = {}

    def fn(self, meta, via):
        """
        The function to call: as declared ("decl"), or declared with another number of outputs and called through
        options ("opt"; the same declared functions are used for both, and some of the option objects are kept).
        """
        b = {"nested": nested_body, "viactor": viactor_body}.get(meta["k"], body)
        n = meta.get("n", 1)
        n0 = n if via == "decl" else (1, 3, 1, 2)[meta["uid"] % 4]
        key = (b.__name__, n0)
        if key not in self.f:
            self.f[key] = self.u.remote(num_returns=n0)(_wrap(b)) if n0 != 1 else self.u.remote(_wrap(b))
        if via == "decl":
            return self.f[key]
        if meta["uid"] % 3:
            return self.f[key].options(num_returns=n)
        if key + (n,) not in self.f:
            self.f[key + (n,)] = self.f[key].options(num_returns=n)
        return self.f[key + (n,)]

    def arg(self, a):
        k = a[0]
        if k == "v":
            v = build(a[1])
            self.keep.append(v)
            return v
        if k == "r":
            return self.slots[a[1]]
        if k == "list":
            return [self.arg(x) for x in a[1]]
        if k == "tuple":
            return tuple(self.arg(x) for x in a[1])
        if k == "dict":
            return {x: self.arg(y) for x, y in a[1]}
        if k == "a":
            return self.actors[a[1]]
        raise AssertionError(k)

    def _args(self, o):
        self.keep = []
        args = [self.arg(a) for a in o.get("args", [])]
        kw = {k: self.arg(a) for k, a in o.get("kw", [])}
        return args, kw

    def _outs(self, i, n, out):
        if n == 0:
            if out is not None:
                self.obs[i] = ("shape", f"num_returns=0 returned {brief(out)}")
        elif n == 1:
            if not self.u.is_object_ref(out):
                self.obs[i] = ("shape", f"num_returns=1 returned {type(out).__name__}")
            self.slots.append(out)
            self.orig.append(None)
        else:
            if not isinstance(out, list) or len(out) != n or not all(self.u.is_object_ref(x) for x in out):
                self.obs[i] = ("shape", f"num_returns={n} returned {type(out).__name__} {brief(out)}")
                out = (list(out) + [out] * n)[:n] if isinstance(out, (list, tuple)) else [out] * n
            self.slots.extend(out)
            self.orig.extend([None] * n)

    def run(self, ops):
        for i, o in enumerate(ops):
            if self.on_op:
                self.on_op(i, o)
            try:
                getattr(self, "op_" + o["op"])(i, o)
            except Exception as e:
                if o["op"] in ("get",):
                    raise
                import traceback

                self.obs[i] = ("raised", type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
                return self.obs
        return self.obs

    def op_put(self, i, o):
        v = build(o["v"])
        r = self.u.put(v)
        self.slots.append(r)
        self.orig.append(v if o.get("keep") else None)

    def op_task(self, i, o):
        args, kw = self._args(o)
        meta = dict(o["meta"])
        if o.get("gate") and self.gates:
            meta["gate"] = os.path.join(self.gates, o["gate"])
        out = self.fn(meta, o.get("via", "decl")).remote(meta, *args, **kw)
        if o.get("mutate_after"):
            for v in self.keep:
                mutate(v)
        self._outs(i, meta.get("n", 1), out)

    def op_actor(self, i, o):
        args, kw = self._args(o)
        name = o["cls"]
        if name not in self.cls:
            self.cls[name] = self.u.remote(_wrapcls(CLASSES[name]))
        self.actors.append(self.cls[name].remote(*args, **kw))

    def op_call(self, i, o):
        args, kw = self._args(o)
        m = getattr(self.actors[o["a"]], o["m"])
        n = o["meta"].get("n", 1)
        meta = dict(o["meta"])
        if meta["uid"] % 3 == 0:
            m.options(num_returns=n + 1)     # options that are not used change nothing
        if n != 1 or o.get("via") == "opt":
            m = m.options(num_returns=n)
        out = m.remote(meta, *args, **kw)
        if o.get("mutate_after"):
            for v in self.keep:
                mutate(v)
        self._outs(i, n, out)

    def op_get(self, i, o):
        try:
            if isinstance(o["r"], list):
                v = self.u.get([self.slots[r] for r in o["r"]])
            else:
                v = self.u.get(self.slots[o["r"]])
        except Exception as e:
            self.obs[i] = ("exc", [c.__name__ for c in type(e).__mro__], str(e)[:2000])
            if o.get("hold") is not None:
                self.held[o["hold"]] = (self.obs[i],)
            return
        self.obs[i] = ("val", digest(v), brief(v))
        if o.get("hold") is not None:
            self.held[o["hold"]] = (None, v)
        del v

    def op_recheck(self, i, o):
        """Look again at a value fetched before."""
        h = self.held[o["g"]]
        self.obs[i] = ("val", digest(h[1]), brief(h[1])) if h[0] is None else h[0]
        del h
        if o.get("drop"):
            del self.held[o["g"]]

    def op_wait(self, i, o):
        given = [self.slots[r] for r in o["r"]]
        ready, rest = self.u.wait(list(given), num_returns=o["n"])
        record("waited", i)

        def idx(refs):
            out = []
            for x in refs:
                key = getattr(x, "_ref", x)
                hit = [r for r, g in zip(o["r"], given) if getattr(g, "_ref", g) == key]
                out.append(hit[0] if len(hit) == 1 else hit or None)
                if len(hit) == 1 and o.get("adopt"):
                    self.slots[hit[0]] = x      # from here on use the reference wait returned
            return out

        self.obs[i] = ("wait", idx(ready), idx(rest), type(ready).__name__, type(rest).__name__)
        del ready, rest, given

    def op_drop(self, i, o):
        self.slots[o["r"]] = None
        self.orig[o["r"]] = None

    def op_dropactor(self, i, o):
        self.actors[o["a"]] = None

    def op_echoactor(self, i, o):
        """Get a second handle of an actor back from a task; keep it or drop it."""
        h = self.u.get(self.fn(o["meta"], "decl").remote(o["meta"], [self.actors[o["a"]]]))[0]
        if o.get("keep"):
            self.dups.append(h)
        del h

    def op_churn(self, i, o):
        for j in range(o["k"]):
            r = self.u.put(build(["bigbytes", o["size"], j]))
            if j % 3 == 0:
                self.u.get(r)
            del r

    def op_mutate(self, i, o):
        v = self.orig[o["r"]]
        if v is not None:
            mutate(v)

    def op_tick(self, i, o):
        time.sleep(o.get("t", 0))

    def op_quiesce(self, i, o):
        """Wait until everything submitted has finished, without fetching anything."""
        from vlib import simmpi_link

        if simmpi_link.quiesce is not None:
            simmpi_link.quiesce()
            return
        path = os.environ.get("VP_EVENTS")
        end = time.monotonic() + 30
        want = {repr(u) for u in o.get("uids", ())}
        while path and want and time.monotonic() < end:
            with open(path) as f:
                want -= {ln.rstrip()[:-1].split(", ", 2)[2] for ln in f if "'end'" in ln}
            if want:
                time.sleep(0.02)
        if want and path:
            self.obs[i] = ("late", sorted(want))

    def op_full(self, i, o):
        """A submission when no worker is free."""
        try:
            self.fn({"k": "digest"}, "decl").remote({"uid": o["uid"], "k": "digest"})
        except Exception as e:
            self.obs[i] = ("full", type(e).__name__)
        else:
            self.obs[i] = ("notfull",)

    def op_dropall(self, i, o):
        self.keep = []
        for j in range(len(self.slots)):
            self.slots[j] = None
            self.orig[j] = None

    def op_probe(self, i, o):
        """Look for marked buffers in the root, in every worker a task reaches and in the actors' workers."""
        found = {}
        n = values.marked_in_memory()
        if n:
            found["root"] = n
        f = self.u.remote(_wrap(body))
        # a process may still hold on to the last request it handled: let every worker handle another one first
        for rnd in range(2):
            self.u.get([f.remote({"uid": -3000 - 100 * rnd - j, "k": "none"}) for j in range(o["n"])])
        for j, a in enumerate(self.actors):
            if a is not None:
                self.u.get(a.read.remote({"uid": -4000 - j}))
        refs = [f.remote({"uid": -1000 - j, "k": "probe"}) for j in range(o["n"])]
        for j, r in enumerate(refs):
            n = self.u.get(r)
            if n:
                found[f"probe task {j}"] = n
        for j, a in enumerate(self.actors):
            if a is not None:
                n = self.u.get(a.probe.remote({"uid": -2000 - j}))
                if n:
                    found[f"actor {j}"] = n
        if found:
            self.obs[i] = ("leak", found)

    def op_bigput(self, i, o):
        """Most of the shared store must be free now (in pieces: a few long-lived objects may fragment it)."""
        n = o.get("chunks", 20)
        refs = [self.u.put(build(["bigbytes", o["size"] // n, k])) for k in range(n)]
        for k, r in enumerate(refs):
            if self.u.get(r) != build(["bigbytes", o["size"] // n, k]):
                self.obs[i] = ("leak", "a large object came back changed")

    def op_open(self, i, o):
        if self.gates:
            with open(os.path.join(self.gates, o["gate"]), "w"):
                pass


def _wrap(b):
    # A fresh function object per program, pickled by value like a user's script function.
    def remote_body(meta, *args, **kw):
        return b(meta, *args, **kw)

    return remote_body


def _wrapcls(c):
    return type(c.__name__, (c,), {})


# --------------------------------------------------------------------------------------
# comparison
# --------------------------------------------------------------------------------------
def compare(ops, model, obs, backend="mpi"):
    """Differences between what the program observed and what the model allows."""
    bad = []
    for i, o in enumerate(ops):
        got = obs.get(i)
        if got is not None and got[0] == "raised":
            bad.append(("raised", i, o, f"operation {o['op']} raised {got[1]}: {got[2]}\n{got[3]}"))
            break
        if got is not None and got[0] == "late":
            bad.append(("late", i, o, f"calls {got[1]} did not execute within 30 s"))
            continue
        if got is not None and got[0] == "leak":
            bad.append(("leak", i, o, f"still in memory after all references were dropped and cleanup had run: {got[1]}"))
            continue
        if o["op"] == "full" and (got is None or got[0] != "full"):
            bad.append(("full", i, o, "a submission with no free worker was accepted"))
            continue
        if got is not None and got[0] == "shape":
            bad.append(("shape", i, o, got[1]))
            continue
        if o["op"] in ("get", "recheck"):
            exp = model.obs[i]
            if got is None:
                bad.append(("missing", i, o, "no result"))
            elif exp[0] == "val":
                if got[0] == "exc":
                    bad.append(("exc", i, o, f"raised {got[1][0]}: {got[2][:400]} instead of returning {exp[2]}"))
                elif got[1] != exp[1]:
                    bad.append(("value", i, o, f"returned {got[2]} instead of {exp[2]}"))
            else:
                if got[0] == "val":
                    bad.append(("noexc", i, o, f"returned {got[2]} instead of raising {exp[1]}"))
                else:
                    ok = False
                    for name, msg in exp[1]:
                        if backend == "ray":
                            ok |= name in got[1] and (msg in got[2])
                        else:
                            ok |= got[1][0] == name and got[2] == msg
                    if not ok:
                        bad.append(("wrongexc", i, o, f"raised {got[1][0]}: {got[2][:300]!r} instead of one of {exp[1]}"))
        elif o["op"] == "wait":
            if got is None:
                bad.append(("missing", i, o, "no result"))
                continue
            ready, rest = got[1], got[2]
            if got[3] != "list" or got[4] != "list":
                bad.append(("waittype", i, o, f"wait returned {got[3]}, {got[4]}"))
            if any(not isinstance(x, int) for x in ready + rest):
                bad.append(("waitforeign", i, o, f"wait returned references that were not given: {ready} / {rest}"))
            elif sorted(ready + rest) != sorted(o["r"]):
                bad.append(("waitpartition", i, o, f"ready {ready} + rest {rest} is not a partition of {o['r']}"))
            elif len(ready) != o["n"]:
                bad.append(("waitcount", i, o, f"{len(ready)} ready references instead of {o['n']}"))
    return bad
