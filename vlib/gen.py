"""Hypothesis generators of values, configurations and programs.

All random choices are Hypothesis draws; a program is built front to back, so every reference used is defined.
"""
from hypothesis import strategies as st

from vlib import prog

# ---------------------------------------------------------------------------------- values
SIZES = [0, 1, 7, 8, 63, 64, 65, 127, 200, 511, 512, 513, 999, 1000, 1001, 1024, 4095, 4096, 4097, 9000, 40000]
DTYPES = ["uint8", "int64", "float64", "float32", "int16", "bool", "complex128", "<U5", "datetime64[s]", "O",
          [["a", "<i4"], ["b", "<f8"]]]

_text = st.text(st.characters(exclude_categories=("Cs",)), max_size=12)
_hashable = st.one_of(
    st.integers(-5, 300).map(lambda n: ["int", str(n)]),
    _text.map(lambda s: ["str", s]),
    st.binary(max_size=6).map(lambda b: ["bytes", b.hex()]),
    st.booleans().map(lambda b: ["bool", b]),
    st.just(["none"]),
    st.tuples(st.integers(0, 9), st.integers(0, 9)).map(lambda t: ["tuple", [["int", str(t[0])], ["int", str(t[1])]]]),
)


def _dedup(specs):
    seen, out = set(), []
    from vlib.values import build

    for s in specs:
        try:
            v = build(s)
        except Exception:
            continue
        if v not in seen:
            seen.add(v)
            out.append(s)
    return out


_scalar = st.one_of(
    st.just(["none"]),
    st.booleans().map(lambda b: ["bool", b]),
    st.one_of(st.integers(-1000, 1000), st.integers(-(2**70), 2**70), st.sampled_from(
        [2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64, -(2**63), -(2**63) - 1])).map(lambda n: ["int", str(n)]),
    st.one_of(st.floats(), st.sampled_from([0.0, -0.0, 1e308])).map(lambda x: ["float", repr(x)]),
    st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(lambda t: ["complex", str(t[0]), str(t[1])]),
    _text.map(lambda s: ["str", s]),
    st.binary(max_size=30).map(lambda b: ["bytes", b.hex()]),
)
_buffers = st.one_of(
    st.tuples(st.sampled_from(SIZES), st.integers(0, 99)).map(lambda t: ["bigbytes", t[0], t[1]]),
    st.tuples(st.sampled_from(SIZES[:16]), st.integers(0, 99)).map(lambda t: ["bigstr", t[0], t[1]]),
    st.tuples(st.sampled_from(["uint8", "uint8", "float64", "int16"]), st.sampled_from(SIZES),
              st.sampled_from(["C", "C", "C", "strided", "ro"]), st.integers(0, 99)).map(
        lambda t: ["arr", t[0], [t[1]], t[2], t[3]]),
    st.tuples(st.sampled_from(DTYPES[:9]), st.sampled_from([[], [0], [1], [3, 4], [2, 0, 3], [16, 17], [5, 5, 5], [40, 40]]),
              st.sampled_from(["C", "F", "strided", "ro"]), st.integers(0, 99)).map(
        lambda t: ["arr", t[0], t[1], t[2] if (t[2] != "strided" or t[1]) else "C", t[3]]),
    st.tuples(st.sampled_from([[0], [3], [2, 3]]), st.integers(0, 9)).map(lambda t: ["arr", "O", t[0], "C", t[1]]),
    st.tuples(st.sampled_from(["int8", "float32", "uint64"]), st.integers(0, 100)).map(lambda t: ["npscalar", t[0], t[1]]),
)
_frames = st.tuples(st.sampled_from([0, 1, 5, 100, 400]), st.integers(1, 4), st.integers(0, 99)).map(
    lambda t: ["df", t[0], t[1], t[2]])
_odd = st.one_of(
    st.booleans().map(lambda b: ["enum", b]),
    st.integers(0, 10**6).map(lambda n: ["dt", n]),
    st.integers(-9, 9).map(lambda n: ["dec", n]),
    st.integers(-9, 9).map(lambda n: ["frac", n]),
    st.integers(0, 9).map(lambda n: ["range", n]),
    st.integers(0, 9).map(lambda n: ["slice", n]),
    st.sampled_from(["int", "Point", "dict"]).map(lambda n: ["type", n]),
    st.integers(0, 99).map(lambda n: ["myint", n]),
    _text.map(lambda s: ["mystr", s]),
    st.lists(_hashable, max_size=4).map(_dedup).map(lambda s: ["set", s]),
    st.lists(_hashable, max_size=4).map(_dedup).map(lambda s: ["frozenset", s]),
)


def _containers(ch):
    return st.one_of(
        st.lists(ch, max_size=4).map(lambda x: ["list", x]),
        st.lists(ch, max_size=4).map(lambda x: ["tuple", x]),
        st.tuples(st.lists(_hashable, max_size=4).map(_dedup), st.lists(ch, min_size=4, max_size=4)).map(
            lambda t: ["dict", [[k, v] for k, v in zip(t[0], t[1])]]),
        st.lists(ch, max_size=3).map(lambda x: ["obj", [[f"f{i}", v] for i, v in enumerate(x)]]),
        st.lists(ch, max_size=3).map(lambda x: ["mylist", x]),
        st.tuples(ch, ch).map(lambda t: ["nt", t[0], t[1]]),
        st.tuples(ch, ch).map(lambda t: ["slotted", t[0], t[1]]),
        st.tuples(st.lists(_hashable, max_size=3).map(_dedup), st.lists(ch, min_size=3, max_size=3)).map(
            lambda t: ["odict", [[k, v] for k, v in zip(t[0], t[1])]]),
        st.tuples(st.lists(_hashable, max_size=3).map(_dedup), st.lists(ch, min_size=3, max_size=3)).map(
            lambda t: ["mydict", [[k, v] for k, v in zip(t[0], t[1])]]),
    )


leaf = st.one_of(_scalar, _scalar, _buffers, _buffers, _odd, _frames)
value = st.one_of(leaf, st.recursive(leaf, _containers, max_leaves=8))
small = st.one_of(
    st.integers(-9, 99).map(lambda n: ["int", str(n)]),
    _text.map(lambda s: ["str", s]),
    st.lists(st.integers(0, 9).map(lambda n: ["int", str(n)]), max_size=3).map(lambda x: ["list", x]),
    st.tuples(st.sampled_from(SIZES), st.integers(0, 99)).map(lambda t: ["arr", "uint8", [t[0]], "C", t[1]]),
    st.tuples(st.sampled_from(["nt", "tuple", "mylist", "odict", "mydict"]), st.integers(0, 9)).map(lambda t: {
        "nt": ["nt", ["int", str(t[1])], ["str", "y"]],
        "odict": ["odict", [[["str", "b"], ["int", str(t[1])]], [["str", "a"], ["none"]]]],
        "mydict": ["mydict", [[["str", "b"], ["int", str(t[1])]]]],
    }.get(t[0], [t[0], [["int", str(t[1])]] * (t[1] % 3)])),
)
shareable = st.one_of(
    st.tuples(st.sampled_from(["uint8", "float64", "int16"]), st.sampled_from([1, 64, 65, 127, 512, 1000, 1001, 3000, 5000]),
              st.integers(0, 99)).map(lambda t: ["arr", t[0], [t[1]], "C", t[2]]),
    st.lists(st.tuples(st.sampled_from([0, 1, 63, 64, 200, 999, 3000]), st.integers(0, 9)).map(
        lambda t: ["arr", "uint8", [t[0]], "C", t[1]]), min_size=1, max_size=4).map(lambda x: ["list", x]),
    st.tuples(st.sampled_from([0, 1, 99, 100, 101, 999, 1000, 1001, 4000]), st.integers(0, 99)).map(
        lambda t: ["bigbytes", t[0], t[1]]),
    st.tuples(st.sampled_from([5, 100, 300]), st.integers(1, 3), st.integers(0, 9)).map(lambda t: ["df", t[0], t[1], t[2]]),
)
mutable = st.one_of(
    st.tuples(st.sampled_from(["uint8", "float64", "int16"]), st.sampled_from(SIZES[1:]),
              st.sampled_from(["C", "C", "strided"]), st.integers(0, 99)).map(lambda t: ["arr", t[0], [t[1]], t[2], t[3]]),
    st.tuples(st.sampled_from([[3, 4], [16, 17], [40, 40]]), st.sampled_from(["C", "F"]), st.integers(0, 99)).map(
        lambda t: ["arr", "float64", t[0], t[1], t[2]]),
    st.lists(st.tuples(st.sampled_from(SIZES[1:]), st.integers(0, 9)).map(lambda t: ["arr", "uint8", [t[0]], "C", t[1]]),
             min_size=1, max_size=3).map(lambda x: ["list", x]),
    st.lists(st.tuples(st.sampled_from(SIZES[1:]), st.integers(0, 9)).map(lambda t: ["arr", "uint8", [t[0]], "C", t[1]]),
             min_size=1, max_size=3).map(lambda x: ["obj", [[f"f{i}", v] for i, v in enumerate(x)]]),
    st.lists(st.integers(0, 9).map(lambda n: ["int", str(n)]), max_size=3).map(lambda x: ["list", x]),
    st.lists(st.integers(0, 9).map(lambda n: ["int", str(n)]), max_size=3).map(
        lambda x: ["dict", [[["str", f"k{i}"], v] for i, v in enumerate(x)]]),
)


# ---------------------------------------------------------------------------------- configurations
@st.composite
def sim_cfg(draw, min_workers=1, max_workers=4, shared=None, hosts=1, shm_mem=(1 << 20,), churny=False):
    cfg = {}
    cfg["sched"] = draw(st.sampled_from(["random", "prio", "random", "prio", "fifo"]))
    cfg["seed"] = draw(st.integers(0, 2**31 - 1))
    cfg["eager"] = draw(st.sampled_from([4096, 4096, 1 << 40, 512]))
    cfg["pickle_thr"] = draw(st.sampled_from([64, 512, 1000, 256 * 1024]))
    sh = draw(st.booleans()) if shared is None else shared
    nhosts = draw(st.integers(1, hosts)) if hosts > 1 else 1
    if sh:
        cfg["shared"] = True
        cfg["shm_mem"] = draw(st.sampled_from(list(shm_mem)))
        cfg["shm_service"] = 64 * 1024
        cfg["shm_thr"] = draw(st.sampled_from([100, 600, 1000, 10000]))
    else:
        cfg["shared"] = False
    w = draw(st.integers(min_workers, max_workers))
    if nhosts == 1:
        cfg["workers"] = w
    else:
        # rank 0 and 1 on host 0; every host has at least two processes (its monitor and one more)
        extra = [draw(st.integers(0, nhosts - 1)) for _ in range(w)]
        body = extra + [h for h in range(1, nhosts) for _ in range(2)]
        if draw(st.booleans()):
            cfg["layout"] = [0, 0] + list(draw(st.permutations(body)))
        else:
            # e.g. placed by node: the second process of the root's host is not rank 1
            cfg["layout"] = [0] + list(draw(st.permutations([0] + body)))
        cfg["workers"] = len(body) - (nhosts - 1 if sh else 0)
    return cfg


# ---------------------------------------------------------------------------------- programs
# names of keyword arguments, those of parameters inside of the backends among them
KWNAMES = ["k0", "k1", "k2", "data", "value", "x", "task", "func", "function", "args", "kwargs", "cls", "data_ids", "obj_store", "method",
           "method_name", "name", "key", "workers", "pure", "actor", "priority", "retries", "f", "i", "output", "handler", "data_id",
           "operation", "obj", "other", "default", "ops", "class_", "_x", "uid", "actor_cls", "resource", "gate", "owner", "dest_rank"]


class Builder:
    """Builds a program operation by operation."""

    def __init__(self, draw, value=small, nested_refs=True, fail=0.0, max_n=4):
        self.d = draw
        self.ops = []
        self.nslots = 0
        self.live = []            # slots whose reference the program holds
        self.puts = []            # slots made by put
        self.failed = set()       # slots known to fail (statically)
        self.nact = 0
        self.actors = []          # live actor slots
        self.uid = 0
        self.value = value
        self.nested_refs = nested_refs
        self.fail = fail
        self.max_n = max_n
        self.got = set()
        self.holds = []           # fetched values the program keeps
        self.tainted = set()      # slots that fail, or may carry a failure in a nested position

    def newuid(self):
        self.uid += 1
        return self.uid

    def coin(self, p):
        return self.d(st.floats(0, 1, exclude_max=True)) < p if p not in (0, 1) else bool(p)

    def pick(self, seq):
        return self.d(st.sampled_from(list(seq)))

    # arguments
    def arg(self, refs=None, depth=0, p_ref=0.55, nested=True):
        refs = self.live if refs is None else refs
        ok = [r for r in refs]
        k = self.d(st.integers(0, 99))
        if depth < 2 and k < 12:
            form = self.pick(["list", "tuple", "dict"])
            # references inside containers are resolved for remote functions of the MPI backend only
            safe = [r for r in ok if r not in self.tainted] if nested and self.nested_refs else []
            items = [self.arg(safe, depth + 1, p_ref) for _ in range(self.d(st.integers(0, 3)))]
            if form == "dict":
                return ["dict", [[f"k{i}", a] for i, a in enumerate(items)]]
            return [form, items]
        if ok and k < 12 + p_ref * 88:
            return ["r", self.pick(ok)]
        return ["v", self.d(self.value)]

    def args(self, refs=None, maxa=3, p_ref=0.55, nested=True):
        args = [self.arg(refs, 0, p_ref, nested) for _ in range(self.d(st.integers(0, maxa)))]
        return args, [[k, ["v", ["none"]] if self.coin(0.12) else self.arg(refs, 0, p_ref, nested)] for k in self.kwnames()]

    def kwnames(self, counts=(0, 0, 0, 1, 2)):
        n = self.pick(counts)
        return self.d(st.lists(st.sampled_from(KWNAMES), min_size=n, max_size=n, unique=True))

    def _bad(self, args, kw):
        out = []

        def walk(a):
            if a[0] == "r":
                if a[1] in self.tainted:
                    out.append(a[1])
            elif a[0] in ("list", "tuple"):
                for x in a[1]:
                    walk(x)
            elif a[0] == "dict":
                for _, x in a[1]:
                    walk(x)

        for a in args:
            walk(a)
        for _, a in kw:
            walk(a)
        return bool(out)

    def _outs(self, n, tainted):
        new = list(range(self.nslots, self.nslots + n))
        self.nslots += n
        self.live.extend(new)
        if tainted:
            self.tainted.update(new)
        return new

    def put(self, v=None, keep=False):
        self.ops.append({"op": "put", "v": v if v is not None else self.d(self.value), "keep": keep})
        s = self._outs(1, False)[0]
        self.puts.append(s)
        return s

    def task(self, kinds=("digest", "digest", "pack", "gen", "echo"), refs=None, n=None, maxa=3, p_ref=0.55, **extra):
        args, kw = self.args(refs, maxa, p_ref)
        k = "raise" if self.fail and self.coin(self.fail) else self.pick(kinds)
        if k == "echo" and not args:
            k = "digest"
        if n is None:
            n = 1 if k == "echo" else self.pick([1, 1, 1, 2, 3, 0, self.max_n])
        if k == "echo" and n != 1:
            k = "digest"
        meta = {"uid": self.newuid(), "k": k, "n": n}
        if k == "gen":
            meta["size"] = self.pick(SIZES)
        if k == "raise":
            meta["exc"] = self.pick(prog.EXCS)
        if n > 1 and self.coin(0.2):
            meta["extra"] = self.d(st.integers(1, 2))
        o = {"op": "task", "meta": meta, "args": args, "kw": kw, "via": self.pick(["decl", "opt"])}
        o.update(extra)
        self.ops.append(o)
        return self._outs(n, k == "raise" or self._bad(args, kw))

    def get(self, refs=None):
        refs = self.live if refs is None else refs
        if not refs:
            return
        if self.coin(0.5):
            r = self.pick(refs)
            self.got.add(r)
        else:
            r = [self.pick(refs) for _ in range(self.d(st.integers(1, 4)))]
            if not self.dup:
                r = list(dict.fromkeys(r))
            self.got.update(r)
        self.ops.append({"op": "get", "r": r})
        if self.hold_p and self.coin(self.hold_p):
            self.nholds += 1
            self.ops[-1]["hold"] = self.nholds
            self.holds.append(self.nholds)

    def recheck(self, h=None, drop=False):
        """Look again at a fetched value."""
        h = self.pick(self.holds) if h is None else h
        self.ops.append({"op": "recheck", "g": h, "drop": drop})
        if drop:
            self.holds.remove(h)

    hold_p = 0
    nholds = 0
    dup = True

    def wait(self, refs=None):
        refs = list(dict.fromkeys(self.live if refs is None else refs))
        if not refs:
            return
        k = self.d(st.integers(1, min(len(refs), 6)))
        rs = list(self.d(st.permutations(refs)))[:k]
        self.ops.append({"op": "wait", "r": rs, "n": len(rs) if self.coin(0.4) else self.d(st.integers(1, len(rs))),
                         "adopt": self.coin(0.5)})

    def drop(self):
        if self.live:
            r = self.pick(self.live)
            self.live.remove(r)
            self.ops.append({"op": "drop", "r": r})

    def actor(self, cls="Account", maxa=2):
        args = [["v", self.d(self.value)] for _ in range(self.d(st.integers(0, maxa)))]
        kw = [[k, ["v", self.d(self.value)]] for k in self.kwnames((0, 0, 1, 2))]
        self.ops.append({"op": "actor", "cls": cls, "args": args, "kw": kw})
        self.actors.append(self.nact)
        self.nact += 1
        return self.nact - 1

    def call(self, a=None, refs=None, p_ref=0.55, methods=("add", "add", "read", "big"), n=None, maxa=2):
        a = self.pick(self.actors) if a is None else a
        args, kw = self.args(refs, maxa, p_ref, nested=False)
        m = self.pick(methods)
        n = self.pick([1, 1, 1, 2, 0, 3]) if n is None else n
        meta = {"uid": self.newuid(), "n": n}
        failing = False
        if m == "big":
            meta["size"] = self.pick(SIZES)
        if m == "add" and self.fail and self.coin(self.fail):
            meta["exc"] = self.pick(prog.EXCS)
            failing = True
        if n > 1 and m == "add" and self.coin(0.2):
            meta["extra"] = self.d(st.integers(1, 2))
        self.ops.append({"op": "call", "a": a, "m": m, "meta": meta, "args": args, "kw": kw,
                         "via": self.pick(["decl", "opt"])})
        return self._outs(n, failing or self._bad(args, kw))

    def dropactor(self, a=None):
        if self.actors:
            a = self.pick(self.actors) if a is None else a
            self.actors.remove(a)
            self.ops.append({"op": "dropactor", "a": a})

    def churn(self, kmax=15):
        self.ops.append({"op": "churn", "k": self.d(st.integers(1, kmax)), "size": self.pick([1, 50, 600, 3000])})

    def getall(self):
        """Fetch every live reference, one by one, and look again at every value kept."""
        for h in self.holds:
            self.ops.append({"op": "recheck", "g": h})
        for r in self.live:
            self.ops.append({"op": "get", "r": r})
        for h in self.holds:
            self.ops.append({"op": "recheck", "g": h})


def summarize(ops):
    out = {}
    for o in ops:
        k = o["op"] + (":" + o["meta"]["k"] if o["op"] == "task" else "")
        out[k] = out.get(k, 0) + 1
    return out


def depth_of(ops):
    """Longest dependency chain through references."""
    d = []
    best = 0

    def refs(a):
        if a[0] == "r":
            yield a[1]
        elif a[0] in ("list", "tuple"):
            for x in a[1]:
                yield from refs(x)
        elif a[0] == "dict":
            for _, x in a[1]:
                yield from refs(x)

    for o in ops:
        if o["op"] == "put":
            d.append(0)
        elif o["op"] in ("task", "call"):
            m = 0
            for a in o.get("args", []) + [x for _, x in o.get("kw", [])]:
                for r in refs(a):
                    m = max(m, d[r])
            d.extend([m + 1] * o["meta"].get("n", 1))
            best = max(best, m + 1)
    return best
