"""Uses and misuses of the public API, executed against whatever backend is initialized; one observation per step."""
import functools
import threading

from vlib.values import build, digest


def _plain(a, b=2, *rest, c=3, outs=1, **kw):
    r = [a, b, list(rest), c, kw]
    return r if outs <= 1 else [[j, r] for j in range(outs)]


class Cell:
    def __init__(self, *args, **kw):
        self.items = [list(args), kw]

    def add(self, x, *, y=0):
        self.items.append([x, y])
        return len(self.items)

    def read(self):
        return list(self.items)

    def pair(self):
        return "p", len(self.items)


class Child(Cell):
    def add(self, x, *, y=1):
        return super().add([x], y=y)


class NoInit:
    def __call__(self, x):
        return ["called", x]

    def hello(self, x):
        return ["hello", x]


CLASSES = {"Cell": Cell, "Child": Child, "NoInit": NoInit}
SPECIALS = ["none", "object", "func", "class", "len", "partial", "bound", "callable", "remote_func", "actor_class", "actor",
            "method", "raw", "lock", "type", "gen"]


class Case:
    def __init__(self):
        import unidist

        self.u = unidist
        self.refs = []
        self.nref = 0
        self.f = unidist.remote(_fresh(_plain))
        self.cls = unidist.remote(_fresh_cls(Cell))
        self.actor = self.cls.remote(1)
        self.calls = 0

    def close(self):
        self.refs, self.f, self.cls, self.actor = [], None, None, None

    def thing(self, spec):
        """A value that is not an object reference (or, for ["ref", i], one that is)."""
        k = spec[0]
        if k == "ref":
            return self.refs[spec[1] % len(self.refs)]
        if k == "v":
            return build(spec[1])
        if k == "list":
            return [self.thing(x) for x in spec[1]]
        if k == "tuple":
            return tuple(self.thing(x) for x in spec[1])
        if k == "dict":
            return {"k": self.thing(spec[1])}
        return {"none": lambda: None, "object": object, "func": lambda: _plain, "class": lambda: Cell, "len": lambda: len,
                "partial": lambda: functools.partial(_plain, 1), "bound": lambda: Cell().read, "callable": lambda: NoInit(),
                "remote_func": lambda: self.f, "actor_class": lambda: self.cls, "actor": lambda: self.actor,
                "method": lambda: self.actor.add, "raw": lambda: self.refs[0]._ref, "lock": threading.Lock,
                "type": lambda: type(self.refs[0]), "gen": lambda: (i for i in range(2))}[k]()

    def step(self, o):
        return getattr(self, "do_" + o["p"])(o)

    # ------------------------------------------------------------------ legal uses
    def do_put(self, o):
        r = self.u.put(build(o["v"]))
        self.refs.append(r)
        return [self.u.is_object_ref(r), digest(self.u.get(r))]

    def do_call(self, o):
        """A function, declared and called in one of the documented forms."""
        n = o["n"]
        form = o["form"]
        f = _fresh(_plain) if not o.get("lam") else (lambda a, b=2, *rest, outs=1, **kw: _plain(a, b, *rest, outs=outs, **kw))
        if form == "bare":
            g = self.u.remote(f)
        elif form == "decl":
            g = self.u.remote(num_returns=n)(f)
        elif form == "opt":
            g = self.u.remote(f).options(num_returns=n)
        elif form == "optover":
            d = self.u.remote(num_returns=o["n0"])(f)
            g = d.options(num_returns=n)
        elif form == "optnone":
            g = self.u.remote(num_returns=n)(f).options()
        args = [build(v) for v in o["args"]]
        if o.get("useref") and self.refs:
            args.append(self.refs[-1])
        kw = {k: build(v) for k, v in o["kw"]}
        got = [_shape(self.u, g.remote(*args, outs=n, **kw), n)]
        if form == "optover":
            # the declared value is still in force for other calls
            got.append(_shape(self.u, d.remote(*args, outs=o["n0"], **kw), o["n0"]))
        return got

    def do_actor(self, o):
        cls = self.u.remote(_fresh_cls(CLASSES[o["cls"]]))
        a = cls.options().remote(*o["args"]) if o.get("opt") else cls.remote(*o["args"])
        if o["cls"] == "NoInit":
            return [digest(self.u.get(a.hello.remote(o["x"])))]
        out = [self.u.get(a.add.remote(o["x"])), self.u.get(a.add.remote(o["x"], y=5)),
               self.u.get(a.add.options(num_returns=1).remote(o["x"]))]
        pr = a.pair.options(num_returns=2).remote()
        out.append([self.u.get(x) for x in pr] if isinstance(pr, list) and len(pr) == 2 else ["shape", str(pr)])
        none = a.add.options(num_returns=0).remote(o["x"])
        out.append(none is None)
        out.append(digest(self.u.get(a.read.remote())))
        return out

    def do_waitone(self, o):
        r = self.u.put(build(o["v"]))
        ready, rest = self.u.wait(r)
        return [len(ready), len(rest), digest(self.u.get(ready[0])), all(self.u.is_object_ref(x) for x in ready)]

    def do_empty(self, o):
        return self.u.get([])

    def do_isref(self, o):
        return self.u.is_object_ref(self.thing(o["x"]))

    def do_state(self, o):
        return [self.u.is_initialized(), self.u.num_cpus() >= 1,
                all(isinstance(v, dict) and v["CPU"] >= 1 for v in self.u.cluster_resources().values())]

    # ------------------------------------------------------------------ misuses
    def do_deco(self, o):
        """A declaration with the given num_returns; used when it is accepted."""
        n = build(o["n"])
        target = self.thing(o["target"]) if o["target"] not in ("func", "class") else (
            _fresh(_plain) if o["target"] == "func" else _fresh_cls(Cell))
        g = self.u.remote(num_returns=n)(target)
        if o["target"] == "func":
            k = 1 if n is None else int(n)
            return ["accepted", _shape(self.u, g.remote(1, outs=k), k)]
        if o["target"] == "class":
            return ["accepted", self.u.get(g.remote().add.remote(1))]
        return ["accepted"]

    def do_bare(self, o):
        """remote(x) on something that is neither a function nor a class."""
        self.u.remote(self.thing(o["x"]))
        return ["accepted"]

    def do_remote(self, o):
        form = o["form"]
        if form == "nothing":
            self.u.remote()
        elif form == "two":
            self.u.remote(_plain, Cell)
        elif form == "mixed":
            self.u.remote(_plain, num_returns=1)
        return ["accepted"]

    def do_direct(self, o):
        args = [build(v) for v in o["args"]]
        what = o["what"]
        if what == "func":
            return ["accepted", digest(self.f(*args))]
        if what == "class":
            return ["accepted", str(self.cls(*args))]
        if what == "method":
            return ["accepted", str(self.actor.add(*args))]
        if what == "decl":
            return ["accepted", str(self.u.remote(num_returns=2)(_fresh(_plain))(*args))]

    def do_get(self, o):
        x = self.thing(o["x"])
        v = self.u.get(x)
        return ["accepted", type(v).__name__]

    def do_wait(self, o):
        x = self.thing(o["x"])
        ready, rest = self.u.wait(x, num_returns=o.get("n", 1))
        return ["accepted", len(ready), len(rest)]

    # ------------------------------------------------------------------ still usable
    def alive(self):
        out = [digest(self.u.get(self.f.remote(self.refs[0], 7)))]
        self.calls += 1
        out.append(self.u.get(self.actor.add.remote(self.calls)))
        ready, rest = self.u.wait(list(self.refs[:2]), num_returns=1)
        out.append([len(ready), len(rest)])
        return out


def _shape(u, out, n):
    if n == 0:
        return ["none"] if out is None else ["shape", str(type(out))]
    if n == 1:
        return ["one", digest(u.get(out))] if u.is_object_ref(out) else ["shape", str(type(out))]
    if not isinstance(out, list) or len(out) != n or not all(u.is_object_ref(x) for x in out):
        return ["shape", str(out)]
    return ["many", [digest(u.get(x)) for x in out]]


def _fresh(f):
    def plain(a, b=2, *rest, c=3, outs=1, **kw):
        return f(a, b, *rest, c=c, outs=outs, **kw)

    return plain


def _fresh_cls(c):
    return type(c.__name__, (c,), {})


def run(steps, req=None):
    case = Case()
    obs = {}
    try:
        case.refs.append(case.u.put("first"))
        for i, o in enumerate(steps):
            try:
                obs[i] = ["ok", case.step(o)]
            except Exception as e:
                obs[i] = ["exc", [c.__name__ for c in type(e).__mro__], str(e)[:300]]
            if o.get("then"):
                try:
                    obs[f"{i}+"] = ["ok", case.alive()]
                except Exception as e:
                    import traceback

                    obs[f"{i}+"] = ["exc", [c.__name__ for c in type(e).__mro__], traceback.format_exc()[-1500:]]
                    break
    finally:
        case.close()
    return obs


def driver(steps, cfg):
    return {str(k): v for k, v in run(steps).items()}


# ---------------------------------------------------------------------------- the oracle
def expected(steps):
    """key -> (kind, detail): "ok" with the value, "exc" with the acceptable types (None: any)."""
    out = {}
    calls = 0
    nrefs = 1
    last = "first"
    for i, o in enumerate(steps):
        p = o["p"]
        if p == "put":
            last = build(o["v"])
            nrefs += 1
            out[i] = ("ok", [True, digest(last)])
        elif p == "call":
            args = [build(v) for v in o["args"]]
            if o.get("useref"):
                args.append(last)
            kw = {k: build(v) for k, v in o["kw"]}
            exp = [_want(_plain(*args, outs=o["n"], **kw), o["n"])]
            if o["form"] == "optover":
                exp.append(_want(_plain(*args, outs=o["n0"], **kw), o["n0"]))
            out[i] = ("ok", exp)
        elif p == "actor":
            a = CLASSES[o["cls"]](*o["args"])
            if o["cls"] == "NoInit":
                out[i] = ("ok", [digest(a.hello(o["x"]))])
            else:
                exp = [a.add(o["x"]), a.add(o["x"], y=5), a.add(o["x"])]
                exp.append(list(a.pair()))
                a.add(o["x"])
                exp += [True, digest(a.read())]
                out[i] = ("ok", exp)
        elif p == "waitone":
            out[i] = ("ok", [1, 0, digest(build(o["v"])), True])
        elif p == "empty":
            out[i] = ("ok", [])
        elif p == "isref":
            out[i] = ("ok", o["x"][0] == "ref")
        elif p == "state":
            out[i] = ("ok", [True, True, True])
        elif p == "deco":
            n = build(o["n"])
            if o["target"] == "func":
                if n is None or (isinstance(n, int) and n >= 0):
                    out[i] = ("ok", ["accepted", _want(_plain(1, outs=1 if n is None else int(n)), 1 if n is None else int(n))])
                else:
                    out[i] = ("exc", ["ValueError"])
            elif o["target"] == "class":
                out[i] = ("ok", ["accepted", 3]) if n is None else ("exc", ["TypeError"])
            else:
                out[i] = ("exc", ["TypeError"])
        elif p == "bare":
            out[i] = ("exc", None)
        elif p == "remote":
            out[i] = ("exc", None)
        elif p == "direct":
            out[i] = ("exc", ["TypeError"])
        elif p in ("get", "wait"):
            out[i] = ("exc", None)
        if o.get("then"):
            calls += 1
            out[f"{i}+"] = ("ok", [digest(_plain("first", 7)), calls + 2, [1, min(nrefs, 2) - 1]])
    return out


def _want(val, n):
    if n == 0:
        return ["none"]
    if n == 1:
        return ["one", digest(val)]
    return ["many", [digest(val[j]) for j in range(n)]]


def problems(steps, obs):
    import json

    out = []
    for k, (kind, want) in expected(steps).items():
        o = steps[int(str(k).rstrip("+"))]
        what = "the system afterwards" if str(k).endswith("+") else f"step {k} {o}"
        got = obs.get(k, obs.get(str(k)))
        if got is None:
            out.append(f"{what}: no result")
        elif kind == "ok":
            if got[0] == "exc":
                out.append(f"{what}: raised {got[1][0]}: {got[2]}" + (f" (after {o})" if str(k).endswith("+") else ""))
            elif json.dumps(got[1], default=str) != json.dumps(want, default=str):
                out.append(f"{what}: gave {got[1]} instead of {want}")
        elif got[0] == "ok":
            out.append(f"{what}: accepted ({got[1]})")
        elif want is not None and not any(n in got[1] for n in want):
            out.append(f"{what}: rejected with {got[1][0]} ({got[2]}) instead of {want}")
        if out:
            break
    return out
