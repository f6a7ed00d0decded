"""Parts about lifetime, shared memory, scheduling, shutdown, messages, nested use and layouts (simulated MPI)."""
import itertools
from checks.common import SimPart, base_problems, exec_problems, st  # noqa: F401
from checks.sims import asynccall
from vlib import gen


# ------------------------------------------------------------------------------ C09: held references
def nested_op(b, draw, churn=True, args=None, value=gen.small):
    """A remote call that uses the API itself; its result is fetched right away (one nested call at a time)."""
    sub, nref, bad = [], 0, []
    failing = draw(st.integers(0, 3)) == 0

    def some(k):
        good = [j for j in range(nref) if j not in bad]
        return [b.pick(good) for _ in range(draw(st.integers(0, k)))] if good else []

    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 9))
        if k < 2:
            sub.append(["put", draw(value)])
            nref += 1
        elif k < 4:
            sub.append(["task", b.newuid(), b.pick(["digest", "pack", "gen"]), some(2), [draw(st.integers(0, 9))]])
            nref += 1
        elif k < 6:
            n = b.pick([1, 0, 2, 3])
            exc = b.pick(gen.prog.EXCS) if failing and draw(st.booleans()) else None
            deps = some(2)
            hit = bad and draw(st.booleans())
            if hit:
                deps.insert(draw(st.integers(0, len(deps))), b.pick(bad))
            sub.append(["tk", b.newuid(), "raise" if exc else b.pick(["digest", "pack", "gen"]), n, deps,
                        sorted(set(some(2))), some(2), exc])
            if exc or hit:
                bad += range(nref, nref + n)
            nref += n
        elif k < 7 and churn:
            sub.append(["churn", draw(st.integers(3, 14)), b.pick([1, 50, 700])])
        elif k < 8 and bad:
            sub.append(["try", b.pick(bad)])
        elif some(1):
            sub.append(["get", [b.pick([j for j in range(nref) if j not in bad]) for _ in range(draw(st.integers(1, 3)))]])
    if args is None:
        args = [["r", b.pick(b.live)] for _ in range(draw(st.integers(0, 2)))] if b.live else []
    b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": "nested", "n": 1, "sub": sub, "bad": bad}, "args": args, "kw": [],
                  "via": "decl"})
    out = b._outs(1, False)[0]
    b.ops.append({"op": "get", "r": out})
    return out


def viactor_op(b, draw, a, is_async, relay):
    """A remote call that is given the handle of actor `a` and uses it; fetched right away."""
    methods = ["work", "work", "sync"] if is_async else ["add"]
    calls = [[b.newuid(), b.pick(methods), b.pick([1, 1, 0, 2])] for _ in range(draw(st.integers(1, 4)))]
    # a call without outputs is certainly made before what comes later only if this caller fetches a later one
    calls[-1][2] = b.pick([1, 1, 2])
    wrap = b.pick([None, None, "list", "dict", "kw"])
    args = [["r", b.pick(b.live)]] if b.live and draw(st.booleans()) else []
    kw = []
    if wrap == "kw":
        kw = [["handle", ["a", a]]]
    else:
        args.insert(0, ["list", [["a", a]]] if wrap == "list" else ["dict", [["h", ["a", a]]]] if wrap == "dict" else ["a", a])
    meta = {"uid": b.newuid(), "k": "viactor", "n": 1, "calls": calls, "wrap": wrap, "batch": draw(st.booleans())}
    if relay and draw(st.integers(0, 2)) == 0:
        meta["relay"] = b.newuid()
    b.ops.append({"op": "task", "meta": meta, "args": args, "kw": kw, "via": "decl"})
    out = b._outs(1, False)[0]
    b.ops.append({"op": "get", "r": out})
    return out


def late_use(b, draw, keep, acts):
    """An object is dropped right after it was passed to a call, amid calls that nobody waits for and cleanups."""
    outs = b.task(kinds=("gen", "digest"), n=b.pick([1, 2]), p_ref=0.2, maxa=1)
    how = draw(st.integers(0, 4))
    if how < 4:
        b.ops.append({"op": "get", "r": outs[0]} if how == 0 else {"op": "quiesce"})
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        k = draw(st.integers(0, 4))
        if k < 4 and acts:
            a, is_async = b.pick(acts)
            n = b.pick([0, 0, 1])
            asynccall(b, a, n=n, refs=[]) if is_async else b.call(a, n=n, refs=[])
        else:
            b.task(kinds=("digest",), n=b.pick([0, 1]), maxa=0)
    for _ in range(draw(st.integers(1, 2))):
        b.task(kinds=("digest", "pack"), n=1, refs=[outs[0]], p_ref=1.0)
    b.live.remove(outs[0])
    b.ops.append({"op": "drop", "r": outs[0]})
    b.ops.append({"op": "churn", "k": draw(st.integers(8, 20)), "size": b.pick([1, 600])})


@st.composite
def held(draw, shared=None, hosts=2, value=gen.small, mem=(1 << 20, 300000), nested=True, maxops=22):
    cfg = draw(gen.sim_cfg(2, 4, shared=shared, hosts=hosts, shm_mem=mem))
    cfg["clock"] = draw(st.sampled_from([0.3, 1.5]))
    b = gen.Builder(draw, value=value, fail=draw(st.sampled_from([0, 0, 0.15])))
    b.hold_p = draw(st.sampled_from([0, 0.6]))
    acts = []
    if draw(st.booleans()):
        acts.append((b.actor(), False))
    if cfg["workers"] > 2 and draw(st.integers(0, 2)) == 0:
        aa = b.actor("AsyncAccount")
        acts.append((aa, True))
    else:
        aa = None
    keep = [b.put()]
    for _ in range(draw(st.integers(4, maxops))):
        k = draw(st.integers(-4, 19))
        if k == -4 and acts and nested and cfg["workers"] - b.nact >= 2 and not b.tainted:
            # our own calls finish first: the order between the calls of different callers is not determined
            b.ops.append({"op": "quiesce"})
            viactor_op(b, draw, *b.pick(acts), cfg["workers"] - b.nact >= 2)
        elif k < 0:
            late_use(b, draw, keep, acts)
        elif k < 4:
            r = b.put()
            if draw(st.booleans()):
                keep.append(r)
        elif k < 9:
            refs = list(b.live)
            b.task(refs=refs, p_ref=0.8)
            drop_some(b, draw, keep, b.ops[-1])
        elif k < 11 and b.actors:
            a = b.pick(b.actors)
            if a == aa:
                asynccall(b, a, fail=b.fail)
            else:
                b.call(a, methods=("add", "add", "read", "big", "hold", "hold"))
            drop_some(b, draw, keep, b.ops[-1])
        elif k < 13:
            free = [r for r in b.live if r not in keep]
            for r in free[: draw(st.integers(1, 6))]:
                b.live.remove(r)
                b.ops.append({"op": "drop", "r": r})
        elif k < 16:
            b.churn()
        elif k < 17 and nested and cfg["workers"] - b.nact >= 2 and not b.tainted:
            nested_op(b, draw, value=value)
        elif k < 18:
            if b.holds and draw(st.booleans()):
                b.recheck(drop=draw(st.booleans()))
            else:
                b.wait()
        else:
            b.get()
    if draw(st.booleans()):
        b.ops.append({"op": "churn", "k": 14, "size": 5})
        b.ops.append({"op": "churn", "k": 14, "size": 600})
    if b.live:
        safe = [r for r in b.live if r not in b.tainted]
        b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": "digest", "n": 1},
                      "args": [["r", r] for r in safe], "kw": [], "via": "decl"})
        b._outs(1, False)
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


def drop_some(b, draw, keep, op):
    """Right after a submission drop references it was given."""
    used = [a[1] for a in op.get("args", []) + [x for _, x in op.get("kw", [])] if a[0] == "r"]
    for r in dict.fromkeys(used):
        if r in b.live and r not in keep and draw(st.booleans()):
            b.live.remove(r)
            b.ops.append({"op": "drop", "r": r})


def dropped(ops):
    return sum({"drop": 1, "churn": o.get("k", 0)}.get(o["op"], 0) for o in ops)


class Held(SimPart):
    name = "sim-held"
    quick = 1100
    thorough = 25000

    def case(self):
        return held()

    def nontrivial(self, case, info):
        return dropped(case["ops"]) > 12


# ------------------------------------------------------------------------------ C11: shared memory
class Shared(SimPart):
    name = "sim-shared"
    quick = 700
    thorough = 25000

    def case(self):
        return held(shared=True, hosts=3, value=gen.shareable, mem=(1 << 20, 400000))

    def nontrivial(self, case, info):
        return dropped(case["ops"]) >= 1 or len(set(case["cfg"].get("layout", [0]))) > 1

    def classify(self, case, info):
        yield from super().classify(case, info)
        yield f"{len(set(case['cfg'].get('layout', [0])))} hosts"


@st.composite
def kept(draw):
    """Values fetched from the shared store, in the program and in actors, outlive their references while the store's
    memory is reused several times."""
    cfg = draw(gen.sim_cfg(1, 4, shared=True, hosts=2, shm_mem=(120000, 200000)))
    cfg["shm_thr"] = draw(st.sampled_from([100, 1000]))
    cfg["clock"] = draw(st.sampled_from([0.3, 1.5]))
    b = gen.Builder(draw, value=gen.shareable)
    if cfg["workers"] > 1 and draw(st.booleans()):
        b.actor()
    b.hold_p = 0.9
    for _ in range(draw(st.integers(2, 5))):
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.integers(0, 9))
            if k < 2:
                new = [b.put()]
            elif k < 4 and b.actors:
                new = b.call(methods=("big", "hold"), p_ref=0.7, maxa=2)
            else:
                new = b.task(kinds=("gen", "gen", "echo", "pack"), p_ref=0.5, maxa=2)
            if b.actors and new and draw(st.booleans()):
                b.ops.append({"op": "call", "a": 0, "m": "hold", "meta": {"uid": b.newuid(), "n": 1},
                              "args": [["r", b.pick(new)]], "kw": [], "via": "decl"})
                b._outs(1, False)
            if new and draw(st.booleans()):
                b.get(new)
        for r in list(b.live):
            if draw(st.integers(0, 3)):
                b.live.remove(r)
                b.ops.append({"op": "drop", "r": r})
        for _ in range(draw(st.integers(0, 3))):
            size = b.pick([150, 1100, 3000, 6000])
            b.ops.append({"op": "churn", "k": min(40, cfg["shm_mem"] // size // 2), "size": size})
        if b.holds and draw(st.booleans()):
            b.recheck(drop=draw(st.booleans()))
    b.getall()
    for a in b.actors:
        b.ops.append({"op": "call", "a": a, "m": "hold", "meta": {"uid": b.newuid(), "n": 1}, "args": [], "kw": [],
                      "via": "decl"})
        b.ops.append({"op": "get", "r": b._outs(1, False)[0]})
    return {"ops": b.ops, "cfg": cfg}


class Kept(SimPart):
    name = "sim-kept"
    quick = 300
    thorough = 12000

    def case(self):
        return kept()

    def nontrivial(self, case, info):
        ops = case["ops"]
        return dropped(ops) > 12 and any(o.get("hold") is not None or o.get("m") == "hold" for o in ops)


# ------------------------------------------------------------------------------ C10: release
def _marked(draw):
    return ["marked", draw(st.sampled_from(["bytes", "arr", "list", "obj"])), draw(st.sampled_from([2000, 3000, 9000]))]


@st.composite
def release(draw):
    cfg = draw(gen.sim_cfg(1, 4, hosts=2, shm_mem=(400000,)))
    cfg["clock"] = 0.7
    b = gen.Builder(draw, value=gen.small)
    b.nested_refs = draw(st.booleans())
    nact = 0
    if cfg["workers"] > 1 and draw(st.booleans()):
        b.actor()
        nact = 1
    for _ in range(draw(st.integers(1, 3))):
        for _ in range(draw(st.integers(1, 8))):
            k = draw(st.integers(0, 9))
            if k < 3:
                b.put(_marked(draw))
            elif k < 6:
                n = b.pick([1, 1, 2, 0])
                args, kw = b.args(p_ref=0.8)
                m = _marked(draw)
                meta = {"uid": b.newuid(), "k": "mark", "n": n, "form": m[1], "size": m[2]}
                if draw(st.integers(0, 4)) == 0:
                    meta.update(k="raise", exc="ValueError")
                if draw(st.integers(0, 3)) == 0:
                    args.append(["v", _marked(draw)])
                b.ops.append({"op": "task", "meta": meta, "args": args, "kw": kw, "via": "decl"})
                b._outs(n, meta["k"] == "raise" or b._bad(args, kw))
            elif k < 8 and nact:
                n = b.pick([1, 1, 2, 0])
                args, kw = b.args(p_ref=0.8, nested=False)
                m = _marked(draw)
                meta = {"uid": b.newuid(), "n": n, "form": m[1], "size": m[2]}
                if draw(st.integers(0, 4)) == 0:
                    meta["exc"] = "ValueError"
                if draw(st.integers(0, 3)) == 0:
                    args.append(["v", _marked(draw)])
                b.ops.append({"op": "call", "a": 0, "m": "mark", "meta": meta, "args": args, "kw": kw, "via": "opt"})
                b._outs(n, "exc" in meta or b._bad(args, kw))
            elif k < 9:
                b.get()
            else:
                b.wait()
        if draw(st.booleans()):
            b.getall()
        b.ops.append({"op": "dropall"})
        b.live, b.tainted = [], set()
        b.ops.append({"op": "churn", "k": draw(st.integers(1, 14)), "size": b.pick([1, 500, 4000])})
    # everything is finished; keep using the system
    b.ops.append({"op": "quiesce"})
    for _ in range(3):
        how = draw(st.sampled_from(["put", "task", "call"]))
        for _ in range(14):
            if how == "call" and nact:
                b.ops.append({"op": "call", "a": 0, "m": "read", "meta": {"uid": b.newuid(), "n": 1}, "args": [], "kw": [],
                              "via": "decl"})
                b._outs(1, False)
            elif how == "task":
                b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": "none", "n": 1}, "args": [], "kw": [],
                              "via": "decl"})
                b._outs(1, False)
            else:
                b.put(["int", "1"])
        b.ops.append({"op": "quiesce"})
        b.ops.append({"op": "dropall"})
        b.live = []
    b.ops.append({"op": "churn", "k": 30, "size": 10})
    b.ops.append({"op": "quiesce"})
    b.ops.append({"op": "churn", "k": 15, "size": 10})
    b.ops.append({"op": "probe", "n": cfg["workers"] - nact})
    if cfg["shared"]:
        b.ops.append({"op": "bigput", "size": int(cfg["shm_mem"] * 0.6)})
    return {"ops": b.ops, "cfg": cfg}


class Release(SimPart):
    exempt_overflow = False
    name = "sim-release"
    quick = 130
    thorough = 6000
    kinds = ("leak", "raised")

    def case(self):
        return release()

    def history(self, case, model, r):
        return []

    def nontrivial(self, case, info):
        return sum(1 for o in case["ops"] if o["op"] in ("task", "call") and o["meta"].get("form")) >= 1


@st.composite
def bounded(draw):
    """A program that creates and drops several times what the shared store holds."""
    cfg = draw(gen.sim_cfg(2, 3, shared=True, hosts=2, shm_mem=(200000,)))
    cfg["clock"] = 1.5
    cfg["shm_thr"] = draw(st.sampled_from([100, 1000]))
    b = gen.Builder(draw, value=gen.small)
    act = draw(st.booleans())
    if act:
        b.actor()
    size = b.pick([2000, 6000])
    # at most `live` objects are referenced at any time; cleanup needs more than ten dropped ones
    total = 6 * 200000 // size
    done = 0
    while done < total:
        k = draw(st.integers(0, 3))
        m = 4
        for _ in range(m):
            if k == 0:
                b.put(["bigbytes", size, done])
            elif k == 1 and act:
                b.ops.append({"op": "call", "a": 0, "m": "big", "meta": {"uid": b.newuid(), "n": 1, "size": size},
                              "args": [], "kw": [], "via": "decl"})
                b._outs(1, False)
            else:
                fail = draw(st.integers(0, 9)) == 0
                b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": "raise" if fail else "gen", "n": 1,
                                                     "size": size, "exc": "ValueError"},
                              "args": [], "kw": [], "via": "decl"})
                b._outs(1, False)
            done += 1
        if k != 0:
            b.ops.append({"op": "quiesce"})
        b.ops.append({"op": "dropall"})
        b.live = []
        b.ops.append({"op": "churn", "k": 6, "size": 1})
    b.ops.append({"op": "churn", "k": 30, "size": 1})
    b.ops.append({"op": "bigput", "size": 120000})
    return {"ops": b.ops, "cfg": cfg}


class Bounded(Release):
    name = "sim-bounded"
    quick = 24
    thorough = 1500

    def case(self):
        return bounded()

    def nontrivial(self, case, info):
        return True


# ------------------------------------------------------------------------------ C16: scheduling
@st.composite
def sched(draw, workers=None):
    """With `workers`: for a backend with that many workers and handles that cannot be passed on."""
    cfg = draw(gen.sim_cfg(1, 6, hosts=3)) if workers is None else {"workers": workers}
    w = cfg["workers"]
    b = gen.Builder(draw, value=gen.small)
    dup = set()              # actors with further handles somewhere: never dropped here
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.integers(0, 10))
        free = w - len(b.actors)
        if k < 3 and free > 0:
            a = b.actor(b.pick(["Account", "Account", "AsyncAccount"]), maxa=0)
            b.ops.append({"op": "call", "a": a, "m": "read" if b.ops[-1]["cls"] == "Account" else "sync",
                          "meta": {"uid": b.newuid(), "n": 1}, "args": [], "kw": [], "via": b.pick(["decl", "opt"])})
            b._outs(1, False)
        elif k < 5 and set(b.actors) - dup:
            b.dropactor(b.pick(sorted(set(b.actors) - dup)))
        elif k < 7 and b.actors and free > 0 and workers is None:
            # a handle that went through a task and came back; later its values are cleaned up
            for _ in range(draw(st.integers(1, 2))):
                a = b.pick(b.actors)
                dup.add(a)
                b.ops.append({"op": "echoactor", "a": a, "meta": {"uid": b.newuid(), "k": "echo", "n": 1},
                              "keep": draw(st.integers(0, 2)) == 0})
            b.ops.append({"op": "churn", "k": 25, "size": 1})
        elif free == 0:
            b.ops.append({"op": "full", "uid": b.newuid()})
        else:
            for _ in range(draw(st.integers(1, 2 * w + 2))):
                b.task(kinds=("digest", "gen"), n=1, maxa=1, p_ref=0.2)
        if draw(st.integers(0, 5)) == 0:
            b.get()
    if len(b.actors) == w and set(b.actors) - dup:
        b.dropactor(b.pick(sorted(set(b.actors) - dup)))
    if len(b.actors) < w:
        for _ in range(w + 1):
            b.task(kinds=("digest",), n=1, maxa=0)
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


@st.composite
def one_actor(draw, workers):
    """Tasks before, during and after the life of an actor."""
    b = gen.Builder(draw, value=gen.small)

    def tasks(lo, hi):
        for _ in range(draw(st.integers(lo, hi))):
            b.task(kinds=("digest",), n=1, maxa=1, p_ref=0.2)

    tasks(0, workers)
    a = b.actor("Account", maxa=0)
    b.call(a, methods=("read",), n=1)
    tasks(1, workers)
    if draw(st.booleans()):
        b.get()
    b.dropactor(a)
    if draw(st.booleans()):
        b.getall()
    tasks(workers // 2, 2 * workers)
    b.getall()
    return {"ops": b.ops, "cfg": {"workers": workers}}


class Sched(SimPart):
    name = "sim-sched"
    quick = 650
    thorough = 25000

    def case(self):
        return sched()

    def history(self, case, model, r):
        return exec_problems(model, r, True) + place_problems(case, r)

    def nontrivial(self, case, info):
        return any(o["op"] == "actor" for o in case["ops"]) and case["cfg"]["workers"] > 1


def place_problems(case, r):
    ops = case["ops"]
    w = case["cfg"]["workers"]
    where = {ev[2]: ev[0] for ev in r.notes if ev[1] == "start"}
    home, live, owner = {}, set(), {}
    nact = 0
    out = []
    # homes of actors: where their first call ran
    for o in ops:
        if o["op"] == "call" and o["a"] not in home and o["meta"]["uid"] in where:
            home[o["a"]] = where[o["meta"]["uid"]]
    workers = set(where.values())
    seg = {}
    segn = 0
    for i, o in enumerate(ops):
        if o["op"] == "actor":
            a = nact
            nact += 1
            if a in home:
                for c in live:
                    if home.get(c) == home[a]:
                        out.append(f"op {i}: actor {a} was placed on worker {home[a]} that hosts live actor {c}")
            live.add(a)
            seg, segn = {}, 0
        elif o["op"] == "dropactor":
            live.discard(o["a"])
            seg, segn = {}, 0
        elif o["op"] in ("task", "echoactor"):
            rank = where.get(o["meta"]["uid"])
            if rank is None:
                continue
            for c in live:
                if home.get(c) == rank:
                    out.append(f"op {i}: a plain task ran on worker {rank} that hosts live actor {c}")
            seg[rank] = seg.get(rank, 0) + 1
            segn += 1
            free = w - len(live)
            counts = list(seg.values()) + [0] * max(0, free - len(seg))
            if len(seg) > free:
                out.append(f"op {i}: {len(seg)} workers used although {free} are free")
            elif max(counts) - min(counts) > 1:
                out.append(f"op {i}: {segn} consecutive submissions were spread as {seg} over {free} free workers")
    del workers, owner
    tasks = [where[o["meta"]["uid"]] for o in ops if o["op"] in ("task", "echoactor") and o["meta"]["uid"] in where]
    if out:
        return out[:3]
    if case["cfg"].get("homes", True):
        return spread_problems(tasks, w, [set(home.values())]) if len(home) == nact else []
    # the processes of actors are not their workers: any that many of the workers may have hosted them
    n = max(w, len(set(tasks)))
    ids = sorted(set(tasks)) + [f"unused{i}" for i in range(n - len(set(tasks)))]
    return spread_problems(tasks, w, [set(h) for h in itertools.combinations(ids, min(nact, n))])


def spread_problems(tasks, w, hosts):
    """Workers that never host an actor get the same number of tasks, up to one, in any stretch of the program."""
    ids = set(tasks).union(*hosts)
    ids = sorted(ids, key=str) + [f"unused{i}" for i in range(w - len(ids))]
    bad = set()
    for p, q in itertools.combinations(ids, 2):
        d = lo = hi = 0
        for x in tasks:
            d += (x == p) - (x == q)
            lo, hi = min(lo, d), max(hi, d)
        if hi - lo > 1:
            bad.add((p, q))
    if hosts and all(any(not h & set(pq) for pq in bad) for h in hosts):
        return [f"tasks were given to workers {tasks} out of {w}: those that never host an actor are not used evenly"]
    return []


# ------------------------------------------------------------------------------ C17: shutdown
@st.composite
def shut(draw):
    cfg = draw(gen.sim_cfg(1, 5, hosts=3))
    cfg["hold"] = draw(st.booleans())
    cfg["collect"] = draw(st.booleans())
    cfg["shutdown_twice"] = draw(st.booleans())
    if draw(st.booleans()):
        cfg["ieager"] = 0        # no asynchronous send is complete before its receive
    cfg["clock"] = draw(st.sampled_from([0.0, 0.3, 1.5]))
    w = cfg["workers"]
    b = gen.Builder(draw, fail=draw(st.sampled_from([0, 0.3])), value=gen.small)
    acts = []
    if w > 1 and draw(st.booleans()):
        acts.append((b.actor(b.pick(["Account", "Account", "Broken"])), "s"))
    if w > len(acts) + 1 and draw(st.booleans()):
        acts.append((b.actor("AsyncAccount"), "a"))
    never = set()
    for _ in range(draw(st.integers(0, 12))):
        k = draw(st.integers(0, 14))
        if k < 4:
            before = b.nslots
            b.task(p_ref=0.7)
            _inherit(b, never, before)
        elif k < 8 and acts:
            a, kind = b.pick(acts)
            before = b.nslots
            if kind == "s":
                b.call(a)
            else:
                aw = draw(st.integers(0, 2)) == 0
                asynccall(b, a, fail=b.fail, await_=99 if aw else None, m="work")
                if aw:
                    never.update(range(before, b.nslots))
            if kind == "s" and any_used(b, never):
                # later calls of this actor queue behind it
                never.update(range(before, b.nslots))
                acts = [x for x in acts if x[0] != a]
            _inherit(b, never, before)
        elif k < 9:
            b.put()
        elif k < 10:
            b.drop()
        elif k < 11:
            b.churn()
        elif k < 12:
            b.get([r for r in b.live if r not in never])
        elif k == 14:
            if w - b.nact >= 2:
                ok = [r for r in b.live if r not in never and r not in b.tainted]
                nested_op(b, draw, args=[["r", b.pick(ok)] for _ in range(draw(st.integers(0, 2)))] if ok else [])
                if draw(st.booleans()):
                    # not fetched; a blocking get of its own would be the known finding nested-at-shutdown
                    b.ops.pop()
                    meta = b.ops[-1]["meta"]
                    meta.update(final=False, sub=[x for x in meta["sub"] if x[0] not in ("get", "try")])
        elif k < 13 and b.actors and draw(st.booleans()):
            a = b.pick(b.actors)
            b.actors.remove(a)
            acts = [x for x in acts if x[0] != a]
            b.ops.append({"op": "dropactor", "a": a})
        else:
            b.ops.append({"op": "tick", "t": 1})
    end = draw(st.integers(0, 5))
    if end < 2:
        b.ops.append({"op": "quiesce"})
    elif end < 4 and w > b.nact:
        # data on its way between the workers
        new = [r for _ in range(w + 1) for r in b.task(kinds=("gen",), n=1, maxa=0)]
        if draw(st.booleans()):
            b.ops.append({"op": "quiesce"})
        for _ in range(draw(st.integers(1, w + 2))):
            b.task(kinds=("digest",), n=1, refs=new, p_ref=1.0, maxa=4)
    return {"ops": b.ops, "cfg": cfg}


def any_used(b, never):
    from checks.sims import uses

    return uses(b.ops[-1], never)


def _inherit(b, never, before):
    if any_used(b, never):
        never.update(range(before, b.nslots))


class Shut(SimPart):
    name = "sim-shutdown"
    quick = 900
    thorough = 25000
    kinds = ()

    def case(self):
        return shut()

    def history(self, case, model, r):
        return []

    def nontrivial(self, case, info):
        return sum(1 for o in case["ops"] if o["op"] in ("task", "call", "actor")) >= 2


# ------------------------------------------------------------------------------ C18: messages
@st.composite
def messages(draw):
    cfg = draw(gen.sim_cfg(1, 4, hosts=2, shm_mem=(1 << 21,)))
    block = draw(st.sampled_from([64, 100, 512, 1000, None]))
    if block:
        cfg["block"] = block
    if draw(st.integers(0, 3)) == 0:
        cfg["ieager"] = 0
    unit = block or 512
    sizes = st.sampled_from([0, 1, unit - 1, unit, unit + 1, 2 * unit - 1, 2 * unit, 2 * unit + 1, 5 * unit,
                             7 * unit + 3, 64, 65])
    arr = st.tuples(sizes, st.integers(0, 99)).map(lambda t: ["arr", "uint8", [t[0]], "C", t[1]])
    raw = st.tuples(sizes, st.integers(0, 99)).map(lambda t: ["bigbytes", t[0], t[1]])
    val = st.one_of(arr, arr, raw, st.lists(st.one_of(arr, raw), max_size=4).map(lambda x: ["list", x]))
    b = gen.Builder(draw, value=val, max_n=3)
    acts = []
    if cfg["workers"] > 1 and draw(st.booleans()):
        acts.append(b.actor())
    nest = cfg["workers"] - len(acts) > 1 and draw(st.booleans())
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.integers(0, 11))
        if k < 2:
            b.put()
        elif k < 6:
            b.task(kinds=("echo", "pack", "digest"), p_ref=0.6)
        elif k > 9:
            if nest:
                # blocking requests of a worker while data it has asked for is on its way
                for _ in range(draw(st.integers(0, 4))):
                    b.task(kinds=("echo", "pack", "digest"), p_ref=0.9, n=1)
                nested_op(b, draw, value=val, args=[])
        elif k < 8 and acts:
            b.call(acts[0], methods=("add", "read", "big"))
            b.ops[-1]["meta"].setdefault("size", 0)
            b.ops[-1]["meta"]["size"] = draw(sizes)
        elif k < 9:
            b.churn()
        else:
            b.get()
    b.ops.append({"op": "quiesce"})
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


class Messages(SimPart):
    name = "sim-messages"
    quick = 800
    thorough = 25000

    def case(self):
        return messages()

    def nontrivial(self, case, info):
        return bool(case["cfg"].get("block")) and info.get("msgs", 0) > 20


# ------------------------------------------------------------------------------ C19: nested
@st.composite
def nested(draw):
    cfg = draw(gen.sim_cfg(2, 5, hosts=2))
    b = gen.Builder(draw, value=gen.small)
    acts = []
    is_async = False
    if cfg["workers"] > 2 and draw(st.integers(0, 3)) > 0:
        is_async = draw(st.integers(0, 2)) == 0
        acts.append(b.actor("AsyncAccount" if is_async else "Account"))
    last = None
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.integers(0, 11))
        if k < 4:
            for _ in range(draw(st.sampled_from([0, 0, 2, 5]))):
                b.task(p_ref=0.9, n=1)      # not finished yet when the nested calls are made
            nested_op(b, draw)
        elif k < 6 and acts:
            # the order between the calls of different callers is not determined: let ours finish first
            if last is not None:
                b.ops.append({"op": "get", "r": last})
                last = None
            viactor_op(b, draw, acts[0], is_async, cfg["workers"] > 2)
        elif k < 7 and is_async:
            asynccall(b, acts[0])
        elif k < 7 and acts:
            b.call(acts[0], methods=("add", "read"), n=1)
            last = b.nslots - 1
        elif k < 9:
            b.task()
        elif k < 10:
            b.put()
        elif k < 11:
            b.churn()
        else:
            b.get()
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


class Nested(SimPart):
    name = "sim-nested"
    quick = 900
    thorough = 25000

    def case(self):
        return nested()

    def nontrivial(self, case, info):
        return any(o.get("meta", {}).get("k") in ("nested", "viactor") for o in case["ops"])


def nested_shutdown_probe():
    """Known finding: a task that blocks in a get of its own when the shutdown begins is never answered."""
    from vlib import simrun

    def program(k):
        ops = [{"op": "task", "meta": {"uid": 1, "k": "digest", "n": 1}, "args": [], "kw": [], "via": "decl"}] * (k % 2)
        ops += [{"op": "task", "meta": {"uid": 2, "k": "nested", "n": 1, "sub": [["task", 3, "digest", [], [1]]]}, "args": [],
                 "kw": [], "via": "decl"}]
        return ops, {"workers": 2, "sched": "random", "seed": k, "eager": 4096, "shared": False, "pickle_thr": 512}

    for k in range(12):
        r = simrun.run(*program(k))
        if r.status == "deadlock" and "rank 0: recv from 1" in r.detail:
            return "nested-at-shutdown", None
        if r.status != "ok":
            return None, {"part": "sim-shutdown", "case": dict(zip(("ops", "cfg"), program(k))), "problems": base_problems(r)}
    return None, None
