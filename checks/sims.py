"""Strategies of programs and the parts that run them on the real MPI backend under the simulated MPI."""
from checks.common import SimPart, base_problems, exec_problems, st  # noqa: F401
from vlib import gen


# ------------------------------------------------------------------------------ C01: task graphs
@st.composite
def dag(draw, hosts=2):
    cfg = draw(gen.sim_cfg(1, 5, hosts=hosts))
    b = gen.Builder(draw)
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.integers(0, 11))
        if k < 2:
            b.put()
        elif k < 9:
            b.task()
        elif k < 10:
            b.task(maxa=6, p_ref=0.95)      # wide fan-in
        else:
            b.get()
    b.ops.append({"op": "quiesce"} if draw(st.booleans()) else {"op": "tick"})
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


class Dag(SimPart):
    name = "sim-dag"
    quick = 700
    thorough = 30000
    strict_exec = True

    def case(self):
        return dag()


@st.composite
def chain(draw):
    """Long dependency chains and joins submitted at once: most tasks wait for data of other workers."""
    cfg = draw(gen.sim_cfg(2, 4))
    b = gen.Builder(draw, max_n=3)
    roots = [b.put() for _ in range(draw(st.integers(1, 3)))]
    layers = [roots]
    for _ in range(draw(st.integers(2, 4))):
        layer = []
        for _ in range(draw(st.integers(1, 3))):
            layer += b.task(refs=layers[-1] + (layers[-2] if len(layers) > 1 else []), p_ref=0.9, maxa=4,
                            kinds=("digest", "pack", "gen"))
        if not layer:
            layer = [b.put()]
        layers.append(layer)
    if draw(st.booleans()):
        b.get(layers[-1])
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


class Chain(SimPart):
    name = "sim-chain"
    quick = 350
    thorough = 10000

    def case(self):
        return chain()


# ------------------------------------------------------------------------------ C02: values
@st.composite
def values_prog(draw, hosts=2):
    cfg = draw(gen.sim_cfg(1, 3, hosts=hosts, shm_mem=(1 << 21,)))
    b = gen.Builder(draw, value=gen.value)
    b.hold_p = draw(st.sampled_from([0, 0.5]))
    for _ in range(draw(st.integers(1, 3))):
        b.put()
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 9))
        if k < 2:
            b.put()
        elif k < 5 and b.live:
            b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": "echo", "n": 1},
                          "args": [["r", b.pick(b.live)]], "kw": [], "via": b.pick(["decl", "opt"])})
            b._outs(1, False)
        elif k < 6:
            vals = [draw(gen.value) for _ in range(draw(st.integers(1, 3)))]
            b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": "vals", "n": len(vals), "vals": vals,
                                                 "seq": b.pick(["list", "tuple"])},
                          "args": [], "kw": [], "via": b.pick(["decl", "opt"])})
            b._outs(len(vals), False)
        elif k < 7:
            if draw(st.booleans()):
                b.task(kinds=("pack", "digest"), n=1, p_ref=0.9)
            else:
                # by value
                b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": b.pick(["echo", "pack"]), "n": 1},
                              "args": [["v", draw(gen.value)] for _ in range(draw(st.integers(1, 2)))],
                              "kw": [["k", ["v", draw(gen.value)]]] if draw(st.booleans()) else [],
                              "via": b.pick(["decl", "opt"])})
                b._outs(1, False)
        else:
            b.get()
    b.getall()
    if b.live:
        b.ops.append({"op": "get", "r": [b.pick(b.live) for _ in range(draw(st.integers(1, 5)))]})
    return {"ops": b.ops, "cfg": cfg}


class Values(SimPart):
    name = "sim-values"
    quick = 900
    thorough = 30000

    def case(self):
        return values_prog()

    def nontrivial(self, case, info):
        return sum(1 for o in case["ops"] if o["op"] in ("task", "get")) >= 3


# ------------------------------------------------------------------------------ C03: snapshots
@st.composite
def snapshots(draw):
    cfg = draw(gen.sim_cfg(1, 3, hosts=2))
    b = gen.Builder(draw, value=gen.mutable)
    hold = []
    if cfg["workers"] > 1 and draw(st.booleans()):
        b.actor()
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.integers(0, 11))
        if k < 3:
            hold.append(b.put(keep=True))
        elif k < 6 and hold:
            b.ops.append({"op": "mutate", "r": b.pick(hold)})
        elif k < 8:
            b.task(kinds=("digest", "pack", "echo"), mutate_after=True, p_ref=0.4)
        elif k < 9:
            v = draw(gen.mutable)
            b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": "keep", "n": 1, "v": v}, "args": [], "kw": [],
                          "via": "decl"})
            b._outs(1, False)
        elif k < 10:
            b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": "poke", "n": 1}, "args": [], "kw": [],
                          "via": "decl"})
            b._outs(1, False)
        elif b.actors:
            b.call(methods=("alias", "add", "read"), p_ref=0.7)
            if draw(st.booleans()):
                b.ops[-1]["mutate_after"] = True
        else:
            b.get()
    for r in hold:
        if draw(st.booleans()):
            b.ops.append({"op": "mutate", "r": r})
    if draw(st.booleans()) and b.live:
        b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": "digest", "n": 1},
                      "args": [["r", r] for r in b.live], "kw": [], "via": "decl"})
        b._outs(1, False)
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


class Snapshots(SimPart):
    name = "sim-snapshots"
    quick = 800
    thorough = 25000

    def case(self):
        return snapshots()

    def nontrivial(self, case, info):
        return any(o["op"] == "mutate" or o.get("mutate_after") or o.get("meta", {}).get("k") == "poke"
                   or o.get("m") == "alias" for o in case["ops"])


# ------------------------------------------------------------------------------ C04: num_returns
@st.composite
def shapes(draw):
    cfg = draw(gen.sim_cfg(2, 4))
    b = gen.Builder(draw, value=gen.small, max_n=9)
    if draw(st.booleans()):
        b.actor()
        if cfg["workers"] > 2 and draw(st.booleans()):
            b.actor("AsyncAccount")
    for _ in range(draw(st.integers(2, 9))):
        n = b.pick([0, 0, 1, 1, 2, 3, 5, 9])
        k = draw(st.integers(0, 9))
        if k < 3 and b.actors:
            a = b.pick(b.actors)
            if b.ops[[i for i, o in enumerate(b.ops) if o["op"] == "actor"][a]]["cls"] == "AsyncAccount":
                b.call(a, n=n, methods=("work", "sync"))
            else:
                b.call(a, n=n)
        elif k < 8:
            b.task(n=n, kinds=("digest", "pack", "gen"))
        elif k < 9:
            vals = [draw(gen.small) for _ in range(max(n, 1))]
            b.ops.append({"op": "task", "meta": {"uid": b.newuid(), "k": "vals" if n else "none", "n": n, "vals": vals,
                                                 "seq": b.pick(["list", "tuple"])},
                          "args": [], "kw": [], "via": b.pick(["decl", "opt"])})
            b._outs(n, False)
        else:
            b.get()
    b.ops.append({"op": "quiesce"})
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


class Shapes(SimPart):
    name = "sim-shapes"
    quick = 800
    thorough = 25000
    strict_exec = True

    def case(self):
        return shapes()

    def nontrivial(self, case, info):
        return any(o.get("meta", {}).get("n", 1) != 1 for o in case["ops"])


# ------------------------------------------------------------------------------ C05: failures
@st.composite
def failures(draw):
    cfg = draw(gen.sim_cfg(2, 5))
    b = gen.Builder(draw, fail=0.4, value=gen.small)
    actors = []
    if draw(st.booleans()):
        actors.append((b.actor(), "s"))
    if draw(st.booleans()):
        actors.append((b.actor("AsyncAccount"), "a"))
    while len(actors) >= cfg["workers"]:
        actors.pop()
        b.actors.pop()
        b.nact -= 1
        b.ops.pop()
    for _ in range(draw(st.integers(2, 11))):
        k = draw(st.integers(0, 11))
        if k < 6:
            b.task()
        elif k < 9 and actors:
            a, kind = b.pick(actors)
            if kind == "s":
                b.call(a)
            else:
                asynccall(b, a, fail=0.4)
        elif k < 10:
            b.get()
        elif k < 11:
            b.wait()
        else:
            b.put()
    if draw(st.booleans()):
        b.ops.append({"op": "quiesce"})
    b.getall()
    # fetch again: a failure is raised at every fetch
    for r in b.live:
        if draw(st.booleans()):
            b.ops.append({"op": "get", "r": r if draw(st.booleans()) else [r, b.pick(b.live)]})
    # unrelated work afterwards
    n0 = len(b.ops)
    safe = [r for r in b.live if r not in b.tainted]
    b.fail = 0
    for _ in range(draw(st.integers(1, 3))):
        safe += b.task(refs=safe)
    for a, kind in actors:
        if kind == "s":
            safe += b.call(a, refs=safe, methods=("read",), n=1)
    for r in safe[-6:]:
        b.ops.append({"op": "get", "r": r})
    del n0
    return {"ops": b.ops, "cfg": cfg}


def asynccall(b, a, fail=0.0, n=None, refs=None, await_=None, set_=(), set_first=(), m=None):
    args, kw = b.args(refs, 2, nested=False)
    m = m or b.pick(["work", "work", "work", "sync"])
    n = b.pick([1, 1, 1, 2, 0]) if n is None else n
    meta = {"uid": b.newuid(), "n": n, "steps": b.pick([0, 1, 3]), "steps2": b.pick([0, 0, 2])}
    if await_ is not None and m == "work":
        meta["await"] = await_
    if set_:
        meta["set"] = list(set_)
    if set_first and m == "work":
        meta["set_first"] = list(set_first)
    if b.coin(0.15):
        meta["size"] = b.pick(gen.SIZES[1:])
    failing = False
    if fail and b.coin(fail):
        meta["exc"] = b.pick([e for e in gen.prog.EXCS if e != "StopIteration"])
        failing = True
    b.ops.append({"op": "call", "a": a, "m": m, "meta": meta, "args": args, "kw": kw, "via": b.pick(["decl", "opt"])})
    return b._outs(n, failing or b._bad(args, kw))


class Failures(SimPart):
    name = "sim-failures"
    quick = 900
    thorough = 25000

    def case(self):
        return failures()

    def nontrivial(self, case, info):
        return any(o.get("meta", {}).get("exc") for o in case["ops"])


# ------------------------------------------------------------------------------ C06: wait
@st.composite
def waits(draw):
    cfg = draw(gen.sim_cfg(2, 5))
    b = gen.Builder(draw, fail=draw(st.sampled_from([0, 0.3])), value=gen.small)
    gated = []
    blocked = set()          # slots that cannot complete before the gate opens
    ngate = 0
    async_a = None
    if cfg["workers"] > 2 and draw(st.booleans()):
        b.actor()
    if cfg["workers"] > 1 + b.nact and draw(st.booleans()):
        async_a = b.actor("AsyncAccount")
    maxgate = cfg["workers"] - b.nact - 1
    # a gated body occupies its worker: everything queued behind it is blocked as well, so gates come last
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 9))
        if k < 5:
            b.task()
        elif k < 7 and b.actors:
            a = b.pick(b.actors)
            if a == async_a:
                asynccall(b, a, fail=b.fail)
            else:
                b.call(a)
        elif k < 8:
            b.put()
        elif k < 9:
            b.wait()
        else:
            b.get()
    if maxgate > 0 and draw(st.booleans()):
        free = list(b.live)
        if draw(st.booleans()):
            b.ops.append({"op": "quiesce"})
            surely = set(free)
        else:
            # a worker that executes a gated body serves no data: only calls that need none of it complete for sure
            surely = independent(b.ops)
        for _ in range(draw(st.integers(1, maxgate))):
            ngate += 1
            fail, b.fail = b.fail, 0
            out = b.task(kinds=("digest", "gen"), n=b.pick([1, 2]), refs=[r for r in free if r not in b.tainted],
                         gate=f"gate-{ngate}")
            b.fail = fail
            gated.append(out)
            blocked.update(out)
        allr = free + sorted(blocked)
        for _ in range(draw(st.integers(1, 2))):
            k = draw(st.integers(1, len(allr)))
            rs = list(draw(st.permutations(allr)))[:k]
            can = [r for r in rs if r not in blocked and r in surely]
            if can:
                b.ops.append({"op": "wait", "r": rs, "n": draw(st.integers(1, len(can))), "adopt": b.coin(0.5)})
        for g in range(1, ngate + 1):
            b.ops.append({"op": "open", "gate": f"gate-{g}"})
    for _ in range(draw(st.integers(1, 3))):
        b.wait()
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


def independent(ops):
    """Slots of puts and of remote functions that use no output of another call."""
    out, n = set(), 0
    for o in ops:
        if o["op"] == "put":
            k, ok = 1, True
        elif o["op"] in ("task", "call"):
            k = o["meta"].get("n", 1)
            ok = o["op"] == "task" and not uses(o, set(range(n)) - out_puts(ops))
        else:
            continue
        if ok:
            out.update(range(n, n + k))
        n += k
    return out


def out_puts(ops):
    out, n = set(), 0
    for o in ops:
        if o["op"] == "put":
            out.add(n)
            n += 1
        elif o["op"] in ("task", "call"):
            n += o["meta"].get("n", 1)
    return out


class Waits(SimPart):
    name = "sim-waits"
    quick = 900
    thorough = 25000

    def case(self):
        return waits()

    def nontrivial(self, case, info):
        return sum(1 for o in case["ops"] if o["op"] == "wait" and len(o["r"]) > 1) >= 1

    def history(self, case, model, r):
        out = exec_problems(model, r)
        out += ready_problems(case["ops"], r.result, [x[1:] for x in r.notes])
        return out


def slot_uids(ops):
    """slot -> uid of the call that produces it (None for put)."""
    out = []
    for o in ops:
        if o["op"] == "put":
            out.append(None)
        elif o["op"] in ("task", "call"):
            out += [o["meta"]["uid"]] * o["meta"].get("n", 1)
    return out


def ready_problems(ops, obs, events):
    """Every reference wait() reported as ready belongs to a call that had ended by then."""
    uids = slot_uids(ops)
    started = {e[1] for e in events if e[0] == "start"}
    ended = set()
    out = []
    for e in events:
        if e[0] == "end":
            ended.add(e[1])
        elif e[0] == "waited":
            got = obs.get(e[1])
            for s in (got[1] if got and got[0] == "wait" else []):
                u = uids[s] if isinstance(s, int) else None
                # a call that never starts (its argument failed) is complete without running
                if u is not None and u in started and u not in ended:
                    out.append(f"op {e[1]}: wait reported reference {s} as ready although call {u} had not finished")
    return out


# ------------------------------------------------------------------------------ C07: actors
@st.composite
def actors(draw):
    cfg = draw(gen.sim_cfg(2, 5))
    b = gen.Builder(draw, fail=draw(st.sampled_from([0, 0, 0.2])), value=gen.small)
    maxa = cfg["workers"] - 1
    for _ in range(draw(st.integers(1, maxa))):
        b.actor()
    dropped = 0
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.integers(0, 15))
        if k < 8 and b.actors:
            b.call(p_ref=0.6)
        elif k < 11:
            b.task()
        elif k < 12:
            b.put()
        elif k < 14:
            b.get()
        elif k < 15 and len(b.actors) > 1:
            b.dropactor()
            dropped += 1
        elif len(b.actors) < maxa:
            b.actor()
    for a in list(b.actors):
        b.call(a, refs=[], methods=("read",), n=1)
    if draw(st.booleans()):
        b.ops.append({"op": "quiesce"})
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


class Actors(SimPart):
    name = "sim-actors"
    quick = 900
    thorough = 25000

    def case(self):
        return actors()

    def nontrivial(self, case, info):
        return sum(1 for o in case["ops"] if o["op"] == "call") >= 3

    def history(self, case, model, r):
        return exec_problems(model, r, self.strict(case)) + order_problems(case["ops"], r)


def order_problems(ops, r):
    """Calls of one actor start in the order they were made and never overlap."""
    owner = {}
    for o in ops:
        if o["op"] == "call":
            owner[o["meta"]["uid"]] = o["a"]
    seen, running, out = {}, {}, []
    for ev in r.notes:
        if ev[1] == "start" and ev[2] in owner:
            a = owner[ev[2]]
            if running.get(a) is not None:
                out.append(f"call {ev[2]} of actor {a} started while call {running[a]} was running")
            if ev[2] < seen.get(a, -1):
                out.append(f"call {ev[2]} of actor {a} started after the later call {seen[a]}")
            seen[a] = max(seen.get(a, -1), ev[2])
            running[a] = ev[2]
        elif ev[1] == "end" and ev[2] in owner:
            running[owner[ev[2]]] = None
    return out


# ------------------------------------------------------------------------------ C08: async actors
@st.composite
def asyncs(draw):
    cfg = draw(gen.sim_cfg(2, 4))
    b = gen.Builder(draw, value=gen.small)
    fail = draw(st.sampled_from([0, 0, 0.25]))
    acts = [b.actor("AsyncAccount") for _ in range(draw(st.integers(1, cfg["workers"] - 1)))]
    key = 0
    pending = []             # (actor, key) awaited by a call already made; a later call must set it
    late = set()             # slots that depend on a call still waiting for its setter
    for _ in range(draw(st.integers(3, 12))):
        k = draw(st.integers(0, 12))
        a = b.pick(acts)
        early = [r for r in b.live if r not in late]
        if k < 3:
            key += 1
            new = asynccall(b, a, await_=key, m="work", refs=early, fail=fail)
            pending.append((a, key))
            late.update(new)
        elif k < 5 and pending:
            a, kk = b.pick(pending)
            pending.remove((a, kk))
            asynccall(b, a, set_=[kk], refs=[r for r in early if r not in b.tainted], m=b.pick(["work", "sync"]))
        elif k < 8:
            n0 = b.nslots
            asynccall(b, a, fail=fail)
            if uses(b.ops[-1], late):
                late.update(range(n0, b.nslots))
        elif k < 10 and cfg["workers"] > len(acts):
            n0 = b.nslots
            b.task()
            if uses(b.ops[-1], late):
                late.update(range(n0, b.nslots))
        elif k < 11:
            b.get(early)
        else:
            b.put()
    slow = []
    if pending and cfg["workers"] > len(acts) and draw(st.booleans()):
        # what the calls wait for comes late: their outputs are requested by tasks and by the program before
        for _ in range(draw(st.integers(1, 4))):
            slow = b.task(kinds=("digest",), n=1, refs=slow, p_ref=1.0)
        outs = [r for r in b.live if r in late]
        for _ in range(draw(st.integers(0, 2))):
            b.task(kinds=("digest",), n=1, refs=outs, p_ref=1.0)
    for a, kk in draw(st.permutations(pending)) if pending else []:
        asynccall(b, a, set_=[kk], refs=slow, m=b.pick(["work", "sync"]))
    if slow and draw(st.booleans()):
        b.ops += [{"op": "get", "r": r} for r in draw(st.permutations(outs))[:2]]
    if draw(st.booleans()) and b.live:
        # a dependent of several results, on the same actor or elsewhere
        asynccall(b, b.pick(acts), refs=b.live, n=1)
    for _ in range(draw(st.integers(0, 2)) if b.live else 0):
        b.wait()
    if draw(st.booleans()):
        b.ops.append({"op": "quiesce"})
    b.getall()
    return {"ops": b.ops, "cfg": cfg}


def uses(op, slots):
    hit = []

    def walk(a):
        if a[0] == "r":
            if a[1] in slots:
                hit.append(a[1])
        elif a[0] in ("list", "tuple"):
            for x in a[1]:
                walk(x)
        elif a[0] == "dict":
            for _, x in a[1]:
                walk(x)

    for a in op.get("args", []):
        walk(a)
    for _, a in op.get("kw", []):
        walk(a)
    return bool(hit)


class Asyncs(SimPart):
    name = "sim-async"
    quick = 800
    thorough = 25000

    def case(self):
        return asyncs()

    def nontrivial(self, case, info):
        return any("await" in o.get("meta", {}) for o in case["ops"])

    def history(self, case, model, r):
        return exec_problems(model, r, self.strict(case)) + ready_problems(
            case["ops"], r.result, [x[1:] for x in r.notes])
