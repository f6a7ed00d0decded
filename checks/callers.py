"""C07: one actor called by the program and by several remote calls at the same time."""
from checks.common import base_problems, harness, simrun, st
from vlib import gen, prog, simmpi
from vlib.values import digest


def _one(x, *rest):
    return x


def _fail(x):
    raise ValueError(f"boom{x}")


def _make(handle, calls):
    """Makes the calls without waiting for any of them."""
    import unidist

    one, fail = unidist.remote(_one), unidist.remote(_fail)
    out = []
    for uid, kind, n, kw in calls:
        if kind == "put":
            x = unidist.put(uid)
        elif kind == "task":
            x = one.remote(uid)
        elif kind == "chain":
            x = one.remote(one.remote(uid))
        elif kind == "fail":
            x = fail.remote(uid)
        elif kind == "via":
            # depends on a call of the same actor that is made elsewhere
            x = unidist.remote(_via).remote([handle], -uid)
        else:
            x = uid
        f = handle.add.options(num_returns=n)
        out.append(f.remote({"uid": uid, "n": n}, value=x) if kw else f.remote({"uid": uid, "n": n}, x))
    return out


def _via(handles, uid):
    import unidist

    unidist.get(handles[0].add.remote({"uid": uid, "n": 1}, uid))
    return -uid


def _caller(handles, calls):
    prog.record("caller", calls[0][0])
    _make(handles[0], calls)
    return None


def driver(ops, cfg):
    import unidist as u

    a = u.remote(prog.Account).remote()
    caller = u.remote(num_returns=0)(_caller)
    refs = {}
    for kind, calls in ops["plan"]:
        if kind == "caller":
            caller.remote([a], calls)
        elif kind == "quiesce":
            simmpi.quiesce()
        else:
            for c, r in zip(calls, _make(a, calls)):
                refs[c[0]] = r
    simmpi.quiesce()
    log = u.get(a.read.remote({"uid": 0}))
    got = {}
    for uid, r in refs.items():
        if r is not None:
            try:
                got[uid] = u.get(r)
            except ValueError as e:
                got[uid] = str(e)
    return {"log": log, "got": got}


@st.composite
def callers(draw):
    cfg = draw(gen.sim_cfg(3, 5, hosts=2, shm_mem=(1 << 21,)))
    uid = 0
    plan = []
    # with calls that wait for another call of the actor, the other callers have nothing pending in front of it
    via = draw(st.booleans())
    for _ in range(draw(st.integers(2, 5))):
        kind = draw(st.sampled_from(["caller", "caller", "root", "root", "quiesce"]))
        calls = []
        for _ in range(draw(st.integers(1, 5)) if kind != "quiesce" else 0):
            uid += 1
            hows = ["value", "put"] if via else ["value", "put", "task", "task", "chain", "fail"]
            if via and kind == "root":
                hows += ["task", "fail", "via", "via"]
            calls.append([uid, draw(st.sampled_from(hows)),
                          draw(st.sampled_from([0, 1])), draw(st.booleans())])
        plan.append([kind, calls])
    return {"ops": {"plan": plan}, "cfg": cfg}


class Callers(harness.Part):
    name = "sim-callers"
    quick = 500
    thorough = 15000

    def case(self):
        return callers()

    def run(self, case):
        self.info = {}
        r = simrun.run(case["ops"], case["cfg"], driver=driver)
        p = base_problems(r)
        if p:
            return p
        log, got = r.result["log"], r.result["got"]
        out = []
        order = [e[0] for e in log]
        if order[0] != "init" or order[-1] != 0:
            return [f"the log of the actor is {log}"]
        seqs, want = [[]], {}
        for kind, calls in case["ops"]["plan"]:
            seq = seqs[0] if kind == "root" else []
            if kind == "caller":
                seqs.append(seq)
            for uid, how, n, kw in calls:
                if how == "via":
                    seqs.append([-uid, uid])
                    want[-uid] = digest([[-uid], {}])
                if how != "fail":
                    seq.append(uid)
                    want[uid] = digest([[], {"value": uid}] if kw else [[uid], {}])
                if kind == "root" and n:
                    expect = f"boom{uid}" if how == "fail" else order.index(uid) + 1 if uid in order else None
                    if got.get(uid) != expect:
                        out.append(f"call {uid} returned {got.get(uid)!r}, expected {expect!r} from the log {order}")
        if sorted(order[1:-1]) != sorted(want):
            out.append(f"calls {sorted(want)} were made, but the actor has executed {order[1:-1]}")
        for e in log[1:-1]:
            if want.get(e[0], e[1]) != e[1]:
                out.append(f"call {e[0]} got other arguments than it was given")
        for seq in seqs:
            at = [order.index(u) for u in seq if u in order]
            if at != sorted(at):
                out.append(f"one caller made the calls {seq}, but the actor has executed {order[1:-1]}")
        return out[:4]

    def nontrivial(self, case, info):
        return sum(k != "quiesce" for k, _ in case["ops"]["plan"]) >= 2

    def classify(self, case, info):
        for k, _ in case["ops"]["plan"]:
            yield k
