"""Shared by the checks: simulated-MPI program parts."""
import json
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from hypothesis import strategies as st  # noqa: E402,F401

from vlib import gen, harness, prog, simrun  # noqa: E402


class SimPart(harness.Part):
    """Programs on the real MPI backend under simulated MPI with a generated schedule."""

    backend = "mpi"
    kinds = None        # which kinds of difference this property is about (None: all)
    ignore_exec = False

    def run(self, case):
        ops, cfg = case["ops"], case["cfg"]
        r = simrun.run(ops, cfg)
        model = prog.Model()
        model.run(ops)
        self.info = {"grants": r.grants, "races": r.races, "msgs": r.msgs}
        return self.judge(case, model, r)

    exempt_overflow = True   # a store that is too small for everything the program stores is out of scope

    def judge(self, case, model, r):
        problems = base_problems(r)
        if problems:
            if self.exempt_overflow and r.status == "crash" and "MemoryError" in r.detail and overflow_possible(case, model):
                self.info["overflow"] = True
                return []
            return problems
        for kind, i, o, text in prog.compare(case["ops"], model, r.result):
            if self.kinds is None or kind in self.kinds:
                problems.append(f"op {i} {o['op']}: {text}")
        problems += self.history(case, model, r)
        return problems

    def history(self, case, model, r):
        return exec_problems(model, r, self.strict(case))

    def strict(self, case):
        """The calls that were submitted before the last point of quiescence."""
        last = max((i for i, o in enumerate(case["ops"]) if o["op"] == "quiesce"), default=-1)
        return {u for o in case["ops"][: last + 1] for u in uids_of(o)}

    def nontrivial(self, case, info):
        return gen.depth_of(case["ops"]) >= 2

    def classify(self, case, info):
        yield "sched=" + case["cfg"]["sched"]
        yield "shared" if case["cfg"].get("shared") else "local"
        if info.get("races"):
            yield "delivery races"
        if info.get("overflow"):
            yield "shared store too small (not judged)"
        for k in gen.summarize(case["ops"]):
            yield "has " + k


def base_problems(r):
    if r.status == "ok":
        bad = [x for x in r.notes if x[1] == "isend-buffer-modified"]
        if bad:
            return [f"rank {bad[0][0]} modified a buffer while its asynchronous send was still in flight"]
        return []
    return [f"{r.status}: {r.detail[-1800:]}\nlast events: {list(r.trace)[-25:]}\n{r.stderr[-1500:]}"]


def uids_of(o):
    meta = o.get("meta") or {}
    out = [meta["uid"]] if "uid" in meta else []
    out += [st_[1] for st_ in meta.get("sub", []) if st_[0] in ("task", "tk")]
    out += [c[0] for c in meta.get("calls", [])]
    return out


def exec_problems(model, r, strict=False):
    """Every body ran at most once; those in `strict` (True: all) that the model executes exactly once."""
    starts = {}
    for ev in r.notes:
        if ev[1] == "start":
            starts[ev[2]] = starts.get(ev[2], 0) + 1
    out = []
    for u, c in starts.items():
        if c > 1:
            out.append(f"the body of call {u} executed {c} times")
    if strict:
        for u in sorted(model.executed):
            if u not in starts and (strict is True or u in strict):
                out.append(f"the body of call {u} never executed")
    return out


def overflow_possible(case, model):
    """Whether all values of the program together might not fit in the shared store."""
    total = sum(_size(v) + 200 for v in model.slots)
    for o in case["ops"]:
        if o["op"] == "churn":
            total += o["k"] * (o["size"] + 300)
        total += 12 * len(json.dumps(o)) + 60000 * ("actor" == o["op"])
    return total * 1.2 > case["cfg"].get("shm_mem", 0)


def _size(v):
    import numpy as np

    if isinstance(v, (list, tuple, set, frozenset)):
        return 60 + sum(_size(x) for x in v)
    if isinstance(v, dict):
        return 60 + sum(_size(x) + _size(y) for x, y in v.items())
    if isinstance(v, np.ndarray):
        return v.nbytes + 200
    if isinstance(v, (bytes, bytearray, str)):
        return len(v) + 40
    if v is None or isinstance(v, (int, float, complex)):
        return 32
    if hasattr(v, "__dict__") and not type(v).__module__.startswith("pandas"):
        return 200 + _size(v.__dict__)
    import pickle

    try:
        return len(pickle.dumps(v)) + 200
    except Exception:
        return 20000
