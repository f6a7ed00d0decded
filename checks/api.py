"""C22: uses and misuses of the public API."""
from checks import real
from checks.common import base_problems, st
from vlib import apicase, gen, harness, simrun
from vlib.real import plain_dicts

NONREF = ["none", "object", "func", "class", "len", "partial", "remote_func", "actor_class", "actor", "method"]
SCALAR = st.sampled_from([["int", "0"], ["int", "-5"], ["str", "abc"], ["bytes", "616263"], ["none"]])


def bad_item(depth=1):
    base = st.one_of(st.sampled_from([[k] for k in NONREF]), gen.small.map(lambda v: ["v", v]))
    if depth:
        base = st.one_of(base, st.lists(st.just(["ref", 0]), min_size=1, max_size=2).map(lambda x: ["list", x]))
    return base


@st.composite
def bad_refs(draw):
    """Something that is not a reference nor a list of references."""
    if draw(st.booleans()):
        return [draw(st.sampled_from(["none", "object", "func", "class", "len", "partial", "remote_func", "actor_class",
                                      "actor", "method"]))]
    good = [["ref", draw(st.integers(0, 3))] for _ in range(draw(st.integers(0, 3)))]
    bad = [draw(bad_item()) for _ in range(draw(st.integers(1, 2)))]
    return ["list", list(draw(st.permutations(good + bad)))]


@st.composite
def steps(draw):
    out = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 13))
        if k == 0:
            o = {"p": "put", "v": draw(gen.small)}
        elif k in (1, 2, 3):
            form = draw(st.sampled_from(["bare", "decl", "opt", "optover", "optnone"]))
            o = {"p": "call", "form": form, "n": 1 if form == "bare" else draw(st.integers(0, 5)),
                 "lam": draw(st.booleans()), "args": draw(st.lists(gen.small, min_size=1, max_size=3)),
                 "kw": draw(st.lists(st.tuples(st.sampled_from(["c", "zz", "w1"]), gen.small), max_size=2,
                                     unique_by=lambda x: x[0])), "useref": draw(st.booleans())}
            if form == "optover":
                o["n0"] = draw(st.integers(0, 5))
        elif k == 4:
            o = {"p": "actor", "cls": draw(st.sampled_from(list(apicase.CLASSES))), "x": draw(st.integers(-5, 5)),
                 "args": [], "opt": draw(st.booleans())}
            if o["cls"] != "NoInit":
                o["args"] = draw(st.lists(st.integers(0, 9), max_size=3))
        elif k == 5:
            o = {"p": draw(st.sampled_from(["waitone", "empty", "state"])), "v": draw(gen.small)}
        elif k == 6:
            o = {"p": "isref", "x": draw(st.one_of(
                st.sampled_from([[x] for x in apicase.SPECIALS]), st.just(["ref", 0]),
                st.sampled_from([["list", [["ref", 0]]], ["tuple", [["ref", 0]]], ["dict", ["ref", 0]]]),
                gen.small.map(lambda v: ["v", v])))}
        elif k in (7, 8):
            o = {"p": "deco", "n": draw(st.one_of(
                st.integers(-4, 5).map(lambda x: ["int", str(x)]), st.just(["none"]),
                st.sampled_from([["float", "2.0"], ["float", "0.5"], ["str", "2"], ["bytes", "32"], ["bool", True],
                                 ["int", "-99999999999999999999"]]))),
                 "target": draw(st.sampled_from(["func", "func", "class", ["object"], ["len"], ["partial"], ["bound"],
                                                 ["callable"], ["none"], ["v", ["int", "3"]]]))}
            if o["n"] == ["none"] and isinstance(o["target"], list):
                o["n"] = ["int", "1"]
        elif k == 9:
            o = {"p": "bare", "x": draw(st.sampled_from([["object"], ["len"], ["partial"], ["bound"], ["callable"], ["none"],
                                                         ["v", ["int", "3"]], ["v", ["str", "f"]], ["remote_func"]]))}
        elif k == 10:
            o = {"p": "remote", "form": draw(st.sampled_from(["nothing", "two", "mixed"]))}
        elif k == 11:
            o = {"p": "direct", "what": draw(st.sampled_from(["func", "class", "method", "decl"])),
                 "args": draw(st.lists(gen.small, max_size=2))}
        elif k == 12:
            o = {"p": "get", "x": draw(bad_refs())}
        else:
            o = {"p": "wait", "x": draw(bad_refs())}
        o["then"] = draw(st.booleans()) or o["p"] in ("get", "wait")
        out.append(o)
    return out


def misuse(case):
    return any(o["p"] in ("deco", "bare", "remote", "direct", "get", "wait") for o in case["steps"])


def labels(case):
    return sorted({o["p"] for o in case["steps"]})


class SimApi(harness.Part):
    name = "sim-api"
    quick = 300
    thorough = 10000

    def case(self):
        return st.fixed_dictionaries({"steps": steps(), "cfg": gen.sim_cfg(3, 4)})

    def run(self, case):
        self.info = {}
        r = simrun.run(case["steps"], case["cfg"], driver=apicase.driver)
        bad = base_problems(r)
        return bad or apicase.problems(case["steps"], r.result)

    def nontrivial(self, case, info):
        return misuse(case)

    def classify(self, case, info):
        return labels(case)


class RealApi(real.RealPart):
    def __init__(self, backend, quick):
        super().__init__(backend, steps, quick=quick)
        self.name = f"{backend}-api"

    def case(self):
        return st.fixed_dictionaries({"steps": steps()})

    def run(self, case):
        self.info = {}
        steps = plain_dicts(case["steps"]) if self.backend == "dask" else case["steps"]
        r = self.request({"api": steps})
        if r is None:
            self.info["nosession"] = True
            return []
        if r.status != "ok":
            return [f"{r.status}: {r.detail}\n{r.stderr[-1500:]}"]
        return apicase.problems(steps, r.result)

    def nontrivial(self, case, info):
        return not info.get("nosession") and misuse(case)

    def classify(self, case, info):
        return ["not run: the backend does not start here"] if info.get("nosession") else labels(case)


def parts():
    return [SimApi()] + [RealApi(b, q) for b, q in (("pyseq", 400), ("pymp", 60), ("dask", 60), ("ray", 60), ("mpi", 0),
                                                     ("mpi-shared", 0))]
