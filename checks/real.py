"""The same generated programs on the real backends (Python Sequential, Multiprocessing, Dask, Ray, real MPI)."""
import atexit

from hypothesis import strategies as st

from checks import sims, sims2
from checks.common import SimPart, exec_problems, uids_of
from vlib import gen, prog, real

QUICK = {"pyseq": 150, "pymp": 80, "dask": 50, "ray": 60, "mpi": 0, "mpi-shared": 0}
THOROUGH = {"pyseq": 6000, "pymp": 3000, "dask": 1500, "ray": 2000, "mpi": 1500, "mpi-shared": 1500}


class RealPart(SimPart):
    """Runs programs in a session of a real backend."""

    shards = 1
    weight = 2
    budget = 25
    shrink_seconds = 60
    confirm = 1

    def __init__(self, backend, source, order=False, ready=False, nontrivial=None, quick=None):
        self.backend = backend
        self.source = source
        self.order, self.ready = order, ready
        self.name = f"{backend}-{source.__name__.replace('_', '-')}"
        self.quick = QUICK[backend] if quick is None else quick
        self.thorough = THOROUGH[backend]
        self._nontrivial = nontrivial
        self.slow = 0

    def setup(self):
        self.session = real.Session(self.backend)
        self.dead = False
        atexit.register(self.session.stop)

    def teardown(self):
        self.session.stop()

    def case(self):
        return self.source().map(lambda c: {"ops": real.adapt(c["ops"], self.backend, prog.Model, uids_of)})

    def request(self, req):
        """Runs it; a program that does not finish is tried again in a fresh session, with more time."""
        if self.dead:
            return None
        try:
            if self.slow:
                return self.session.request(req, 12)
            r = self.session.request(req, 25)
            if r.status != "ok":
                r = self.session.request(req, 45)
                if r.status != "ok":
                    self.slow += 1
            return r
        except real.NoSession as e:
            self.dead = True
            self.why = str(e)
            return None

    def run(self, case):
        ops = case["ops"]
        model = prog.Model()
        model.run(ops)
        self.info = {}
        r = self.request({"ops": ops, "expect": sorted(model.executed)})
        if r is None:
            self.info["nosession"] = True
            return []
        return self.judge(case, model, r)

    def judge(self, case, model, r):
        if r.status != "ok":
            return [f"{r.status}: {r.detail}\n{r.stderr[-1500:]}"]
        problems = []
        for kind, i, o, text in prog.compare(case["ops"], model, r.result, backend=self.backend):
            problems.append(f"op {i} {o['op']}: {text}")
        problems += exec_problems(model, r, self.strict(case))
        if self.order:
            problems += sims.order_problems(case["ops"], r)
        if self.ready:
            problems += sims.ready_problems(case["ops"], r.result, [x[1:] for x in r.notes])
        return problems

    def nontrivial(self, case, info):
        if info.get("nosession"):
            return False
        return self._nontrivial(self, case, info) if self._nontrivial else gen.depth_of(case["ops"]) >= 2

    def classify(self, case, info):
        if info.get("nosession"):
            yield "not run: the backend does not start here"
            return
        for k in gen.summarize(case["ops"]):
            yield "has " + k


def pymp_sched():
    return st.one_of(sims2.sched(workers=real.CPUS), sims2.one_actor(real.CPUS))


class Placement(RealPart):
    """C16 on the Multiprocessing backend, which schedules by itself."""

    confirm = 10     # what happens depends on where the previous program has stopped

    def __init__(self):
        super().__init__("pymp", pymp_sched, quick=50, nontrivial=lambda self, case, info: any(
            o["op"] == "actor" for o in case["ops"]))
        self.name = "pymp-sched"

    def judge(self, case, model, r):
        out = super().judge(case, model, r)
        return out or sims2.place_problems({"ops": case["ops"], "cfg": {"workers": real.CPUS, "homes": False}}, r)


def parts(prop):
    if prop == "C16":
        return [Placement()]
    nt = {"C01": sims.Dag, "C02": sims.Values, "C03": sims.Snapshots, "C04": sims.Shapes, "C05": sims.Failures,
          "C06": sims.Waits, "C07": sims.Actors, "C08": sims.Asyncs}
    src = {"C01": sims.dag, "C02": sims.values_prog, "C03": sims.snapshots, "C04": sims.shapes, "C05": sims.failures,
           "C06": sims.waits, "C07": sims.actors, "C08": sims.asyncs}
    if prop not in src:
        return []
    backends = ["pyseq", "pymp", "dask", "ray", "mpi", "mpi-shared"]
    if prop == "C03":
        backends = ["pymp", "ray", "mpi", "mpi-shared"]
    if prop == "C08":
        backends = ["ray", "mpi", "mpi-shared"]
    return [RealPart(b, src[prop], order=prop == "C07" and b in ("pymp", "ray", "mpi", "mpi-shared"), ready=prop == "C06",
                     nontrivial=nt[prop].nontrivial) for b in backends]
