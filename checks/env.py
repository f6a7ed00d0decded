"""C20 (configuration reaches every process) and C21 (roles and resources)."""
import os
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from hypothesis import strategies as st  # noqa: E402

from vlib import gen, harness, simmpi, simmpi_link, simrun  # noqa: E402
from checks.common import base_problems  # noqa: E402
from checks.conf import forked  # noqa: E402

NAMES = ["CpuCount", "MpiSpawn", "MpiHosts", "MpiPickleThreshold", "MpiBackoff", "MpiLog", "MpiSharedObjectStore",
         "MpiSharedObjectStoreMemory", "MpiSharedServiceMemory", "MpiSharedObjectStoreThreshold"]
VARS = {"CpuCount": "UNIDIST_CPUS", "MpiHosts": "UNIDIST_MPI_HOSTS", "MpiPickleThreshold": "UNIDIST_MPI_PICKLE_THRESHOLD",
        "MpiBackoff": "UNIDIST_MPI_BACKOFF", "MpiLog": "UNIDIST_MPI_LOG",
        "MpiSharedObjectStore": "UNIDIST_MPI_SHARED_OBJECT_STORE",
        "MpiSharedObjectStoreMemory": "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY",
        "MpiSharedServiceMemory": "UNIDIST_MPI_SHARED_SERVICE_MEMORY",
        "MpiSharedObjectStoreThreshold": "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD"}


def _fresh():
    """Import unidist again: no parameter has been read."""
    for m in [m for m in sys.modules if m == "unidist" or m.startswith("unidist.")]:
        del sys.modules[m]
    for k in list(os.environ):
        if k.startswith("UNIDIST_"):
            del os.environ[k]


class Spawned(Exception):
    pass


class _Self:
    def Spawn(self, command, args=None, maxprocs=1, info=None, root=0):
        e = Spawned()
        e.rec = (command, list(args or []), maxprocs, dict(info or {}))
        raise e


class _World:
    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    rank = property(Get_rank)
    size = property(Get_size)


def apply(cfg, case):
    for n, v in case["put"]:
        getattr(cfg, n).put(v)
    if case["runtime"] is not None:
        cfg.MpiRuntimeEnv.put({"env_vars": dict(map(tuple, case["runtime"]))})


def snapshot(cfg):
    return {n: getattr(cfg, n).get() for n in NAMES}


def root_side(case):
    """What the program asks MPI to spawn, and the configuration it has set."""
    _fresh()
    for n, v in case["env"]:
        os.environ[VARS[n]] = v
    import unidist
    import unidist.config as cfg

    cfg.Backend.put("mpi")
    apply(cfg, case)
    MPI = simmpi.MODULE
    MPI.COMM_SELF, MPI.COMM_WORLD = _Self(), _World()
    try:
        unidist.init()
    except Spawned as e:
        rec = e.rec
    else:
        return {"error": "nothing was spawned"}
    return {"rec": rec, "config": snapshot(cfg), "runtime": cfg.MpiRuntimeEnv.get(), "exe": sys.executable}


def worker_side(case, args, inherit):
    """Execute what was spawned, with the initialization replaced by a recorder."""
    _fresh()
    if inherit:
        for n, v in case["env"]:
            os.environ[VARS[n]] = v
    for n in case.get("preset", ()):
        os.environ[n] = "preset"
    before = dict(os.environ)
    import unidist
    import unidist.config as cfg

    out = {}

    def record(*a, **k):
        out.update(config=snapshot(cfg), runtime=cfg.MpiRuntimeEnv.get(), backend=cfg.Backend.get(),
                   env={k: v for k, v in os.environ.items() if before.get(k) != v})

    unidist.init = record
    code = args[args.index("-c") + 1]
    exec(compile(code, "<spawned>", "exec"), {"__name__": "__main__"})
    return out


_name = st.one_of(st.sampled_from(["VP_A", "VP_B", "VP_lower", "vp.dotted", "VP-DASH", "VP 'Q'", 'VP"DQ"', "VP\\B", "VP{x}"]),
                  st.text(st.characters(exclude_characters="=\0", exclude_categories=("Cs",)), min_size=1, max_size=8).map(
                      lambda s: "VP" + s))
_val = st.one_of(st.text(st.characters(exclude_characters="\0", exclude_categories=("Cs",)), max_size=20),
                 st.sampled_from(["", "'", '"', "it's", "a;b", "\\", "x\\", "\\n", "a\nb", "{x}", "%s", "$HOME", "#c", "'; import os; '",
                                  "1", "True", "日本", " lead", "trail ", "'''", '"""', "\t"]),
                 st.integers(-5, 10**6), st.booleans())


@st.composite
def spawn_case(draw):
    put = {}
    env = {}

    def maybe(n, s, e=None):
        k = draw(st.integers(0, 3))
        if k == 0:
            put[n] = draw(s)
        elif k == 1 and n in VARS:
            env[n] = draw(e if e is not None else s.map(lambda v: str(v)))

    maybe("CpuCount", st.integers(1, 9))
    if draw(st.integers(0, 5)) == 0:
        put["MpiSpawn"] = True
    hosts = st.lists(st.sampled_from(["localhost", "host1", "10.0.0.2", "a-b.c", "Node_X"]), min_size=1, max_size=4, unique=True).map(",".join)
    maybe("MpiHosts", st.one_of(hosts, hosts, st.sampled_from(["it's", 'q"q', "a\\b", "x,y'"])))
    maybe("MpiPickleThreshold", st.integers(0, 10**7))
    maybe("MpiBackoff", st.one_of(st.floats(0.0, 10.0), st.sampled_from([1e-7, 1e-9, 123456.789, 0.1])),
          st.floats(0.0001, 10.0).map(lambda x: f"{x:.6f}"))
    maybe("MpiLog", st.booleans())
    maybe("MpiSharedObjectStore", st.booleans())
    maybe("MpiSharedObjectStoreMemory", st.integers(0, 2**35))
    maybe("MpiSharedServiceMemory", st.integers(0, 2**30))
    maybe("MpiSharedObjectStoreThreshold", st.integers(0, 10**6))
    runtime = None
    if draw(st.booleans()):
        runtime = [[k, v] for k, v in draw(st.dictionaries(_name, _val, max_size=4)).items()]
    order = draw(st.permutations(sorted(put)))
    # variables that exist already where the processes start
    preset = draw(st.lists(st.sampled_from([k for k, _ in runtime]), unique=True)) if runtime else []
    return {"put": [[n, put[n]] for n in order], "env": sorted(env.items()), "runtime": runtime, "inherit": draw(st.booleans()),
            "preset": preset}


def run_spawn(case):
    a = forked(lambda c: [root_side(c)], case)[0]
    if not isinstance(a, dict):
        return None, None, [f"initialization failed: {a}"]
    if "error" in a:
        return None, None, [a["error"]]
    args = a["rec"][1]
    if "-c" not in args:
        return a, None, None
    b = forked(lambda c: [worker_side(c, args, c["inherit"])], case)[0]
    if not isinstance(b, dict):
        return a, None, [f"the spawned program failed: {b}"]
    return a, b, None


class SpawnConfig(harness.Part):
    name = "spawned-configuration"
    quick = 1500
    thorough = 30000

    def case(self):
        return spawn_case()

    def run(self, case):
        self.info = {}
        try:
            a, b, p = run_spawn(case)
        except RuntimeError as e:
            return [f"the program or what it spawns failed: {str(e)[-600:]}"]
        if p:
            return p
        if b is None:
            self.info["skipped"] = True      # not started with inline code: the real runs decide
            return []
        out = []
        if b.get("backend") != "mpi":
            out.append(f"backend of the workers is {b.get('backend')!r}")
        if a["rec"][0] != a["exe"]:
            out.append(f"spawned {a['rec'][0]!r}")
        for n in NAMES:
            if a["config"][n] != b["config"][n] or type(a["config"][n]) is not type(b["config"][n]):
                out.append(f"{n} is {a['config'][n]!r} in the program but {b['config'][n]!r} in a worker")
        want = {}
        if case["runtime"]:
            want = {k: str(v) for k, v in case["runtime"]}
            for k, v in want.items():
                if b["env"].get(k) != v:
                    out.append(f"runtime variable {k!r} should be {v!r} but is {b['env'].get(k)!r} in a worker")
        extra = {k: v for k, v in b["env"].items() if k not in want}
        if extra:
            out.append(f"environment variables changed in a worker: {extra}")
        if a["runtime"] != b["runtime"]:
            out.append(f"MpiRuntimeEnv is {a['runtime']!r} in the program but {b['runtime']!r} in a worker")
        return out

    def nontrivial(self, case, info):
        return len(case["put"]) + len(case["env"]) >= 2

    def classify(self, case, info):
        if case["runtime"]:
            yield "runtime env"
        yield "inherits environment" if case["inherit"] else "bare environment"


class SpawnCount(harness.Part):
    """C21: the number of processes asked for, and their distribution."""

    name = "spawned-processes"
    quick = 700
    thorough = 15000

    def case(self):
        return spawn_case().filter(lambda c: all(x not in dict(map(tuple, c["put"])).get("MpiHosts", "") + dict(map(tuple, c["env"])).get("MpiHosts", "") for x in "'\"\\"))

    def run(self, case):
        self.info = {}
        a = forked(lambda c: [root_side(c)], case)[0]
        if not isinstance(a, dict) or "error" in a:
            return [f"initialization failed: {a}"]
        _, _, n, info = a["rec"]
        c = a["config"]
        hosts = c["MpiHosts"].split(",") if c["MpiHosts"] is not None else ["localhost"]
        want = c["CpuCount"] + (len(hosts) if c["MpiSharedObjectStore"] else 1)
        out = []
        if n != want:
            out.append(f"{n} processes are spawned, but {c['CpuCount']} workers and the monitors of {len(hosts)} hosts need {want}")
        if len(hosts) > 1:
            slots = {}
            for item in info.get("add-host", "").split(","):
                h, _, k = item.rpartition(":")
                slots[h] = slots.get(h, 0) + int(k or 0)
            if sorted(slots) != sorted(hosts) or sum(slots.values()) != want + 1:
                out.append(f"slots {slots} for hosts {hosts} and {want} processes besides the root")
            elif max(slots.values()) - min(slots.values()) > 1:
                out.append(f"slots {slots} are not balanced")
        return out

    def nontrivial(self, case, info):
        return any(n == "MpiHosts" for n, _ in case["put"] + case["env"])


# ------------------------------------------------------------------------------ single-program model
def _envs(names):
    return {n: os.environ.get(n) for n in names}


def spmd_driver(ops, cfg):
    import unidist

    f = unidist.remote(_envs)
    names = ops["names"]
    k = 2 * cfg["workers"]
    refs = [f.remote(names) for _ in range(k)]
    return {"workers": unidist.get(refs), "root": _envs(names)}


@st.composite
def spmd_case(draw):
    cfg = draw(gen.sim_cfg(1, 4, hosts=2))
    cfg["workers"] = len(simrun.hosts_of(cfg)) - 2
    runtime = draw(st.dictionaries(_name, _val, min_size=1, max_size=4))
    cfg["runtime"] = {"env_vars": runtime}
    cfg["env"] = dict.fromkeys(draw(st.lists(st.sampled_from(sorted(runtime)), unique=True)), "preset")
    return {"ops": {"names": sorted(runtime)}, "cfg": cfg}


class SpmdEnv(harness.Part):
    name = "sim-single-program"
    quick = 200
    thorough = 5000

    def case(self):
        return spmd_case()

    def run(self, case):
        self.info = {}
        r = simrun.run(case["ops"], case["cfg"], driver=spmd_driver)
        p = base_problems(r)
        if p:
            return p
        want = {k: str(v) for k, v in case["cfg"]["runtime"]["env_vars"].items()}
        out = []
        for i, got in enumerate(r.result["workers"]):
            if got != want:
                out.append(f"task {i} sees {got}, expected {want}")
        return out

    def nontrivial(self, case, info):
        return len(case["ops"]["names"]) >= 1


# ------------------------------------------------------------------------------ C21: layouts
def _where():
    from unidist.core.backends.mpi.core.communication import MPIState

    s = MPIState.get_instance()
    return s.global_rank


def layout_driver(ops, cfg):
    import unidist

    out = {"resources": unidist.cluster_resources(), "cpus": unidist.num_cpus()}
    if ops["tasks"]:
        f = unidist.remote(_where)
        out["ranks"] = unidist.get([f.remote() for _ in range(ops["tasks"])])
    return out


def roles(rank, hosts):
    """Called in every rank when it ends."""
    from unidist.core.backends.mpi.core.communication import MPIState

    s = MPIState.get_instance()
    if s is None:
        return
    n = s.global_size
    simmpi.note("roles", rank, {
        "rank": s.global_rank, "size": n, "host": s.host,
        "root": [r for r in range(n) if s.is_root_process(r)], "monitors": [r for r in range(n) if s.is_monitor_process(r)],
        "me": [s.is_root_process(), s.is_monitor_process()], "workers": sorted(s.workers),
        "topology": {h: sorted(t.values()) for h, t in s.topology.items()},
        "my_monitor": s.get_monitor_by_worker_rank(), "monitor_of": [s.get_monitor_by_worker_rank(r) for r in range(n)],
        "host_of": [s.host_by_rank[r] for r in range(n)],
    })


@st.composite
def layouts(draw):
    n = draw(st.integers(2, 8))
    layout = [0] + [draw(st.integers(0, 2)) for _ in range(n - 1)]
    if draw(st.integers(0, 3)) == 0:
        layout = sorted(layout)
    cfg = draw(gen.sim_cfg(1, 1, hosts=1))
    cfg["shared"] = draw(st.booleans())
    cfg["layout"] = layout
    cfg["roles"] = True
    if cfg["shared"]:
        cfg.setdefault("shm_mem", 1 << 20)
        cfg.setdefault("shm_service", 1 << 14)
    return {"ops": {"tasks": draw(st.integers(0, 1)) * 12}, "cfg": cfg}


class Layouts(harness.Part):
    name = "sim-layouts"
    quick = 500
    thorough = 10000

    def case(self):
        return layouts()

    def run(self, case):
        self.info = {}
        cfg, ops = case["cfg"], dict(case["ops"])
        hosts = simrun.hosts_of(cfg)
        n = len(hosts)
        names = list(dict.fromkeys(hosts))
        members = {h: [r for r in range(n) if hosts[r] == h] for h in names}
        if cfg["shared"]:
            bad = any(len(m) < 2 for m in members.values())
            monitors = [m[1] for m in members.values()] if not bad else None
        else:
            bad = False
            monitors = [1]
        workers = [r for r in range(n) if r != 0 and r not in (monitors or [])]
        bad = bad or not workers
        self.info = {"bad": bad, "hosts": len(names), "workers": len(workers)}
        r = simrun.run(ops, cfg, driver=layout_driver, stuck_seconds=60)
        if bad:
            if r.status == "ok":
                return [f"the layout {members} (shared store {cfg['shared']}) cannot work, but initialization succeeded"]
            if r.status == "crash":     # whichever process notices first
                return []
            return [f"the layout {members} should be rejected with an error: {r.status}: {r.detail[-800:]}"]
        p = base_problems(r)
        if p:
            return p
        out = []
        want = {h: {"CPU": len([x for x in m if x in workers])} for h, m in members.items()}
        if r.result["resources"] != want:
            out.append(f"cluster_resources() is {r.result['resources']}, expected {want}")
        seen = [x[2:] for x in r.notes if x[1] == "roles"]
        if len(seen) != n:
            out.append(f"only {len(seen)} of {n} processes ended")
        for rank, d in seen:
            exp = {"rank": rank, "size": n, "host": hosts[rank], "root": [0], "monitors": sorted(monitors),
                   "me": [rank == 0, rank in monitors], "workers": workers, "topology": members,
                   "monitor_of": [members[hosts[x]][1] if cfg["shared"] else 1 for x in range(n)],
                   "my_monitor": members[hosts[rank]][1] if cfg["shared"] else 1, "host_of": hosts}
            d["monitors"] = sorted(d["monitors"])
            for k in exp:
                if d[k] != exp[k]:
                    out.append(f"rank {rank} of layout {members}: {k} is {d[k]}, expected {exp[k]}")
        for x in r.result.get("ranks", []):
            if x not in workers:
                out.append(f"a task was executed by rank {x}; the workers are {workers}")
        if ops["tasks"] and set(r.result["ranks"]) != set(workers):
            out.append(f"tasks were executed by {sorted(set(r.result['ranks']))} only; the workers are {workers}")
        return out

    def nontrivial(self, case, info):
        return info.get("hosts", 1) > 1

    def classify(self, case, info):
        yield f"hosts {info.get('hosts')}"
        yield "shared" if case["cfg"]["shared"] else "local"
        if info.get("bad"):
            yield "rejected layout"
