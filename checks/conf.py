"""C14: configuration parameters against an independent model (each case in a process that has read no parameter)."""
import json
import os
import sys
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from hypothesis import strategies as st  # noqa: E402

import unidist.config as ucfg  # noqa: E402
from vlib import harness  # noqa: E402

# name -> (type, default, varname); "?" default: not fixed by the documentation
PARAMS = {
    "Backend": ("choice", "?", "UNIDIST_BACKEND"),
    "CpuCount": ("int", "?", "UNIDIST_CPUS"),
    "DaskMemoryLimit": ("int", None, "UNIDIST_DASK_MEMORY_LIMIT"),
    "IsDaskCluster": ("bool", None, "UNIDIST_DASK_CLUSTER"),
    "DaskSchedulerAddress": ("exact", None, "UNIDIST_DASK_SCHEDULER_ADDRESS"),
    "MpiSpawn": ("bool", True, "UNIDIST_MPI_SPAWN"),
    "MpiHosts": ("exact", None, "UNIDIST_MPI_HOSTS"),
    "MpiPickleThreshold": ("int", 1024**2 // 4, "UNIDIST_MPI_PICKLE_THRESHOLD"),
    "MpiBackoff": ("float", 0.0001, "UNIDIST_MPI_BACKOFF"),
    "MpiLog": ("bool", False, "UNIDIST_MPI_LOG"),
    "MpiSharedObjectStore": ("bool", False, "UNIDIST_MPI_SHARED_OBJECT_STORE"),
    "MpiSharedObjectStoreMemory": ("int", None, "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"),
    "MpiSharedServiceMemory": ("int", None, "UNIDIST_MPI_SHARED_SERVICE_MEMORY"),
    "MpiSharedObjectStoreThreshold": ("int", 10**5, "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD"),
    "RayGpuCount": ("int", None, "UNIDIST_RAY_GPUS"),
    "IsRayCluster": ("bool", None, "UNIDIST_RAY_CLUSTER"),
    "RayRedisAddress": ("exact", None, "UNIDIST_RAY_REDIS_ADDRESS"),
    "RayRedisPassword": ("exact", "?", "UNIDIST_RAY_REDIS_PASSWORD"),
    "RayObjectStoreMemory": ("int", None, "UNIDIST_RAY_OBJECT_STORE_MEMORY"),
}
BACKENDS = ("ray", "mpi", "dask", "pymp", "pyseq")
DEFAULT, SET, ENV = 0, 1, 2
TRUE, FALSE = ("true", "yes", "1"), ("false", "no", "0")


class Bad(Exception):
    pass


def norm(kind, v):
    """What the documentation says an acceptable value becomes; Bad if it is not acceptable."""
    if kind == "bool":
        if isinstance(v, bool):
            return v
        if isinstance(v, str) and v.strip().lower() in TRUE + FALSE:
            return v.strip().lower() in TRUE
        raise Bad
    if kind == "int":
        if isinstance(v, int):
            return int(v)
        if isinstance(v, str) and v.strip().isdigit():
            try:
                return int(v.strip())
            except ValueError:
                raise Bad
        raise Bad
    if kind == "float":
        if isinstance(v, float):
            return v
        if isinstance(v, str) and v.strip().replace(".", "").isdigit():
            try:
                return float(v.strip())
            except ValueError:
                raise Bad
        raise Bad
    if not isinstance(v, str):
        raise Bad
    if kind == "exact":
        return v
    v = v.strip().lower()
    if v not in BACKENDS:
        raise Bad
    return v


def same(a, b):
    return type(a) is type(b) and a == b


class Model:
    def __init__(self, env):
        self.env = dict(env)
        self.val = {n: ("unset",) for n in PARAMS}
        self.runtime = {}

    def lookup(self, n):
        """(value, source), ("?", DEFAULT), or Bad."""
        if n == "MpiPickleThreshold" and self.lookup("MpiSharedObjectStore")[0] is True:
            return self.lookup("MpiSharedObjectStoreThreshold")
        if self.val[n][0] == "put":
            return self.val[n][1], SET
        kind, default, var = PARAMS[n]
        if var in self.env:
            return norm(kind, self.env[var]), ENV
        return default, DEFAULT


def check_get(m, n, got):
    """got: ("ok", value) or ("err", name)."""
    try:
        want, src = m.lookup(n)
    except Bad:
        return None if got[0] == "err" else f"{n}.get() returned {got[1]!r} for an unacceptable environment value"
    if got[0] == "err":
        return f"{n}.get() failed: {got[1]}"
    if want == "?":
        if n == "Backend" and got[1] not in BACKENDS:
            return f"default of {n} is {got[1]!r}"
        if n == "CpuCount" and not (type(got[1]) is int and got[1] >= 1):
            return f"default of {n} is {got[1]!r}"
        if n == "RayRedisPassword" and not (isinstance(got[1], str) and len(got[1]) >= 16):
            return f"default of {n} is {got[1]!r}"
        return None
    if not same(got[1], want):
        return f"{n}.get() is {got[1]!r} ({type(got[1]).__name__}), expected {want!r} ({type(want).__name__})"


def attempt(f, *a):
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("err", type(e).__name__)


def run_case(case):
    for k in list(os.environ):
        if k.startswith("UNIDIST_"):
            del os.environ[k]
    os.environ.update(case["env"])
    m = Model(case["env"])
    problems = []

    def full():
        for n in PARAMS:
            p = check_get(m, n, attempt(getattr(ucfg, n).get))
            if p:
                problems.append(p)
            s = attempt(getattr(ucfg, n).get_value_source)
            try:
                want = m.lookup(n)[1]
            except Bad:
                continue
            if s != ("ok", want):
                problems.append(f"{n}.get_value_source() is {s[1]!r}, expected {want}")

    for i, op in enumerate(case["ops"]):
        if problems:
            break
        if op[0] == "put":
            _, n, v = op
            v = decode(v)
            got = attempt(getattr(ucfg, n).put, v)
            try:
                want = norm(PARAMS[n][0], v)
            except Bad:
                if got[0] == "ok":
                    problems.append(f"op {i}: {n}.put({v!r}) was accepted")
                continue
            if got[0] == "err":
                problems.append(f"op {i}: {n}.put({v!r}) failed: {got[1]}")
            m.val[n] = ("put", want)
        elif op[0] == "get":
            p = check_get(m, op[1], attempt(getattr(ucfg, op[1]).get))
            if p:
                problems.append(f"op {i}: {p}")
        elif op[0] == "source":
            s = attempt(getattr(ucfg, op[1]).get_value_source)
            try:
                want = m.lookup(op[1])[1]
                if s != ("ok", want):
                    problems.append(f"op {i}: {op[1]}.get_value_source() is {s[1]!r}, expected {want}")
            except Bad:
                if s[0] == "ok":
                    problems.append(f"op {i}: {op[1]}.get_value_source() succeeded for an unacceptable environment value")
        elif op[0] == "env":
            # only for a parameter that was put: the explicit value must win
            if m.val[op[1]][0] == "put":
                os.environ[PARAMS[op[1]][2]] = op[2]
                m.env[PARAMS[op[1]][2]] = op[2]
        elif op[0] == "runtime":
            got = attempt(ucfg.MpiRuntimeEnv.put, op[1])
            if all(k == "env_vars" for k in op[1]):
                if got[0] == "err":
                    problems.append(f"op {i}: MpiRuntimeEnv.put({op[1]!r}) failed: {got[1]}")
                m.runtime = op[1]
            elif got[0] == "ok":
                problems.append(f"op {i}: MpiRuntimeEnv.put({op[1]!r}) was accepted")
            if ucfg.MpiRuntimeEnv.get() != m.runtime:
                problems.append(f"op {i}: MpiRuntimeEnv.get() is {ucfg.MpiRuntimeEnv.get()!r}, expected {m.runtime!r}")
        elif op[0] == "all":
            full()
    if not problems:
        full()
        if ucfg.MpiRuntimeEnv.get() != m.runtime:
            problems.append("MpiRuntimeEnv changed")
    return problems


def forked(fn, case, timeout=60):
    """fn(case) in a forked child; a crash is a problem."""
    import select
    import signal

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = fn(case)
            except BaseException:
                out = ["harness:" + traceback.format_exc()]
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        ready, _, _ = select.select([r], [], [], timeout)
        if not ready:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return [f"no answer within {timeout} s"]
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return [f"crashed with signal {os.WTERMSIG(status)}"]
    out = json.loads(b"".join(chunks) or '["no output"]')
    if out and isinstance(out[0], str) and out[0].startswith("harness:"):
        raise RuntimeError(out[0])
    return out


def decode(v):
    if isinstance(v, list) and v and v[0] == "x":
        return {"bytes": b"1", "list": [1], "dict": {}, "object": object, "complex": 1j}[v[1]]
    return v


def _strings(kind):
    pads = st.sampled_from(["", " ", "\t", "\n", "  "])
    word = {
        "bool": st.sampled_from(TRUE + FALSE + ("on", "off", "2", "", "t", "none", "10", "trues", "-1", "y")),
        "int": st.one_of(st.integers(0, 10**12).map(str), st.sampled_from(
            ["007", "", "-1", "+1", "1.0", "1e3", "0x10", "one", "1 2", "\u0663", "\u00b2", "1_000", "true"])),
        "float": st.one_of(st.integers(0, 999).map(str), st.floats(0.001, 1000).map(lambda x: f"{x:.4f}"), st.sampled_from(
            ["", ".", "1..2", "1.2.3", "abc", "1,5", ".5", "5.", "0", "0.0", "1 2"])),
        "choice": st.sampled_from(BACKENDS + ("spark", "", "mp", "raydask", "ray,mpi", "none", "auto")),
    }.get(kind)
    if kind == "exact":
        return st.one_of(st.text(st.characters(exclude_characters="\0", exclude_categories=("Cs",)), max_size=15),
                         st.sampled_from([" A,b ", "Host1,HOST2", "tcp://X:1", "", "TRUE"]))
    return st.tuples(pads, word, pads, st.integers(0, 3)).map(
        lambda t: t[0] + {0: t[1], 1: t[1].upper(), 2: t[1].title(), 3: t[1]}[t[3]] + t[2])


def _values(kind):
    other = st.sampled_from([None, ["x", "bytes"], ["x", "list"], ["x", "dict"], ["x", "object"], ["x", "complex"]])
    pool = [_strings(kind), _strings(kind), other]
    if kind in ("bool", "int", "exact", "choice"):
        pool += [st.booleans()] if kind != "int" else [st.integers(-5, 2**40), st.booleans()]
        if kind != "int":
            pool.append(st.integers(2, 9))
        pool.append(st.sampled_from([0.5, 2.0]) if kind != "bool" else st.just(0.5))
    if kind == "bool":
        pool += [st.booleans(), st.booleans()]
    if kind == "float":
        pool += [st.floats(0, 1e6, allow_nan=False), st.sampled_from([0.1, 1e-9, -2.5])]
    return st.one_of(*pool)


@st.composite
def cases(draw):
    names = list(PARAMS)
    env = {}
    for n in draw(st.lists(st.sampled_from(names), max_size=6, unique=True)):
        env[PARAMS[n][2]] = draw(_strings(PARAMS[n][0]))
    ops = []
    focus = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True))
    if draw(st.booleans()):
        focus += ["MpiPickleThreshold", "MpiSharedObjectStore", "MpiSharedObjectStoreThreshold"]
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.integers(0, 9))
        n = draw(st.sampled_from(focus))
        if k < 4:
            ops.append(["put", n, draw(_values(PARAMS[n][0]))])
        elif k < 6:
            ops.append(["get", n])
        elif k < 7:
            ops.append(["source", n])
        elif k < 8:
            ops.append(["env", n, draw(_strings(PARAMS[n][0]))])
        elif k < 9:
            ops.append(["runtime", draw(st.sampled_from([
                {}, {"env_vars": {}}, {"env_vars": {"A": "b"}}, {"env_vars": {"A": "1", "B": "x y"}}, {"pip": []},
                {"env_vars": {"Q": "1"}, "conda": 1}, {"working_dir": "."}]))])
        else:
            ops.append(["all"])
    return {"env": env, "ops": ops}


class Config(harness.Part):
    name = "config-model"
    quick = 6000
    thorough = 150000

    def case(self):
        return cases()

    def run(self, case):
        return forked(run_case, case)

    def nontrivial(self, case, info):
        return any(o[0] == "put" for o in case["ops"]) and bool(case["env"])

    def classify(self, case, info):
        for o in case["ops"]:
            yield o[0] if o[0] not in ("put", "get") else f"{o[0]} {PARAMS[o[1]][0]}"
