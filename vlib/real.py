"""
Sessions of the real backends (pyseq, pymp, dask, ray and real MPI): a child process initializes unidist once and
executes generated programs one after another.  A program that does not finish in time ends the session.
"""
import ast
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import uuid

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPUS = 6


class Result:
    status = "ok"
    detail = ""
    stderr = ""
    trace = ()

    def __init__(self):
        self.result = {}
        self.notes = []


class NoSession(Exception):
    """The backend could not be started in this sandbox."""


class Session:
    started = 0

    def __init__(self, backend):
        self.backend = backend
        self.proc = None
        self.cases = 0

    # ------------------------------------------------------------------ life cycle
    def start(self, timeout=90):
        self.tag = "vpreal" + uuid.uuid4().hex
        self.dir = tempfile.mkdtemp(prefix="vpr-", dir="/tmp")
        self.events = os.path.join(self.dir, "events")
        self.gates = os.path.join(self.dir, "g")
        os.mkdir(self.gates)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("UNIDIST_", "RAY_", "DASK_", "OMPI_", "PMIX_")):
                del env[k]
        env.update(PYTHONPATH=f"{VERIF}:{os.environ.get('VP_REPO', '/repo')}", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   VP_EVENTS=self.events, VP_REAL_TAG=self.tag, UNIDIST_CPUS=str(CPUS), TMPDIR=self.dir)
        b = self.backend
        env["UNIDIST_BACKEND"] = "mpi" if b.startswith("mpi") else b
        cmd = [sys.executable, "-m", "vlib.realworker"]
        if b == "pymp":
            Session.started += 1
            env["VP_GC"] = str((20, 5, 700)[Session.started % 3])
        if b == "ray":
            env.update(RAY_USAGE_STATS_ENABLED="0", RAY_TMPDIR=self.dir, UNIDIST_RAY_OBJECT_STORE_MEMORY=str(300 << 20),
                       RAY_DISABLE_IMPORT_WARNING="1", RAY_DEDUP_LOGS="0", RAY_LOG_TO_STDERR="0")
        elif b == "dask":
            env.update(DASK_TEMPORARY_DIRECTORY=self.dir, DASK_DISTRIBUTED__DASHBOARD__LINK="",
                       UNIDIST_DASK_MEMORY_LIMIT=str(2 << 30))
        elif b.startswith("mpi"):
            env.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl_tcp_if_include="lo",
                       OMPI_MCA_oob_tcp_if_include="lo", OMPI_MCA_btl_vader_single_copy_mechanism="none",
                       OMPI_MCA_plm="isolated")
            if b == "mpi-shared":
                env.update(UNIDIST_MPI_SHARED_OBJECT_STORE="True", UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY=str(64 << 20),
                           UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD="600")
            cmd = ["/usr/bin/mpiexec", "-n", "1", "--oversubscribe"] + cmd
        self.err = open(os.path.join(self.dir, "stderr"), "w+b")
        self.proc = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                     cwd=self.dir, start_new_session=True)
        self.buf = b""
        self.cases = 0
        line = self._line(timeout)
        if line != "READY":
            detail = self._stderr()
            self.stop()
            raise NoSession(f"{b}: {line!r}\n{detail}")

    def ensure(self):
        if self.proc is None:
            last = None
            for _ in range(3):
                try:
                    self.start()
                    return
                except NoSession as e:
                    last = e
            raise last

    def _stderr(self):
        try:
            self.err.flush()
            with open(os.path.join(self.dir, "stderr"), "rb") as f:
                return f.read()[-3000:].decode("utf-8", "replace")
        except OSError:
            return ""

    def _line(self, timeout):
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if r:
                data = os.read(fd, 1 << 16)
                if not data:
                    return ""
                self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        return line.decode()

    def stop(self):
        p, self.proc = self.proc, None
        if p is None:
            return
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        for _ in range(3):
            if not kill_tagged(self.tag):
                break
            time.sleep(0.05)
        try:
            p.wait(5)
        except subprocess.TimeoutExpired:
            pass
        for f in (p.stdin, p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------------ running
    def request(self, req, timeout):
        """The Result of one program."""
        self.ensure()
        if self.cases >= 400:          # pymp never releases anything: start afresh from time to time
            self.stop()
            self.ensure()
        self.cases += 1
        with open(self.events, "w"):
            pass
        for name in os.listdir(self.gates):
            os.unlink(os.path.join(self.gates, name))
        r = Result()
        try:
            self.proc.stdin.write((json.dumps(dict(req, gates=self.gates)) + "\n").encode())
            self.proc.stdin.flush()
            line = self._line(timeout)
        except BrokenPipeError:
            line = ""
        if line is None:
            r.status, r.detail = "hang", f"{self.backend}: the program did not finish within {timeout} s"
        elif line == "":
            r.status, r.detail = "crash", f"{self.backend}: the program's process died"
        with open(self.events) as f:
            for ln in f:
                try:
                    r.notes.append(ast.literal_eval(ln))
                except (ValueError, SyntaxError):
                    pass
        if r.status != "ok":
            r.stderr = self._stderr()
            self.stop()
            return r
        r.result = {int(k) if k.isdigit() else k: v for k, v in json.loads(line)["obs"].items()}
        return r


def kill_tagged(tag):
    n = 0
    key = f"VP_REAL_TAG={tag}".encode()
    for d in os.listdir("/proc"):
        if d.isdigit() and int(d) != os.getpid():
            try:
                with open(f"/proc/{d}/environ", "rb") as f:
                    if key in f.read():
                        os.kill(int(d), signal.SIGKILL)
                        n += 1
            except OSError:
                pass
    return n


# ---------------------------------------------------------------------------- programs for a backend
def plain_dicts(spec):
    """Dask itself rebuilds dictionaries in the arguments of a task as plain ones."""
    if isinstance(spec, list):
        if spec and spec[0] in ("odict", "mydict"):
            spec = ["dict"] + spec[1:]
        return [plain_dicts(x) for x in spec]
    if isinstance(spec, tuple):
        return tuple(plain_dicts(x) for x in spec)
    if isinstance(spec, dict):
        return {k: plain_dicts(v) for k, v in spec.items()}
    return spec


def adapt(ops, backend, model_cls, uids_of):
    """The same program restricted to what the backend supports."""
    import copy

    ops = copy.deepcopy(ops)
    mpi = backend.startswith("mpi")
    asyncs = mpi or backend == "ray"

    def arg(a, depth=0):
        if a[0] == "r" and depth and not mpi and backend != "dask":
            return ["v", ["int", str(a[1])]]
        if a[0] in ("list", "tuple"):
            return [a[0], [arg(x, depth + 1) for x in a[1]]]
        if a[0] == "dict":
            return ["dict", [[k, arg(x, depth + 1)] for k, x in a[1]]]
        if a[0] == "v" and backend == "dask":
            return ["v", plain_dicts(a[1])]
        return a

    out = []
    nslots = 0
    made = {}
    # Dask fetches, and Ray's asynchronous actors get failed arguments, in coroutines of their own, where Python itself turns
    # StopIteration into RuntimeError
    stop = backend == "dask" or backend == "ray" and any(o["op"] == "actor" and o["cls"] == "AsyncAccount" for o in ops)
    for o in ops:
        if stop and o.get("meta", {}).get("exc") == "StopIteration":
            o["meta"]["exc"] = "ValueError"
        if backend in ("ray", "dask") and o.get("meta", {}).get("exc") in ("Decode", "Errno"):
            # the copies of exceptions that Ray and Dask make lose the attributes these are printed from
            o["meta"]["exc"] = "ValueError"
        if backend == "ray":
            # Ray rejects results with more elements than outputs
            o.get("meta", {}).pop("extra", None)
        if "args" in o:
            o["args"] = [arg(a) for a in o["args"]]
        if "kw" in o:
            o["kw"] = [[k, arg(a)] for k, a in o["kw"]]
        if o["op"] == "actor" and o["cls"] == "AsyncAccount" and not asyncs:
            o["cls"] = "Account"
            o["was_async"] = True
        if o["op"] == "actor":
            made[len(made)] = o
        if o["op"] == "call" and made[o["a"]].get("was_async"):
            meta = {k: v for k, v in o["meta"].items() if k in ("uid", "n", "exc")}
            o["m"], o["meta"] = "add", meta
        if backend == "pyseq" and o["op"] in ("open",):
            continue
        if backend == "pyseq":
            o.pop("gate", None)
        out.append(o)
        if o["op"] == "put":
            nslots += 1
        elif o["op"] in ("task", "call"):
            n = o["meta"].get("n", 1)
            new = list(range(nslots, nslots + n))
            nslots += n
            if backend == "dask" and o["op"] == "call":
                # calls of a Dask actor that are in flight together take effect in any order (known finding)
                out.append({"op": "get", "r": new[0]} if n else {"op": "quiesce"})
    m = model_cls()
    m.run(out)
    before = set()
    for o in out:
        if o["op"] == "quiesce":
            o["uids"] = sorted(before & m.executed)
        before.update(uids_of(o))
    return out
