"""Run a generated program on the real unidist MPI backend inside the simulated MPI."""
import gc
import os
import shutil
import sys
import tempfile

from vlib import simmpi, simmpi_link

simmpi.install()
import unidist  # noqa: E402
import unidist.config as ucfg  # noqa: E402
from unidist.core.backends.mpi.core import common as _c  # noqa: E402,F401
import unidist.core.backends.mpi.core.communication  # noqa: E402,F401
from unidist.core.backends.mpi.core import serialization  # noqa: E402
import unidist.core.backends.mpi.core.controller.api  # noqa: E402,F401
import unidist.core.backends.mpi.core.controller.actor  # noqa: E402,F401
import unidist.core.backends.mpi.backend  # noqa: E402,F401
from vlib import prog, values  # noqa: E402,F401

_SCRATCH = None


def scratch_dir():
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="vp-sim-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        _SCRATCH = (os.getpid(), d)
        import atexit

        atexit.register(_cleanup, os.getpid(), d)
    return _SCRATCH[1]


def _cleanup(pid, d):
    if os.getpid() == pid:
        shutil.rmtree(d, ignore_errors=True)


PARAMS = {
    "pickle_thr": "MpiPickleThreshold",
    "shared": "MpiSharedObjectStore",
    "shm_mem": "MpiSharedObjectStoreMemory",
    "shm_service": "MpiSharedServiceMemory",
    "shm_thr": "MpiSharedObjectStoreThreshold",
}


def apply_cfg(cfg):
    ucfg.Backend.put("mpi")
    ucfg.MpiSpawn.put(False)
    for k, name in PARAMS.items():
        if k in cfg:
            getattr(ucfg, name).put(cfg[k])
    if cfg.get("runtime"):
        ucfg.MpiRuntimeEnv.put(cfg["runtime"])
    # read once, when the module is imported; here the module is imported before the program starts
    ser = getattr(serialization, "ComplexDataSerializer", None)
    if hasattr(ser, "PICKLE_THRESHOLD"):
        ser.PICKLE_THRESHOLD = ucfg.MpiPickleThreshold.get()
    if cfg.get("block"):
        from mpi4py.util import pkl5

        type(pkl5._bigmpi).blocksize = cfg["block"]


def _target(rank, ops, cfg, driver):
    try:
        return _target1(rank, ops, cfg, driver)
    finally:
        if cfg.get("roles") and not isinstance(sys.exc_info()[1], Exception):
            from checks import env

            env.roles(rank, None)


def _target1(rank, ops, cfg, driver):
    simmpi_link.note = simmpi.note
    simmpi_link.quiesce = simmpi.quiesce
    apply_cfg(cfg)
    if cfg.get("census"):
        from checks import growth

        simmpi.R.census_map = growth.start_census()
    unidist.init()       # ranks other than the root never return from here (SystemExit)
    if rank != 0:
        return "returned"
    if driver is not None:
        out = driver(ops, cfg)
    else:
        live = prog.Live(gates=os.getcwd())
        out = live.run(ops)
        if not cfg.get("hold"):
            live = None
    if cfg.get("collect", True):
        gc.collect()
    if cfg.get("shutdown", True):
        unidist.shutdown()
        if cfg.get("shutdown_twice"):
            unidist.shutdown()
            _run_termination()
    return out


def _run_termination():
    from unidist.core.backends.mpi.core.controller import api

    h = getattr(api, "_termination_handler", None)
    if h is not None:
        h()


def hosts_of(cfg):
    if cfg.get("layout"):
        return [f"10.0.0.{h + 1}" for h in cfg["layout"]]
    return ["10.0.0.1"] * (2 + cfg.get("workers", 2))


def run(ops, cfg, driver=None, stuck_seconds=None):
    hosts = hosts_of(cfg)
    for name in os.listdir(scratch_dir()):
        if name.startswith("gate"):
            os.unlink(os.path.join(scratch_dir(), name))
    sched = simmpi.Schedule(cfg.get("sched", "fifo"), cfg.get("seed", 0), len(hosts))
    return simmpi.run(
        hosts, _target, (ops, cfg, driver), schedule=sched, eager=cfg.get("eager", 4096),
        scratch=scratch_dir(), env=cfg.get("env"), clock_step=cfg.get("clock", 0.3), stuck_seconds=stuck_seconds,
        ieager=cfg.get("ieager"),
    )
