"""The program side of a real-backend session: runs generated programs through the unidist API, one JSON line each."""
import gc
import json
import os
import sys
import time


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import unidist

    if os.environ.get("VP_GC"):
        # inherited by the workers: garbage is collected at many more points of the execution
        gc.set_threshold(int(os.environ["VP_GC"]))
    unidist.init()
    from vlib import apicase, prog

    unidist.get(unidist.remote(_ready).remote())
    out.write("READY\n")
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        if req.get("cmd") == "stop":
            break
        if "api" in req:
            obs = apicase.run(req["api"], req)
        else:
            live = prog.Live(gates=req["gates"])
            try:
                obs = live.run(req["ops"])
                settle(req.get("expect", ()))
            finally:
                live.close()
                live = None
        gc.collect()
        out.write(json.dumps({"obs": {str(k): v for k, v in obs.items()}}, default=str) + "\n")
        out.flush()
        obs = None
    os._exit(0)


def settle(uids, seconds=8):
    """Let the calls of this program end before the next one starts."""
    path = os.environ["VP_EVENTS"]
    end = time.monotonic() + seconds
    want = {repr(u) for u in uids}
    while want and time.monotonic() < end:
        with open(path) as f:
            want -= {ln.rstrip()[:-1].split(", ", 2)[2] for ln in f if "'end'" in ln}
        if want:
            time.sleep(0.003)


def _ready():
    return 1


if __name__ == "__main__":
    main()
