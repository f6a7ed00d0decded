"""C10: the memory of every process stays bounded while a program creates and drops objects."""
import gc
import mmap
import os
import struct
import sys
import threading
from collections import deque

from checks.common import base_problems, harness, simrun, st
from vlib import gen, simmpi

FILE = "census"
CONTAINERS = (dict, list, set, deque)
KINDS = ("put", "task", "chain", "several", "none", "fail", "faildep", "big", "call", "callfail", "wait", "acall", "nested", "nestedtask", "nestedcall", "nestedacall")


def start_census():
    """Called by every rank: from now on, measure this process whenever the root asks for it."""
    with open(FILE, "r+b") as f:
        mm = mmap.mmap(f.fileno(), 0)
    state = {"seen": 0, "sizes": None, "grown": {}}
    rank = simmpi.R.rank
    lock = threading.Lock()

    def look():
        if struct.unpack_from("q", mm, 0)[0] == state["seen"] or not lock.acquire(blocking=False):
            return
        try:
            n = struct.unpack_from("q", mm, 0)[0]
            if n != state["seen"]:
                state["seen"] = n
                measure(n)
        finally:
            lock.release()

    def measure(n):
        gc.collect()
        blocks = sys.getallocatedblocks()
        sizes = {(type(o).__name__, id(o)): len(o) for o in gc.get_objects() if type(o) in CONTAINERS and len(o) > 20}
        if state["sizes"] is None:
            state["grown"] = dict.fromkeys(sizes, 1 << 30)
        else:
            # a container that replaces another one is compared with it
            old, grown = state["sizes"], state["grown"]
            prev = {i: i for i in sizes if i in old}
            for t in CONTAINERS:
                gone = sorted((i for i in old if i not in sizes and i[0] == t.__name__), key=old.get, reverse=True)
                new = sorted((i for i in sizes if i not in old and i[0] == t.__name__), key=sizes.get, reverse=True)
                prev.update(zip(new, gone))
            state["grown"] = {i: min(sizes[i] - old.get(prev.get(i), 20), grown.get(prev.get(i), 1 << 30)) for i in sizes}
        state["sizes"] = sizes
        grown = max(state["grown"].values(), default=0) if n > 1 else 0
        struct.pack_into("qqq", mm, 8 + 24 * rank, n, blocks, grown)

    simmpi.R.census = look
    return mm


def _one(x, *rest):
    return x


def _size(n):
    return b"x" * n


def _three(x):
    return x, 2, 3


def _fail(x):
    raise ValueError("generated failure")


def _nested(x):
    import unidist

    a = unidist.put(x)
    return unidist.get(a)


def _nestedtask(x):
    import unidist

    f = unidist.remote(_one)
    return unidist.get(f.remote(x, unidist.put(x)))


def _nestedcall(x, actor):
    import unidist

    return unidist.get(actor.one.remote(x, unidist.put(x)))


class Box:
    def one(self, x, *rest):
        return x

    def fail(self, x):
        raise ValueError("generated failure")


class ABox:
    async def one(self, x, *rest):
        return x


def driver(ops, cfg):
    import unidist as u

    mm = simmpi.R.census_map
    one, size, fail = u.remote(_one), u.remote(_size), u.remote(_fail)
    nested, nestedtask, nestedcall = u.remote(_nested), u.remote(_nestedtask), u.remote(_nestedcall)
    three = u.remote(num_returns=3)(_three)
    none = u.remote(num_returns=0)(_one)
    box = u.remote(Box).remote() if ops["actor"] else None
    abox = u.remote(ABox).remote() if ops["async"] else None

    def swallow(refs):
        for r in refs:
            try:
                u.get(r)
            except ValueError:
                pass

    def step(kind, j):
        if kind == "put":
            r = [u.put(j), u.put(_size(ops["size"]))]
        elif kind == "task":
            r = [one.remote(j)]
        elif kind == "chain":
            r = [one.remote(j)]
            for _ in range(3):
                r.append(one.remote(r[-1], r[0]))
        elif kind == "several":
            r = three.remote(j)
            r.append(one.remote(r[2], r[1]))
        elif kind == "none":
            none.remote(j)
            r = []
        elif kind == "fail":
            r = [fail.remote(j)]
        elif kind == "faildep":
            r = [fail.remote(j)]
            r.append(one.remote(r[0]))
        elif kind == "big":
            r = [size.remote(ops["size"])]
            r.append(one.remote(r[0]))
        elif kind == "call" and box:
            r = [box.one.remote(j)]
            r.append(box.one.remote(r[0]))
        elif kind == "callfail" and box:
            r = [box.fail.remote(j)]
        elif kind == "acall" and abox:
            r = [abox.one.remote(j)]
            r.append(abox.one.remote(r[0], 1))
        elif kind == "nested" and ops["nested"]:
            r = [nested.remote(j)]
        elif kind == "nestedtask" and ops["nested"]:
            r = [nestedtask.remote(j)]
            u.get(r[0])
        elif kind in ("nestedcall", "nestedacall") and (box if kind == "nestedcall" else abox):
            r = [nestedcall.remote(j, box if kind == "nestedcall" else abox)]
            u.get(r[0])
        elif kind == "wait":
            r = [one.remote(j), one.remote(j + 1)]
            ready, rest = u.wait(r, num_returns=1)
            r = ready + rest
        else:
            r = [one.remote(j)]
        if ops["fetch"]:
            swallow(r)

    def flush():
        for _ in range(2):
            for j in range(24):
                one.remote(j)
            if box:
                u.get(box.one.remote(1))
            if abox:
                u.get(abox.one.remote(1))
            simmpi.quiesce()
        u.get([one.remote(j) for j in range(2 * ops["free"])])
        simmpi.quiesce()

    def census(n):
        for _ in range(2):
            flush()
        struct.pack_into("q", mm, 0, n)
        flush()
        got = {r: struct.unpack_from("qqq", mm, 8 + 24 * r) for r in range(len(simrun.hosts_of(cfg)))}
        return {r: v[1:] for r, v in got.items() if v[0] == n}

    out = []
    for phase, rounds in enumerate([ops["warm"], ops["rounds"], ops["rounds"]]):
        for j in range(rounds):
            for kind in ops["mix"]:
                step(kind, j)
        simmpi.quiesce()
        out.append(census(phase + 1))
    return out


@st.composite
def growth(draw):
    cfg = draw(gen.sim_cfg(2, 4, hosts=2, shm_mem=(1 << 21,)))
    cfg["clock"] = 0.7
    cfg["census"] = True
    nw = len(simrun.hosts_of(cfg)) - 2
    if cfg.get("layout") and cfg.get("shared"):
        nw = len(cfg["layout"]) - 1 - len(set(cfg["layout"]))
    free = nw
    ops = {"mix": draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=2, unique=True)), "warm": 60, "rounds": 80,
           "size": draw(st.sampled_from([10, 2000, 8000])), "fetch": draw(st.booleans())}
    ops["actor"] = free > 1 and bool({"call", "callfail", "nestedcall"} & set(ops["mix"]))
    free -= ops["actor"]
    ops["async"] = free > 1 and bool({"acall", "nestedacall"} & set(ops["mix"]))
    free -= ops["async"]
    ops["nested"] = free > 1
    ops["free"] = free
    return {"ops": ops, "cfg": cfg}


class Growth(harness.Part):
    name = "sim-growth"
    quick = 56
    thorough = 1500

    def case(self):
        return growth()

    def run(self, case):
        self.info = {}
        n = len(simrun.hosts_of(case["cfg"]))
        with open(os.path.join(simrun.scratch_dir(), FILE), "wb") as f:
            f.write(bytes(8 + 24 * n))
        r = simrun.run(case["ops"], case["cfg"], driver=driver)
        p = base_problems(r)
        if p:
            return p
        a, b, c = r.result
        rounds = case["ops"]["rounds"]
        both = [k for k in c if k in a and k in b]
        blocks = {k: min(b[k][0] - a[k][0], c[k][0] - b[k][0]) for k in both}
        grown = {k: c[k][1] for k in both}
        self.info = {"blocks": blocks, "grown": grown}
        what = f"after each {rounds} more rounds of {case['ops']['mix']}, although everything was dropped"
        # a container that gets one more element in most rounds, or memory growing by several blocks in each round (in both halves)
        return ([f"rank {k} has a container with {grown[k]} more elements {what}" for k in both if grown[k] >= 0.8 * rounds] +
                [f"rank {k} holds {blocks[k]} more memory blocks {what}" for k in both if blocks[k] > 6 * rounds])

    def nontrivial(self, case, info):
        return len(info.get("grown", {})) == len(simrun.hosts_of(case["cfg"]))
