"""
Runs the parts of a check: generated cases in several processes, shrinking, confirmation, replay files, evidence.

A part is a class with
  name, quick, thorough  - number of cases per shard-set (total over all shards)
  case()                 - Hypothesis strategy of JSON-able cases
  run(case)              - list of problems (strings); [] when the property held
  nontrivial(case, info) - whether the case counts
Optional: shards (processes), classify(case, info) -> iterable of labels, setup()/teardown() per process.
"""
import hashlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


def jhash(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Part:
    name = "part"
    quick = 100
    thorough = 1000
    shards = 8
    weight = 1          # processes' worth of CPU one shard uses
    confirm = 2         # how often a failure must be seen again before it is reported
    shrink_seconds = 40
    budget = None       # seconds; generation stops afterwards (never a violation)

    def setup(self):
        pass

    def teardown(self):
        pass

    def case(self):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def nontrivial(self, case, info):
        return True

    def classify(self, case, info):
        return ()

    def brief(self, case):
        return case

    def size(self, tier):
        return self.thorough if tier == "thorough" else self.quick


class Stop(BaseException):
    pass


def _shard(part, tier, seed, idx, nshards, out, stopfile, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = part.shrink_seconds
    import hypothesis.reporting

    hypothesis.reporting.reporter.value = lambda *a, **k: None
    stats = {"evaluations": 0, "nontrivial": [], "samples": [], "classes": {}, "failure": None, "skipped": 0,
             "error": None, "unconfirmed": []}
    seen = set()
    fail = {}
    total = part.size(tier)
    n = total // nshards + (1 if idx < total % nshards else 0)

    def once(case, counting=True):
        part.info = {}
        problems = part.run(case)
        return problems

    def test(case):
        if "case" not in fail:
            if time.monotonic() > deadline or os.path.exists(stopfile):
                stats["skipped"] += 1
                return
        elif time.monotonic() > fail["until"] or os.path.exists(stopfile):
            raise Stop           # the smallest failing case so far will do
        problems = once(case)
        if "case" not in fail:
            stats["evaluations"] += 1
            info = part.info
            for c in part.classify(case, info):
                stats["classes"][c] = stats["classes"].get(c, 0) + 1
            if part.nontrivial(case, info):
                h = jhash(case)
                if h not in seen:
                    seen.add(h)
                    if len(stats["samples"]) < 3 or (len(seen) in (20, 60)):
                        stats["samples"].append(part.brief(case))
        if problems:
            if "first" not in fail:
                fail["first"] = (case, problems)
                fail["until"] = time.monotonic() + part.shrink_seconds
            fail["case"], fail["problems"] = case, problems
            raise AssertionError(problems[0][:200])

    try:
        part.setup()
        for attempt in range(3):
            left = n - stats["evaluations"]
            t = settings(max_examples=max(left, 1), deadline=None, database=None, print_blob=False, derandomize=False,
                         report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
                         suppress_health_check=list(HealthCheck))(hypothesis.given(part.case())(test))
            t = hypothesis.seed(seed * 1000 + idx + 500 * attempt)(t)
            if left > 0:
                try:
                    t()
                except (AssertionError, Stop):
                    pass
                except Exception:
                    if "case" not in fail:
                        raise
            if "case" not in fail:
                break
            # confirm: the minimal case, and failing that the first one
            for case, problems in ((fail["case"], fail["problems"]), fail["first"]):
                hits = 0
                for _ in range(max(part.confirm, 1)):
                    p = once(case)
                    if p:
                        hits += 1
                        problems = p
                        if hits > 1:
                            break
                if hits or part.confirm == 0:
                    stats["failure"] = {"part": part.name, "case": case, "problems": problems, "confirmed": hits}
                    open(stopfile, "w").close()
                    break
            if stats.get("failure"):
                break
            # not reproducible: go on with the rest
            stats["unconfirmed"].append({"part": part.name, "case": fail["first"][0], "problems": fail["first"][1]})
            fail.clear()
    except BaseException:
        stats["error"] = traceback.format_exc()
    finally:
        try:
            part.teardown()
        except Exception:
            pass
    stats["nontrivial"] = sorted(seen)
    with open(out + ".tmp", "w") as f:
        json.dump(stats, f, default=str)
    os.rename(out + ".tmp", out)


def run_check(prop, parts, level="exploration", rule="", assumptions=(), probes=(), budget_quick=120, budget_thorough=1500):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
        tier = sys.argv[1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if "--replay" in sys.argv:
        return replay(prop, parts, sys.argv[sys.argv.index("--replay") + 1])
    only = sys.argv[sys.argv.index("--part") + 1] if "--part" in sys.argv else None
    if only:
        parts = [p for p in parts if p.name == only]
    parts = [p for p in parts if p.size(tier) > 0]
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"vp-{prop}-")
    ncpu = min(os.cpu_count() or 4, 8)
    import gc

    gc.collect()
    gc.freeze()
    deadline_all = t0 + (budget_thorough if tier == "thorough" else budget_quick)
    jobs = []
    for pi, p in enumerate(parts):
        ns = max(1, min(p.shards, p.size(tier)))
        for i in range(ns):
            jobs.append((pi, i, ns))
    # interleave parts so that slow ones start early
    jobs.sort(key=lambda j: (j[1], -parts[j[0]].weight))
    running = {}
    results = []
    stopfiles = {pi: os.path.join(work, f"stop{pi}") for pi in range(len(parts))}
    load = 0
    while jobs or running:
        while jobs:
            pi, i, ns = jobs[0]
            w = parts[pi].weight
            if running and load + w > ncpu:
                break
            jobs.pop(0)
            out = os.path.join(work, f"r{pi}-{i}.json")
            dl = deadline_all
            if parts[pi].budget:
                dl = min(dl, time.monotonic() + parts[pi].budget * (10 if tier == "thorough" else 1))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    parts[pi].index = i
                    _shard(parts[pi], tier, seed, i, ns, out, stopfiles[pi], dl)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    try:
                        import atexit

                        atexit._run_exitfuncs()
                    finally:
                        os._exit(code)
            running[pid] = (pi, i, out, w)
            load += w
        if running:
            pid, st = os.waitpid(-1, 0)
            if pid in running:
                pi, i, out, w = running.pop(pid)
                load -= w
                try:
                    os.killpg(pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                try:
                    with open(out) as f:
                        results.append((pi, json.load(f)))
                except OSError:
                    results.append((pi, {"error": f"shard {parts[pi].name}/{i} ended with status {st}", "evaluations": 0,
                                         "nontrivial": [], "samples": [], "classes": {}, "failure": None, "skipped": 0,
                                         "unconfirmed": []}))
    import shutil

    shutil.rmtree(work, ignore_errors=True)
    known_lines = []
    probe_problems = []
    listed = known(prop)
    for pr in probes:
        fid, problem = pr()
        line = None
        if fid is not None:
            if fid in listed:
                line = f"KNOWN-FINDING: property={prop} {listed[fid]}"
            else:
                problem = problem or {"part": "probe", "case": {"probe": fid}, "problems": [f"unlisted finding {fid}"]}
        if line:
            known_lines.append(line)
        if problem:
            probe_problems.append(problem)
    # evidence
    classes, samples, per_part, failures, errors, unconfirmed = {}, [], {}, [], [], []
    ev = nt = skipped = 0
    for pi, p in enumerate(parts):
        keys = set()
        e = 0
        for qi, r in results:
            if qi != pi:
                continue
            e += r["evaluations"]
            keys.update(r["nontrivial"])
            skipped += r["skipped"]
            for c, k in r["classes"].items():
                classes[f"{p.name}:{c}"] = classes.get(f"{p.name}:{c}", 0) + k
            if r["samples"] and sum(1 for s in samples if s["part"] == p.name) < 2:
                samples.append({"part": p.name, "case": r["samples"][0]})
            if r["failure"]:
                failures.append(r["failure"])
            if r["error"]:
                errors.append(r["error"])
            unconfirmed.extend(r["unconfirmed"])
        per_part[p.name] = {"evaluations": e, "distinct_nontrivial": len(keys)}
        ev += e
        nt += len(keys)
    for case in probe_problems:
        failures.append(case)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": rule, "samples": samples,
                     "per_part": per_part, "classes": dict(sorted(classes.items())),
                     "not_run_within_budget": skipped, "unconfirmed": unconfirmed[:3]},
        "assumptions": list(assumptions), "wall_s": round(time.monotonic() - t0, 2), "violations": len(failures),
    }
    if known_lines:
        evidence["coverage"]["known_findings"] = known_lines
    if not only:
        tmp = os.path.join(EVID, f"{prop}.json.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        os.rename(tmp, os.path.join(EVID, f"{prop}.json"))
    for line in known_lines:
        print(line)
    for p, c in per_part.items():
        print(f"{prop} {p}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial")
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f["case"], default=str)))
        f0 = failures[0]
        path = os.path.join(EVID, f"replay-{prop}-{jhash(f0['case'])}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, **f0}, f, indent=1, default=str)
        for p in f0["problems"][:3]:
            p = str(p)
            print("  " + (p if len(p) <= 3000 else p[:1000] + " ... " + p[-2000:]))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"wall {time.monotonic()-t0:.1f}s")
        return 1
    for u in unconfirmed[:2]:
        print("unconfirmed (not reported):", "\n".join(map(str, u["problems"]))[-2500:])
    if errors:
        print(errors[0][-3000:])
        return 2
    print(f"{prop} held on {ev} cases ({nt} distinct non-trivial); wall {time.monotonic()-t0:.1f}s")
    return 0


def known(prop):
    try:
        with open(KNOWN) as f:
            return {k["id"]: k["what"] for k in json.load(f)["known"] if k["property"] == prop}
    except OSError:
        return {}


def replay(prop, parts, path):
    with open(path) as f:
        rec = json.load(f)
    for p in parts:
        if p.name == rec["part"]:
            p.setup()
            try:
                p.info = {}
                problems = p.run(rec["case"])
            finally:
                p.teardown()
            for x in problems:
                print(x)
            if problems:
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            print("the property held on this case")
            return 0
    print("unknown part", rec["part"])
    return 2
