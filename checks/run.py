"""python -m checks.run <property> [quick|thorough] [--replay FILE] [--part NAME]"""
import sys

from vlib import harness

SIM_ASSUMPTIONS = [
    "the MPI library is replaced by a simulated one that keeps MPI's guarantees (per-sender order, no message loss, "
    "eager or rendezvous completion) and lets the generated schedule decide everything else",
    "the oracle is a sequential evaluation of the generated program",
]
SIM_RULE = ("a case is a generated program, a process layout, thresholds and a schedule (Hypothesis draws all of them); "
            "the real unidist MPI backend runs it in forked processes on simulated MPI. Non-trivial: ")


def table(prop):
    if prop == "C14":
        # nothing that reads a parameter may be imported here
        from checks import conf

        return ([conf.Config()],
                "a case is an environment and a sequence of put/get/source/environment operations on the parameters, run in a "
                "fresh process and compared with a model of the documented rules; non-trivial: at least one put and one "
                "environment variable", ["the table of parameters, types, defaults and variable names is the oracle's own"], [])
    from checks import api, callers, env, growth, real, sims, sims2, units

    unit = {
        "C12": ([units.Ranges(), units.Manager()], "a case is a sequence of reservations and releases on the real classes compared "
                "with a set of free cells; non-trivial: at least two releases (ranges), or a release together with a failed "
                "reservation or a deferred cleanup (manager)",
                ["the shared store and the other hosts' monitors are stand-ins that report generated reference counts"], []),
        "C13": ([units.Copies()], "a case is up to 8 copies or fills with generated length, alignment and thread count between "
                "buffers surrounded by canary bytes and inaccessible pages, in a child process; non-trivial: a copy of more than "
                "64 bytes with several threads", [], []),
        "C20": ([env.SpawnConfig(), env.SpmdEnv()], "a case is a set of configuration values (by put or environment) and runtime "
                "variables; the real initialization runs up to the spawn call, and what it asks to spawn is executed in a fresh "
                "process and compared; or the single-program model runs on simulated MPI. Non-trivial: at least two values set",
                ["the spawned command line is executed without MPI, with the initialization call recorded"], []),
        "C21": ([env.Layouts(), env.SpawnCount()], "a case is an assignment of ranks to hosts with or without the shared store, run "
                "on simulated MPI and compared with a model of the roles; or a configuration whose spawn request is compared with "
                "the expected number of processes. Non-trivial: several hosts", SIM_ASSUMPTIONS[:1], []),
        "C15": ([units.Serialization()], "a case is a generated value, threshold, wire form and number of deserializations; "
                "non-trivial: at least one out-of-band buffer, or deep nesting", [], [units.bytearray_probe]),
    }
    sim = {
        "C01": ([sims.Dag(), sims.Chain()], "tasks depend on other tasks (depth >= 2)"),
        "C02": ([sims.Values()], "a value is fetched or forwarded more than once"),
        "C03": ([sims.Snapshots()], "an object is mutated after it was stored or passed"),
        "C04": ([sims.Shapes()], "a call with num_returns other than 1"),
        "C05": ([sims.Failures()], "some call fails"),
        "C06": ([sims.Waits()], "a wait on several references"),
        "C07": ([sims.Actors(), callers.Callers()], "several calls on an actor; or calls by several callers"),
        "C08": ([sims.Asyncs()], "several coroutine calls of an actor"),
        "C09": ([sims2.Held()], "more than 12 references are dropped while others are kept"),
        "C10": ([sims2.Release(), sims2.Bounded(), growth.Growth()], "marked objects are produced by tasks or actors"),
        "C11": ([sims2.Shared(), sims2.Kept()], "references dropped or several hosts; or fetched values kept while more than 12 "
                "references are dropped"),
        "C16": ([sims2.Sched()], "at least one actor and several workers"),
        "C17": ([sims2.Shut()], "at least two calls or actors before the shutdown"),
        "C18": ([sims2.Messages()], "small block size and more than 20 messages"),
        "C19": ([sims2.Nested()], "a task uses the API itself"),
    }
    parts, rules, assumptions, probes = [], [], [], []
    if prop in unit:
        parts += unit[prop][0]
        rules.append(unit[prop][1])
        assumptions += unit[prop][2]
        probes += unit[prop][3]
    if prop in sim:
        parts += sim[prop][0]
        rules.append(SIM_RULE + sim[prop][1])
        assumptions += SIM_ASSUMPTIONS
    extra = real.parts(prop)
    if prop == "C22":
        parts += api.parts()
        rules.append("a case is a sequence of legal and illegal uses of the API with generated arguments on the MPI backend over "
                     "simulated MPI or on a real backend, compared with the documented outcome; after a step the system must "
                     "still work. Non-trivial: at least one illegal use")
        assumptions += SIM_ASSUMPTIONS[:1]
    if extra:
        parts += extra
        rules.append("the same programs on real backends, restricted to what each supports; same rule")
    if prop == "C17":
        probes.append(sims2.nested_shutdown_probe)
    if prop == "C07":
        probes.append(lambda: ("dask-in-flight", None))     # the generator leaves such programs out
    if extra or prop == "C22":
        assumptions.append("a real backend that cannot be started in this sandbox is skipped and counted as not run")
    return parts, " / ".join(rules), assumptions, probes


def main():
    prop = sys.argv.pop(1).upper()
    parts, rule, assumptions, probes = table(prop)
    return harness.run_check(prop, parts, rule=rule, assumptions=assumptions, probes=probes)


if __name__ == "__main__":
    sys.exit(main())
