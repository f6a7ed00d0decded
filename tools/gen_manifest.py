"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
SIM = ("property-based testing: Hypothesis-generated programs, layouts and schedules run on the real MPI backend over "
       "simulated MPI, compared with a sequential reference model; shrinking and replay files")
NOTE = ("Generated-input search: holds on every case explored, no proof. Trusts the MPI simulator's semantics, the "
        "reference model and that the sandbox's real backends behave like a user's.")
UNIT = "property-based testing: Hypothesis-generated {} with shrinking and replay files"
TECH = {
    "C12": UNIT.format("sequences of reservations and releases on the real classes against a reference set of free cells"),
    "C13": UNIT.format("copies and fills (length, alignment, threads) between guarded buffers in child processes"),
    "C14": UNIT.format("operation sequences on the configuration in fresh processes against a model of the documented rules"),
    "C15": UNIT.format("values, thresholds and wire forms, round-tripped through the real serializer"),
    "C20": UNIT.format("configurations and runtime environments; the spawned program is executed and its configuration compared"),
    "C22": UNIT.format("sequences of legal and illegal API uses on every backend against the documented outcome"),
    "C21": UNIT.format("host layouts on simulated MPI and spawn requests against a model of the roles"),
}
NA = {}
done = [p for p in props if p in TECH or p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22".split()]
m = {"version": 1, "setup_cmd": "bash -c '. /opt/vp/env.sh; build_ext'",
     "checks": [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                 "technique": TECH.get(p, SIM), "level": "exploration", "level_note": NOTE} for p in done],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in done]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(done))
