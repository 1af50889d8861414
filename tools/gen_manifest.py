"""Writes /verif/MANIFEST.json.  Claimed checks are those with an entry in CHECKS."""
import json, os

TECH = "deterministic simulation with fault injection"
CHECKS = json.load(open(os.path.join(os.path.dirname(__file__), "claims.json")))
NA = {
 "N01": "Pure function of its input (velocity tables): no schedule, clock, I/O, fault or second party to simulate; seeded input generation would be property-based testing, not simulation.",
 "N02": "Pure symbolic linear algebra on the scheme description; nothing nondeterministic or faulty to inject.",
 "N03": "Translation correctness of the generated formulas is a pure function of the scheme; no schedule or fault decides it by itself. (The kernels run as real code under the simulator, and C17 compares whole histories of operations with a reference model.)",
 "N04": "Pure geometric predicates of single elements; no schedule, time, I/O or fault. (Consistency of their use across processes is C02.)",
 "N05": "Pure symbolic computation (Taylor expansion); nothing to schedule or to fail.",
 "N06": "Pure numerical computation (eigenvalues); the only interaction is a matplotlib widget.",
 "N07": "Validation of a dictionary is a pure function of the dictionary.",
 "N08": "Placement of graphics is a pure function of the data; no schedule or fault affects it.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
na = []
checks = []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({
            "property": p,
            "quick_cmd": f"./check {p}",
            "thorough_cmd": f"./check {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH + ": " + c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["level_note"],
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "Check not built yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (mpi4py, h5py file driver, os/open/tempfile/subprocess, import system, clock, user callbacks) is replaced from outside by the simulator in /verif/dst."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
