"""Writes ../MANIFEST.json from the registered checks."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from sim.props import CHECKS
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
    "C16": "Type conversion between type systems is a pure function of its argument: no concurrency, time, I/O, randomness or multi-party behaviour for a simulator to control. Deciding it needs enumeration or proof over type terms, not schedules and faults.",
    "C17": "Validation of signatures at class definition is a pure, single threaded function of the definition; there is no schedule, fault, clock or history for the property to depend on.",
    "C18": "Immutability of models and mappings is a pure data structure property without concurrency, time, I/O or faults. (What the other properties need of it, eg: fingerprints surviving copies, is checked under C06.)",
}
TECH = "deterministic simulation with fault injection (seeded search over histories, schedules and faults against a reference model)"
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [
        {
            "property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "exploration",
            "level_note": c.note or "Seeded search, no exhaustiveness: assurance is that of the histories explored (counts in the evidence file). Trusts the reference model in sim/, and the fidelity of the seams listed as stubs in the evidence.",
        }
        for p, c in sorted(CHECKS.items())
    ],
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "Not claimed (yet).")} for p in props if p["id"] not in CHECKS],
    "notes": "No hooks in /repo were needed: all seams are entry points of the interpreter and libraries, interposed before artigraph is imported. Python is /opt/venv/bin/python for the simulated system; check.py itself runs on any python3. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
