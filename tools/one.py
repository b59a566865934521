#!/usr/bin/env python3
"""one.py hashseed workload profile seed [-p]: run one job, print the trace (development aid)."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver
driver.ensure_native()
w = driver.Worker(0, "--cold" in sys.argv, int(sys.argv[1]))
r = w.run({"workload": sys.argv[2], "profile": sys.argv[3], "seed": int(sys.argv[4]), "want_trace": True, "want_plan": True})
w.close()
if "-q" not in sys.argv:
    print("\n".join(r.get("trace", [])))
if "-p" in sys.argv: print(json.dumps(r["plan"], indent=1))
r.pop("trace", None); r.pop("plan", None); r.pop("decisions", None); tb = (r.get("violation") or {}).get("details", {}).pop("tb", "")
print(json.dumps(r, indent=1)[:3000]); print(tb)
sys.stderr.write("".join(w.err[-30:]))
