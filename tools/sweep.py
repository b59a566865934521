#!/usr/bin/env python3
"""sweep.py workload/profile [...] [-n N] [-s SEED]: run seeds and list all violations (development aid)."""
import argparse, os, sys, json, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver
ap = argparse.ArgumentParser()
ap.add_argument("mix", nargs="+"); ap.add_argument("-t", type=float, default=20); ap.add_argument("-s", type=int, default=1)
ap.add_argument("--cold", action="store_true"); ap.add_argument("-k", type=int, default=3)
a = ap.parse_args()
import sim.props as P
P.relevant_to = lambda *x: True
c = driver.Check("DEV", [(*m.split("/"), 1) for m in a.mix], cold=a.cold)
driver.evidence = lambda *x: None
hits = driver.run_check(c, seed=a.s, tier="quick", budget=a.t, keep_going=True)
by = collections.defaultdict(list)
for i, job, res in hits:
    by[res["violation"]["kind"]].append((1000 + i, job, res))
for k, v in sorted(by.items(), key=lambda kv: -len(kv[1])):
    print(f"=== {k}: {len(v)}")
    for hs, job, res in v[: a.k]:
        d = {x: y for x, y in res["violation"]["details"].items() if x not in ("tb",)}
        print("  ", hs, job["workload"], job["profile"], job["seed"], res["violation"]["msg"][:300], json.dumps(d)[:400])
        if res["violation"]["details"].get("tb"): print("      ", res["violation"]["details"]["tb"][-700:].replace("\n", "\n       "))
