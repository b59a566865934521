#!/usr/bin/env python3
"""replay.py <file>: run a replay file in a fresh process. Exit 1 if the violation shows, 0 if not."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sim import driver, props  # noqa: E402


def main():
    path = sys.argv[1]
    with open(path) as f:
        rec = json.load(f)
    driver.ensure_native()
    if rec["violation"]["kind"] == "unloadable":
        try:
            driver.Worker(0, rec.get("cold", False), rec["hashseed"]).close()
            return 0
        except RuntimeError as e:
            print(e)
            print(f"VIOLATION property={rec['property']} replay={path}")
            return 1
    w = driver.Worker(0, rec.get("cold", False), rec["hashseed"])
    try:
        res = w.run({"plan": rec["plan"], "want_trace": True})
    finally:
        w.close()
    if "-v" in sys.argv:
        print("\n".join(res.get("trace", [])))
    if res["outcome"] != "violation":
        print(f"outcome: {res['outcome']}; the recorded violation does not show")
        return 0
    print(json.dumps(res["violation"], indent=1))
    print("digest", "equal" if res.get("digest") == rec.get("digest") else f"differs: {res.get('digest')} / {rec.get('digest')}")
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
