#!/usr/bin/env python3
"""check.py <property>: decide one property by seeded simulation. See DESIGN.md."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sim import driver, props  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    return driver.run_check(props.CHECKS[a.property], seed=a.seed, tier=a.tier, budget=a.budget)


if __name__ == "__main__":
    sys.exit(main())
