#!/usr/bin/env python3
"""seed.py [--checks] DIR...: confirm planted bugs in a scratch copy of /repo (development aid).

The patch applies, the package imports, the stable tests pass, the demonstration passes without and fails with it.
With --checks also runs the property's check against the copy."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def env(copy):
    e = {k: v for k, v in os.environ.items() if k not in ("VERIF_SEED",)}
    e.update(PYTHONPATH=f"{copy}/src", PYTHONDONTWRITEBYTECODE="1")
    return e


def tests(copy):
    xml = copy + ".xml"
    subprocess.run([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={xml}"],
                   cwd=copy, env=env(copy), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = copy + ".json"
    subprocess.run(["python3", "/opt/vp/results.py", out, f"junit:{xml}"], stdout=subprocess.DEVNULL)
    res = json.load(open(out))
    os.unlink(out); os.unlink(xml)
    return stable - set(res["passed"])


def one(d, checks, budget):
    d = os.path.abspath(d)
    meta = json.load(open(os.path.join(d, "meta.json")))
    top = tempfile.mkdtemp(prefix="seedwork-", dir="/tmp")
    copy, demo = top + "/repo", top + "/demo"
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        shutil.copytree(d, demo)
        for f in ("patch.diff", "meta.json"):
            os.unlink(os.path.join(demo, f))
        def run_demo():
            return subprocess.run(["bash", demo + "/demo.sh"], cwd=copy, env=env(copy), capture_output=True, text=True, timeout=300)
        before = run_demo()
        a = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, capture_output=True, text=True)
        if a.returncode:
            return f"DOES NOT APPLY {a.stderr}"
        failed = tests(copy)
        after = run_demo()
        out = f"tests failed: {sorted(failed)[:4]}; demo {before.returncode} -> {after.returncode} ({(after.stdout + after.stderr).strip().splitlines()[-1:]})"
        if before.returncode: out += "\n BEFORE: " + (before.stdout + before.stderr)[-1500:]
        ok = not failed and before.returncode == 0 and after.returncode != 0
        if checks:
            r = subprocess.run(["python3", VERIF + "/check.py", meta["property"], *(["--budget", str(budget)] if budget else [])], env={**os.environ, "SIM_SRC": copy + "/src"}, capture_output=True, text=True)
            out += f"\n  check {meta['property']}: exit {r.returncode} " + " | ".join(r.stdout.strip().splitlines()[-3:])
        return ("OK " if ok else "BAD ") + out
    finally:
        shutil.rmtree(top)


args = [a for a in sys.argv[1:] if not a.startswith("--")]
budget = next((float(a.split("=")[1]) for a in sys.argv if a.startswith("--budget=")), None)
for d in args:
    print(os.path.basename(d.rstrip("/")), one(d, "--checks" in sys.argv, budget), flush=True)
