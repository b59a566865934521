"""Search, minimisation, replay and evidence."""
from __future__ import annotations

import ctypes
import hashlib
import json
import os
import subprocess
import sys
import threading
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
N_WORKERS = 8


def native_lib():
    return os.path.join(VERIF, "build", "libsimclock.so")


def ensure_native():
    out = native_lib()
    src = os.path.join(VERIF, "native", "simclock.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = f"{out}.{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, out)
    return out


def _preexec():
    try:
        libc = ctypes.CDLL(None)
        libc.personality(0x0040000)  # ADDR_NO_RANDOMIZE, where permitted
    except Exception:
        pass


class Worker:
    def __init__(self, index: int, cold: bool = False, hashseed: int | None = None, peer: bool = False):
        self.index = index
        self.hashseed = 1000 + index if hashseed is None else hashseed
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LANG": "C.UTF-8",
            "PYTHONHASHSEED": str(self.hashseed), "PYTHONPATH": VERIF, "PYTHONDONTWRITEBYTECODE": "1",
            "LD_PRELOAD": native_lib(), "TZ": "UTC", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        }
        for k in ("SIM_SRC",):
            if k in os.environ:
                env[k] = os.environ[k]
        argv = [PYTHON, "-X", "faulthandler", "-m", "sim.worker"] + (["--cold"] if cold else []) + (["--peer"] if peer else [])
        self.proc = subprocess.Popen(
            argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
            cwd=VERIF, preexec_fn=_preexec,
        )
        self.err: list[str] = []
        threading.Thread(target=self._drain, daemon=True).start()
        line = self.proc.stdout.readline()
        if not line:
            time.sleep(0.3)
            raise RuntimeError("worker did not start:\n" + "".join(self.err[-40:]))

    def _drain(self):
        for line in self.proc.stderr:
            self.err.append(line)
            del self.err[:-400]

    def run(self, job) -> dict:
        self.proc.stdin.write(json.dumps(job) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError("worker died:\n" + "".join(self.err[-40:]))
        return json.loads(line)

    def close(self):
        try:
            self.proc.stdin.write('{"quit": true}\n')
            self.proc.stdin.close()
            self.proc.wait(10)
        except Exception:
            self.proc.kill()
            self.proc.wait()


# ==================================================================================================
# Minimisation
# ==================================================================================================
def _drops(seq_len):
    """Chunks to try removing, largest first."""
    n = seq_len
    size = max(1, n // 2)
    while True:
        for i in range(0, n, size):
            yield i, min(n, i + size)
        if size == 1:
            return
        size //= 2


def _get(d, path):
    for p in path:
        d = d[p]
    return d


def list_paths(plan):
    """Lists of a plan that may be shortened: any list stored under these names, at any depth."""
    names = ("ops", "faults", "threads", "switches", "decisions", "partitions", "debris", "edits")
    out = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                if k in names and isinstance(x[k], list) and x[k]:
                    out.append((*path, k))
                walk(x[k], (*path, k))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    walk(v, (*path, i))

    walk(plan, ())
    return sorted(out, key=len)


def minimise(plan, test, budget: float):
    """Shorten the plan while `test(plan)` still shows the violation."""
    deadline = time.monotonic() + budget
    tried = 0
    cur = json.loads(json.dumps(plan))
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for path in list_paths(cur):
            try:
                seq = _get(cur, path)
            except (KeyError, IndexError):
                continue
            again = True
            while again and time.monotonic() < deadline:
                again = False
                seq = _get(cur, path)
                for lo, hi in _drops(len(seq)):
                    if time.monotonic() > deadline:
                        break
                    if hi > len(seq):
                        continue
                    cand = json.loads(json.dumps(cur))
                    del _get(cand, path)[lo:hi]
                    tried += 1
                    if test(cand):
                        cur, again, progress = cand, True, True
                        break
        # Drop optional members of ops (eg: out-of-band edits).
        for i, op in enumerate(cur.get("ops", [])):
            if isinstance(op, dict):
                for k in [k for k in ("oob", "reads", "conn", "shuffle") if op.get(k)]:
                    if time.monotonic() > deadline:
                        break
                    cand = json.loads(json.dumps(cur))
                    cand["ops"][i].pop(k)
                    tried += 1
                    if test(cand):
                        cur, progress = cand, True
        # Unused trailing producers.
        nodes = cur.get("spec", {}).get("nodes") if isinstance(cur.get("spec"), dict) else None
        for i in range(len(nodes or ()) - 1, -1, -1):
            node = cur["spec"]["nodes"][i]
            if node["kind"] != "prod" or time.monotonic() > deadline:
                continue
            outs = {k for k in node["outs"] if k}
            if any(outs & set(m.get("ins", ())) for m in cur["spec"]["nodes"]):
                continue
            cand = json.loads(json.dumps(cur))
            del cand["spec"]["nodes"][i]
            if not any(m["kind"] == "prod" for m in cand["spec"]["nodes"]):
                continue
            tried += 1
            if test(cand):
                cur, progress = cand, True
    return cur, tried


# ==================================================================================================
# Checks
# ==================================================================================================
AGAIN_EVERY = 41  # Of so many runs of a worker, one is run twice.


class Check:
    def __init__(self, prop, mix, cold=False, quick=50, thorough=780, rule="", stubs=(), real=(), note="", assumptions=()):
        self.prop, self.mix, self.cold = prop, mix, cold
        self.quick, self.thorough = quick, thorough
        self.rule, self.stubs, self.real, self.note = rule, stubs, real, note
        self.assumptions = assumptions


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def replay_file(check, vio, plan, worker_seed, extra) -> str:
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": check.prop, "violation": vio, "hashseed": worker_seed, "cold": check.cold, "plan": plan, **extra}
    name = f"{check.prop}-{hashlib.sha256(json.dumps([plan, vio['kind']], sort_keys=True).encode()).hexdigest()[:12]}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def run_check(check: Check, *, seed: int, tier: str, budget: float | None = None, relevant=None, quiet=False, keep_going=False) -> int:
    from sim.peer import needed
    from sim.props import relevant_to

    ensure_native()
    budget = budget or (check.quick if tier == "quick" else check.thorough)
    t0 = time.monotonic()
    started = time.time()
    workers = [None] * N_WORKERS
    boot_err = []
    peer = any(needed(w, p) for w, p, _ in check.mix)

    def boot(i):
        try:
            workers[i] = Worker(i, check.cold, peer=peer)
        except Exception as e:
            boot_err.append(str(e))

    ts = [threading.Thread(target=boot, args=(i,)) for i in range(N_WORKERS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if boot_err:
        print(boot_err[0], file=sys.stderr)
        for wk in workers:
            if wk:
                wk.close()
        # The simulated system could not even be loaded.
        path = replay_file(check, {"kind": "unloadable", "msg": boot_err[0][-1500:], "details": {}}, {}, 1000, {})
        print(f"VIOLATION property={check.prop} replay={path}")
        return 1
    deadline = t0 + budget
    mix = [(w, p) for w, p, n in check.mix for _ in range(n)]
    lock = threading.Lock()
    agg = {
        "runs": 0, "events": 0, "sim_time": 0.0, "faults": Counter(), "event_counts": Counter(), "outcomes": Counter(),
        "stats": Counter(), "profiles": Counter(), "other_violations": Counter(), "findings": Counter(), "aborted": 0,
        "again": 0, "again_same": 0, "again_differs": [],
    }
    digests: set[str] = set()
    shapes: set[str] = set()
    samples: list[dict] = []
    hits: list[tuple[int, dict, dict]] = []
    stop = threading.Event()
    crashed: list[str] = []

    def loop(i):
        wk = workers[i]
        k = 0
        base = seed * 1_000_000_007
        while not stop.is_set() and time.monotonic() < deadline:
            idx = k * N_WORKERS + i
            k += 1
            w, p = mix[(idx // N_WORKERS + i) % len(mix)]
            job = {"workload": w, "profile": p, "seed": base + idx}
            try:
                res = wk.run(job)
                # One seed is one execution: some are run twice.
                twice = wk.run(job) if k % AGAIN_EVERY == 7 and res["outcome"] == "ok" and not keep_going else None
            except Exception as e:
                crashed.append(str(e))
                return
            with lock:
                if twice is not None and twice["outcome"] != "aborted":
                    same = twice["outcome"] == "ok" and twice.get("digest") == res.get("digest") and twice.get("shape") == res.get("shape")
                    agg["again"] += 1
                    agg["again_same"] += same
                    if not same and len(agg["again_differs"]) < 5:
                        agg["again_differs"].append({**job, "hashseed": wk.hashseed})
                agg["runs"] += 1
                agg["profiles"][f"{w}/{p}"] += 1
                agg["outcomes"][res["outcome"]] += 1
                if res["outcome"] == "aborted":
                    agg["aborted"] += 1
                    continue
                agg["events"] += res.get("events", 0)
                agg["sim_time"] += res.get("sim_time", 0.0)
                agg["faults"].update(res.get("faults", {}))
                agg["event_counts"].update(res.get("event_counts", {}))
                agg["stats"].update({k: v for k, v in res.get("stats", {}).items() if isinstance(v, (int, float))})
                for fid, _ in res.get("findings", []):
                    agg["findings"][fid] += 1
                if res["outcome"] == "ok":
                    digests.add(res["digest"][:24])
                    if res.get("shape"):
                        shapes.add(res["shape"])
                    if len(samples) < 6 and agg["runs"] % 7 == 1:
                        samples.append({**job, "hashseed": wk.hashseed, "events": res["events"], "faults": res["faults"], "stats": res["stats"], "digest": res["digest"][:16]})
                if res["outcome"] == "violation":
                    v = res["violation"]
                    if relevant_to(check.prop, v, res.get("plan") or {}):
                        hits.append((i, job, res))
                        if not keep_going:
                            stop.set()
                    else:
                        agg["other_violations"][v["kind"]] += 1

    ts = [threading.Thread(target=loop, args=(i,)) for i in range(N_WORKERS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    elapsed = time.monotonic() - t0
    rc = 0
    if crashed and not hits:
        print("worker failure: " + crashed[0], file=sys.stderr)
        rc = 3
    vios = []
    if hits and not keep_going:
        reported = False
        for i, job, res in hits[:4]:
            ok = report(check, workers[i], job, res, relevant_to, tier)
            if ok:
                vios.append(ok)
                reported = True
                break
        if not reported:
            # The simulator repeats everything behind its seams exactly: what the code under test did depends on
            # something else (eg: addresses of objects). The violation happened all the same.
            i, job, res = hits[0]
            path = replay_file(check, res["violation"], res.get("plan") or {}, workers[i].hashseed, {"job": job, "reproduced": False})
            print(f"seed {job['seed']} ({job['workload']}/{job['profile']}), not repeatable: {json.dumps(res['violation'])[:600]}")
            print(f"VIOLATION property={check.prop} replay={path}", flush=True)
            vios.append({"kind": res["violation"]["kind"], "msg": res["violation"]["msg"][:400], "replay": path, "seed": job["seed"], "reproduced": False})
        rc = 1
    for wk in workers:
        wk.close()
    known = [f for f in load_findings()["findings"] if f["property"] == check.prop]
    for f in known:
        print(f"KNOWN-FINDING: property={check.prop} {f['id']}: {f['what']}")
    evidence(check, tier, seed, agg, digests, shapes, samples, elapsed, started, vios, rc)
    if not quiet:
        rate = agg["runs"] / max(elapsed, 1e-9)
        print(f"{check.prop}: {agg['runs']} runs ({rate:.0f}/s), {len(digests)} distinct, outcomes {dict(agg['outcomes'])}, "
              f"faults {sum(agg['faults'].values())}, other {dict(agg['other_violations'])}")
    if keep_going:
        return hits  # type: ignore[return-value]
    return rc


def report(check, worker, job, res, relevant_to, tier):
    plan = res.get("plan")
    if plan is None:
        plan = worker.run({**job, "want_plan": True}).get("plan")
    if plan is None:
        return None
    kind = res["violation"]["kind"]
    if res.get("decisions") is not None:
        plan = {**plan, "decisions": res["decisions"]}
    again = worker.run({"plan": plan})
    if again["outcome"] != "violation" or not relevant_to(check.prop, again["violation"], plan):
        # Without the recorded decisions.
        plan = res["plan"]
        again = worker.run({"plan": plan})
        if again["outcome"] != "violation" or not relevant_to(check.prop, again["violation"], plan):
            return None

    def test(cand):
        r = worker.run({"plan": cand})
        return r["outcome"] == "violation" and r["violation"]["kind"] == kind and relevant_to(check.prop, r["violation"], cand)

    small, tried = plan, 0
    if kind != "hang":
        small, tried = minimise(plan, test, 45 if tier == "quick" else 180)
    # Confirm in a fresh process; the file holds what that shows.
    fresh = Worker(worker.index, check.cold, worker.hashseed)
    try:
        final = fresh.run({"plan": small, "want_trace": True})
        if final["outcome"] != "violation":
            small = plan
            final = fresh.run({"plan": small, "want_trace": True})
    finally:
        fresh.close()
    if final["outcome"] != "violation":
        return None
    path = replay_file(check, final["violation"], small, worker.hashseed, {
        "digest": final.get("digest"), "job": job, "minimised_from_ops": len(plan.get("ops", ())),
        "candidates_tried": tried, "trace": final.get("trace", [])[-400:],
    })
    print(f"seed {job['seed']} ({job['workload']}/{job['profile']}): {final['violation']['kind']}: {final['violation']['msg'][:600]}")
    print(f"VIOLATION property={check.prop} replay={path}", flush=True)
    return {"kind": final["violation"]["kind"], "msg": final["violation"]["msg"][:400], "replay": path, "seed": job["seed"]}


def evidence(check, tier, seed, agg, digests, shapes, samples, elapsed, started, vios, rc):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    hours = elapsed / 3600
    coverage = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(digests),
        "rule": check.rule,
        "samples": samples or [{"note": "no completed run"}],
        "runs_per_hour": round(agg["runs"] / hours) if hours else 0,
        "simulated_seconds": round(agg["sim_time"], 1),
        "simulated_events": agg["events"],
        "faults_injected": dict(sorted(agg["faults"].items())),
        "faults_injected_total": sum(agg["faults"].values()),
        "environment_events": dict(sorted(agg["event_counts"].items())),
        "outcomes": dict(agg["outcomes"]),
        "history_statistics": {k: v for k, v in sorted(agg["stats"].items())},
        "workloads": dict(agg["profiles"]),
        "seeds_run_twice": agg["again"],
        "seeds_run_twice_identical": agg["again_same"],
        "seeds_run_twice_differing": agg["again_differs"],
        "distinct_interleavings": len(shapes),
        "distinct_interleavings_measure": "distinct sequences of (thread, context switch point); 0 where the workload has one thread",
        "known_finding_hits": dict(agg["findings"]),
        "other_properties_violations": dict(agg["other_violations"]),
        "hash_seeds": [1000 + i for i in range(N_WORKERS)],
        "real_components": list(check.real),
        "stub_components": list(check.stubs),
        "violations_found": vios,
        "exit": rc,
    }
    body = {
        "property": check.prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": list(check.assumptions), "wall_s": round(elapsed, 2), "violations": len(vios),
    }
    with open(os.path.join(d, f"{check.prop}.json"), "w") as f:
        json.dump(body, f, indent=1)
