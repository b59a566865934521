"""Which checks there are, and which violations concern which property."""
from __future__ import annotations

from sim.driver import Check
from sim.peer import needed

# Violations that mean the system did not do its job at all, whatever was being looked at.
ANY = {"hang", "unexpected_error", "unloadable", "deadlock"}

BUILD = {"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C13", "C15"}

KINDS = {
    # storage (mostly overridden by the violation itself)
    "wrong_discovery": {"C09"},
    "missed_partition": {"C09"},
    "extra_partition": {"C09"},
    "wrong_fingerprint": {"C09", "C10"},
    "collateral_write": {"C10"},
    "leftover": {"C10"},
    "stale_read": {"C10", "C07"},
    "wrong_read": {"C10"},
    # builds
    "wrong_result": {"C01"},
    "missing_result": {"C01", "C05"},
    "ghost_result": {"C01", "C07"},
    "wrong_inputs": {"C01", "C05"},
    "rerun": {"C02"},
    "not_rerun": {"C02", "C01"},
    "order": {"C05"},
    "missed_failure": {"C05"},
    "validation_ignored": {"C04", "C05"},
    "unvalidated": {"C04"},
    "swallowed_error": {"C05"},
    "spurious_failure": BUILD,
    "wrong_error": {"C04", "C05"},
    "read_error": {"C01", "C05", "C07", "C13"},
    "wrong_raw_read": {"C01", "C07", "C10"},
    "lost_write": {"C10", "C03"},
    "torn_write": {"C10", "C03"},
    "torn_output": {"C03", "C10", "C13"},
    "foreign_output": {"C01", "C03", "C04"},
    "leak_file": {"C15"},
    "leak_conn": {"C15"},
    "conn_misuse": {"C15"},
    "context_leak": {"C12"},
    "tag_overwritten": {"C08"},
    "wrong_tag": {"C08"},
    "tag_error": {"C08"},
    "unstable_identity": {"C06", "C11"},
    "same_identity": {"C06", "C11"},
    "missing_identity": {"C06"},
    "unstable_id": {"C06"},
    "same_id": {"C06"},
    "unstable_version": {"C11"},
    "same_version": {"C11"},
    "wrong_version": {"C11"},
    "disagreement": {"C06", "C13"},
    "no_progress": {"C03", "C05", "C13"},
}
SNAP_OPS = {"bsnap", "rsnap", "snap"}
DATA = {"wrong_result", "missing_result", "ghost_result", "wrong_inputs", "read_error", "wrong_raw_read"}


def properties_of(v: dict, plan: dict) -> set[str]:
    kind = v["kind"]
    if kind in ANY:
        return {f"C{i:02}" for i in range(1, 16)}
    details = v.get("details") or {}
    if details.get("props"):
        return set(details["props"])
    props = set(KINDS.get(kind, ()))
    if plan.get("workload") == "conc":
        return props | {"C13"}
    if plan.get("workload") == "context":
        return props | {"C12"}
    if plan.get("workload") == "dispatch":
        return {"C14"}
    if plan.get("workload") == "builds":
        if kind in DATA:
            if details.get("faulted"):
                props.add("C03")
            op = details.get("op")
            ops = plan.get("ops", [])
            name = ops[op]["op"] if isinstance(op, int) and op < len(ops) else None
            if name in SNAP_OPS or any("oob" in o for o in ops):
                props.add("C07")
            if name in ("rtag", "tag"):
                props.add("C08")
        if kind == "rerun" and details.get("faulted"):
            props.add("C03")
        if kind in ("not_rerun", "foreign_output", "wrong_result", "ghost_result") and any(o["op"] == "invalid" for o in plan.get("ops", ())):
            props.add("C04")
    return props


def relevant_to(prop: str, v: dict, plan: dict) -> bool:
    return prop in properties_of(v, plan)


REAL = ["all of src/arti (unmodified)", "pydantic", "multimethod", "graphlib", "parse", "json", "pickle", "pathlib/glob/tempfile/shutil"]
STUBS = [
    "file system calls: real files in a scratch directory behind an interposed open/os layer (faults, order, crash)",
    "external metadata backend: SimBackend over the real MemoryBackend (connections, failures, restart by serialisation)",
    "process death: exception unwinding with all later effects suppressed",
    "user code: generated producers with pure operations",
]
SCHED_STUB = "thread scheduling, threading.Lock/RLock, import locks and time.sleep: real threads of which a simulated scheduler lets exactly one run (switches at I/O, backend and lock operations, and at every line and return of artigraph's code)"
GCS_STUB = "Google Cloud Storage: in-process fake HTTP session under the real gcsfs/fsspec, on a private event loop with virtual sleep"

CLOCK_STUB = "wall clock: CLOCK_REALTIME of the process replaced below libc (preloaded library), set by the plan; time zone set by the plan"
GIT_STUB = "git: minimal real repositories; processes started for the usual queries are simulated behind subprocess.Popen (exit status, partial output, signals, failures to start), other git commands run for real"
PEER_STUB = "other process: a second interpreter (own hash seed, time zone and interposed files) run in lockstep, forked per run"

HISTORY_RULE = (
    "A case is a seeded history (operations, inputs, faults, schedule) run against the real library. It is counted when the run "
    "completed, and distinct when the sha256 of its full history of environment events, calls, faults and outcomes differs."
)


def B(*mix):
    return [("builds", p, n) for p, n in mix]


def S(*mix):
    return [("storage", p, n) for p, n in mix]


COLD_NOTE = (
    "Seeded search, no exhaustiveness. Every run starts from a process that has not discovered any plugin. Trusts the seams listed as stubs in "
    "the evidence. With several threads, faults are not injected while a module is being executed (CPython hands the broken module to waiting threads)."
)
CHECKS = {
    c.prop: c
    for c in [
        Check("C01", B(("plain", 3), ("memo", 2), ("faults", 1), ("snaps", 1), ("validate", 1), ("gcs", 1), ("peers", 1), ("noise", 1))),
        Check("C02", B(("memo", 3), ("plain", 1), ("crash", 1), ("gcs", 1), ("peers", 2))),
        Check("C03", B(("crash", 3), ("faults", 2), ("gcsfaults", 1), ("noise", 1))),
        Check("C04", B(("validate", 1))),
        Check("C05", B(("plain", 1), ("faults", 2), ("validate", 1), ("prodfail", 2), ("gcsfaults", 1))),
        Check("C06", [("ident", "local", 2), ("ident", "gcs", 1), ("ident", "faults", 2)]),
        Check("C07", B(("snaps", 3), ("tags", 1), ("gcs", 1), ("noise", 1)) + S(("plain", 1))),
        Check("C08", B(("tags", 3)) + [("conc", "contend", 2)]),
        Check("C09", S(("plain", 3), ("faults", 1), ("race", 1), ("gcs", 2), ("gcsfaults", 1))),
        Check("C10", S(("plain", 1), ("faults", 2), ("crash", 2), ("race", 1), ("gcs", 1), ("gcsfaults", 2))),
        Check("C11", [("versions", "plain", 1), ("versions", "faults", 1)], stubs=STUBS[:2] + [CLOCK_STUB, GIT_STUB]),
        Check("C12", [("context", "threads", 2), ("context", "single", 1), ("context", "interrupts", 2)]),
        Check("C14", [("dispatch", "threads", 2), ("dispatch", "failing", 2), ("dispatch", "interrupts", 2), ("dispatch", "late", 2)], cold=True, note=COLD_NOTE),
        Check("C13", [("conc", "quiet", 2), ("conc", "edits", 3), ("conc", "faulty", 2), ("conc", "gcs", 1), ("conc", "contend", 2)]),
        Check("C15", B(("hygiene", 3), ("gcsfaults", 1)) + S(("faults", 1))),
    ]
}
for _c in CHECKS.values():
    _c.rule = _c.rule or HISTORY_RULE
    _c.real = _c.real or REAL
    _c.stubs = (_c.stubs or STUBS) + ([GCS_STUB] if any("gcs" in w + p for w, p, _ in _c.mix) else []) + ([SCHED_STUB] if any(w in ("conc", "context", "dispatch") for w, _, _ in _c.mix) else []) + ([PEER_STUB] if any(needed(w, p) for w, p, _ in _c.mix) else [])
