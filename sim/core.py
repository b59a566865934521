"""Core of the simulator: the simulated world, its event stream, virtual clock and fault injection.

A run is driven by a plan: a JSON object produced from one seed. Everything the run does (operations,
faults, schedule, clock) comes from the plan or from a PRNG seeded by it, so a plan is one exactly
repeatable execution.
"""
from __future__ import annotations

import dis
import errno
import hashlib
import json
import os
import random
import sys
import threading
from collections import Counter

SRC = os.path.realpath(os.environ.get("SIM_SRC", "/repo/src"))
ARTI_SRC = os.path.join(SRC, "arti") + os.sep


class SimCrash(BaseException):
    """The simulated process died here. Nothing it does afterwards has any effect."""


class Hang(BaseException):
    """The run exceeded its step budget."""


class Violation(Exception):
    def __init__(self, kind: str, msg: str, **details):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.details = kind, msg, details

    def to_json(self):
        return {"kind": self.kind, "msg": self.msg[:2000], "details": json.loads(json.dumps(self.details, default=repr))}


class Discard(Exception):
    """The plan is not applicable (eg: after minimisation removed what an op relied on)."""


ERRNOS = {
    "EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
    "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT, "EINTR": errno.EIO, "ENOMEM": errno.ENOMEM,
    "EPERM": errno.EPERM, "ETIMEDOUT": errno.ETIMEDOUT, "ESTALE": errno.ESTALE, "EBUSY": errno.EBUSY,
}

MAX_EVENTS = 60_000
EVENTS_PER_WORK = 400  # Graphs of many partitions take more.


_exits: dict = {}


def at_with_exit(frame) -> bool:
    """Whether the line event is for leaving a `with` block, before its `__exit__` is called.

    The interpreter never handles a signal there (so `__exit__` cannot be missed), but an exception
    from a trace function would.
    """
    code = frame.f_code
    offsets = _exits.get(code)
    if offsets is None:
        offsets = set()
        ins = list(dis.get_instructions(code))
        for i, a in enumerate(ins):
            if a.opname in ("PUSH_EXC_INFO", "WITH_EXCEPT_START"):
                offsets.add(a.offset)
            elif i + 3 < len(ins) and all(b.opname in ("LOAD_CONST", "RETURN_CONST") and b.argval is None for b in ins[i:i + 3]) and ins[i + 3].opname in ("CALL", "PRECALL"):
                offsets.add(a.offset)
                if i and ins[i - 1].opname == "SWAP":
                    offsets.add(ins[i - 1].offset)
        _exits[code] = offsets
    return frame.f_lasti in offsets


def entering(frame) -> bool:
    """Whether a context manager is being entered or left, where an interrupt cannot be handled."""
    while frame is not None:
        if frame.f_code.co_name in ("__enter__", "__exit__") and frame.f_code.co_filename.startswith(ARTI_SRC):
            return True
        frame = frame.f_back
    return False


class Node:
    """A simulated process: its own in-memory state, sharing storage with the other nodes."""

    def __init__(self, name: str, proc: "Node | None" = None):
        self.name = name
        self.proc = proc  # the process, for a thread of it
        self._dead = False
        self.veto = None  # (frame) -> whether faults must not happen there
        self.reset()

    @property
    def dead(self) -> bool:
        return self._dead if self.proc is None else self.proc.dead

    @dead.setter
    def dead(self, v: bool):
        if self.proc is None:
            self._dead = v
        else:
            self.proc.dead = v

    def reset(self):
        self.faults: list[dict] = []
        self.counts: Counter = Counter()
        self.lines = 0
        self.fired: list[dict] = []


class World:
    def __init__(self, plan: dict):
        self.plan = plan
        self.rng = random.Random(f"world:{plan.get('seed', 0)}")
        self.digest = hashlib.sha256()
        self.trace: list[str] = []
        self.n_events = 0
        self.fault_counts: Counter = Counter()
        self.event_counts: Counter = Counter()
        self.sim_time = 0.0
        self.sched = None
        self.violations: list[Violation] = []
        self._tls = threading.local()
        self.main = Node("main")
        self.keep_trace = bool(plan.get("_keep_trace"))
        self.active = True
        self.open_files: dict[int, object] = {}
        self.listeners = []  # called as f(kind, detail) on each event (for oracles and out-of-band actors)

    # -- nodes ---------------------------------------------------------------------------------
    @property
    def node(self) -> Node:
        return getattr(self._tls, "node", self.main)

    @node.setter
    def node(self, n: Node):
        self._tls.node = n

    @property
    def in_server(self) -> int:
        """Whether this thread is executing an external server's code."""
        return getattr(self._tls, "in_server", 0)

    @in_server.setter
    def in_server(self, n: int):
        self._tls.in_server = n

    # -- history -------------------------------------------------------------------------------
    def log(self, *parts):
        line = " ".join(p if isinstance(p, str) else json.dumps(p, sort_keys=True, default=repr) for p in parts)
        self.digest.update(line.encode() + b"\n")
        if self.keep_trace or len(self.trace) < 4000:
            self.trace.append(line)

    def violate(self, kind, msg, **details):
        v = Violation(kind, msg, **details)
        self.log("VIOLATION", kind)
        self.violations.append(v)
        raise v

    def note_violation(self, kind, msg, **details):
        v = Violation(kind, msg, **details)
        self.log("VIOLATION", kind)
        self.violations.append(v)

    # -- ops -----------------------------------------------------------------------------------
    def begin_op(self, label, faults=()):
        node = self.node
        node.reset()
        node.faults = [dict(f) for f in faults]
        self.log("OP", node.name, label)
        lines = [f for f in node.faults if f["on"] == "line"]
        if lines and self.sched is None:
            self._arm_line_tracer(node)

    def end_op(self):
        if self.sched is None:
            sys.settrace(None)
        self.node.faults = []

    def _arm_line_tracer(self, node):
        def local(frame, event, arg):
            if event == "line":
                self.line(node, frame)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ARTI_SRC) else None

        sys.settrace(tracer)

    def line(self, node, frame):
        if self.in_server or at_with_exit(frame):
            return
        node.lines += 1
        for f in node.faults:
            if f["on"] == "line" and f["n"] == node.lines:
                if node.veto is not None and node.veto(frame):
                    f["n"] += 1
                    continue
                node.faults.remove(f)
                where = f"{os.path.relpath(frame.f_code.co_filename, SRC)}:{frame.f_lineno}"
                self._fired(node, f, where)
                if f["kind"] == "interrupt":
                    raise KeyboardInterrupt(f"simulated at {where}")
                self.crash(node)

    def crash(self, node=None):
        (node or self.node).dead = True
        self.log("CRASH", (node or self.node).name)
        raise SimCrash()

    def _fired(self, node, f, where):
        node.fired.append({**f, "at": where})
        self.fault_counts[f"{f['kind']}@{f['on'] if f['on'] in ('line', 'any') else where.split(' ')[0]}"] += 1
        self.log("FAULT", f["kind"], where)

    # -- events --------------------------------------------------------------------------------
    def event(self, cls: str, what: str, detail: str = "") -> dict | None:
        """An interaction with the environment. Returns a fault for the caller to carry out (if any).

        `cls` is "fs", "be", "gcs", "git", ...; `what` the specific operation.
        """
        if not self.active:
            return None
        node = self.node
        if node.dead:
            raise SimCrash()
        if self.sched is not None and not self.in_server:
            self.sched.point("ev")
            if node.dead:
                raise SimCrash()
        self.n_events += 1
        if self.n_events > MAX_EVENTS and self.n_events > min(
            MAX_EVENTS + EVENTS_PER_WORK * self.event_counts["prod.build"], 8 * MAX_EVENTS
        ):
            raise Hang(f"more than {self.n_events - 1} events")
        self.sim_time += 0.0005
        name = f"{cls}.{what}"
        self.event_counts[name] += 1
        self.log("EV", node.name, name, detail)
        counts = node.counts
        for k in (name, cls, "any"):
            counts[k] += 1
        for listener in self.listeners:
            listener(name, detail)
        for f in node.faults:
            if f["on"] in (name, cls, "any") and counts[f["on"]] == f["n"]:
                if node.veto is not None and node.veto(sys._getframe(1)):
                    f["n"] += 1
                    continue
                if f.get("sticky"):
                    f["n"] += 1
                    f["sticky"] -= 1
                else:
                    node.faults.remove(f)
                kind = f["kind"]
                self._fired(node, f, f"{name} {detail}")
                if kind == "crash":
                    self.crash(node)
                if kind == "interrupt":
                    raise KeyboardInterrupt("simulated")
                if kind == "slow":
                    self.sim_time += f.get("s", 5.0)
                    continue
                return f
        return None

    def oserror(self, f, path=None):
        e = ERRNOS.get(f["kind"], errno.EIO)
        return OSError(e, f"{os.strerror(e)} (simulated)", path)


WORLD: World | None = None


def world() -> World | None:
    return WORLD


def set_world(w: World | None):
    global WORLD
    WORLD = w


def canon(x) -> str:
    """Canonical text of a value; rows of partitioned data compare as multisets."""
    return json.dumps(x, sort_keys=True, default=repr)


def canon_rows(x) -> str:
    if isinstance(x, list):
        return json.dumps(sorted(canon(r) for r in x))
    return canon(x)
