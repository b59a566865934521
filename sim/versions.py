"""Producer versions over time: clocks, time zones, repositories, copies, other processes and redeployments (C11)."""
import base64
import copy
import hashlib
import json
import os
import pickle
import random
import sys
import time
from datetime import datetime, timedelta, timezone
from typing import Annotated, Any

from pydantic import Field

import arti
from arti import Graph, Producer, producer
from arti.formats.json import JSON
from arti.storage.local import LocalFile
from arti.versions import GitCommit, SemVer, String, Timestamp, Version

from sim import clock, core, fs, gitsim, lib, peer as peers

gitsim.install()

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
TZS = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "SIM+11:30", "SIM-13", "NST3:30NDT,M3.2.0,M11.1.0", "EST5EDT,M3.2.0,M11.1.0"]
KINDS = ["sem", "sem", "str", "str", "ts", "ts", "now", "now", "git", "git", "sha"]
WAYS = ["direct", "direct", "copy", "deepcopy", "model_copy", "deep_copy", "pickle", "fields", "fresh", "peer", "peer_fresh", "in_producer", "schema_copy"]
STRINGS = ["", "a", "A", " a", "a ", "a\n", "1.0.0", "1.0", "01", "1", "é", "e\u0301", "\u0000", "null", "True", "{}", "a" * 300, "v1", "v1 ", "日本"]
STYLES = ["dec", "dec", "cls", "inst"]
GIT_FAULTS = ["EAGAIN", "ENOMEM", "EMFILE", "missing", "killed", "rc", "warn", "stall"]
PROFILES = {"plain": 0.1, "faults": 0.6}


def _sha(rng):
    return "".join(rng.choice("0123456789abcdef") for _ in range(64 if rng.random() < 0.1 else 40))


def _time(rng):
    r = rng.random()
    if r < 0.1:
        s = rng.choice([0, 1, 951782400, 4102444799, 9_000_000_000, 2**31 - 1, 2**31, 2**32, 1e9])
    elif r < 0.3:  # around a change of daylight saving
        s = rng.choice([1711846800, 1729990800, 1710054000, 1730613600]) + rng.randint(-7200, 7200)
    else:
        s = rng.randint(0, 4_000_000_000)
    return [int(s), rng.choice([0, 1, 999999, 500000, 10, rng.randrange(1_000_000)])]


def _explicit(rng, used):
    """A time with an offset from UTC in minutes; one offset per instant."""
    while True:
        s, us = _time(rng)
        off = rng.choice([0, 0, 60, 120, -300, 345, -210, 840, -720])
        if used and rng.random() < 0.5:  # close to another, or looking the same on the wall clock
            s2, us2, off2 = rng.choice(sorted(used))
            s, us = rng.choice([(s2 + 3600, us2), (s2, (us2 + 1) % 1_000_000), (s2 + (off2 - off) * 60, us2), (s2, us2)])
        if not 0 <= s < 253402200000:
            continue
        if any(u[0] == s and u[1] == us and u[2] != off for u in used):
            continue
        used.add((s, us, off))
        return [s, us, off]


def generate(seed, profile):
    rng = random.Random(f"versions:{profile}:{seed}")
    pf = PROFILES[profile]
    used: set = set()
    shas = [_sha(rng) for _ in range(3)]
    shas.append(shas[0][:-1] + ("0" if shas[0][-1] != "0" else "1"))
    strings = rng.sample(STRINGS, 5) + rng.sample(shas, 1)
    ops: list = []
    n_v = 0
    kinds: dict = {}
    deployed = 0

    def state():
        r = rng.random()
        if r < 0.12:
            return None
        if r < 0.2:
            return {"head": None, "branch": True}
        return {"head": rng.choice(shas), "branch": rng.random() < 0.5}

    def env():
        k = rng.choice(["clock", "clock", "tz", "repo", "repo"])
        if k == "clock":
            return {"op": "clock", "t": _time(rng)}
        if k == "tz":
            return {"op": "tz", "tz": rng.choice(TZS)}
        return {"op": "repo", "name": rng.choice("AB"), "state": state()}

    def make():
        kind = rng.choice(KINDS)
        v: dict = {"kind": kind}
        if kind == "sem":
            hi = 10**30 if rng.random() < 0.05 else 2
            v["v"] = [rng.randint(0, hi), rng.randint(0, hi), rng.randint(0, hi)]
        elif kind in ("str", "sha"):
            v["v"] = rng.choice(strings if kind == "str" else shas + strings[:2])
        elif kind == "ts":
            v["v"] = _explicit(rng, used)
        elif kind == "git":
            v["cwd"] = rng.choice(["A", "A", "B", "A/sub", "."])
        return v

    ops += [{"op": "clock", "t": _time(rng)}, {"op": "tz", "tz": rng.choice(TZS)}, {"op": "raw", "val": rng.randint(0, 5)}]
    ops += [{"op": "repo", "name": n, "state": {"head": rng.choice(shas), "branch": rng.random() < 0.5}} for n in "AB"]
    focus = rng.random()
    for _ in range(rng.randint(8, 26)):
        r = rng.random()
        if r < 0.2:
            ops.append(env())
        elif r < 0.42 or not n_v:
            op = {"op": "make", "id": n_v, "v": make(), "faults": []}
            if op["v"]["kind"] == "git" and rng.random() < pf:
                op["faults"] = [_git_fault(rng)]
            kinds[n_v] = op["v"]["kind"]
            n_v += 1
            ops.append(op)
        elif r < 0.48:
            ops.append({"op": "naive", "form": rng.randrange(4), "t": _time(rng)})
        elif r < 0.56:
            sems = [i for i, k in kinds.items() if k == "sem"]
            src = rng.choice(sems if sems and rng.random() < 0.6 else sorted(kinds))
            kind = kinds[src]
            fields = {"sem": ["major", "minor", "patch"], "str": ["value"], "ts": ["dt"], "now": ["dt"], "git": ["sha"], "sha": ["sha"]}[kind]
            upd: dict = {}
            for f in rng.sample(fields, rng.randint(0 if len(fields) == 1 else 1, len(fields))):
                upd[f] = rng.randint(0, 2) if kind == "sem" else rng.choice(strings) if kind == "str" else rng.choice(shas) if kind in ("git", "sha") else _explicit(rng, used)
            ops.append({"op": "update", "id": n_v, "src": src, "fields": upd, "deep": rng.random() < 0.3})
            kinds[n_v] = kind
            n_v += 1
        elif r < (0.72 if focus < 0.5 else 0.62):
            ops.append({"op": "check", "ids": rng.sample(sorted(kinds), rng.randint(1, min(4, len(kinds)))), "ways": rng.sample(WAYS, rng.randint(1, 4))})
        elif r < 0.80 or not deployed:
            style = rng.choice(STYLES + ["fnow", "fgit"])
            cwd = rng.choice(["A", "B", "A/sub"])
            deployed += 1
            ops.append({"op": "deploy", "cls": rng.choice("PPQ"), "v": rng.choice(sorted(kinds)), "code": rng.randint(1, 10**6), "style": style, "cwd": cwd,
                        "way": rng.choice(["direct", "direct", "copy", "model_copy", "pickle", "fresh", "peer"])})
        elif r < 0.97:
            op = {"op": "build", "backend": rng.choice(["same", "same", "fresh"]), "how": rng.choice(["graph", "snapshot", "pickled", "copied", "twice"]), "faults": []}
            if rng.random() < 0.3:
                op["oob"] = [1 + int(rng.expovariate(1 / 8)), env()]
            if rng.random() < pf * 0.4:
                op["faults"] = [_git_fault(rng)]
            ops.append(op)
            if rng.random() < 0.15:
                ops.append({"op": "raw", "val": rng.randint(0, 5)})
        else:
            ops.append({"op": "restart"})
    ops.append({"op": "check", "ids": sorted(kinds), "ways": ["direct", rng.choice(WAYS[2:]), "peer"]})
    return {"workload": "versions", "profile": profile, "seed": seed, "backend": rng.choice(["memory", "sim"]), "ops": ops}


def _git_fault(rng):
    return {"on": "git.spawn", "n": 1 if rng.random() < 0.85 else 2, "kind": rng.choice(GIT_FAULTS), "frac": round(rng.random(), 2), "s": rng.choice([5.0, 4000.0])}


# ==================================================================================================
# What versions declare
# ==================================================================================================
def when(t):
    """The datetime for [seconds, microseconds(, offset in minutes)]."""
    dt = EPOCH + timedelta(seconds=t[0], microseconds=t[1])
    return dt.astimezone(timezone(timedelta(minutes=t[2]))) if len(t) > 2 else dt


def construct(v) -> Version:
    kind = v["kind"]
    if kind == "sem":
        return SemVer(major=v["v"][0], minor=v["v"][1], patch=v["v"][2])
    if kind == "str":
        return String(value=v["v"])
    if kind == "sha":
        return GitCommit(sha=v["v"])
    if kind == "ts":
        return Timestamp(dt=when(v["v"]))
    if kind == "now":
        return Timestamp()
    assert kind == "git"
    return GitCommit()


def declared(version) -> tuple[str, str]:
    """(What the version declares, coarser: what must not be shared with anything else)."""
    if isinstance(version, SemVer):
        k = ["sem", version.major] if version.major > 0 else ["sem", 0, version.minor, version.patch]
        return core.canon(k), core.canon(k)
    if isinstance(version, String):
        return core.canon(["str", version.value]), core.canon(["str", version.value])
    if isinstance(version, GitCommit):
        return core.canon(["git", version.sha]), core.canon(["git", version.sha])
    d = version.dt - EPOCH
    k = ["ts", d.days, d.seconds, d.microseconds]
    return core.canon([*k, version.dt.utcoffset().total_seconds()]), core.canon(k)


def state_of(version):
    """The fields, as text."""
    return repr([(f, x.isoformat() if isinstance(x := getattr(version, f), datetime) else repr(x)) for f in sorted(type(version).model_fields)])


def facts(version):
    return {"fp": int(version.fingerprint), "state": state_of(version), "type": type(version).__name__}


def peer(msg):
    """In the other process."""
    if msg.get("t"):
        clock.set_time(msg["t"][0], msg["t"][1] * 1000)
    if msg["cmd"] == "version":
        v = pickle.loads(base64.b64decode(msg["pickle"]))
    else:
        v = construct(msg["v"])
    out = facts(v)
    if isinstance(v, Timestamp):
        out["aware"] = v.dt.tzinfo is not None and v.dt.utcoffset() is not None
        out["us"] = (v.dt - EPOCH) // timedelta(microseconds=1)
    return {**out, "pickle": base64.b64encode(pickle.dumps(v)).decode()}


# ==================================================================================================
# Producers
# ==================================================================================================
CALLS: list[tuple[str, int, int]] = []
_classes: dict = {}


def deploy(cls, code, style, version, key):
    """A class of a producer with some version of its code."""

    def impl(x):
        CALLS.append((cls, code, x))
        w = core.world()
        w.log("CALL", cls, code, x)
        w.event("prod", "build", cls)
        return x * 1_000_003 + code

    ns: dict[str, Any] = {"_impl": impl, "_T": Annotated[int, lib.SArt]}
    exec(f"def {cls}(i0: _T) -> _T:\n    return _impl(i0)\n", ns)
    build = ns[cls]
    build.__module__ = __name__
    if style in ("dec", "inst"):
        P = producer(name=cls, version=None if style == "inst" else version)(build)
    else:
        default: Any = {"fnow": lambda: Field(default_factory=Timestamp), "fgit": lambda: Field(default_factory=GitCommit), "cls": lambda: version}[style]()
        P = type(cls, (Producer,), {
            "__annotations__": {"i0": lib.SArt, "version": Version}, "__module__": __name__,
            "build": staticmethod(build), "version": default,
        })
    P.__module__ = __name__
    P.__qualname__ = f"P_{key}_{len(_classes)}"
    setattr(sys.modules[__name__], P.__qualname__, P)
    _classes[P.__qualname__] = P
    return P


class Run:
    def __init__(self, plan):
        self.plan, self.w = plan, core.world()
        self.base = os.getcwd()
        self.versions: dict[int, Version] = {}
        self.made: dict[int, dict] = {}
        self.was: dict[int, dict] = {}  # facts at creation
        self.fwd: dict = {}
        self.rev: dict = {}
        self.now = [0, 0]
        self.raw = 0
        self.deployed: dict = {}
        self.done: dict = {}
        self.n_backend = 0
        self.backend = self.new_backend()
        self.stats = {"versions": 0, "checks": 0, "peer": 0, "builds": 0, "executions": 0, "reused": 0, "failed_creations": 0, "clock_changes": 0, "zone_changes": 0, "repository_changes": 0, "rejected": 0}
        gitsim.reset()

    def violate(self, kind, msg, **kw):
        self.w.violate(kind, msg, op=self.cur, props=["C11"], **kw)

    def new_backend(self):
        self.n_backend += 1
        if self.plan["backend"] == "sim":
            from sim import backend as sb

            return sb.SimBackend(server_name=f"v{self.n_backend}")
        from arti.backends.memory import MemoryBackend

        return MemoryBackend()

    # -- environment ---------------------------------------------------------------------------
    def op_clock(self, op):
        self.now = op["t"]
        clock.set_time(op["t"][0], op["t"][1] * 1000)
        self.stats["clock_changes"] += 1

    def op_tz(self, op):
        os.environ["TZ"] = op["tz"]
        time.tzset()
        self.stats["zone_changes"] += 1

    def op_repo(self, op):
        gitsim.set_repo(self.base, op["name"], op["state"])
        self.stats["repository_changes"] += 1

    def op_raw(self, op):
        self.raw = op["val"]
        with fs.outside():
            os.makedirs("raw", exist_ok=True)
            with open("raw/r.json", "w") as f:
                json.dump(op["val"], f)

    # -- versions ------------------------------------------------------------------------------
    def create(self, v, fn, faulted_before=0):
        """Create a version by calling `fn`: the version, or None if that had reason to fail."""
        w = self.w
        cwd = os.path.join(self.base, v.get("cwd", "."))
        repo = gitsim.find(os.path.realpath(cwd))
        n = len(w.node.fired)
        os.chdir(cwd if os.path.isdir(cwd) else self.base)
        try:
            out = fn()
        except Exception as e:
            reason = v["kind"] == "git" and (repo is None or repo["head"] is None or len(w.node.fired) > n)
            if not reason:
                self.violate("spurious_failure", f"creating a version of kind {v['kind']} failed without cause: {e!r}", v=v)
            self.stats["failed_creations"] += 1
            w.log("FAILED", v["kind"], type(e).__name__)
            return None
        finally:
            os.chdir(self.base)
        version = out if isinstance(out, Version) else out.version
        kind = v["kind"]
        if kind == "git":
            head = repo["head"] if repo else None
            if not isinstance(version, GitCommit) or version.sha != head:
                self.violate("wrong_version", f"the version created at commit {head} is {version!r}", v=v)
        elif kind == "now":
            dt = version.dt
            if dt.tzinfo is None or dt.utcoffset() is None:
                self.violate("wrong_version", f"the timestamp {dt!r} is not timezone aware")
            if abs(dt - when(self.now)) > timedelta(milliseconds=1):
                self.violate("wrong_version", f"the timestamp created at {when(self.now).isoformat()} is {dt.isoformat()}")
        elif kind == "ts":
            if version.dt != when(v["v"]):
                self.violate("wrong_version", f"the timestamp for {when(v['v']).isoformat()} is {version.dt.isoformat()}")
        elif kind == "sem":
            if [version.major, version.minor, version.patch] != v["v"]:
                self.violate("wrong_version", f"version {v['v']} is {version!r}")
        elif kind == "str":
            if version.value != v["v"]:
                self.violate("wrong_version", f"version {v['v']!r} is {version!r}")
        elif version.sha != v["v"]:
            self.violate("wrong_version", f"commit {v['v']!r} is {version!r}")
        return out

    def match(self, version, fp, way):
        what, coarse = declared(version)
        a = self.fwd.setdefault(what, fp)
        if a != fp:
            self.violate("unstable_version", f"the fingerprint of {what} is {fp} by way of {way}, but was {a} before", way=way)
        b = self.rev.setdefault(fp, coarse)
        if b != coarse:
            self.violate("same_version", f"{what} (by way of {way}) has the fingerprint of {b}", way=way)

    def add(self, i, version, v):
        self.versions[i], self.made[i] = version, v
        self.was[i] = {"state": state_of(version)}
        if len(self.versions) % 3:  # else: the fingerprint is first accessed later
            self.was[i]["fp"] = int(version.fingerprint)
            self.match(version, self.was[i]["fp"], "creation")
        self.stats["versions"] += 1

    def op_make(self, op):
        version = self.create(op["v"], lambda: construct(op["v"]))
        if version is not None:
            self.add(op["id"], version, op["v"])

    def op_naive(self, op):
        dt = when(op["t"]).replace(tzinfo=None)
        arg = [dt, dt.isoformat(), dt.isoformat(sep=" "), dt.replace(microsecond=0)][op["form"]]
        try:
            v = Timestamp(dt=arg)
        except ValueError:
            self.stats["rejected"] += 1
            return
        self.violate("wrong_version", f"a timestamp without timezone is accepted: {v!r}")

    def op_update(self, op):
        if op["src"] not in self.versions:
            return
        src = self.versions[op["src"]]
        fields = {k: when(x) if isinstance(x, list) else x for k, x in op["fields"].items()}
        new = src.model_copy(update=fields, deep=op["deep"])
        for k in type(src).model_fields:
            want = fields.get(k, getattr(src, k))
            if getattr(new, k) != want:
                self.violate("wrong_version", f"the copy updated with {fields} has {k}={getattr(new, k)!r}")
        self.add(op["id"], new, None)

    def by_way(self, i, way):
        v = self.versions[i]
        made = self.made[i]
        if way == "copy":
            return copy.copy(v)
        if way == "deepcopy":
            return copy.deepcopy(v)
        if way == "model_copy":
            return v.model_copy()
        if way == "deep_copy":
            return v.model_copy(deep=True)
        if way == "schema_copy":
            return type(v).model_validate(v)
        if way == "pickle":
            return pickle.loads(pickle.dumps(v, protocol=2 + i % 4))
        if way == "fields":
            return type(v)(**{f: getattr(v, f) for f in type(v).model_fields})
        if way == "fresh" and made is not None and made["kind"] not in ("now", "git"):
            return construct(made)
        if way == "in_producer":
            P = self.holder()
            p = P(i0=lib.SArt(format=JSON(), storage=LocalFile(path="raw/r.json")), version=v)
            return pickle.loads(pickle.dumps(p)).version if i % 2 else p.version
        if way in ("peer", "peer_fresh"):
            self.stats["peer"] += 1
            msg = {"cmd": "version", "pickle": base64.b64encode(pickle.dumps(v)).decode(), "t": self.now}
            if way == "peer_fresh" and made is not None and made["kind"] not in ("now", "git"):
                msg = {"cmd": "make", "v": made, "t": self.now}
            r = peers.call(msg)
            if "fail" in r:
                self.violate("spurious_failure", f"the version could not be used in the other process: {r['fail'][-600:]}")
            if r["fp"] != int(v.fingerprint):
                self.violate("unstable_version", f"the fingerprint of {declared(v)[0]} is {r['fp']} in the other process, {int(v.fingerprint)} here", way=way)
            if msg["cmd"] == "version" and r["state"] != self.was[i]["state"]:
                self.violate("unstable_version", f"{self.was[i]['state']} became {r['state']} in the other process", way=way)
            return pickle.loads(base64.b64decode(r["pickle"]))
        return v

    def holder(self):
        if not hasattr(self, "_holder"):
            self._holder = deploy("Holder", 1, "inst", None, "h")
        return self._holder

    def op_check(self, op):
        if "peer" in op["ways"]:
            # A timestamp taken by the other process.
            r = peers.call({"cmd": "make", "v": {"kind": "now"}, "t": self.now})
            if "fail" in r:
                self.violate("spurious_failure", f"creating a timestamp in the other process failed: {r['fail'][-600:]}")
            want = self.now[0] * 10**6 + self.now[1]
            if not r["aware"] or abs(r["us"] - want) > 1000:
                self.violate("wrong_version", f"the timestamp created in the other process at {when(self.now)} is {r['state']}")
            self.match(pickle.loads(base64.b64decode(r["pickle"])), r["fp"], "the other process")
        for i in op["ids"]:
            if i not in self.versions:
                continue
            for way in op["ways"]:
                v = self.by_way(i, way)
                self.stats["checks"] += 1
                f = facts(v)
                was = self.was[i]
                if way not in ("fields", "fresh", "peer_fresh") and f["state"] != was["state"] or declared(v)[1] != declared(self.versions[i])[1]:
                    self.violate("unstable_version", f"{was['state']} became {f['state']} by way of {way}", way=way)
                if was.setdefault("fp", f["fp"]) != f["fp"]:
                    self.violate("unstable_version", f"the fingerprint of {declared(v)[0]} changed from {was['fp']} to {f['fp']} by way of {way}", way=way)
                self.match(v, f["fp"], way)

    def op_restart(self, op):
        """All that survives is what was stored, with the fingerprints known before."""
        self.versions = {i: pickle.loads(pickle.dumps(v)) for i, v in self.versions.items()}
        if self.plan["backend"] == "sim":
            from sim import backend as sb

            sb.server(self.backend.server_name).restart()
        else:
            self.backend = self.new_backend()

    # -- producers -----------------------------------------------------------------------------
    def op_deploy(self, op):
        if op["v"] not in self.versions:
            return
        v = self.by_way(op["v"], op["way"])
        P = deploy(op["cls"], op["code"], op["style"], v, self.plan["seed"])
        self.deployed[op["cls"]] = (P, op, v)

    def instances(self, graph):
        """Assign all producers; None if creating a version failed (with reason)."""
        out = {}
        for cls, (P, op, v) in sorted(self.deployed.items()):
            kw = {"version": v} if op["style"] == "inst" else {}
            how = {"kind": {"fnow": "now", "fgit": "git"}.get(op["style"], "given"), "cwd": op["cwd"] if op["style"] == "fgit" else "."}
            if how["kind"] == "given":
                p = P(i0=graph.artifacts.r, **kw)
                if declared(p.version) != declared(v):
                    self.violate("wrong_version", f"{cls} deployed with {v!r} has version {p.version!r}")
            else:
                p = self.create(how, lambda: P(i0=graph.artifacts.r))
                if p is None:
                    return None
            self.match(p.version, int(p.version.fingerprint), "producer")
            art = lib.SArt(format=JSON(), storage=LocalFile(path="out/{graph_name}/{names}/{input_fingerprint}{extension}"))
            graph.artifacts[f"o{cls}"] = p.out(art)
            out[cls] = (p.version, op["code"])
        return out

    def op_build(self, op):
        if not self.deployed:
            return
        w = self.w
        if op["backend"] == "fresh":
            self.backend = self.new_backend()
        with Graph(name="v", backend=self.backend) as g:
            g.artifacts.r = lib.SArt(format=JSON(), storage=LocalFile(path="raw/r.json"))
            # Between creating the instances and the end of the definition nothing else depends on the environment.
            vs = self.instances(g)
        if vs is None:
            return
        self.stats["builds"] += 1
        listener = None
        if op.get("oob"):
            left = [op["oob"][0]]

            def listener(name, detail):
                left[0] -= 1
                if left[0] == 0:
                    w.log("OOB", op["oob"][1]["op"])
                    with fs.outside():
                        getattr(self, "op_" + op["oob"][1]["op"])(op["oob"][1])

            w.listeners.append(listener)
        CALLS.clear()
        try:
            if op["how"] == "pickled":
                g = pickle.loads(pickle.dumps(g))
            elif op["how"] == "copied":
                g = copy.copy(g)
            snap = g.snapshot()
            first = snap.id
            snap = (snap if op["how"] == "snapshot" else g).build()
            if op["how"] == "twice":
                snap = g.build()
            got = {cls: snap.read(snap.artifacts[f"o{cls}"], annotation=int) for cls in vs}
        finally:
            if listener:
                w.listeners.remove(listener)
        if snap.id != first:
            self.violate("unstable_version", "the snapshot has another id once built")
        for cls, (v, code) in vs.items():
            what, coarse = declared(v)
            calls = [c for c in CALLS if c[0] == cls]
            # Equal instants in different time zones: equal or not, as it may be.
            unsure = {k for k in self.done if k[0] == cls and k[2] == coarse and k[1] != what and k[3] == self.raw}
            key = (cls, what, coarse, self.raw)
            value = self.done.get(key)
            self.stats["executions"] += len(calls)
            if unsure:
                continue
            if value is not None and calls:
                self.violate("rerun", f"{cls} was executed again for {self.raw} although its version {what} has not changed", calls=CALLS[:9])
            if value is None and len(calls) != 1:
                self.violate("not_rerun", f"{cls} was executed {len(calls)} times for {self.raw} with the new version {what}", calls=CALLS[:9])
            if value is None:
                value = self.done[key] = self.raw * 1_000_003 + code
            else:
                self.stats["reused"] += 1
            if got[cls] != value:
                self.violate("wrong_result", f"{cls} for {self.raw} with version {what} is {got[cls]}, expected {value}")

    def run(self):
        assert clock.available(), "the virtual clock is not preloaded"
        for i, op in enumerate(self.plan["ops"]):
            self.cur = i
            self.w.begin_op(op["op"], op.get("faults", ()))
            getattr(self, "op_" + op["op"])(op)
            self.w.log("AFTER", sorted((i, v.get("fp", 0)) for i, v in self.was.items()))
            self.w.end_op()
        clock.off()




def run(plan):
    r = Run(plan)
    try:
        r.run()
    finally:
        clock.off()
        os.chdir(r.base)
    return {"stats": r.stats, "shape": hashlib.sha256(repr(sorted(r.fwd)).encode()).hexdigest()[:16]}
