"""Workload "conc": several processes and threads build, read, write, edit, crash and restart over shared
storage (and possibly shared metadata), under a simulated scheduler.

Each build that returns is judged by the contents its own snapshot captured, which are identified by the
content fingerprints recorded for it.
"""
from __future__ import annotations

import json
import os
import random
import traceback

from sim import core, fs, gcs, lib, sched, store
from sim.sched import gen_sched
from sim.builds import _Gen, bump, gen_fault, gen_spec, match_output, raws_of
from sim.core import SimCrash, canon
from sim.lib import box_get, evaluate, raw_path, read_key, shape_of
from sim.storage import gen_gcs_fault

PROFILES = {
    # quiet: no edits while others are active, so every operation has to succeed
    "quiet": dict(edits=0.0, faults=0.0, crash=0.0),
    "edits": dict(edits=1.0, faults=0.0, crash=0.0),
    "faulty": dict(edits=0.3, faults=0.5, crash=0.5),
    "gcs": dict(edits=0.4, faults=0.2, crash=0.3, gcs=True),
    # threads of one process using the same graph and metadata
    "contend": dict(edits=0.15, faults=0.15, crash=0.3),
}


def generate(seed, profile):
    rng = random.Random(f"conc:{profile}:{seed}")
    pr = PROFILES[profile]
    spec = None
    while spec is None or not raws_of(spec) or not any(n["kind"] == "prod" for n in spec["nodes"]):
        spec = gen_spec(rng, gcs=pr.get("gcs", False), max_prods=rng.choice([1, 1, 2] if profile == "contend" else [1, 2, 3, 4]))
    g = _Gen(rng, spec)
    classes = sorted({n["cls"] for n in spec["nodes"] if n["kind"] == "prod"})
    code = {c: rng.choice([["sem", 0, 0, 1], ["sem", 1, 0, 0], ["str", "u"]]) for c in classes}
    shared = rng.random() < 0.5
    groups = []
    n_actors = rng.choice([2, 2, 2, 3, 3, 4])
    if profile == "contend":
        shared = rng.random() < 0.15
    left = n_actors
    while left:
        k = min(left, rng.choice([1, 1, 1, 2, 3])) if profile != "contend" else left
        left -= k
        c = dict(code)
        if rng.random() < 0.25:
            x = rng.choice(classes)
            c[x] = bump(rng, c[x])
        groups.append({"threads": k, "backend": "sim" if shared else "mem", "code": c})
    plan = {"workload": "conc", "profile": profile, "seed": seed, "spec": spec, "groups": groups, "store": "gcs" if pr.get("gcs") else "file",
            "init": [], "ops": [], "shuffle": rng.random() < 0.7, "sched": gen_sched(rng), "page": rng.choice([1, 2, 1000]), **store.ways(seed)}
    for node in raws_of(spec):
        for _ in range(1 if node["shape"] == "s" else rng.randint(1, 3)):
            e = g.edit(node)
            while e["val"] is None:
                e = g.edit(node)
            plan["init"].append({"key": e["key"], "pk": e["pk"], "val": e["val"]})
    if profile == "contend":
        plan["pre"] = rng.random() < 0.5
        cfg = plan["sched"] = gen_sched(rng, 8_000)
        if cfg["kind"] == "rand":
            cfg["p"]["line"] = rng.choice([0.004, 0.02, 0.06, 0.15])
        if "hot" in cfg:
            cfg["hot"][1] = rng.choice([2, 2, 3, 5])
    retags = profile == "contend" and rng.random() < 0.5
    slots = [(gi, ti) for gi, gr in enumerate(groups) for ti in range(gr["threads"])]
    for gi, ti in slots:
        for j in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if profile == "contend" and (j or plan["pre"]) and r < 0.45:
                op = {"op": "mark", "tags": rng.choice([["m0"], ["m0"], ["m1"], ["m0", "m1", "m2"], ["m1", "m2", "m3", "m0"]])}
            elif retags and (j or plan["pre"]) and r < 0.75:
                op = {"op": "retag", "tags": rng.choice([["w0"], ["w0", "w0"], ["w0", "w1", "w0"]])} if rng.random() < 0.5 else {"op": "look", "tags": rng.choice([["w0"], ["w0", "w1"], ["w0", "w0", "w0"], ["w0", "w1", "w0", "w1"]])}
            elif r < 0.72 or j == 0 and r < 0.85:
                op = {"op": "build", "split": rng.random() < 0.3, "pause": rng.random() < 0.3}
            elif r < 0.8:
                op = {"op": "rawread", "key": rng.choice(raws_of(spec))["key"]}
            elif r < 0.9:
                op = {"op": "again"}
            else:
                op = {"op": "tag"} if shared else {"op": "again"}
            op.update(g=gi, t=ti, faults=[])
            if rng.random() < (0.5 if profile == "contend" else 0.15):
                op["meet"] = 2 if len(slots) < 3 else rng.choice([2, 2, 3])
            if rng.random() < pr["faults"]:
                f = gen_gcs_fault(rng) if pr.get("gcs") else gen_fault(rng, rng.random() < pr["crash"], shared)
                if f["kind"] == "interrupt":
                    f["kind"] = "crash"  # only main threads are interrupted
                op["faults"].append(f)
            plan["ops"].append(op)
    if retags and rng.random() < 0.5:
        # Nothing but tags: dense histories of setting, moving and looking up.
        plan["pre"] = True
        for op in plan["ops"]:
            f = op["faults"] if rng.random() < 0.3 else []
            kind = rng.choice(["retag", "look"])
            op.clear()
            op.update(op=kind, tags=[rng.choice(["w0", "w0", "w0", "w1"]) for _ in range(rng.randint(3, 8))], faults=f)
            if rng.random() < 0.5:
                op["meet"] = 2
        for (gi, ti), op in zip(rng.sample(slots * len(plan["ops"]), len(plan["ops"])), plan["ops"]):
            op.update(g=gi, t=ti)
        return plan
    if rng.random() < pr["edits"]:
        n = rng.randint(1, 4)
        for _ in range(n):
            e = g.edit()
            gi, ti = rng.choice(slots)
            if rng.random() < 0.35 and e["val"] is not None:
                op = {"op": "write", "g": gi, "t": ti, "key": e["key"], "pk": e["pk"], "val": e["val"], "faults": []}
            else:
                op = {"op": "ext", "g": -1, "t": 0, "key": e["key"], "pk": e["pk"], "val": e["val"], "faults": []}
            plan["ops"].insert(rng.randint(0, len(plan["ops"])), op)
    return plan


class Snapped:
    def __init__(self, obj, raw, code):
        self.obj, self.raw, self.code = obj, raw, code


class Group:
    """A simulated process with some threads sharing its graph and (in memory) metadata."""

    def __init__(self, run, i, spec):
        self.run, self.i, self.cfg = run, i, spec
        self.start()

    def start(self):
        from sim import backend as sb

        # All at once: other threads of the process may come by while the graph is being defined.
        proc = core.Node(f"p{self.i}")
        if self.cfg["backend"] == "sim":
            backend = sb.SimBackend(server_name="shared")
        else:
            from arti.backends.memory import MemoryBackend

            backend = MemoryBackend()
        graph = lib.define(self.run.spec, self.cfg["code"], backend)
        self.proc, self.backend, self.graph = proc, backend, graph


class Run:
    def __init__(self, plan):
        self.plan, self.spec = plan, plan["spec"]
        self.w = core.world()
        self.store = store.Bucket() if plan["store"] == "gcs" else store.Local()
        if plan["store"] == "gcs":
            gcs.reset()
        self.nodes = {n["key"]: n for n in self.spec["nodes"] if n["kind"] == "raw"}
        self.shapes = shape_of(self.spec)
        self.raw: dict = {n["key"]: {} for n in raws_of(self.spec)}
        self.by_fp: dict = {}
        self.edits = 0  # counts begun changes to raw data
        self.busy = 0  # changes to raw data under way
        self.tagged: list = []  # [snap, state]
        self.marks: dict = {}
        self.moves: dict = {}  # tag -> [[snap, began, ended]]
        self.ticks = 0
        self.keep_alive: list = []
        self.stats = {"builds": 0, "builds_ok": 0, "builds_failed": 0, "edits": 0, "crashes": 0, "restarts": 0, "reads": 0, "threads": 0, "switches": 0, "sched_points": 0}
        self.findings: list = []

    def violate(self, kind, msg, **kw):
        self.w.violate(kind, msg, **kw)

    # -- raw data ------------------------------------------------------------------------------
    def fp_key(self, key, pk, fp):
        return (key, canon(list(pk)), int(fp))

    def learn(self):
        """Fingerprints of all contents that will be stored, from artigraph itself, before anything runs."""
        todo = [*self.plan["init"], *(o for o in self.plan["ops"] if o["op"] in ("ext", "write"))]
        g = lib.define(self.spec, self.plan["groups"][0]["code"])
        seen: dict = {}
        for e in todo:
            if e["val"] is None:
                continue
            node = self.nodes[e["key"]]
            data = lib.dumps(node["fmt"], e["val"])
            path = raw_path(self.spec["root"], node, tuple(e["pk"]))
            self.store.put(path, data)
            art = box_get(g.artifacts, e["key"])
            part = art.storage.generate_partition(partition_key=lib.to_pk(node["shape"], tuple(e["pk"])), input_fingerprint=None)
            fp = part.compute_content_fingerprint()
            k = self.fp_key(e["key"], e["pk"], fp)
            if self.by_fp.get(k, e["val"]) != e["val"]:
                self.violate("wrong_fingerprint", f"contents {e['val']} and {self.by_fp[k]} of {e['key']} have the same content fingerprint", props=["C06", "C10"])
            self.by_fp[k] = e["val"]
            seen[path] = None
        for path in seen:
            self.store.delete(path)

    def put(self, e):
        node = self.nodes[e["key"]]
        pk = tuple(e["pk"])
        path = raw_path(self.spec["root"], node, pk)
        if e["val"] is None:
            self.store.delete(path)
            self.raw[e["key"]].pop(pk, None)
        else:
            self.store.put(path, lib.dumps(node["fmt"], e["val"]))
            self.raw[e["key"]][pk] = e["val"]

    def captured(self, snap_obj, conn_backend):
        """Raw contents a snapshot stands for."""
        out: dict = {}
        with conn_backend.connect() as c:
            for key in self.raw:
                art = box_get(snap_obj.artifacts, key)
                got = c.read_snapshot_partitions(snap_obj, key, art)
                out[key] = {}
                for s in got:
                    pk = lib.from_pk(self.nodes[key]["shape"], s.partition_key)
                    if pk in out[key]:
                        self.violate("wrong_inputs", f"snapshot lists partition {pk} of {key} twice")
                    val = self.by_fp.get(self.fp_key(key, pk, s.content_fingerprint), lib.POISON)
                    out[key][pk] = val
        return out

    # -- operations ----------------------------------------------------------------------------
    def do(self, gr, label, fn, op, faults=True):
        """(outcome, value, error text)"""
        w = self.w
        w.begin_op(label, op.get("faults", ()) if faults else ())
        err = value = None
        try:
            value = fn()
            outcome = "ok"
        except SimCrash:
            outcome = "crash"
        except (core.Hang, core.Violation, core.Discard):
            raise
        except Exception as e:
            outcome, err = "error", e
        fired = list(w.node.fired)
        w.node.faults = []
        if w.node.dead:
            outcome = "crash"
        w.log("OUTCOME", w.node.name, label, outcome, type(err).__name__ if err else "")
        text = tb = ""
        if err is not None:
            text = f"{type(err).__name__}: {err}"
            tb = "".join(traceback.format_exception(err)[-8:])[-2500:]
            err.__traceback__ = None
        self.last = {"outcome": outcome, "fired": fired, "err": text, "tb": tb, "thread": w.node.name}
        return outcome, value, fired

    def disturbed(self, edits0, fired):
        return bool(fired) or self.edits != edits0 or self.busy > 0

    def op_build(self, gr, node, op, mine):
        g, backend = gr.graph, gr.backend
        e0, b0 = self.edits, self.busy
        hopeless = not self.buildable(gr.cfg["code"])
        self.stats["builds"] += 1
        if op.get("split"):
            outcome, snap, fired = self.do(gr, "snapshot", g.snapshot, op)
            if outcome == "ok":
                if op.get("pause"):
                    self.w.event("user", "pause")
                outcome, res, fired2 = self.do(gr, "snap.build", snap.build, op, faults=False)
                fired = fired + fired2
        else:
            outcome, res, fired = self.do(gr, "build", g.build, op)
        last = self.last
        if outcome == "crash":
            raise SimCrash
        if outcome == "error":
            self.stats["builds_failed"] += 1
            if not (self.disturbed(e0, fired) or b0 or hopeless):
                self.violate("spurious_failure", f"a build failed without cause: {last['err']}", **last)
            return
        self.stats["builds_ok"] += 1
        self.w.begin_op("verify")
        s = Snapped(res, self.captured(res, backend), gr.cfg["code"])
        self.verify(gr, s, last, quiet=not self.disturbed(e0, fired) and not b0)
        mine.append(s)

    def verify(self, gr, s, last, quiet=False):
        """Everything reads as what the snapshot's contents mean."""
        vals, works = evaluate(self.spec, s.code, s.raw)
        if any(wk.missing for h in works for wk in h):
            self.violate("missed_failure", "a build returned although inputs of a producer were missing or unreadable", raw=repr(s.raw), **last)
        for n in self.spec["nodes"]:
            if n["kind"] != "prod":
                continue
            for key, shape in zip(n["outs"], n["oshapes"]):
                if key is None:
                    continue
                self.stats["reads"] += 1
                want = read_key(shape, vals[key])
                try:
                    got = s.obj.read(box_get(s.obj.artifacts, key), annotation=lib.PY[shape])
                    got = lib.take(shape, got)
                except FileNotFoundError as e:
                    if "No data" not in str(e):
                        self.violate("read_error", f"{key} of a returned build: {e!r}", tb=traceback.format_exc()[-1500:])
                    got = None
                except Exception as e:
                    self.violate("read_error", f"{key} of a returned build: {e!r}", tb=traceback.format_exc()[-1500:])
                if got is None and want is not None:
                    self.violate("missing_result", f"{key} reads as missing after a build that returned", want=want)
                if got != want:
                    self.violate("wrong_result", f"{key} reads {got}, the snapshot's contents give {want}", raw=repr(s.raw), **last)

    def op_again(self, gr, node, op, mine):
        """What was built stays readable, whatever others do; building it again keeps it so."""
        if not mine:
            return
        self.w.begin_op("verify")
        self.verify(gr, mine[-1], {})

    def op_tag(self, gr, node, op, mine):
        from arti import GraphSnapshot

        if gr.cfg["backend"] != "sim":
            return
        if mine:
            s = mine[-1]
            entry = [s, "maybe"]
            before = [t for t in self.tagged if t[1] == "done"]
            self.tagged.append(entry)
            outcome, _, fired = self.do(gr, "tag", lambda: s.obj.tag("t", overwrite=True), op)
            if outcome == "crash":
                raise SimCrash
            if outcome == "ok":
                entry[1] = "done"
                for t in before:
                    if t is not entry:
                        t[1] = "old"
            elif not fired:
                self.violate("spurious_failure", f"tagging failed without cause: {self.last['err']}", props=["C08", "C13"], **self.last)
        if not any(t[1] == "done" for t in self.tagged):
            return
        cands0 = list(self.tagged)
        outcome, got, fired = self.do(gr, "from_tag", lambda: GraphSnapshot.from_tag(self.spec["name"], "t", connectable=gr.backend), {})
        if outcome == "crash":
            raise SimCrash
        if outcome != "ok":
            self.violate("tag_error", f"looking up a tag failed: {self.last['err']}", props=["C08", "C13"], **self.last)
        hit = [t[0] for t in self.tagged if t[0].obj.id == got.id]
        if not hit:
            self.violate("wrong_tag", "a tag names a snapshot that was never tagged", props=["C08", "C13"])
        self.w.begin_op("verify")
        self.verify(gr, Snapped(got, hit[0].raw, hit[0].code), {})

    def op_mark(self, gr, node, op, mine):
        """A tag that is not to be overwritten: of those who set it, one succeeds."""
        for i, tag in enumerate(op["tags"]):
            if i and op.get("meet"):
                self.w.sched.meet("here", op["meet"])
            self.mark(gr, node, {**op, "tag": tag}, mine)

    def mark(self, gr, node, op, mine):
        from arti import GraphSnapshot

        if not mine:
            return
        s = mine[-1]
        scope = ("shared" if gr.cfg["backend"] == "sim" else id(gr.backend), op["tag"])
        self.keep_alive.append(gr.backend)
        tries = self.marks.setdefault(scope, [])
        entry = [s, "maybe"]
        tries.append(entry)
        outcome, _, fired = self.do(gr, "mark", lambda: s.obj.tag(op["tag"]), op)
        if outcome == "crash":
            raise SimCrash
        if outcome == "ok":
            entry[1] = "done"
            if any(t[1] == "done" for t in tries if t is not entry):
                self.violate("tag_overwritten", f"tag {op['tag']} was set twice without overwrite", props=["C08", "C13"])
        elif "Existing" in self.last["err"] and not fired:
            entry[1] = "refused"
            if len([t for t in tries if t is not entry]) == 0:
                self.violate("spurious_failure", f"nobody else ever set the tag: {self.last['err']}", props=["C08", "C13"], **self.last)
        elif not fired:
            self.violate("spurious_failure", f"tagging failed without cause: {self.last['err']}", props=["C08", "C13"], **self.last)
        if all(t[1] == "maybe" for t in tries):
            return
        outcome, got, fired = self.do(gr, "from_tag", lambda: GraphSnapshot.from_tag(self.spec["name"], op["tag"], connectable=gr.backend), {})
        if outcome == "crash":
            raise SimCrash
        if outcome != "ok":
            self.violate("tag_error", f"looking up a tag failed: {self.last['err']}", props=["C08", "C13"], **self.last)
        done = [t for t in tries if t[1] == "done"] or [t for t in tries if t[1] != "refused"]
        hit = [t[0] for t in done if t[0].obj.id == got.id]
        if not hit:
            self.violate("wrong_tag", f"tag {op['tag']} names a snapshot that didn't get it", props=["C08", "C13"])
        self.w.begin_op("verify")
        self.verify(gr, Snapped(got, hit[0].raw, hit[0].code), {})

    def op_retag(self, gr, node, op, mine):
        """A tag that moves from snapshot to snapshot."""
        if not mine:
            return
        for i, tag in enumerate(op["tags"]):
            if op.get("meet"):
                self.w.sched.meet("here", op["meet"])
            s = mine[-1 - i % len(mine)]
            scope = ("shared" if gr.cfg["backend"] == "sim" else id(gr.backend), tag)
            self.keep_alive.append(gr.backend)
            sets = self.moves.setdefault(scope, [])
            entry = [s, self.tick(), None]
            sets.append(entry)
            outcome, _, fired = self.do(gr, "retag", lambda s=s, tag=tag: s.obj.tag(tag, overwrite=True), op)
            if outcome == "crash":
                raise SimCrash
            if outcome == "ok":
                entry[2] = self.tick()
            elif not fired:
                self.violate("spurious_failure", f"tagging failed without cause: {self.last['err']}", props=["C08", "C13"], **self.last)
            self.look(gr, tag)

    def op_look(self, gr, node, op, mine):
        for tag in op["tags"]:
            if op.get("meet"):
                self.w.sched.meet("here", op["meet"])
            self.look(gr, tag)

    def tick(self):
        self.ticks += 1
        return self.ticks

    def look(self, gr, tag):
        """A tag is a register: a lookup gives the last snapshot set before it, or one set meanwhile."""
        from arti import GraphSnapshot

        scope = ("shared" if gr.cfg["backend"] == "sim" else id(gr.backend), tag)
        sets = self.moves.setdefault(scope, [])
        before = [t for t in sets if t[2] is not None]
        outcome, got, fired = self.do(gr, "from_tag", lambda: GraphSnapshot.from_tag(self.spec["name"], tag, connectable=gr.backend), {})
        if outcome == "crash":
            raise SimCrash
        if outcome != "ok":
            if before:
                self.violate("tag_error", f"looking up tag {tag}, which was set before, failed: {self.last['err']}", props=["C08", "C13"], **self.last)
            return
        newest = max((t[1] for t in before), default=0)  # the latest start among those that had ended
        may = [t for t in sets if t[2] is None or t[2] > newest]
        if got.id not in {t[0].obj.id for t in may}:
            old = got.id in {t[0].obj.id for t in sets}
            self.violate("wrong_tag", f"tag {tag} names {'a snapshot it was moved away from' if old else 'a snapshot that never got it'}", props=["C08", "C13"])

    def op_rawread(self, gr, node, op, mine):
        key = op["key"]
        shape = self.nodes[key]["shape"]
        e0, b0 = self.edits, self.busy
        want = read_key(shape, self.raw[key])
        outcome, got, fired = self.do(gr, "rawread", lambda: gr.graph.read(box_get(gr.graph.artifacts, key), annotation=lib.PY[shape]), op)
        if outcome == "crash":
            raise SimCrash
        if self.edits != e0 or b0 or self.busy:
            if outcome == "ok":
                # Values that were stored at some time (per partition).
                rows = lib.take(shape, got)
                if shape == "s":
                    ever = {canon(v) for (k, _, _), v in self.by_fp.items() if k == key}
                    if rows not in ever:
                        self.violate("wrong_raw_read", f"raw {key} reads {rows}, which never was stored", **self.last)
                else:
                    ever_rows = {canon(r) for (k, _, _), v in self.by_fp.items() if k == key for r in v}
                    if not set(json.loads(rows)) <= ever_rows:
                        self.violate("wrong_raw_read", f"raw {key} reads {rows}, some of which never was stored", **self.last)
            return
        if outcome == "ok":
            got = lib.take(shape, got)
            if got != want:
                self.violate("wrong_raw_read", f"raw {key} reads {got}, stored {want}", **self.last)
        elif not fired and want is not None:
            self.violate("spurious_failure", f"a read failed without cause: {self.last['err']}", **self.last)

    def op_write(self, gr, node, op, mine):
        n = self.nodes[op["key"]]
        pk = tuple(op["pk"])
        art = box_get(gr.graph.artifacts, op["key"])
        self.edits += 1
        b0, e0 = self.busy, self.edits
        self.busy += 1
        self.stats["edits"] += 1
        outcome = "crash"
        try:
            outcome, _, fired = self.do(gr, "write", lambda: gr.graph.write(op["val"], artifact=art, partition_key=lib.to_pk(n["shape"], pk)), op)
        finally:
            self.busy -= 1
            self.edits += 1
            # What is stored now (a crashed or failed write may have left an existing file torn: K1).
            path = raw_path(self.spec["root"], n, pk)
            data = self.store.get(path)
            new = lib.dumps(n["fmt"], op["val"])
            alone = b0 == 0 and self.edits == e0 + 1
            if outcome == "ok" and data != new and alone:
                self.violate("lost_write", f"a write returned but {path} holds {data!r}", props=["C10", "C13"])
            if outcome == "error" and not self.last["fired"] and alone:
                self.violate("spurious_failure", f"a write failed without cause: {self.last['err']}", **self.last)
            self.sync(op["key"], pk, data, op["val"])
        if outcome == "crash":
            raise SimCrash

    def sync(self, key, pk, data, val):
        """The model follows what is stored; torn files are restored by the operator."""
        n = self.nodes[key]
        if data is None:
            self.raw[key].pop(pk, None)
            return
        for (k, p, _), v in self.by_fp.items():
            if k == key and p == canon(list(pk)) and lib.dumps(n["fmt"], v) == data:
                self.raw[key][pk] = v
                return
        self.put({"key": key, "pk": list(pk), "val": val})

    def op_ext(self, gr, node, op, mine):
        if op["key"] not in self.nodes:
            raise core.Discard()
        self.w.event("user", "edit", op["key"])
        if self.busy and self.plan["store"] == "file":
            return  # the operator does not replace files while they are being written
        self.edits += 1
        self.stats["edits"] += 1
        self.put(op)
        self.w.log("EXT", op["key"], op["pk"], op["val"])

    # -- actors --------------------------------------------------------------------------------
    def actor(self, gi, ti, ops):
        def body():
            mine: list = list(self.pre) if gi == 0 else []
            for op in ops:
                gr = self.groups[gi] if gi >= 0 else None
                if gr is not None:
                    if gr.proc.dead:
                        self.stats["restarts"] += 1
                        gr.start()
                    mine = [s for s in mine if getattr(s, "proc", gr.proc) is gr.proc] if gr.cfg["backend"] == "mem" else mine
                    node = core.Node(f"p{gi}t{ti}", gr.proc)
                    self.w.node = node
                    sc = self.w.sched.tls.t
                    sc.node = node
                else:
                    node = self.w.node
                n0 = len(mine)
                try:
                    if op.get("meet"):
                        self.w.sched.meet("here", op["meet"])
                    getattr(self, "op_" + op["op"])(gr, node, op, mine)
                except SimCrash:
                    self.stats["crashes"] += 1
                for s in mine[n0:]:
                    s.proc = node.proc
                if node.dead and gr is not None and gr.cfg["backend"] == "mem":
                    mine = []

        return body

    def run(self):
        self.learn()
        for e in self.plan["init"]:
            self.put(e)
        self.groups = [Group(self, i, g) for i, g in enumerate(self.plan["groups"])]
        self.pre: list = []
        if self.plan.get("pre") and self.buildable(self.groups[0].cfg["code"]):
            gr = self.groups[0]
            self.op_build(gr, self.w.main, {"op": "build"}, self.pre)
            for x in self.pre:
                x.proc = gr.proc
        calm = self.pre and not any(o["op"] in ("ext", "write") or o["faults"] for o in self.plan["ops"])
        calls0 = len(lib.CALLS)
        by: dict = {}
        for op in self.plan["ops"]:
            if op["g"] >= len(self.groups):
                raise core.Discard()
            by.setdefault((op["g"], op["t"]), []).append(op)
        s = sched.Sched(self.w, self.plan["sched"], self.plan.get("decisions"))
        for (gi, ti), ops in by.items():
            s.spawn(f"p{gi}t{ti}" if gi >= 0 else "operator", self.actor(gi, ti, ops))
        self.w.sched = s
        self.keep = s
        try:
            s.run()
        finally:
            self.stats["switches"] += s.switches
            self.stats["sched_points"] += s.n
            self.stats["threads"] += len(s.threads)
        self.w.sched = None
        self.w.node = self.w.main
        self.w.open_files.clear()
        if calm and len(lib.CALLS) > calls0:
            self.violate("rerun", f"everything was built before, but {lib.CALLS[calls0][0]} was executed again", props=["C02", "C13"])
        self.settle()
        self.w.sched = s

    def buildable(self, code):
        _, works = evaluate(self.spec, code, self.raw)
        return all(self.raw.values()) and not any(wk.missing for h in works for wk in h)

    def settle(self):
        """All activity has stopped: one more build succeeds for everyone, and all agree."""
        ids: dict = {}
        buildable = self.buildable(self.plan["groups"][0]["code"])
        self.audit()
        fresh = Group(self, len(self.groups), {**self.plan["groups"][0], "backend": "mem"})
        for gr in [*self.groups, fresh]:
            if gr.proc.dead:
                gr.start()
            self.w.begin_op("settle")
            if not buildable:
                continue
            try:
                res = gr.graph.build()
            except Exception as e:
                self.violate("no_progress", f"after all activity stopped a build failed: {e!r}", tb=traceback.format_exc()[-2500:], group=gr.i)
            cap = self.captured(res, gr.backend)
            if cap != self.raw:
                self.violate("wrong_inputs", f"a snapshot captured {cap}, stored are {self.raw}")
            self.verify(gr, Snapped(res, cap, gr.cfg["code"]), {})
            calls0 = len(lib.CALLS)
            gr.graph.build()
            if len(lib.CALLS) > calls0:
                self.violate("rerun", f"{lib.CALLS[calls0][0]} was executed again in a repeated build", props=["C02", "C13"])
            key = canon({c: v for c, v in gr.cfg["code"].items() if any(n.get("cls") == c for n in self.spec["nodes"])})
            ids.setdefault(key, set()).add(int(res.id))
            if len(ids[key]) > 1:
                self.violate("disagreement", f"participants disagree on the id of the same graph and contents: {ids[key]}", props=["C06", "C13"])
        self.audit()
        self.w.end_op()

    def audit(self):
        by_name = {k: n for n in self.spec["nodes"] if n["kind"] == "prod" for k, st in zip(n["outs"], n["stores"]) if k is not None and st != "lit"}
        top = os.path.join(self.spec["root"], "out")
        prefix = self.store.key(top) + "/"
        for name, data in sorted(self.store.all().items()):
            if not name.startswith(prefix):
                continue
            hit = match_output(by_name, self.spec, name[len(prefix):])
            if hit is None:
                continue
            try:
                lib.loads(hit[1]["fmt"], data)
            except Exception:
                self.violate("torn_output", f"{hit[0]}: {name} holds an incomplete result ({len(data)} bytes)", props=["C13", "C03", "C10"])


def run(plan):
    r = Run(plan)
    try:
        r.run()
    finally:
        if r.w.sched is None:
            r.w.sched = getattr(r, "keep", None)
    return {"stats": r.stats, "findings": r.findings, "shape": r.keep.shape()}
