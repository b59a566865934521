"""Workload "context": threads that define, re-open, break off and use graphs at the same time.

Every thread has its own graphs; some use (or try to use) those of other threads. Definitions are put
together step by step, with pauses, errors, interrupts, nested definitions, forbidden operations and
cycles in between.
"""
from __future__ import annotations

import json
import pickle
import random
import traceback
from typing import Annotated

import arti
from arti import Artifact, Graph
from arti.formats.json import JSON
from arti.internal.mappings import frozendict
from arti.producers import producer
from arti.storage.local import LocalFile
from arti.types import Int64
from arti.versions import String

from sim import core, lib, sched, store
from sim.builds import _Gen, gen_spec, raws_of
from sim.sched import gen_sched
from sim.core import SimCrash, canon
from sim.lib import box_get, box_set, evaluate, raw_path, read_key, shape_of

PROFILES = {
    "threads": dict(threads=(2, 4), interrupts=0.15),
    "single": dict(threads=(1, 1), interrupts=0.0),
    "interrupts": dict(threads=(1, 2), interrupts=0.8),
}


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


RAISES = {
    "Boom": Boom, "Stop": Stop, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "ValueError": ValueError,
    "KeyError": KeyError, "StopIteration": StopIteration, "MemoryError": MemoryError, "AssertionError": AssertionError,
}
FORBIDDEN = ["build", "snapshot", "read", "write", "dependencies", "producers", "producer_outputs"]


class CArt(Artifact):
    """A user's artifact class that is compared by its label."""

    type: Int64 = Int64()
    label: str = ""

    def __eq__(self, other):
        return isinstance(other, CArt) and self.label == other.label

    def __hash__(self):
        return hash(self.label)


def _actions(rng, spec, idx, reopened, others):
    """Steps inside a definition block: the nodes `idx` are set, among other things."""
    acts = [["set", i] for i in idx]

    def put(a, n=1, lo=0):
        for _ in range(n):
            acts.insert(rng.randint(lo, len(acts)), a)

    if rng.random() < 0.5:
        put(["pause"], rng.randint(1, 3))
    if rng.random() < 0.4:
        put(["forbid", rng.choice(FORBIDDEN)], rng.randint(1, 2))
    if rng.random() < 0.25:
        put(["nest", rng.choice(["other", "same", "reopen"]), rng.random() < 0.7])
    if rng.random() < 0.2:
        put(["frozen"])
    if rng.random() < 0.2:
        put(["dup"])
    if rng.random() < 0.15:
        put(["bad", rng.choice(["noinput", "object", "multi"])])
    if rng.random() < 0.2:
        put(["fp"])
    if rng.random() < 0.15:
        put(["copy", rng.choice(["model_copy", "pickle"])])
    if rng.random() < 0.1:
        put(["empty"])
    if rng.random() < 0.3:
        acts.insert(rng.randint(0, len(acts)), ["raise", rng.choice(sorted(RAISES))])
    elif rng.random() < 0.12:
        put(["cycle"])
    elif rng.random() < 0.1:
        acts.insert(rng.randint(0, len(acts)), ["gen"])
    return acts


def generate(seed, profile):
    rng = random.Random(f"context:{profile}:{seed}")
    pr = PROFILES[profile]
    n = rng.randint(*pr["threads"])
    graphs, ops = [], []
    for t in range(n):
        mine = []
        for _ in range(rng.randint(1, 3)):
            spec = None
            while spec is None or not raws_of(spec):
                spec = gen_spec(rng, max_prods=rng.choice([1, 2, 3]), dups=False)
            gid = len(graphs)
            spec["name"] = rng.choice([f"g{gid}", f"g{gid}", "same"])
            tags = rng.choice([{}, {}, {"team": "x"}, {"team": "y", "a": "b"}])
            spec["tags"] = tags
            sub = "-".join(f"{k}={v}" for k, v in tags.items())
            base = f"d{gid}"
            # Templates to be bound to the graph they are assigned in.
            spec["root"] = rng.choice([f"{base}/{{graph_name}}", f"{base}/{{graph_name}}/{{path_tags}}", f"{base}"])
            graphs.append({"spec": spec, "sub": sub, "owner": t, "final": rng.random() < 0.4})
            mine.append(gid)
        for gid in mine:
            spec = graphs[gid]["spec"]
            idx = list(range(len(spec["nodes"])))
            later = []
            if not graphs[gid]["final"] and rng.random() < 0.6:
                k = rng.randint(0, len(idx))
                idx, later = idx[:k], idx[k:]
            op = {"op": "define", "t": t, "g": gid, "acts": _actions(rng, spec, idx, False, mine), "faults": []}
            ops.append(op)
            if rng.random() < 0.6:
                ops.append({"op": "use", "t": t, "g": gid, "faults": []})
            for _ in range(2):
                if later or (not graphs[gid]["final"] and rng.random() < 0.3):
                    k = rng.randint(0, len(later))
                    ops.append({"op": "reopen", "t": t, "g": gid, "acts": _actions(rng, spec, later[:k], True, mine), "faults": []})
                    later = later[k:]
                    if rng.random() < 0.7:
                        ops.append({"op": "use", "t": t, "g": gid, "faults": []})
            if not graphs[gid]["final"]:
                # Whatever is not there yet (eg: as an error got in between).
                ops.append({"op": "reopen", "t": t, "g": gid, "acts": [["rest"]], "faults": []})
                ops.append({"op": "use", "t": t, "g": gid, "faults": []})
        for op in ops:
            if op["t"] == t and op["op"] in ("define", "reopen") and rng.random() < pr["interrupts"]:
                op["faults"] = [{"on": "line", "n": int(rng.expovariate(1 / 400)) + 1, "kind": "interrupt"}]
    if n > 1:
        for _ in range(rng.randint(0, 3)):
            t = rng.randrange(n)
            cands = [i for i, g in enumerate(graphs) if g["final"] and g["owner"] != t]
            if cands:
                ops.insert(rng.randint(0, len(ops)), {"op": "peek", "t": t, "g": rng.choice(cands), "m": rng.choice(FORBIDDEN), "faults": []})
    init = []
    for gid, G in enumerate(graphs):
        g = _Gen(rng, G["spec"])
        for node in raws_of(G["spec"]):
            for _ in range(1 if node["shape"] == "s" else rng.randint(1, 2)):
                e = g.edit(node)
                while e["val"] is None:
                    e = g.edit(node)
                init.append({"g": gid, "key": e["key"], "pk": e["pk"], "val": e["val"]})
    return {"workload": "context", "profile": profile, "seed": seed, "graphs": graphs, "init": init, "ops": ops, "n": n,
            "sched": gen_sched(rng, 12_000)}


class G:
    def __init__(self, gid, cfg):
        self.gid, self.cfg, self.spec = gid, cfg, cfg["spec"]
        self.real = {**self.spec, "root": self.bind(self.spec["root"])}
        self.graph = None
        self.keys: set[str] = set()
        self.open = False
        self.toggles = 0
        self.obs: list = []
        self.code = {n["cls"]: ["str", "u"] for n in self.spec["nodes"] if n["kind"] == "prod"}
        self.raw: dict = {n["key"]: {} for n in raws_of(self.spec)}
        self.cyclic = False

    def bind(self, root):
        tags = "/".join(f"{k}={v}" for k, v in self.spec["tags"].items())
        # An empty component is dropped from the path.
        return root.replace("{graph_name}", self.spec["name"]).replace("{path_tags}", tags).rstrip("/")

    def sub(self, keys=None):
        """The part of the spec that is assigned."""
        keys = self.keys if keys is None else keys
        nodes = []
        for n in self.spec["nodes"]:
            if n["kind"] == "raw":
                if n["key"] in keys:
                    nodes.append(n)
            elif any(k in keys for k in n["outs"]):
                nodes.append({**n, "outs": [k if k in keys else None for k in n["outs"]]})
        return {**self.spec, "nodes": nodes}


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.w = core.world()
        self.store = store.Local()
        self.gs = [G(i, c) for i, c in enumerate(plan["graphs"])]
        self.stats = {"definitions": 0, "definitions_broken_off": 0, "reopened": 0, "uses": 0, "rejections": 0, "peeks": 0, "switches": 0, "sched_points": 0, "threads": 0}

    def violate(self, kind, msg, **kw):
        self.w.violate(kind, msg, **kw)

    # -- blocks --------------------------------------------------------------------------------
    def set_node(self, s: G, node):
        """Assign a node as a user would."""
        spec = s.spec
        keys = [node["key"]] if node["kind"] == "raw" else [k for k in node["outs"] if k is not None]
        if node["kind"] == "prod" and not set(node["ins"]) <= s.keys:
            return
        if set(keys) <= s.keys:
            return
        todo = [k for k in keys if k not in s.keys]
        g = s.graph
        if node["kind"] == "raw":
            if node["store"] == "lit":
                val = node["value"]
                art = lib.SArt(format=JSON(), storage=lib.StringLiteral(value=json.dumps(val)))
            else:
                art = lib.artifact_of(spec, node)
            self.assign(s, node["key"], art)
            return
        P = lib.producer_of(node, s.code)
        p = P(**{f"i{i}": box_get(g.artifacts, k) for i, k in enumerate(node["ins"])}, **lib.given_version(node, s.code))
        outs = tuple(
            lib.ART[sh](format=lib.FMT[node["fmt"]](), storage=lib._storage(spec, {**node, "store": st}, False))
            for sh, st in zip(node["oshapes"], node["stores"])
        )
        res = p.out(*outs)
        res = res if isinstance(res, tuple) else (res,)
        for key, a in zip(node["outs"], res):
            if key in todo:
                self.assign(s, key, a)

    def assign(self, s, key, art):
        s.pending = key
        box_set(s.graph.artifacts, key, art)
        s.keys.add(key)
        s.pending = None

    def rejects(self, what, fn, exc=ValueError):
        """The library has to refuse this."""
        self.stats["rejections"] += 1
        try:
            got = fn()
        except exc:
            return
        except KeyboardInterrupt:
            raise
        except Exception as e:
            self.violate("not_rejected", f"{what}: got {e!r} instead of {exc.__name__}", tb=traceback.format_exc()[-1500:])
        self.violate("not_rejected", f"{what} is not rejected: {got!r:.200}")

    def forbidden(self, g, name):
        art = next((a for _, a in g.artifacts.walk()), None)
        if art is None and name in ("read", "write"):
            name = "build"
        if name == "read":
            return lambda: g.read(art, annotation=int)
        if name == "write":
            return lambda: g.write(1, artifact=art)
        if name in ("build", "snapshot"):
            return getattr(g, name)
        return lambda: getattr(g, name)

    def body(self, s: G, acts, node):
        w = self.w
        for a in acts:
            self.expect_context(s, "in its own definition block")
            kind = a[0]
            if kind == "set":
                if a[1] < len(s.spec["nodes"]):
                    self.set_node(s, s.spec["nodes"][a[1]])
            elif kind == "rest":
                for n in s.spec["nodes"]:
                    self.set_node(s, n)
            elif kind == "pause":
                w.event("user", "pause")
            elif kind == "forbid":
                self.rejects(f"{a[1]} of an open graph", self.forbidden(s.graph, a[1]))
            elif kind == "nest":
                other = s.graph
                if a[1] == "other":
                    other = Graph(name="nested")
                elif a[1] == "reopen":
                    mine = [x.graph for x in self.gs if x.graph is not None and x is not s and x.cfg["owner"] == s.cfg["owner"]]
                    other = mine[0] if mine else other
                closed = other is not s.graph

                def enter(other=other):
                    with other:
                        self.violate("nested_context", "the body of a nested definition is executed")

                if a[2]:
                    self.rejects("a nested definition", enter)
                else:
                    s.expected = ValueError
                    enter()
                if closed:
                    self.rejects("assignment to a graph whose nested definition was refused", lambda: setattr(other.artifacts, "zz", 1))
            elif kind == "frozen":
                done = [x.graph for x in self.gs if x.graph is not None and x.cfg["owner"] == s.cfg["owner"] and x is not s]
                other = done[0] if done else Graph(name="done")
                self.rejects("assignment to a sealed graph, in another's definition,", lambda: setattr(other.artifacts, "zz", 1))
            elif kind == "dup":
                if s.keys:
                    key = sorted(s.keys)[0]
                    before = box_get(s.graph.artifacts, key)
                    self.rejects("assigning a key twice", lambda: box_set(s.graph.artifacts, key, 7))
                    if box_get(s.graph.artifacts, key) != before:
                        self.violate("definition_changed", f"refused assignment changed {key}")
            elif kind == "bad":
                if a[1] == "object":
                    self.rejects("assigning what is no artifact", lambda: setattr(s.graph.artifacts, "bad", object()), Exception)
                elif a[1] == "noinput":
                    P = lib.producer_class("lin1", "Lin1A", "s", "s", ["str", "u"])
                    self.rejects("a producer without inputs", P, Exception)
                else:
                    P = lib.producer_class("dup", "DupA", "s", "ss", ["str", "u"])
                    x = next((a for _, a in s.graph.artifacts.walk() if isinstance(a, lib.SArt)), None)
                    if x is not None:
                        self.rejects("assigning several outputs as one", lambda: setattr(s.graph.artifacts, "bad", P(i0=x)), Exception)
            elif kind == "fp":
                try:
                    s.graph.fingerprint  # noqa: B018
                except Exception:
                    pass
            elif kind == "copy":
                # Copies of an open graph are the copy's business, and leave this one alone.
                try:
                    s.graph.model_copy() if a[1] == "model_copy" else pickle.loads(pickle.dumps(s.graph))
                except Exception:
                    pass
            elif kind == "empty":
                s.graph.artifacts.sub.empty  # noqa: B018
            elif kind == "raise":
                e = RAISES[a[1]]("raised by the definition")
                s.expected = e
                raise e
            elif kind == "gen":
                s.as_gen = True
                return
            elif kind == "cycle":
                self.make_cycle(s)
        self.expect_context(s, "at the end of its own definition block")

    def make_cycle(self, s):
        P = lib.producer_class("lin1", "Lin1A", "s", "s", ["str", "u"])
        PC = CPROD
        a0 = CArt(label=f"cyc{s.gid}", format=JSON(), storage=LocalFile(path="cyc/{graph_name}.json"))
        b = PC(i0=a0).out(CArt(label=f"cycb{s.gid}", format=JSON(), storage=LocalFile(path="cyc/b/{graph_name}/{input_fingerprint}.json")))
        a1 = PC(i0=b).out(CArt(label=f"cyc{s.gid}", format=JSON(), storage=LocalFile(path="cyc/a/{graph_name}/{input_fingerprint}.json")))
        del P
        s.cyclic = "half"
        s.graph.artifacts.cyc.a = a1
        s.graph.artifacts.cyc.b = b
        s.cyclic = True
        s.expected = "cycle"

    def expect_context(self, s, where):
        if arti.context.graph is not s.graph:
            self.violate("wrong_context", f"the context is {arti.context.graph and arti.context.graph.name!r} {where}, not {s.graph.name!r}")

    def expect_released(self, where):
        if arti.context.graph is not None:
            self.violate("context_leak", f"{where}: the graph {arti.context.graph.name!r} still is being defined")

    def block(self, s: G, acts, op, node):
        """A whole definition block."""
        w = self.w
        s.expected, s.pending, s.as_gen = None, None, False
        w.begin_op(op["op"])
        raised = None
        self.expect_released("before a definition")
        s.toggles += 1

        def block():
            with s.graph as inside:
                s.open = True
                if inside is not s.graph:
                    self.violate("wrong_context", "the block is given another graph")
                try:
                    try:
                        if op["faults"]:
                            w.begin_op("body", op["faults"])
                        self.body(s, acts, node)
                    finally:
                        node.faults = []
                    if s.as_gen:
                        yield
                finally:
                    # It is being closed: what other threads may do is open.
                    s.open = False
                    s.toggles += 1

        try:
            it = block()
            for _ in it:
                it.close()
        except (SimCrash, core.Hang, core.Violation, core.Discard):
            raise
        except BaseException as e:
            raised = e
        s.open = False
        s.toggles += 1
        interrupted = bool(node.fired)
        if raised is not None:
            self.stats["definitions_broken_off"] += 1
        w.log("OUTCOME", node.name, op["op"], type(raised).__name__)
        tb = "".join(traceback.format_exception(raised)[-6:])[-2000:] if raised is not None else ""
        self.expect_released(f"after a definition that ended with {raised!r:.100}")
        if interrupted:
            # What was being assigned is there or not.
            if s.pending is not None and s.pending in s.graph.artifacts and isinstance(box_get(s.graph.artifacts, s.pending), Artifact):
                s.keys.add(s.pending)
            if s.cyclic == "half":
                s.cyclic = True
        elif isinstance(s.expected, BaseException):
            same = raised is s.expected or (isinstance(s.expected, StopIteration) and isinstance(raised, RuntimeError))
            if not same:
                self.violate("wrong_error", f"raised {s.expected!r} in a definition, got {raised!r}", tb=tb)
        elif s.expected is ValueError:
            if not isinstance(raised, ValueError):
                self.violate("not_rejected", f"a nested definition gave {raised!r}", tb=tb)
        elif s.expected == "cycle" or s.cyclic:
            if raised is None:
                self.violate("not_rejected", "a cyclic graph is accepted")
        elif raised is not None:
            self.violate("spurious_failure", f"a definition failed: {raised!r}", tb=tb)
        if raised is not None:
            raised.__traceback__ = None
        self.sealed(s)

    def sealed(self, s: G):
        g = s.graph
        self.rejects("assignment to a sealed graph", lambda: setattr(g.artifacts, "zz", 5))
        self.rejects("nested assignment to a sealed graph", lambda: box_set(g.artifacts, "a.b.zz", 5), (ValueError, AttributeError))
        if s.keys:
            key = sorted(s.keys)[0]
            if "." in key:
                self.rejects("nested assignment to a sealed graph", lambda: box_set(g.artifacts, key.rsplit(".", 1)[0] + ".zz", 5))
        if s.cyclic:
            return
        got = {k: a for k, a in g.artifacts.walk()}
        if set(got) != s.keys:
            self.violate("definition_changed", f"the graph holds {sorted(got)}, assigned were {sorted(s.keys)}")
        if dict(g.artifact_to_key) != {a: k for k, a in got.items()}:
            self.violate("stale_graph", f"artifact_to_key has {sorted(g.artifact_to_key.values())}, the graph holds {sorted(got)}")
        arts = {n for n in g.dependencies if isinstance(n, Artifact)}
        prods = {n for n in g.dependencies if not isinstance(n, Artifact)}
        sub = s.sub()
        n_prods = sum(n["kind"] == "prod" for n in sub["nodes"])
        outs = sum(1 for n in sub["nodes"] if n["kind"] == "prod" for k in n["outs"] if k)
        if arts != set(got.values()) or len(prods) != n_prods or len(g.producers) != n_prods or sum(map(len, g.producer_outputs.values())) != outs:
            self.violate("stale_graph", f"dependencies or producers don't match the artifacts {sorted(got)}")
        s.obs.append((tuple(sorted(s.keys)), int(g.fingerprint), {k: storage_text(a) for k, a in got.items()}))

    # -- ops -----------------------------------------------------------------------------------
    def op_define(self, op, node):
        s = self.gs[op["g"]]
        if s.graph is not None:
            return
        self.stats["definitions"] += 1
        kw = {"name": s.spec["name"]}
        if s.spec["tags"]:
            kw["path_tags"] = frozendict(s.spec["tags"])
        g = Graph(**kw)
        s.graph = g
        self.block(s, op["acts"], op, node)
        s.defined = True

    def op_reopen(self, op, node):
        s = self.gs[op["g"]]
        if s.graph is None or s.cfg["final"] or s.cyclic:
            return
        self.stats["reopened"] += 1
        self.block(s, op["acts"], op, node)

    def op_use(self, op, node):
        s = self.gs[op["g"]]
        if s.graph is None or s.cyclic:
            return
        self.use(s)

    def use(self, s: G):
        self.stats["uses"] += 1
        self.w.begin_op("use")
        self.expect_released("when using a graph")
        sub = s.sub()
        g = s.graph
        raw = {k: v for k, v in s.raw.items() if k in s.keys}
        vals, works = evaluate(sub, s.code, raw)
        if any(wk.missing for h in works for wk in h):
            raise core.Discard()
        try:
            res = g.build()
        except Exception as e:
            self.violate("spurious_failure", f"building a sealed graph failed: {e!r}", tb=traceback.format_exc()[-2500:], keys=sorted(s.keys))
        shapes = shape_of(sub)
        for key in sorted(s.keys):
            want = read_key(shapes[key], vals[key])
            if want is None:
                continue
            for snap in (g, res):
                try:
                    got = snap.read(box_get(g.artifacts, key), annotation=lib.PY[shapes[key]])
                except Exception as e:
                    self.violate("spurious_failure", f"reading {key} of a built graph failed: {e!r}", tb=traceback.format_exc()[-2500:])
                got = lib.canon_rows(got) if shapes[key] != "s" else canon(got)
                if got != want:
                    self.violate("wrong_result", f"{key} reads {got}, expected {want}")
        self.expect_released("after using a graph")

    def op_peek(self, op, node):
        s = self.gs[op["g"]]
        if s.graph is None or not s.open:
            return
        g, t0 = s.graph, s.toggles
        self.stats["peeks"] += 1
        self.w.begin_op("peek")
        self.expect_released("when using another thread's graph")
        fn = self.forbidden(g, "snapshot" if op["m"] in ("read", "write") else op["m"])
        try:
            fn()
            ok = True
        except ValueError:
            ok = False
        except Exception as e:
            if s.toggles == t0 and s.open:
                self.violate("not_rejected", f"{op['m']} of a graph being defined in another thread gave {e!r}")
            return
        if ok and s.toggles == t0 and s.open:
            self.violate("not_rejected", f"{op['m']} of a graph being defined in another thread is not rejected")

    # -- run -----------------------------------------------------------------------------------
    def actor(self, ops):
        def body():
            node = self.w.node
            for op in ops:
                getattr(self, "op_" + op["op"])(op, node)

        return body

    def run(self):
        for e in self.plan["init"]:
            s = self.gs[e["g"]]
            node = next(n for n in s.spec["nodes"] if n.get("key") == e["key"])
            self.store.put(raw_path(s.real["root"], node, tuple(e["pk"])), lib.dumps(node["fmt"], e["val"]))
            s.raw[e["key"]][tuple(e["pk"])] = e["val"]
        for s in self.gs:  # The user's code is there before the threads start.
            for n in s.spec["nodes"]:
                if n["kind"] == "prod":
                    lib.producer_of(n, s.code)
        by: dict = {}
        for op in self.plan["ops"]:
            by.setdefault(op["t"], []).append(op)
        sc = sched.Sched(self.w, self.plan["sched"], self.plan.get("decisions"))
        for t, ops in sorted(by.items()):
            sc.spawn(f"t{t}", self.actor(ops))
        self.w.sched = self.keep = sc
        try:
            sc.run()
        finally:
            self.stats["switches"] += sc.switches
            self.stats["sched_points"] += sc.n
            self.stats["threads"] += len(sc.threads)
        self.w.sched = None
        self.w.node = self.w.main
        self.settle()
        self.w.sched = sc

    def settle(self):
        """Each graph is what it would be had it been defined alone, in one go."""
        self.w.begin_op("settle")
        self.expect_released("after all threads ended")
        for s in self.gs:
            if s.graph is None or s.cyclic:
                continue
            for keys, fp, texts in s.obs:
                ref = lib.define(s.sub(set(keys)), s.code)
                if int(ref.fingerprint) != fp:
                    self.violate("stale_graph", f"the fingerprint of {s.spec['name']} ({list(keys)}) was {fp}, defined anew it is {int(ref.fingerprint)}")
                want = {k: storage_text(a) for k, a in ref.artifacts.walk()}
                if want != texts:
                    bad = {k: (texts.get(k), want.get(k)) for k in {*texts, *want} if texts.get(k) != want.get(k)}
                    self.violate("captured_artifact", f"artifacts of {s.spec['name']!r} are stored elsewhere: {bad}")
            for k, a in s.graph.artifacts.walk():
                path = getattr(a.storage, "path", None)
                if path is not None and not path.startswith(s.real["root"] + "/"):
                    self.violate("captured_artifact", f"{k} of graph {s.spec['name']!r} is stored at {path}, not below {s.real['root']}")
            self.use(s)
        with Graph(name="after") as g:
            g.artifacts.a = 1
        self.expect_released("at the end")
        self.w.end_op()


def storage_text(a):
    return f"{type(a).__name__} {a.storage.model_dump_json()}"


def _cprod():
    def CycA(i0: Annotated[int, CArt]) -> Annotated[int, CArt]:
        return i0

    return producer(version=String(value="u"))(CycA)


CPROD = _cprod()


def run(plan):
    r = Run(plan)
    try:
        r.run()
    finally:
        if r.w.sched is None:
            r.w.sched = getattr(r, "keep", None)
    return {"stats": r.stats, "findings": [], "shape": r.keep.shape()}
