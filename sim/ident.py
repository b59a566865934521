"""Workload "ident": snapshot ids and fingerprints of evolving graphs and raw contents, computed along many
ways (definition orders, copies, pickles, other processes, after earlier access, under faults), refined
against what they are to identify.
"""
from __future__ import annotations

import base64
import copy
import json
import pickle
import random
import traceback

from sim import core, fs, gcs, lib, peer, store
from sim.core import Discard, SimCrash, canon
from sim.lib import KEYS, box_get

PROFILES = {
    "local": dict(gcs=0.0, faults=0.0),
    "gcs": dict(gcs=1.0, faults=0.0),
    "faults": dict(gcs=0.25, faults=0.5),
}
WAYS = ["fresh", "order", "copy", "deepcopy", "model_copy", "model_deepcopy", "pickle", "touched", "partial", "reopened",
        "cached", "backend", "peer", "peer_order", "to_peer", "from_peer", "tag", "built"]
SLOTS = ["u", "v", "w"]


# ==================================================================================================
# Plans
# ==================================================================================================
def gen_spec(rng, gcs_):
    from sim import builds

    flat = rng.random() < 0.3  # paths don't tell artifacts apart
    for _ in range(100):
        spec = builds.gen_spec(rng, gcs=gcs_, max_prods=rng.choice([3, 4, 5] if flat else [1, 1, 2, 3, 4]), lits=not gcs_ and not flat)
        if any(n["kind"] == "raw" and n["store"] != "lit" for n in spec["nodes"]):
            break
    styles: dict = {}
    for n in spec["nodes"]:
        if n["kind"] == "raw" and n["store"] != "lit":
            n["slot"] = rng.choice(SLOTS) + n["shape"] if rng.random() < 0.6 else n["key"].replace(".", "-") + n["shape"]
        elif n["kind"] == "prod":
            n["style"] = styles.setdefault(n["cls"], rng.choice(["dec", "dec", "inst"]))
            if flat:
                n["fmt"], n["note"] = "json", ""
            if all(s == ("gcs" if gcs_ else "file") for s in n["stores"]) and rng.random() < (1.0 if flat else 0.5):
                n["paths"] = ["flat%s/{partition_key_spec}/{input_fingerprint}.x" % i for i in range(len(lib.sig_of(n)))]
    twins = [n for n in spec["nodes"] if n["kind"] == "raw" and n["store"] != "lit"]
    if rng.random() < 0.3:  # another artifact of the same data
        n = rng.choice(twins)
        spec["nodes"].insert(0, {**n, "key": n["key"] + "tw", "note": rng.choice([x for x in ("", "a", "b") if x != (n.get("note") or "")])})
    spec["order"] = 0
    return spec


def keys_of(spec):
    return [k for n in spec["nodes"] for k in ([n["key"]] if n["kind"] == "raw" else n["outs"]) if k]


def tidy(spec):
    """Whether the definition is sound: no unknown inputs, no duplicate keys."""
    seen = set()
    for n in spec["nodes"]:
        if n["kind"] == "prod" and any(k not in seen for k in n["ins"]):
            return False
        for k in [n["key"]] if n["kind"] == "raw" else n["outs"]:
            if k is None:
                continue
            if k in seen or any(s.startswith(k + ".") or k.startswith(s + ".") for s in seen):
                return False
            seen.add(k)
    # An output path of several distinct works would be ambiguous.
    return any(n["kind"] == "raw" and n["store"] != "lit" for n in spec["nodes"])


def mutate(rng, spec, code):
    """An edit of the definition. Returns None if it did not apply."""
    spec, code = json.loads(json.dumps(spec)), dict(code)
    nodes = spec["nodes"]
    raws = [n for n in nodes if n["kind"] == "raw"]
    prods = [n for n in nodes if n["kind"] == "prod"]
    r = rng.choice(["name", "tags", "rename", "alias", "unalias", "ins", "ins", "ins", "outs", "code", "code", "code", "fmt", "tpl", "note",
                    "drop", "slot", "lit", "cls", "path", "dropout", "wire", "wire", "wire"])
    if r == "wire":
        # Other inputs which look the same.
        arts = graph_canon(spec, code)[0]
        cands = []
        for at, n in enumerate(nodes):
            if n["kind"] == "prod":
                known = {k for m in nodes[:at] for k in ([m["key"]] if m["kind"] == "raw" else m["outs"]) if k}
                cands += [(n, i, k) for i, old in enumerate(n["ins"]) for k in sorted(known) if k != old and arts.get(k) == arts[old]]
        if not cands:
            return None
        n, i, k = rng.choice(cands)
        n["ins"][i] = k
    if r == "name":
        spec["name"] = rng.choice(["g", "h", "g1"])
    elif r == "tags":
        spec["tags"] = rng.choice([{}, {"t": "1"}, {"t": "2"}, {"u": "1", "t": "1"}])
    elif r == "rename":
        old = rng.choice(keys_of(spec))
        last = old.rsplit(".", 1)[-1]
        new = rng.choice(["zz", "yy", "n.zz", "A", "q.w.e", old.rsplit(".", 1)[0] + "_", "p." + last, "q." + last, "p.q." + last, last, old.upper()])
        for n in nodes:
            if n["kind"] == "raw":
                n["key"] = new if n["key"] == old else n["key"]
            else:
                n["ins"] = [new if k == old else k for k in n["ins"]]
                n["outs"] = [new if k == old else k for k in n["outs"]]
    elif r == "alias":
        n = rng.choice(raws)
        spec["nodes"].insert(rng.randint(0, len(raws)), {**n, "key": rng.choice(["al", "am", "n.al", "0al"])})
    elif r == "unalias":
        spec["nodes"] = [n for n in nodes if not (n["kind"] == "raw" and n["key"].split(".")[-1] in ("al", "am", "0al"))]
    elif r == "ins":
        if not prods:
            return None
        n = rng.choice(prods)
        if not n["ins"]:
            return None
        at = nodes.index(n)
        shapes = lib.shape_of({"nodes": nodes[:at]})
        i = rng.randrange(len(n["ins"]))
        if len(n["ins"]) > 1 and rng.random() < 0.4:
            j = rng.randrange(len(n["ins"]))
            if n["ishapes"][i] == n["ishapes"][j]:
                n["ins"][i], n["ins"][j] = n["ins"][j], n["ins"][i]
        else:
            pool = [k for k, s in shapes.items() if s == n["ishapes"][i]]
            n["ins"][i] = rng.choice(pool)
    elif r == "outs":
        ms = [n for n in prods if len(n["outs"]) > 1 and not n.get("pos")]
        if not ms:
            return None
        n = rng.choice(ms)
        if len(set(n["oshapes"])) > 1:
            return None
        n["outs"] = n["outs"][1:] + n["outs"][:1]
    elif r == "code":
        if not code:
            return None
        from sim import builds

        c = rng.choice(sorted(code))
        code[c] = builds.bump(rng, code[c])
    elif r == "cls":
        if not prods:
            return None
        n = rng.choice(prods)
        new = n["cls"][:-1] + ("B" if n["cls"][-1] == "A" else "A")
        n["cls"] = new
        code.setdefault(new, ["sem", 1, 0, 0])
    elif r == "fmt":
        n = rng.choice(nodes)
        if n.get("store") == "lit" or "lit" in n.get("stores", ()):
            return None
        n["fmt"] = "json" if n["fmt"] == "pickle" else "pickle"
    elif r == "tpl":
        n = rng.choice(nodes)
        n["tpl"] = rng.randrange(len(lib.RAW_TEMPLATES[n["shape"]] if n["kind"] == "raw" else lib.OUT_TEMPLATES))
    elif r == "note":
        n = rng.choice(nodes)
        n["note"] = rng.choice(["", "a", "b"])
    elif r == "drop":
        used = {k for p in prods for k in p["ins"]}
        cands = [n for n in nodes if not used & set([n["key"]] if n["kind"] == "raw" else n["outs"])]
        if not cands:
            return None
        nodes.remove(rng.choice(cands))
    elif r == "slot":
        rs = [n for n in raws if n["store"] != "lit"]
        n = rng.choice(rs)
        n["slot"] = rng.choice(SLOTS) + n["shape"]
    elif r == "lit":
        ls = [n for n in raws if n["store"] == "lit"]
        if not ls:
            return None
        rng.choice(ls)["value"] = rng.randint(-3, 3)
    elif r == "path":
        cands = [n for n in prods if "lit" not in n["stores"]]
        if not cands:
            return None
        n = rng.choice(cands)
        if n.pop("paths", None) is None:
            n["paths"] = ["flat%s/{partition_key_spec}/{input_fingerprint}.x" % i for i in range(len(lib.sig_of(n)))]
    elif r == "dropout":
        used = {k for p in prods for k in p["ins"]}
        cands = [(n, i) for n in prods for i, k in enumerate(n["outs"]) if k and k not in used and sum(map(bool, n["outs"])) > 1]
        if not cands:
            return None
        n, i = rng.choice(cands)
        n["outs"][i] = None
    return (spec, code) if tidy(spec) else None


def generate(seed, profile):
    rng = random.Random(f"ident:{profile}:{seed}")
    pr = PROFILES[profile]
    use_gcs = rng.random() < pr["gcs"]
    from sim import builds, storage

    spec = gen_spec(rng, use_gcs)
    while not tidy(spec):
        spec = gen_spec(rng, use_gcs)
    code = {n["cls"]: rng.choice([["sem", 0, 0, 1], ["sem", 1, 0, 0], ["str", "u"], ["ts", "2021-03-04T05:06:07+00:00"]]) for n in spec["nodes"] if n["kind"] == "prod"}
    plan = {"workload": "ident", "profile": profile, "seed": seed, **store.ways(seed, True), "gcs": use_gcs, "backend": rng.choice(["mem", "sim"]),
            "shuffle": rng.random() < 0.8, "ops": []}
    ops = plan["ops"]
    hist = {}
    specs = [(spec, code)]

    def edit(force=None):
        rs = [n for n in spec["nodes"] if n["kind"] == "raw" and n["store"] != "lit"]
        n = force or rng.choice(rs)
        t = raw_template(spec, n)
        known = [json.loads(k[1]) for k in hist if k[0] == t]
        pk = rng.choice(known) if known and rng.random() < 0.7 else builds.gen_key(rng, n["shape"])
        past = hist.setdefault((t, json.dumps(pk)), [])
        r = rng.random()
        if force is None and r < 0.25:
            val = None
        elif past and r < 0.5:
            val = rng.choice(past)
        elif r < 0.65 and hist:
            pool = [v for vs in hist.values() for v in vs]
            val = rng.choice(pool) if pool else "x"
        else:
            val = rng.choice(["", "a", "b", "ab", "\x00", "1", "2", "x" * 70000 + rng.choice("yz")])
            if rng.random() < 0.12:
                half = "x" * rng.choice([10, 35000, 600000, 1300000])
                val = half + rng.choice("yz") + half
            if rng.random() < 0.3:
                # Barely different.
                val = rng.choice([val + "\n", val + " ", "\n" + val, val.upper(), val + "\x00", "\ufeff" + val, val[::-1], val + "\r\n"])
        if val is not None:
            past.append(val)
        return {"op": "edit", "node": {k: n[k] for k in ("shape", "fmt", "store", "tpl", "slot")}, "root": spec["root"], "pk": pk, "val": val}

    def ways():
        k = rng.choice([2, 3, 4, 6])
        return ["fresh"] + rng.sample(WAYS[1:], k)

    def setspec():
        ops.append({"op": "set", "spec": spec, "code": {n["cls"]: code[n["cls"]] for n in spec["nodes"] if n["kind"] == "prod"}})
        # Usually give everything data.
        for n in spec["nodes"]:
            if n["kind"] == "raw" and n["store"] != "lit" and rng.random() < 0.97:
                t = raw_template(spec, n)
                if not any(k[0] == t for k in hist):
                    for _ in range(1 if n["shape"] == "s" else rng.randint(1, 3)):
                        ops.append(edit(n))

    setspec()
    for _ in range(rng.randint(3, 9)):
        op = {"op": "observe", "ways": ways(), "seed": rng.randrange(1 << 30)}
        if rng.random() < pr["faults"]:
            if use_gcs:
                op["faults"] = [storage.gen_gcs_fault(rng)]
            else:
                op["faults"] = [builds.gen_fault(rng, rng.random() < 0.5, plan["backend"] == "sim")]
        if rng.random() < (0.3 if profile == "faults" else 0.08):
            op["oob"] = {"n": 1 + int(rng.expovariate(1 / 6)), "edit": edit()}
        ops.append(op)
        r = rng.random()
        if r < 0.45:
            ops.append(edit())
            if rng.random() < 0.3:
                ops.append(edit())
        elif r < 0.55:
            ops.append({"op": "swap", "seed": rng.randrange(1 << 30)})
        elif r < 0.6:
            ops.append({"op": "rewrite"})
        elif r < 0.7 and len(specs) > 1:
            spec, code = rng.choice(specs)
            setspec()
        else:
            for _ in range(20):
                m = mutate(rng, spec, code)
                if m is not None:
                    spec, code = m
                    specs.append(m)
                    setspec()
                    break
        if rng.random() < 0.15:
            ops.append({"op": "updates", "seed": rng.randrange(1 << 30)})
    ops.append({"op": "observe", "ways": ways(), "seed": rng.randrange(1 << 30)})
    return plan


def raw_template(spec, node):
    return canon([spec["root"], node["store"], node["shape"], node["tpl"], node["slot"], lib.EXT[node["fmt"]] if "{extension}" in lib.RAW_TEMPLATES[node["shape"]][node["tpl"]] else ""])


# ==================================================================================================
# What the definition says, by the harness' own reading
# ==================================================================================================
def art_canon(spec, node, i, key):
    """An artifact apart from what produces it."""
    is_raw = node["kind"] == "raw"
    if not is_raw:
        i = lib.pos_of(node)[i]
    st = node["store"] if is_raw else node["stores"][i]
    shape = node["shape"] if is_raw else node["oshapes"][i]
    out = ["art", shape, node["fmt"], st, node.get("note") or ""]
    if st == "lit":
        return canon([*out, node["value"] if is_raw else None, spec["name"], list(spec["tags"].items()), key])
    t = lib.template_of(spec, node, is_raw, i)
    out.append(t.replace("{extension}", lib.EXT[node["fmt"]]))
    if "{graph_name}" in t:
        out.append(["g", spec["name"]])
    if "{path_tags}" in t:
        out.append(["t", list(spec["tags"].items())])
    if "{names}" in t or "{name}" in t:
        out.append(["n", key])
    return canon(out)


def graph_canon(spec, code):
    """({key: artifact}, {key: producer output}, the whole) by key."""
    arts, prods, conn = {}, {}, {}
    for n in spec["nodes"]:
        if n["kind"] == "raw":
            arts[n["key"]] = art_canon(spec, n, 0, n["key"])
            conn[n["key"]] = arts[n["key"]]
            continue
        p = canon(["prod", n["cls"], version_canon(code[n["cls"]]), [arts[k] for k in n["ins"]]])
        full = canon([p, [conn[k] for k in n["ins"]]])
        for i, k in enumerate(n["outs"]):
            if k is not None:
                arts[k] = art_canon(spec, n, i, k)
                prods[k] = p
                conn[k] = canon([arts[k], full, lib.pos_of(n)[i]])
    whole = canon([spec["name"], list(spec["tags"].items()), sorted(conn.items())])
    return arts, prods, whole


def version_canon(ver):
    return lib.ident_of(ver)


# ==================================================================================================
# What the library says
# ==================================================================================================
def reorder(spec, seed):
    """The same definition in another order."""
    if not seed:
        return spec
    rng = random.Random(seed)
    left, done, out = list(spec["nodes"]), set(), []
    while left:
        ready = [n for n in left if n["kind"] == "raw" or all(k in done for k in n["ins"])]
        n = rng.choice(ready)
        left.remove(n)
        out.append(n)
        done |= {n["key"]} if n["kind"] == "raw" else {k for k in n["outs"] if k}
    # (The order of path tags is that of the path, hence significant.)
    return {**spec, "nodes": out}


def fingerprints(graph, spec):
    fps = {"graph": graph.fingerprint}
    for n in spec["nodes"]:
        for k in [n["key"]] if n["kind"] == "raw" else n["outs"]:
            if k is None:
                continue
            a = box_get(graph.artifacts, k)
            fps[f"art {k}"] = a.fingerprint
            fps[f"fmt {k}"] = a.format.fingerprint
            fps[f"typ {k}"] = a.type.fingerprint
            fps[f"sto {k}"] = a.storage.fingerprint
            if a.producer_output is not None:
                fps[f"prd {k}"] = a.producer_output.producer.fingerprint
                fps[f"ver {k}"] = a.producer_output.producer.version.fingerprint
    return {k: int(v) for k, v in fps.items()}


def partitions(graph, spec):
    """Fingerprints of raw partitions as discovered."""
    out = {}
    for n in spec["nodes"]:
        if n["kind"] == "raw":
            for p in box_get(graph.artifacts, n["key"]).storage.discover_partitions():
                pk = canon(lib.from_pk(n["shape"], p.partition_key))
                out[f"part {n['key']} {pk}"] = int(p.fingerprint)
                out[f"cont {n['key']} {pk}"] = int(p.content_fingerprint)
    return out


def observe(spec, code, *, pickled=None, want_pickle=False, parts=True):
    """Everything there is to compare, in this process (also called in the peer)."""
    lib_classes(spec, code)
    g = pickle.loads(base64.b64decode(pickled)) if pickled else lib.define(spec, code)
    fps = fingerprints(g, spec)
    try:
        fps["id"] = int(g.snapshot().id)
        err = None
    except ValueError as e:
        err = str(e)
    if parts and err is None:
        fps.update(partitions(g, spec))
    out = {"fps": fps, "err": err}
    if want_pickle:
        out["pickle"] = base64.b64encode(pickle.dumps(g)).decode()
    return out


def lib_classes(spec, code):
    for n in spec["nodes"]:
        if n["kind"] == "prod":
            lib.producer_of(n, code)


class Run:
    def __init__(self, plan):
        self.plan, self.w = plan, core.world()
        self.store = store.Bucket() if plan["gcs"] else store.Local()
        if plan["gcs"]:
            gcs.reset()
        self.new_node()
        self.raw = {}  # template -> {partition: bytes}
        self.spec = self.code = None
        self.fwd, self.rev = {}, {}
        self.graphs = {}
        self.backend_n = 0
        self.stats = {"observations": 0, "ways": 0, "edits": 0, "definitions": 0, "crashes": 0, "failed": 0, "peer": 0}

    def new_node(self):
        self.w.main = core.Node("main")
        self.w.main.veto = core.entering
        self.w.node = self.w.main

    def backend(self):
        if self.plan["backend"] == "sim":
            from sim import backend as sb

            self.backend_n += 1
            return sb.SimBackend(server_name=f"i{self.backend_n % 3}")
        from arti.backends.memory import MemoryBackend

        return MemoryBackend()

    # -- environment ---------------------------------------------------------------------------
    def op_set(self, op):
        self.spec, self.code = op["spec"], op["code"]
        self.stats["definitions"] += 1

    def edit(self, op):
        node = {"key": "?", **op["node"]}
        spec = {"root": op["root"]}
        path = lib.raw_path(op["root"], node, tuple(op["pk"]))
        d = self.raw.setdefault(raw_template(spec, node), {})
        pk = tuple(op["pk"])
        if op["val"] is None:
            self.store.delete(path)
            d.pop(pk, None)
        else:
            data = op["val"].encode()
            self.store.put(path, data)
            d[pk] = (data, path)
        self.stats["edits"] += 1
        self.w.log("EDIT", path, None if op["val"] is None else op["val"][:8] + op["val"][-8:])

    def op_edit(self, op):
        self.edit(op)

    def op_swap(self, op):
        """Exchange the contents of two partitions."""
        rng = random.Random(op["seed"])
        all_ = sorted((t, pk) for t, d in self.raw.items() for pk in d)
        if len(all_) < 2:
            return
        (t1, p1), (t2, p2) = rng.sample(all_, 2)
        (d1, f1), (d2, f2) = self.raw[t1][p1], self.raw[t2][p2]
        self.store.put(f1, d2)
        self.store.put(f2, d1)
        self.raw[t1][p1], self.raw[t2][p2] = (d2, f1), (d1, f2)

    def op_rewrite(self, op):
        """Storing the same contents again changes nothing (but times, inodes, generations, ...)."""
        for d in self.raw.values():
            for data, path in d.values():
                self.store.put(path, data)

    # -- observing -----------------------------------------------------------------------------
    def contents(self):
        """Partitions by raw key; None if some artifact has none."""
        out = {}
        for n in self.spec["nodes"]:
            if n["kind"] == "raw":
                if n["store"] == "lit":
                    out[n["key"]] = {(): n["value"]}
                else:
                    out[n["key"]] = {pk: v[0].hex() for pk, v in self.raw.get(raw_template(self.spec, n), {}).items()}
        return out

    def expected(self):
        arts, prods, whole = graph_canon(self.spec, self.code)
        exp = {"graph": ("graph", whole)}
        for n in self.spec["nodes"]:
            for i, k in enumerate([n["key"]] if n["kind"] == "raw" else n["outs"]):
                if k is None:
                    continue
                exp[f"art {k}"] = ("art", arts[k])
                exp[f"fmt {k}"] = ("fmt", n["fmt"])
                exp[f"typ {k}"] = ("typ", n["shape"] if n["kind"] == "raw" else n["oshapes"][i])
                if n["kind"] == "prod":
                    exp[f"prd {k}"] = ("prd", prods[k])
                    exp[f"ver {k}"] = ("ver", version_canon(self.code[n["cls"]]))
        return exp, whole

    def state(self):
        cont = self.contents()
        missing = any(not v for v in cont.values())
        return cont, missing, canon([(k, sorted((canon(pk), v) for pk, v in d.items())) for k, d in sorted(cont.items())])

    def match(self, kind, what, fp, way):
        """The same things have the same fingerprint, different ones have different ones."""
        a = self.fwd.setdefault((kind, what), fp)
        if a != fp:
            self.violate("unstable_identity" if kind != "id" else "unstable_id", f"{kind} fingerprint is {fp} by way of {way}, but was {a} for the same thing before", what=what[:9000], way=way)
        b = self.rev.setdefault((kind, fp), what)
        if b != what:
            self.violate("same_identity" if kind != "id" else "same_id", f"{kind} fingerprint {fp} (by way of {way}) is shared by different things", what=what[:9000], other=b[:9000], way=way)

    def violate(self, kind, msg, **kw):
        self.w.violate(kind, msg, op=self.cur, **kw)

    def judge(self, way, fps, err, states, faulted):
        """`states`: the raw contents there may have been (more than one with an edit in between)."""
        exp, whole = self.expected()
        for name, (kind, what) in exp.items():
            if name not in fps:
                self.violate("missing_identity", f"no {name} by way of {way}")
            self.match(kind, what, fps[name], way)
        if err is not None:
            self.stats["failed"] += 1
            if not (faulted or any(m for _, m, _ in states)):
                self.violate("spurious_failure", f"snapshotting by way of {way} failed without cause: {err}", way=way)
            return
        if len(states) > 1:
            shared = [raw_template(self.spec, n) for n in self.spec["nodes"] if n["kind"] == "raw" and n["store"] != "lit"]
            if len(set(shared)) < len(shared):
                return  # the edit may lie between discovering the same files for two artifacts
            ids = {self.fwd.get(("id", canon([whole, ident]))) for _, missing, ident in states if not missing}
            if None in ids:
                return  # which contents were captured is not known
            if fps["id"] not in ids:
                self.violate("unstable_id", f"snapshot by way of {way}, taken while the data was edited, has id {fps['id']}, which is neither that of the contents before nor after", way=way, props=["C06", "C07"])
            return
        fit, last = None, None
        for st in states:
            cont, missing, ident = st
            if missing:
                continue
            n = len(self.w.violations)
            try:
                self.match("id", canon([whole, ident]), fps["id"], way)
                fit = st
                break
            except core.Violation as v:
                del self.w.violations[n:]
                last = v
        if fit is None:
            if last is None:
                self.violate("missed_failure", f"snapshot by way of {way} returned although raw data is missing", way=way, props=["C05", "C06"])
            self.w.violations.append(last)
            raise last
        if len(states) > 1:
            return
        cont = fit[0]
        for n in self.spec["nodes"]:
            if n["kind"] != "raw" or n["store"] == "lit":
                continue
            got = {k for k in fps if k.startswith(f"part {n['key']} ")}
            want = {f"part {n['key']} {canon(pk)}" for pk in cont[n["key"]]}
            if not any(k.startswith("part ") for k in fps):
                continue
            if got != want:
                self.violate("wrong_discovery", f"{n['key']} has partitions {sorted(got)}, stored {sorted(want)}", way=way, props=["C06", "C09"])
            for pk, data in cont[n["key"]].items():
                self.match("part", canon([raw_template(self.spec, n), pk, data]), fps[f"part {n['key']} {canon(pk)}"], way)
                self.match("cont", canon([n["store"], data]), fps[f"cont {n['key']} {canon(pk)}"], way)

    def op_observe(self, op):
        lib_classes(self.spec, self.code)
        for j, way in enumerate(op["ways"]):
            faults = op.get("faults", ()) if j == len(op["ways"]) - 1 else ()
            oob = op.get("oob") if faults or (j == 0 and not op.get("faults")) else None
            self.one(way, op, j, faults, oob)

    def one(self, way, op, j, faults, oob):
        w = self.w
        before = self.state()
        w.begin_op(f"observe {way}", faults)
        fired_oob = [False]
        listener = None
        if oob and "peer" not in way:
            count = [0]

            def listener(name, detail):
                if name.startswith(("prod.", "be.")):
                    return
                count[0] += 1
                if count[0] == oob["n"]:
                    fired_oob[0] = True
                    self.edit(oob["edit"])

            w.listeners.append(listener)
        fps, err, outcome = {}, None, "ok"
        seed = op["seed"] + j
        try:
            fps, err = getattr(self, "way_" + way)(seed, parts=not (faults or oob))
        except SimCrash:
            outcome = "crash"
        except KeyboardInterrupt:
            outcome = "interrupt"
        except (core.Violation, core.Hang):
            raise
        except Exception as e:
            outcome, err = "error", f"{e!r}"
            tb = "".join(traceback.format_exception(e)[-6:])
            # These may fail although nothing else is wrong: the data changed in between.
            if not (w.node.fired or fired_oob[0]):
                self.violate("unexpected_error", f"{way} failed: {e!r}", tb=tb)
        finally:
            w.end_op()
            if listener:
                w.listeners.remove(listener)
        self.stats["ways"] += 1
        fired = list(w.node.fired)
        if w.node.dead:
            outcome = "crash"
        if outcome == "crash":
            self.stats["crashes"] += 1
            self.new_node()
            w.open_files.clear()
            fs._fds.clear()
            self.graphs.clear()
            return
        if outcome != "ok":
            self.stats["failed"] += 1
            return
        after = self.state()
        states = [before] if before[2] == after[2] else [before, after]
        w.log("GOT", way, fps.get("id"), err or "")
        self.stats["observations"] += 1
        self.judge(way, fps, err, states, bool(fired) or fired_oob[0])

    def finish(self, g, parts, snap=None):
        fps = fingerprints(g, self.spec)
        try:
            fps["id"] = int((snap or g.snapshot()).id)
        except ValueError as e:
            return fps, str(e)
        if parts:
            fps.update(partitions(g, self.spec))
        return fps, None

    def fresh(self, seed=0, pause=None):
        return lib.define(reorder(self.spec, seed), self.code, self.backend(), pause=pause)

    def way_fresh(self, seed, parts):
        g = self.fresh()
        self.graphs[canon([self.spec, self.code])] = g
        return self.finish(g, parts)

    def way_order(self, seed, parts):
        return self.finish(self.fresh(seed or 1), parts)

    def way_backend(self, seed, parts):
        g = self.fresh()
        return self.finish(g.model_copy(update={"backend": self.backend()}), parts)

    def way_copy(self, seed, parts):
        g = self.fresh()
        if seed % 2:
            g.fingerprint
        return self.finish(copy.copy(g), parts)

    def way_deepcopy(self, seed, parts):
        g = self.fresh()
        if seed % 2:
            self.touch(g)
        return self.finish(copy.deepcopy(g), parts)

    def way_model_copy(self, seed, parts):
        g = self.fresh()
        if seed % 2:
            self.touch(g)
        return self.finish(g.model_copy(), parts)

    def way_model_deepcopy(self, seed, parts):
        g = self.fresh()
        if seed % 2:
            self.touch(g)
        return self.finish(g.model_copy(deep=True), parts)

    def way_pickle(self, seed, parts):
        g = self.fresh()
        if seed % 2:
            self.touch(g)
        if seed % 3 == 0:
            try:
                g.snapshot().tag("t", overwrite=True)
            except ValueError:
                pass  # without raw data
        back = pickle.loads(pickle.dumps(g, protocol=2 + seed % 4))
        if back != g:
            self.violate("unstable_identity", "a graph is not equal to its unpickled copy")
        return self.finish(back, parts)

    def way_touched(self, seed, parts):
        g = self.fresh()
        self.touch(g)
        return self.finish(g, parts)

    def touch(self, g):
        g.dependencies, g.producers, g.producer_outputs, hash(g), repr(g), str(g), g.fingerprint
        for _, a in g.artifacts.walk():
            a.fingerprint, hash(a), repr(a), a.model_dump_json()
            if a.producer_output is not None:
                a.producer_output.producer.fingerprint
                a.producer_output.fingerprint
        g == copy.copy(g)

    def way_partial(self, seed, parts):
        """Access in between definitions."""

        def pause(g):
            for _, a in g.artifacts.walk():
                a.fingerprint, hash(a)
            g.fingerprint, repr(g)

        return self.finish(self.fresh(seed if seed % 2 else 0, pause), parts)

    def way_reopened(self, seed, parts):
        """Define the first part, use the graph, and complete it later."""
        rng = random.Random(seed)
        spec = reorder(self.spec, seed if rng.random() < 0.5 else 0)
        cut = rng.randint(0, len(spec["nodes"]))
        g = lib.define({**spec, "nodes": spec["nodes"][:cut]}, self.code, self.backend())
        self.touch(g)
        if rng.random() < 0.5:
            try:
                g.snapshot()
            except ValueError:
                pass
        lib.extend(g, spec, self.code, spec["nodes"][cut:])
        return self.finish(g, parts)

    def way_cached(self, seed, parts):
        """The graph defined before, in spite of anything that happened to it or the data since."""
        key = canon([self.spec, self.code])
        if key not in self.graphs:
            return self.way_fresh(seed, parts)
        return self.finish(self.graphs[key], parts)

    def way_tag(self, seed, parts):
        """As recorded in the backend."""
        from arti import GraphSnapshot

        g = self.fresh()
        try:
            s = g.snapshot()
        except ValueError as e:
            return fingerprints(g, self.spec), str(e)
        s.tag("t", overwrite=True)
        b = g.backend
        if self.plan["backend"] == "sim":
            from sim import backend as sb

            srv = sb.server(b.server_name)
            srv.restart()
            b = sb.SimBackend(server_name=b.server_name)
        t = GraphSnapshot.from_tag(self.spec["name"], "t", connectable=b)
        if t.id != s.id or t.fingerprint != s.fingerprint:
            self.violate("unstable_id", f"snapshot {s.id} ({s.fingerprint}) is {t.id} ({t.fingerprint}) when looked up by its tag")
        return self.finish(t.graph, parts, t)

    def way_built(self, seed, parts):
        """Building changes neither the graph nor the raw data."""
        g = self.fresh()
        try:
            s = g.snapshot()
        except ValueError as e:
            return fingerprints(g, self.spec), str(e)
        try:
            s.build()
        except Exception:
            pass  # contents here are no valid data
        return self.finish(g, parts)

    # other processes
    def ask(self, spec, parts, **kw):
        self.stats["peer"] += 1
        w = self.w
        w.event("peer", "observe")
        res = peer.call({"cmd": "observe", "spec": spec, "code": self.code, "parts": parts, **kw,
                         "objs": {k: base64.b64encode(v).decode() for k, v in self.store.objs().items()} if self.plan["gcs"] else None})
        if "fail" in res:
            self.violate("unexpected_error", f"another process failed: {res['fail'][-300:]}", tb=res["fail"][-2000:])
        return res

    def way_peer(self, seed, parts):
        r = self.ask(self.spec, parts)
        return r["fps"], r["err"]

    def way_peer_order(self, seed, parts):
        r = self.ask(reorder(self.spec, seed or 1), parts)
        return r["fps"], r["err"]

    def picklable(self):
        return lib.define(self.spec, self.code)

    def way_to_peer(self, seed, parts):
        g = self.picklable()
        if seed % 2:
            self.touch(g)
        r = self.ask(self.spec, parts, pickled=base64.b64encode(pickle.dumps(g)).decode())
        return r["fps"], r["err"]

    def way_from_peer(self, seed, parts):
        r = self.ask(self.spec, parts, want_pickle=True)
        return self.finish(pickle.loads(base64.b64decode(r["pickle"])), parts)

    # -- modified copies -----------------------------------------------------------------------
    def op_updates(self, op):
        """A modified copy has the fingerprint of its new contents."""
        rng = random.Random(op["seed"])
        self.w.begin_op("updates")
        from arti import Fingerprint, StoragePartitionSnapshot
        from arti.storage.local import LocalFile, LocalFilePartition
        from arti.versions import SemVer, String

        cases = [
            (lambda x: SemVer(major=x, minor=1, patch=2), "major", [0, 1, 2]),
            (lambda x: SemVer(major=0, minor=x, patch=2), "minor", [0, 1, 2]),
            (lambda x: String(value=x), "value", ["a", "b", ""]),
            (lambda x: LocalFile(path=x), "path", ["a/{input_fingerprint}", "b/{input_fingerprint}", "c"]),
            (lambda x: lib.Note(text=x), "text", ["a", "b"]),
            (lambda x: lib.SArt(format=lib.JSON(), storage=LocalFile(path=x)), None, ["a", "b"]),
            (lambda x: StoragePartitionSnapshot(content_fingerprint=Fingerprint.from_int(x), storage_partition=LocalFilePartition(path="p", storage=LocalFile(path="p"))),
             "content_fingerprint", [3, 4, -1]),
        ]
        for make, field, values in cases:
            a, b = rng.choice(values), rng.choice(values)
            fresh_b = make(b)
            x = make(a)
            if rng.random() < 0.8:
                x.fingerprint, hash(x)
            if field is None:
                y = x.model_copy(update={"storage": fresh_b.storage})
            else:
                y = x.model_copy(update={field: getattr(fresh_b, field)})
            if rng.random() < 0.3:
                y = pickle.loads(pickle.dumps(y))
            if y.fingerprint != fresh_b.fingerprint:
                self.violate("unstable_identity", f"a copy of {x!r} updated to {b!r} has fingerprint {y.fingerprint}, one created so {fresh_b.fingerprint}", way="updates")
            if x.fingerprint != make(a).fingerprint:
                self.violate("unstable_identity", f"{x!r} changed its fingerprint when copied", way="updates")
        self.w.end_op()

    def run(self):
        for i, op in enumerate(self.plan["ops"]):
            self.cur = i
            if self.spec is None and op["op"] in ("observe", "swap"):
                raise Discard()
            getattr(self, "op_" + op["op"])(op)


def run(plan):
    r = Run(plan)
    try:
        r.run()
    finally:
        r.w.end_op()
    return {"stats": r.stats}
