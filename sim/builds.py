"""Workload "builds": histories of edits, builds, snapshots, tags, redeployments, restarts and faults
against one deployment, refined against the pure model in `sim.lib`.
"""
from __future__ import annotations

import json
import os
import random
import re
import traceback
import unicodedata
from datetime import date, timedelta

from sim import core, fs, gcs, lib, store
from sim.core import Discard, SimCrash, canon
from sim.lib import KEYS, OPS, POISON, box_get, evaluate, raw_path, read_key, shape_of

ROOTS = ["root", "/proc/self/cwd/root", "root", "ro ot/[a]*?"]

# ==================================================================================================
# Plans
# ==================================================================================================
PROFILES = {
    # weights of ops, probability of faults, ...
    "plain": dict(faults=0.0, oob=0.0, invalid=0.0, prodfail=0.0, restart=0.08, n=(6, 14)),
    "memo": dict(faults=0.0, oob=0.0, invalid=0.0, prodfail=0.03, restart=0.15, n=(8, 16), code=0.2, focus=0.5),
    "faults": dict(faults=0.6, oob=0.0, invalid=0.05, prodfail=0.15, restart=0.08, n=(5, 12)),
    "prodfail": dict(faults=0.1, oob=0.0, invalid=0.05, prodfail=0.6, restart=0.08, n=(4, 10)),
    "crash": dict(faults=0.75, crashy=True, oob=0.0, invalid=0.0, prodfail=0.05, restart=0.1, n=(4, 10)),
    "validate": dict(faults=0.15, oob=0.0, invalid=0.45, prodfail=0.1, restart=0.1, n=(6, 12)),
    "snaps": dict(faults=0.05, oob=0.35, invalid=0.02, prodfail=0.02, restart=0.03, n=(7, 14), snaps=3.0),
    "tags": dict(faults=0.25, oob=0.05, invalid=0.02, prodfail=0.05, restart=0.12, n=(8, 16), snaps=2.0, tags=5.0, sim=0.8),
    "gcs": dict(faults=0.05, oob=0.15, invalid=0.03, prodfail=0.03, restart=0.12, n=(6, 13), gcs=True, snaps=1.5),
    "gcsfaults": dict(faults=0.6, oob=0.05, invalid=0.05, prodfail=0.1, restart=0.1, n=(5, 11), gcs=True),
    # outputs' bytes differ from one execution to the next (equal values)
    "noise": dict(faults=0.7, oob=0.0, invalid=0.0, prodfail=0.2, restart=0.08, n=(6, 12), noise=True, snaps=1.5, sim=0.7),
    # another machine builds the same graph over the same files
    "peers": dict(faults=0.05, oob=0.0, invalid=0.04, prodfail=0.03, restart=0.15, n=(7, 14), code=0.15, other=1.0),
    "hygiene": dict(faults=0.8, oob=0.1, invalid=0.1, prodfail=0.2, restart=0.02, n=(4, 10), sim=1.0),
}

FS_FAULTS = {
    "fs.open_w": ["ENOSPC", "EACCES", "EMFILE", "EIO", "EROFS"],
    "fs.open_r": ["EACCES", "EMFILE", "EIO", "ENOMEM", "EPERM", "ETIMEDOUT", "ESTALE"],
    "fs.write": ["ENOSPC", "EIO", "EDQUOT", "short", "torn", "ENOSPC"],
    "fs.read": ["EIO", "short"],
    "fs.close": ["EIO", "ENOSPC"],
    "fs.list": ["EACCES", "EMFILE", "EIO", "EPERM", "ETIMEDOUT", "ESTALE"],
    "fs.stat": ["EIO", "EACCES", "ESTALE", "ETIMEDOUT"],
    "fs.lstat": ["EIO", "EACCES", "ESTALE", "EPERM", "ETIMEDOUT"],
    "fs.mkdir": ["ENOSPC", "EACCES", "EROFS"],
    "fs.replace": ["ENOSPC", "EIO", "EACCES", "EBUSY"],
    "fs.unlink": ["EIO", "EACCES"],
}


def gen_fault(rng, crashy=False, sim=False):
    r = rng.random()
    if r < (0.5 if crashy else 0.2):  # crash or interrupt at an arbitrary environment interaction
        f = {"on": rng.choice(["any", "fs", "fs.write", "fs.replace", "fs.mkdir", "fs.open_w", "prod", "any"]),
             "kind": rng.choice(["crash", "crash", "interrupt"])}
        if sim and rng.random() < 0.4:
            f["on"] = "be"
        f["n"] = 1 + min(int(rng.expovariate(1 / (18 if f["on"] in ("any", "fs") else 3))), 160)
        if f["kind"] == "crash" and rng.random() < 0.4:
            f["when"] = "after"
        return f
    if r < (0.75 if crashy else 0.35):  # at an arbitrary line of the library
        return {"on": "line", "n": 1 + int(rng.random() ** 2 * 3500), "kind": rng.choice(["crash", "interrupt"])}
    if sim and r < 0.6:
        return {"on": rng.choice(["be", "be", "be.connect", "be.close", "be.write_artifact_partitions",
                                  "be.write_snapshot_partitions", "be.read_artifact_partitions", "be.write_snapshot",
                                  "be.read_snapshot_partitions"]),
                "n": 1 + int(rng.expovariate(1 / 4)), "kind": "error",
                **({"when": "after"} if rng.random() < 0.4 else {})}
    on = rng.choice(list(FS_FAULTS) + ["fs.write", "fs.open_w", "fs.list", "fs.read"])
    f = {"on": on, "n": 1 + int(rng.expovariate(1 / 3)), "kind": rng.choice(FS_FAULTS[on]), "frac": round(rng.random(), 2)}
    if rng.random() < 0.15:
        f["sticky"] = rng.randint(1, 30)  # the condition lasts (eg: disk full)
    return f


def gen_noise_fault(rng, sim):
    """One that leaves no file incomplete (see K1), wherever it strikes."""
    r = rng.random()
    if sim and r < 0.6:
        f = {"on": rng.choice(["be", "be.write_artifact_partitions", "be.write_snapshot_partitions", "be.read_artifact_partitions"]),
             "n": 1 + int(rng.expovariate(1 / 4)), "kind": rng.choice(["error", "error", "crash", "interrupt"])}
        if f["kind"] != "interrupt" and rng.random() < 0.4:
            f["when"] = "after"
        return f
    if r < 0.8:
        return {"on": "fs.open_r", "n": 1 + int(rng.expovariate(1 / 6)), "kind": rng.choice(FS_FAULTS["fs.open_r"])}
    return {"on": rng.choice(["fs.open_r", "fs.list"]), "n": 1 + int(rng.expovariate(1 / 6)), "kind": "crash"}


def noisy(spec):
    """Outputs of which the bytes may vary without this being anyone's input."""
    ok = {}
    used = {i for n in spec["nodes"] if n["kind"] == "prod" for i in n["ins"]}
    for n in spec["nodes"]:
        if n["kind"] == "prod":
            pos = n.get("pos") or range(len(n["outs"]))
            for j, key, store in zip(pos, n["outs"], n["stores"]):
                at = (n["cls"], j)
                ok[at] = ok.get(at, True) and key not in used and n["oshapes"][0] != "s" and "lit" not in n["stores"]
    return {at for at, fine in ok.items() if fine}


def gen_spec(rng, *, gcs=False, partitioned=None, max_prods=5, lits=True, name="g", dups=True, focus=False):
    root = rng.choice(["root", "ro ot/[a]*", "q#1/a%20b"] if gcs else ROOTS)
    spec = {"name": name, "root": root, "tags": {"t": "1"} if rng.random() < 0.15 else {}, "nodes": []}
    P = rng.choice("kkdm") if partitioned is None else partitioned
    avail = {"s": [], P: []}
    kshape = avail.setdefault("k", [])
    pref = rng.choice(["", "", "n.", "a.b."])

    def store():
        if gcs:
            return "gcs" if gcs is True else rng.choice(["gcs", "file"])
        return "lit" if lits and rng.random() < 0.2 else "file"

    n_s, n_p = rng.randint(1, 3), rng.randint(0, 2)
    if rng.random() < 0.25:
        n_p = 0
    if focus:
        n_s, n_p = rng.randint(1, 2), rng.randint(1, 2)
    for i in range(n_s):
        key = f"{pref}r{i}"
        if lits and not gcs and i > 0 and rng.random() < 0.12:
            spec["nodes"].append({"kind": "raw", "key": key, "shape": "s", "fmt": "json", "store": "lit", "value": rng.randint(-3, 3)})
        else:
            spec["nodes"].append({"kind": "raw", "key": key, "shape": "s", "fmt": rng.choice(["json", "json", "pickle"]),
                                  "store": store() if gcs else "file", "tpl": rng.randrange(len(lib.RAW_TEMPLATES["s"]))})
        avail["s"].append(key)
    for i in range(n_p):
        key = f"{pref}p{i}"
        spec["nodes"].append({"kind": "raw", "key": key, "shape": P, "fmt": rng.choice(["json", "pickle"]),
                              "store": store() if gcs else "file", "tpl": rng.randrange(len(lib.RAW_TEMPLATES[P]))})
        avail[P].append(key)
    seen = set()
    want = rng.randint(1, max_prods)
    tries = 0
    while sum(n["kind"] == "prod" for n in spec["nodes"]) < want and tries < 60:
        tries += 1
        opname = rng.choice(list(OPS) if not focus or rng.random() < 0.3 else ["pfilter", "pzip", "pgroup", "pwin", "pbroad", "pall", "pmap2", "psum"])
        op = OPS[opname]
        psel = rng.choice([x for x in (P, "k") if True])
        ishapes = op.ins.replace("P", psel)
        oshapes = op.outs.replace("P", psel)
        if any(not avail.get(s) for s in ishapes):
            continue
        # Prefer recent artifacts, to get depth; repeats are fine.
        ins = []
        for s in ishapes:
            pool = avail[s]
            ins.append(pool[-1] if rng.random() < 0.5 else rng.choice(pool))
        # The same class may be used by several nodes of the same operation.
        cls = opname.capitalize() + (psel if "P" in op.ins else "") + rng.choice("AAB")
        if (cls, tuple(ins)) in seen:
            continue
        seen.add((cls, tuple(ins)))
        i = sum(n["kind"] == "prod" for n in spec["nodes"])
        outs = [f"{pref}x{i}{chr(97 + j)}" for j in range(len(oshapes))]
        if len(outs) > 1 and rng.random() < 0.2:
            outs[rng.randrange(len(outs))] = None
        stores = [store() for _ in outs]
        fmt = rng.choice(["json", "json", "pickle"])
        spec["nodes"].append({
            "kind": "prod", "op": opname, "cls": cls, "ins": ins, "ishapes": ishapes, "outs": outs, "oshapes": oshapes,
            "fmt": "json" if "lit" in stores else fmt, "stores": stores,
            "tpl": rng.randrange(len(lib.OUT_TEMPLATES)), "style": rng.choice(["dec", "cls", "inst"]),
        })
        if dups and rng.random() < 0.12:
            # The same outputs again under other keys, or by an equal producer.
            node = spec["nodes"][-1]
            extra = [j for j in range(len(oshapes)) if rng.random() < 0.7] or [0]
            node["pos"] = [*range(len(oshapes)), *extra]
            node["again"] = rng.random() < 0.5
            node["outs"] += [f"{pref}y{i}{chr(97 + j)}" for j in extra]
            node["oshapes"] += "".join(oshapes[j] for j in extra)
            node["stores"] += [node["stores"][j] for j in extra]
            if rng.random() < 0.3:
                node["outs"][rng.randrange(len(oshapes))] = None
            outs, oshapes = node["outs"], node["oshapes"]
        for k, s in zip(outs, oshapes):
            if k is not None:
                avail.setdefault(s, []).append(k)
    # Class styles must agree for one class name (it is the same code).
    style = {}
    for n in spec["nodes"]:
        if n["kind"] == "prod":
            n["style"] = style.setdefault(n["cls"], n["style"])
    return spec


DATES = ["2023-12-31", "2024-01-01", "2024-02-29", "1999-11-11"]


def gen_key(rng, shape):
    if shape == "s":
        return []
    k = rng.choice([-3, -1, 0, 1, 2, 3, 4, 5, 12])
    d = rng.choice(DATES)
    return {"k": [k], "d": [d], "m": [d, k % 3]}[shape]


def gen_value(rng, shape, key):
    v = rng.choice([0, 1, 1, 2, 3, 5, 10, 13, -7, 100, rng.randint(-50, 50)])
    if shape == "s":
        return v
    base = dict(zip(KEYS[shape], key))
    return [{**base, "v": v}] + ([{**base, "v": rng.randint(0, 9)}] if rng.random() < 0.3 else []) if rng.random() < 0.95 else []


def raws_of(spec):
    return [n for n in spec["nodes"] if n["kind"] == "raw" and n["store"] != "lit"]


class _Gen:
    def __init__(self, rng, spec):
        self.rng, self.spec = rng, spec
        self.keyless = rng.random() < 0.35  # rows without the partition's fields: partitions may have equal contents
        self.hist = {}  # (key, pk) -> values so far
        self.shapes = shape_of(spec)

    def value(self, shape, pk):
        val = gen_value(self.rng, shape, pk)
        return [{"v": r["v"]} for r in val] if self.keyless and shape != "s" else val

    def edit(self, node=None):
        rng = self.rng
        node = node or rng.choice(raws_of(self.spec))
        shape = node["shape"]
        known = [k for k in self.hist if k[0] == node["key"]]
        if known and rng.random() < 0.7:
            pk = list(json.loads(rng.choice(known)[1]))
        else:
            pk = gen_key(rng, shape)
        hk = (node["key"], json.dumps(pk))
        past = self.hist.setdefault(hk, [])
        r = rng.random()
        if past and r < 0.4:
            val = rng.choice(past)  # revert
        elif r < 0.55 and shape == "s":
            others = [v for (k, p), vs in self.hist.items() if p == "[]" for v in vs[-1:]]
            val = rng.choice(others) if others else self.value(shape, pk)  # equal to another input
        elif shape != "s" and r < 0.55 and self.keyless:
            others = [vs[-1] for (k, p), vs in self.hist.items() if p != "[]" and vs]
            val = rng.choice(others) if others else self.value(shape, pk)  # equal to another partition
        elif shape != "s" and r < 0.65:
            val = None  # remove the partition
        else:
            val = self.value(shape, pk)
        if val is not None:
            past.append(val)
        return {"op": "raw", "key": node["key"], "pk": pk, "val": val, "via": "api" if rng.random() < 0.3 else "ext"}


def bump(rng, ver):
    r = rng.random()
    if ver[0] == "sem":
        _, a, b, c = ver
        if r < 0.35:
            return ["sem", a, b + 1, 0]
        if r < 0.5:
            return ["sem", a, b, c + 1]
        if r < 0.75:
            return ["sem", a + 1, 0, 0]
        if r < 0.9:
            return ["sem", max(0, a - 1), b, c]
        return ["str", rng.choice("uvw")]
    if r < 0.6:
        return ["str", rng.choice("uvw")]
    if r < 0.8:
        return ["sem", 1, 0, 0]
    return ["ts", f"202{rng.randint(0, 5)}-03-04T05:06:07+00:00"]


TAGS = ["a", "b", "v1", "V1", " v1", "v1 ", "v1\n", "\u00e9", "e\u0301", "", "a/b", "a:b", "b:a", "v1.0", "v1.0.0", "latest", "0", "None", "%s", "{}"]


def alike(t):
    return sorted({t.upper(), t.lower(), t.title(), t + " ", " " + t, t + "0", t[:-1] or "b", t + "/", "_" + t, unicodedata.normalize("NFD", t), t + "*",
                   t.replace("/", ":").replace("-", "_").replace(".", "_")} - {t})


NAMES = ["", "", ":a", "/a", " ", ".1", "\n"]  # other graphs' names (on top of this one's)


def generate(seed, profile, **over):
    rng = random.Random(f"builds:{profile}:{seed}")
    pr = {**PROFILES[profile], **over}
    sim = rng.random() < pr.get("sim", 0.4)
    use_gcs = pr.get("gcs") and rng.choice([True, "mix"])
    focus = rng.random() < pr.get("focus", 0)  # on which partitions depend on which
    spec = gen_spec(rng, max_prods=rng.choice([1, 2, 3, 5, 7]), gcs=use_gcs, lits=not pr.get("nolits"), focus=focus)
    while not raws_of(spec) or not any(n["kind"] == "prod" for n in spec["nodes"]):
        spec = gen_spec(rng, gcs=use_gcs, focus=focus)
    while pr.get("noise") and not any(n.get("op") == "pmap2" and noisy({"nodes": [*spec["nodes"]]}) & {(n["cls"], 0), (n["cls"], 1)} for n in spec["nodes"]):
        spec = gen_spec(rng, partitioned=rng.choice("kkdm"), lits=False, max_prods=3)
    g = _Gen(rng, spec)
    classes = sorted({n["cls"] for n in spec["nodes"] if n["kind"] == "prod"})
    code = {c: rng.choice([["sem", 0, 0, 1], ["sem", 1, 0, 0], ["sem", 1, 2, 3], ["str", "u"], ["sem", 0, 1, 0]]) for c in classes}
    plan = {"workload": "builds", "profile": profile, "seed": seed, "backend": "sim" if sim else "mem", "spec": spec,
            "code": dict(code), "ops": [], "shuffle": rng.random() < 0.8, **store.ways(seed, True)}
    if pr.get("noise"):
        plan["noise"] = True
    ops = plan["ops"]
    for node in raws_of(spec):
        for _ in range(1 if node["shape"] == "s" else rng.randint(1, 4)):
            e = g.edit(node)
            e["via"] = "ext"
            if e["val"] is None:
                e["val"] = g.value(node["shape"], e["pk"])
                g.hist[(node["key"], json.dumps(e["pk"]))].append(e["val"])
            ops.append(e)
    parts = [m for m in raws_of(spec) if m["shape"] != "s"]
    wrng = random.Random(f"wide:{profile}:{seed}")
    if parts and wrng.random() < 0.04 and not pr.get("noise"):
        # Many partitions.
        m = wrng.choice(parts)
        for i in range(wrng.choice([10, 20, 40])):
            d = (date(2021, 1, 1) + timedelta(days=i)).isoformat()
            pk = {"k": [20 + i], "d": [d], "m": [d, i % 3]}[m["shape"]]
            ops.append({"op": "raw", "key": m["key"], "pk": pk, "val": [{**dict(zip(KEYS[m["shape"]], pk)), "v": i}], "via": "ext"})
    if rng.random() < 0.05:
        ops.pop(rng.randrange(len(ops)))  # start with missing raw data
    handles = []
    trng = random.Random(f"tags:{profile}:{seed}")
    tags = trng.sample(TAGS, 3)
    unknown = "z"
    if trng.random() < 0.5:
        # Tags that are alike.
        t = trng.choice(["v1", "a", "a/b", "V1.0", "é", "prod-1", "1"])
        tags = [t, *trng.sample(alike(t), 2)]
        unknown = trng.choice([a for a in alike(t) if a not in tags])
    others = [spec["name"] + x for x in trng.sample(NAMES, 2)]
    n = rng.randint(*pr["n"])
    W = {
        "edit": 5.0, "build": 5.0, "snap": 0.8 * pr.get("snaps", 1), "bsnap": 0.7 * pr.get("snaps", 1),
        "rsnap": 0.7 * pr.get("snaps", 1), "read": 1.0, "code": 8 * pr.get("code", 0.08), "restart": 12 * pr["restart"],
        "lose": 3 * pr["restart"], "debris": 0.4, "tag": 0.25 * pr.get("tags", 1), "rtag": 0.25 * pr.get("tags", 1),
        "invalid": 6 * pr["invalid"], "rawread": 0.5, "graph": 0.3, "pickle": 0.2, "copy": 0.2,
    }
    if pr.get("noise"):
        W |= {"edit": 1.5, "build": 6.0, "bsnap": 3.0}
    if "other" in pr:
        W["other"] = 5 * pr["other"]
    names, weights = list(W), list(W.values())

    def faults(p):
        if rng.random() >= p:
            return []
        k = 1 if rng.random() < 0.8 else 2
        if pr.get("noise"):
            return [gen_noise_fault(rng, sim) for _ in range(k)]
        if use_gcs:
            from sim.storage import gen_gcs_fault

            return [gen_gcs_fault(rng) if use_gcs is True and rng.random() < 0.8 or rng.random() < 0.5 else gen_fault(rng, rng.random() < 0.3, sim) for _ in range(k)]
        return [gen_fault(rng, pr.get("crashy", False), sim) for _ in range(k)]

    if focus:
        for _ in range(rng.randint(2, 5)):
            ops.append({"op": "build", "via": rng.choice(["graph", "snap", "exec"]), "reads": rng.random() < 0.7, "faults": []})
            if rng.random() < 0.15:
                ops.append({"op": "restart"})
            e = g.edit(rng.choice(parts))
            e["via"] = "ext"
            ops.append(e)
        n //= 2
    for _ in range(n):
        kind = rng.choices(names, weights)[0]
        if kind == "edit":
            e = g.edit()
            if e["via"] == "api" and e["val"] is not None:
                e["faults"] = faults(pr["faults"] * 0.5)
            ops.append(e)
            if rng.random() < 0.2:  # swap two scalar inputs
                ss = [m["key"] for m in raws_of(spec) if m["shape"] == "s"]
                if len(ss) > 1:
                    ops.append({"op": "swap", "keys": rng.sample(ss, 2)})
        elif kind in ("build", "bsnap"):
            op = {"op": "build", "via": rng.choice(["graph", "snap", "exec"]), "reads": rng.random() < 0.7} if kind == "build" else {"op": "bsnap", "h": rng.choice(handles) if handles else 0}
            if kind == "bsnap" and not handles:
                continue
            op["faults"] = faults(pr["faults"])
            if rng.random() < pr["prodfail"]:
                op["faults"].append({"on": rng.choice(["prod.build", "prod.build", "prod.map", "prod.validate"]),
                                     "n": 1 + int(rng.expovariate(0.5)), "kind": rng.choice(["error", "arity", "empty"]), "frac": round(rng.random(), 2)})
            if rng.random() < pr["oob"]:
                e = g.edit()
                e["via"] = "ext"
                op["oob"] = {"n": 1 + int(rng.expovariate(1 / 25)), "edit": e}
            ops.append(op)
        elif kind == "snap":
            h = len(handles)
            handles.append(h)
            ops.append({"op": "snap", "h": h, "faults": faults(pr["faults"] * 0.4)})
        elif kind == "rsnap":
            if handles:
                ops.append({"op": "rsnap", "h": rng.choice(handles), "faults": faults(pr["faults"] * 0.3), "raws": rng.random() < 0.4})
        elif kind == "read":
            ops.append({"op": "read", "key": rng.choice(sorted(g.shapes)), "faults": faults(pr["faults"] * 0.3),
                        "conn": rng.random() < 0.3})
        elif kind == "rawread":
            ops.append({"op": "read", "key": rng.choice(raws_of(spec))["key"], "faults": faults(pr["faults"] * 0.3),
                        "conn": rng.random() < 0.3})
        elif kind == "code":
            c = rng.choice(classes)
            code[c] = bump(rng, code[c]) if rng.random() < 0.8 else plan["code"][c]
            ops.append({"op": "code", "cls": c, "ver": code[c]})
        elif kind == "restart":
            ops.append({"op": "restart"})
        elif kind == "lose":
            ops.append({"op": "restart", "lose": rng.random() < 0.5, "fresh": True})
        elif kind == "debris":
            ops.append({"op": "debris", "seed": rng.randrange(1 << 30)})
        elif kind == "tag":
            if handles:
                ops.append({"op": "tag", "h": rng.choice(handles), "tag": rng.choice(tags), "overwrite": rng.random() < 0.5,
                            "conn": rng.random() < 0.3, "faults": faults(pr["faults"] * 0.5)})
            elif rng.random() < 0.8:
                h = len(handles)
                handles.append(h)
                ops.append({"op": "snap", "h": h, "faults": []})
                ops.append({"op": "tag", "h": h, "tag": rng.choice(tags), "overwrite": rng.random() < 0.5, "faults": []})
                if rng.random() < 0.4:
                    ops.append({"op": "otag", "name": rng.choice(others), "tag": rng.choice(tags), "value": rng.randint(0, 3), "overwrite": rng.random() < 0.5})
        elif kind == "rtag":
            ops.append({"op": "rtag", "tag": rng.choice([*tags, unknown]), "h": trng.randrange(3), "conn": rng.random() < 0.3, "faults": faults(pr["faults"] * 0.3)})
        elif kind == "invalid":
            ops.append({"op": "invalid", "cls": rng.choice(classes),
                        "rule": None if rng.random() < 0.35 else [rng.choice([2, 3, 5]), rng.randrange(2)]})
        elif kind == "graph":
            ops.append({"op": "graph"})
        elif kind == "pickle":
            ops.append({"op": "pickle"})
        elif kind == "copy":
            ops.append({"op": "copy"})
        elif kind == "other":
            ops.append({"op": "other"})
    return plan


# ==================================================================================================
# Runner
# ==================================================================================================
def own_executor():
    """(an executor, the snapshots it built)"""
    from arti.executors.local import LocalExecutor

    used: list = []

    class Own(LocalExecutor):
        def build(self, snapshot):
            used.append(snapshot)
            return super().build(snapshot)

    return Own(), used


class Snap:
    """A snapshot handle with the model's view of it."""

    def __init__(self, obj, spec, code, raws):
        self.obj, self.spec, self.code = obj, spec, code
        self.raws = raws  # possible raw states (one, unless changed while snapshotting)

    @property
    def certain(self):
        return len(self.raws) == 1


def graph_ident(spec, code):
    used = {n["cls"] for n in spec["nodes"] if n["kind"] == "prod"}
    return canon([spec, {c: code[c] for c in sorted(used)}])


def compat_ident(spec, code):
    used = {n["cls"] for n in spec["nodes"] if n["kind"] == "prod"}
    return canon([spec, {c: lib.ident_of(code[c]) for c in sorted(used)}])


def raw_ident(raw):
    return json.dumps(sorted((k, sorted((canon(p), canon(v)) for p, v in d.items())) for k, d in raw.items()))


class Lineage:
    """What one backend's state may know."""

    def __init__(self):
        self.lit = {}  # (artifact id, work key) -> "yes"/"maybe"
        self.linked = {}  # snapshot identity -> True (built), None (maybe partly)
        self.compat = set()  # as `linked`, for equally defined graphs (compatible producer versions)


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.w = core.world()
        self.spec = plan["spec"]
        self.code = {k: list(v) for k, v in plan["code"].items()}
        self.raw = {n["key"]: {} for n in raws_of(self.spec)}
        self.torn_raw = set()
        self.stores = {"file": store.Local()}
        if any("gcs" in (n.get("store"), *n.get("stores", ())) for n in self.spec["nodes"]):
            gcs.reset()
            self.stores["gcs"] = store.Bucket()
        self.nodes = {n["key"]: n for n in self.spec["nodes"] if n["kind"] == "raw"}
        self.shapes = shape_of(self.spec)
        self.disk = {}  # (artifact id, work key, pk) -> "yes"/"maybe": outputs in files
        self.allowed = {}  # artifact key -> {canonical values ever validly produced}
        self.published = {}
        self.lineage = Lineage()
        self.backend_n = 0
        self.handles = {}
        self.tags = {}  # tag -> [possible Snap or None]
        self.backend = None
        self.graph = None
        self.stats = {"builds": 0, "builds_ok": 0, "builds_failed": 0, "crashes": 0, "calls": 0, "noop": 0, "reads": 0, "edits": 0}
        self.faulted = False  # any fault so far
        self.findings = []
        lib.NOISE = noisy(self.spec) if plan.get("noise") else set()
        self.new_backend()

    # -- helpers -------------------------------------------------------------------------------
    def new_backend(self):
        from sim import backend as sb

        self.lineage = Lineage()
        self.handles = {}
        self.tags = {}
        self.backend_n += 1
        if self.plan["backend"] == "sim":
            self.backend = sb.SimBackend(server_name=f"s{self.backend_n}")
        else:
            from arti.backends.memory import MemoryBackend

            self.backend = MemoryBackend()
        self.graph = None

    def ctx(self, **kw):
        return {"op": self.cur, "faulted": self.faulted, **kw}

    def violate(self, kind, msg, **details):
        self.w.violate(kind, msg, **self.ctx(**details))

    def get_graph(self):
        if self.graph is None:
            self.graph = lib.define(self.spec, self.code, self.backend)
        return self.graph

    def _out_id(self, node, i):
        # Outputs are stored per artifact key (part of every output path).
        return node["outs"][i]

    def known(self, node, i, work):
        """Whether this output of `work` is complete and known or discoverable: "yes", "maybe" or None."""
        k = (self._out_id(node, i), work.key, canon(work.pk))
        if node["stores"][i] == "lit":
            return self.lineage.lit.get(k)
        return self.disk.get(k)

    def set_known(self, node, i, work, how):
        k = (self._out_id(node, i), work.key, canon(work.pk))
        d = self.lineage.lit if node["stores"][i] == "lit" else self.disk
        if how == "maybe" and d.get(k) == "yes":
            return
        d[k] = how

    def status(self, work):
        node = work.node
        states = [self.known(node, i, work) for i, k in enumerate(node["outs"]) if k is not None]
        if all(s == "yes" for s in states):
            return "yes"
        if any(s is None for s in states):
            return "no"
        return "maybe"

    # -- raw data ------------------------------------------------------------------------------
    def edit_raw(self, e):
        node = self.nodes[e["key"]]
        pk, val = tuple(e["pk"]), e["val"]
        path = raw_path(self.spec["root"], node, pk)
        st = self.stores[node["store"]]
        if val is None:
            st.delete(path)
        else:
            st.put(path, lib.dumps(node["fmt"], val))
        if val is None:
            self.raw[e["key"]].pop(pk, None)
        else:
            self.raw[e["key"]][pk] = val
        self.stats["edits"] += 1
        self.w.log("EDIT", e["key"], list(pk), val)

    def raw_copy(self):
        return {k: dict(v) for k, v in self.raw.items()}

    # -- running an operation under faults -----------------------------------------------------
    def do(self, label, fn, op):
        """Run fn. Returns (outcome, value): "ok", "error" (raised), "interrupt" or "crash"."""
        self.settle_crash()
        w = self.w
        w.begin_op(label, op.get("faults", ()))
        oob = op.get("oob")
        self.oob_fired = False
        listener = None
        if oob:
            count = [0]

            def listener(name, detail):
                count[0] += 1
                if count[0] == oob["n"]:
                    self.oob_fired = True
                    self.edit_raw(oob["edit"])

            w.listeners.append(listener)
        calls0 = len(lib.CALLS)
        err = None
        try:
            value = fn()
            outcome = "ok"
        except SimCrash:
            outcome, value = "crash", None
        except KeyboardInterrupt as e:
            outcome, value, err = "interrupt", e, e
        except core.Hang:
            raise
        except core.Violation:
            raise
        except BaseException as e:
            outcome, value, err = "error", e, e
        finally:
            w.end_op()
            if listener:
                w.listeners.remove(listener)
        node = w.node
        fired = list(node.fired)
        if fired:
            self.faulted = True
        self.fired = fired
        if node.dead:
            outcome = "crash"
        # Resources: checked while any exception (and the frames it holds) is still alive.
        if outcome != "crash":
            leaked = sorted(str(v) for v in w.open_files.values())
            if leaked:
                self.violate("leak_file", f"{label} left files open: {leaked}", outcome=outcome, fired=fired)
            if self.plan["backend"] == "sim":
                from sim import backend as sb

                srv = sb.server(self.backend.server_name)
                if srv.open != self.expect_open:
                    self.violate("leak_conn", f"{label} left {srv.open - self.expect_open} connections open", outcome=outcome, fired=fired)
        self.calls = lib.CALLS[calls0:]
        self.stats["calls"] += len(self.calls)
        if outcome == "error" and not isinstance(err, Exception):
            raise err
        w.log("OUTCOME", label, outcome, type(err).__name__ if err else "")
        if err is not None:
            self.err_text = f"{type(err).__name__}: {err}"
            tb = "".join(traceback.format_exception(err)[-6:])
            self.err_tb = tb
            err.__traceback__ = None
            c = err
            while c is not None:
                c.__traceback__ = None
                c = c.__cause__ or c.__context__
        else:
            self.err_text = ""
        if outcome == "crash":
            # The restart follows once what happened until here has been judged.
            self.stats["crashes"] += 1
            self.needs_restart = True
        elif getattr(__import__("arti").context, "graph", None) is not None:
            self.violate("context_leak", f"{label} left a graph definition open")
        return outcome, value

    expect_open = 0
    needs_restart = False

    def settle_crash(self):
        if self.needs_restart:
            self.needs_restart = False
            self.restart()

    def restart(self, fresh=False, lose=False):
        """A new process: only files and an external backend's state survive."""
        w = self.w
        w.main = core.Node("main")
        w.node = w.main
        w.open_files.clear()
        fs._fds.clear()
        self.graph = None
        persistent = self.plan["backend"] == "sim" and not fresh
        if persistent:
            from sim import backend as sb

            srv = sb.server(self.backend.server_name)
            srv.open = 0
            srv.restart()
            self.backend = sb.SimBackend(server_name=self.backend.server_name)
            # Handles are lost with the process; the snapshots can be looked up again.
            self.refetch()
        else:
            self.new_backend()
        if lose:
            for st, p, full, _ in self.stored():
                self.stores[st].delete(full)
            self.disk.clear()
        w.log("RESTART", fresh, lose)

    def refetch(self):
        old = self.handles
        self.handles = {}
        for h, s in old.items():
            try:
                with self.backend.connect() as c:
                    obj = c.read_snapshot(s.name, s.fingerprint)
                    again = c.read_graph(s.name, obj.graph.fingerprint)
            except KeyError as e:
                self.violate("lost_snapshot", f"a snapshot that was taken is not known after a restart: {e!r}", props=["C07", "C08"])
            if obj.id != s.obj.id or obj.fingerprint != s.fingerprint or again.fingerprint != obj.graph.fingerprint:
                self.violate("wrong_snapshot", f"looking up snapshot {s.obj.id} of {s.name} gave {obj.id} (graph {again.fingerprint})", props=["C07", "C08"])
            n = Snap(obj, s.spec, s.code, s.raws)
            n.name, n.fingerprint = s.name, s.fingerprint
            self.handles[h] = n

    # -- the reference model -------------------------------------------------------------------
    def model(self, spec, code, raw):
        return evaluate(spec, code, raw)

    def build_expect(self, works):
        """(expected failure reasons, must run, may run) given what is known."""
        must, may, reasons = [], [], []
        poisoned = set()
        for here in works:
            for wk in here:
                if wk.missing:
                    reasons.append("missing")
                    continue
                st = self.status(wk)
                if st == "yes":
                    continue
                if not lib.is_valid(wk.cls, wk.outs):
                    reasons.append("invalid")
                if st == "no":
                    must.append(wk)
                else:
                    may.append(wk)
        return reasons, must, may

    def check_calls(self, calls, works, complete, ctx):
        """Executions must be exactly (complete) or at most (failed build) the work not yet done."""
        allw = [wk for here in works for wk in here if not wk.missing]
        pool: dict = {}
        for wk in allw:
            pool.setdefault(wk.run, []).append(wk)
        used: dict = {}
        done_now = set()
        for c in calls:
            if c not in pool:
                self.violate("wrong_inputs", f"{c[0]} ran on inputs {c[2]} ({c[1]}), which are not those of the snapshot", **ctx)
            used[c] = used.get(c, 0) + 1
            # Upstream work has to be complete by now.
            cands = pool[c]
            if not any(self.upstream_ready(wk, works, done_now) for wk in cands):
                self.violate("order", f"{c[0]} ran before everything upstream of it was complete", **ctx)
            done_now.add(c)
        for run, wks in pool.items():
            n = used.get(run, 0)
            must = sum(self.status(wk) == "no" for wk in wks)
            may = sum(self.status(wk) != "yes" for wk in wks)
            if n > may:
                self.violate("rerun", f"{run[0]} ran {n} times for inputs {run[2]} ({run[1]}), but only {may} of that work was not complete yet", **ctx)
            if complete and n < must:
                self.violate("not_rerun", f"{run[0]} ran {n} times for inputs {run[2]} ({run[1]}), but {must} of that work was never done", **ctx)

    def upstream_ready(self, wk, works, done_now):
        ups = set(wk.node["ins"])
        for here in works:
            for u in here:
                if ups & {k for k in u.node["outs"] if k}:
                    if u.missing or not (self.status(u) in ("yes", "maybe") or u.run in done_now):
                        return False
        return True

    def mark(self, works, calls, complete):
        ran = set(calls)
        for here in works:
            for wk in here:
                if wk.missing:
                    continue
                if complete or wk.run in ran:
                    for i, k in enumerate(wk.node["outs"]):
                        if k is not None:
                            self.set_known(wk.node, i, wk, "yes" if complete else "maybe")

    def note_allowed(self, works):
        for here in works:
            for wk in here:
                if wk.outs is None or not lib.is_valid(wk.cls, wk.outs):
                    continue
                for i, k in enumerate(wk.node["outs"]):
                    if k is not None:
                        self.allowed.setdefault(k, set()).add(canon(wk.outs[i]))

    def vals_at(self, snap, raw):
        return self.model(snap.spec, snap.code, raw)

    def set_linked(self, snap, raw, how):
        sid = self.snap_id(snap, raw)
        self.lineage.compat.add((compat_ident(snap.spec, snap.code), sid[1]))
        if how or self.lineage.linked.get(sid) is not True:
            self.lineage.linked[sid] = how

    def is_built(self, snap, raw):
        """True, None (maybe, or in part) or False."""
        sid = self.snap_id(snap, raw)
        if (compat_ident(snap.spec, snap.code), sid[1]) not in self.lineage.compat:
            return False
        return self.lineage.linked.get(sid)

    def snap_id(self, snap, raw):
        return (graph_ident(snap.spec, snap.code), raw_ident(raw))

    def check_reads(self, snap, raw, built, ctx, keys=None, annotate=True):
        """Read all artifacts through a snapshot. `built`: True, False or None (unknown)."""
        vals, _ = self.vals_at(snap, raw)
        for node in snap.spec["nodes"]:
            for key, shape in self.out_shapes(node):
                if keys is not None and key not in keys:
                    continue
                self.check_read(snap, vals, key, shape, built, ctx)

    def read_raws(self, snap, op=None):
        """Read the raw artifacts through a snapshot: what was captured, or an error."""
        raw = snap.raws[0]
        for node in snap.spec["nodes"]:
            if node["kind"] != "raw":
                continue
            key, shape = node["key"], node["shape"]
            lit = node["store"] == "lit"
            want = read_key(shape, {(): node["value"]} if lit else raw[key])
            before = self.raw_copy()
            outcome, got = self.do("read raw", lambda: self.read_art(snap, key, shape), op or {})
            if outcome == "crash":
                return False
            op = None
            ctx = {"outcome": outcome, "fired": self.fired, "err": self.err_text}
            if outcome == "ok":
                got_key = lib.take(shape, got)
                if got_key != want:
                    self.violate("wrong_result", f"raw {key} reads {got_key} through a snapshot of {want}", **ctx)
            elif outcome == "error" and not self.fired and (lit or (before[key] == raw[key] and self.raw[key] == raw[key])):
                self.violate("read_error", f"reading unchanged raw {key} through a snapshot raised {self.err_text}", **ctx)
        return True

    def out_shapes(self, node):
        if node["kind"] == "raw":
            return []
        return [(k, s) for k, s in zip(node["outs"], node["oshapes"]) if k is not None]

    def is_noisy(self, snap, key):
        if not lib.NOISE:
            return False
        node = next(n for n in snap.spec["nodes"] if n["kind"] == "prod" and key in n["outs"])
        i = node["outs"].index(key)
        return (node["cls"], (node.get("pos") or range(len(node["outs"])))[i]) in lib.NOISE

    def read_art(self, snap, key, shape, **kw):
        art = box_get(snap.obj.artifacts, key)
        self.stats["reads"] += 1
        return snap.obj.read(art, annotation=lib.PY[shape], **kw)

    def check_read(self, snap, vals, key, shape, built, ctx):
        try:
            got = self.read_art(snap, key, shape)
        except FileNotFoundError as e:
            if "No data" not in str(e):
                self.violate("read_error", f"reading {key} raised {e!r}", **ctx)
            got_key = None
        except Exception as e:
            if built is None and self.is_noisy(snap, key) and "Data changed" in str(e):
                return  # an unfinished build's result, done again since
            self.violate("read_error", f"reading {key} raised {e!r}", **ctx)
        else:
            got_key = lib.take(shape, got)
        self.judge_read(key, shape, vals[key], got_key, built, ctx)

    def judge_read(self, key, shape, exp, got_key, built, ctx):
        want = read_key(shape, exp)
        if built is True:
            if got_key is None and want is not None:
                self.violate("missing_result", f"{key} reads as missing after a build that returned", want=want, **ctx)
            if got_key != want:
                self.violate("wrong_result", f"{key} reads {got_key}, expected {want}", **ctx)
        elif built is False:
            if got_key is not None:
                self.violate("ghost_result", f"{key} reads {got_key} in a snapshot that was never built", want=want, **ctx)
        else:
            if got_key is None or got_key == want:
                return
            if shape != "s":  # some of the partitions
                rows = [canon(r) for rs in exp.values() if rs is not POISON for r in rs]
                left = list(rows)
                ok = True
                for r in json.loads(got_key):
                    if r in left:
                        left.remove(r)
                    else:
                        ok = False
                if ok:
                    return
            self.violate("wrong_result", f"{key} reads {got_key} after an unfinished build, expected {want} or nothing", **ctx)

    def stored(self):
        """All that is stored below `out/`: (store, path from there, path, contents)."""
        top = os.path.join(self.spec["root"], "out")
        for st, s in sorted(self.stores.items()):
            for p, data in sorted(s.below(top).items()):
                yield st, p, top + "/" + p, data

    def audit_disk(self, ctx):
        """Every file that would be discovered as an output holds a complete, validated result."""
        by_name = {}
        for node in self.spec["nodes"]:
            if node["kind"] == "prod":
                for k, st in zip(node["outs"], node["stores"]):
                    if k is not None and st != "lit":
                        by_name.setdefault(st, {})[k] = node
        for st, p, full, data in self.stored():
            hit = match_output(by_name.get(st, {}), self.spec, p)
            if hit is None:
                continue
            key, node = hit
            try:
                val = canon(lib.loads(node["fmt"], data))
            except Exception:
                self.violate("torn_output", f"{key}: {p} holds an incomplete result ({len(data)} bytes)", **ctx)
            if val not in self.allowed.get(key, ()):
                self.violate("foreign_output", f"{key}: {p} holds {val}, which is no validated result", **ctx)

    # -- building ------------------------------------------------------------------------------
    def after_build(self, snap, outcome, op, raw_before_build):
        """Judge a build (the executor part) of `snap`."""
        ctx = {"outcome": outcome, "fired": self.fired, "err": self.err_text}
        self.stats["builds"] += 1
        cands = snap.raws
        works_c = [self.vals_at(snap, r)[1] for r in cands]
        for wks in works_c:
            self.note_allowed(wks)
        if len(cands) > 1:
            # Decide which contents were captured by what ran / what is readable; any must be consistent.
            return self.after_build_uncertain(snap, outcome, op, works_c, ctx)
        raw, works = cands[0], works_c[0]
        reasons, must, may = self.build_expect(works)
        self.check_calls(self.calls, works, outcome == "ok", ctx)
        if outcome == "ok":
            if "missing" in reasons:
                self.violate("missed_failure", "build returned although a producer has no input data", **ctx)
            if "invalid" in reasons:
                bad = [wk.cls for h in works for wk in h if not wk.missing and self.status(wk) == "no" and not lib.is_valid(wk.cls, wk.outs)]
                if bad:
                    self.violate("validation_ignored", f"build returned although outputs of {bad} do not validate", **ctx)
            swallowed = [f for f in self.fired if f["on"].startswith("prod") and f["kind"] in ("error", "arity", "empty")
                         and not (f["kind"] == "arity" and ("prod.build" not in f["at"] or self.single(f["at"])) and "prod.build" in f["at"] and self.single(f["at"]))]
            if swallowed:
                self.violate("swallowed_error", f"build returned although {swallowed[0]['at']} failed", **ctx)
            self.mark(works, self.calls, True)
            self.set_linked(snap, raw, True)
            self.stats["builds_ok"] += 1
            if not self.calls:
                self.stats["noop"] += 1
        else:
            self.stats["builds_failed"] += 1
            changed = raw_ident(self.raw) != raw_ident(raw)
            if outcome == "error":
                expected = bool(self.fired) or changed or self.oob_fired or reasons
                if not expected:
                    self.violate("spurious_failure", f"build failed without cause: {self.err_text}", tb=self.err_tb, **ctx)
                if reasons == ["invalid"] * len(reasons) and reasons and not self.fired and not changed and not self.oob_fired:
                    bad = {wk.cls for h in works for wk in h if not wk.missing and not lib.is_valid(wk.cls, wk.outs)}
                    if not any(lib.validation_msg(c) in self.err_text for c in bad):
                        self.violate("wrong_error", f"build raised {self.err_text} instead of the validation message", **ctx)
            self.set_linked(snap, raw, None)
            self.mark(works, self.calls, False)
        if outcome != "crash":
            self.w.begin_op("verify")
            built = True if outcome == "ok" else self.is_built(snap, raw)
            if outcome == "ok" or not self.fired:
                self.check_reads(snap, raw, built, ctx)
            else:
                self.check_reads(snap, raw, built, ctx)
            self.w.end_op()
        self.audit_disk(ctx)

    def single(self, at):
        cls = at.split(" ")[1]
        return all(len(lib.sig_of(n)) == 1 for n in self.spec["nodes"] if n["kind"] == "prod" and n["cls"] == cls)

    def after_build_uncertain(self, snap, outcome, op, works_c, ctx):
        """The contents captured are known up to a choice; at least one choice has to explain what happened."""
        fits = []
        errs = []
        for raw, works in zip(snap.raws, works_c):
            try:
                self.check_calls(self.calls, works, outcome == "ok", ctx)
                if outcome == "ok":
                    self.w.begin_op("verify")
                    try:
                        self.check_reads(snap, raw, True, ctx)
                    finally:
                        self.w.end_op()
                fits.append((raw, works))
            except core.Violation as v:
                errs.append(v)
                self.w.violations.remove(v)
        if not fits:
            v = errs[-1]
            self.w.violations.append(v)
            raise v
        complete = outcome == "ok"
        self.stats["builds_ok" if complete else "builds_failed"] += 1
        if complete:
            snap.raws = [raw for raw, _ in fits]
        for raw, works in fits:
            self.mark(works, self.calls, False)
            self.set_linked(snap, raw, True if complete and len(fits) == 1 else None)
        if complete:
            common = None
            for _, works in fits:
                keys = {(wk.node["outs"][0], wk.key, canon(wk.pk)) for h in works for wk in h if not wk.missing}
                common = keys if common is None else common & keys
            works = [[wk for wk in h if (wk.node["outs"][0], wk.key, canon(wk.pk)) in common] for h in fits[0][1]]
            self.mark(works, self.calls, True)
        self.audit_disk(ctx)

    def new_snap(self, obj, raws):
        s = Snap(obj, self.spec, {k: list(v) for k, v in self.code.items()}, raws)
        s.name = obj.name
        s.fingerprint = obj.fingerprint
        return s

    def take_snapshot(self, op, label):
        """Snapshot with faults; returns a Snap or None if it failed (as it may)."""
        g = self.get_graph()
        before = self.raw_copy()
        outcome, obj = self.do(label, lambda: g.snapshot(), op)
        after = self.raw_copy()
        missing = [k for k, v in before.items() if not v]
        ctx = {"outcome": outcome, "fired": self.fired, "err": self.err_text}
        if outcome == "ok":
            if self.calls:
                self.violate("wrong_inputs", "snapshotting ran producers", **ctx)
            if missing and not self.oob_fired:
                self.violate("missed_failure", f"snapshot returned although {missing} has no data", **ctx)
            raws = [before] if raw_ident(before) == raw_ident(after) else [before, after]
            return self.new_snap(obj, raws)
        if outcome == "error" and not (self.fired or self.oob_fired or missing):
            self.violate("spurious_failure", f"snapshot failed without cause: {self.err_text}", tb=self.err_tb, **ctx)
        return None

    # -- another machine -----------------------------------------------------------------------
    def op_other(self, op):
        """A process on another machine (other hash seed, time zone and memory) builds the graph."""
        from sim import peer

        self.settle_crash()
        self.stats["elsewhere"] = self.stats.get("elsewhere", 0) + 1
        self.w.event("peer", "build")
        res = peer.call({"cmd": "build", "spec": self.spec, "code": self.code, "invalid": lib.INVALID})
        if "fail" in res:
            self.violate("unexpected_error", "in the other process: " + res["fail"].strip().splitlines()[-1], tb=res["fail"][-3000:])
        self.w.log("OTHER", res["outcome"], len(res["calls"]))
        self.calls, self.fired, self.err_text = [tuple(c) for c in res["calls"]], [], res["err"]
        self.stats["calls"] += len(self.calls)
        raw = self.raw_copy()
        missing = [k for k, v in raw.items() if not v]
        ctx = {"outcome": res["outcome"], "fired": [], "err": res["err"], "other": True}
        mine, self.lineage = self.lineage, Lineage()
        try:
            vals, works = self.vals_at(Snap(None, self.spec, self.code, [raw]), raw)
            self.note_allowed(works)
            reasons, must, may = self.build_expect(works)
            if res["outcome"] == "ok":
                if missing or "missing" in reasons:
                    self.violate("missed_failure", f"the build of another machine returned although {missing or 'an input'} has no data", **ctx)
                if any(not lib.is_valid(wk.cls, wk.outs) for h in works for wk in h if self.status(wk) == "no"):
                    self.violate("validation_ignored", "the build of another machine returned although outputs do not validate", **ctx)
                self.check_calls(self.calls, works, True, ctx)
                for node in self.spec["nodes"]:
                    for key, shape in self.out_shapes(node):
                        got = res["reads"][key]
                        if got is not None and got.startswith("!"):
                            self.violate("read_error", f"reading {key} on another machine raised {got[1:]}", **ctx)
                        self.judge_read(key, shape, vals[key], got, True, ctx)
                self.mark(works, self.calls, True)
            else:
                if not (missing or reasons):
                    self.violate("spurious_failure", f"the build of another machine failed without cause: {res['err']}", tb=res.get("tb"), **ctx)
                if not missing:
                    self.check_calls(self.calls, works, False, ctx)
                    self.mark(works, self.calls, False)
        finally:
            self.lineage = mine
        self.audit_disk(ctx)

    # -- ops -----------------------------------------------------------------------------------
    def op_raw(self, op):
        if op["key"] not in self.nodes:
            raise Discard()
        if op["via"] == "ext" or op["val"] is None:
            self.edit_raw(op)
            return
        node = self.nodes[op["key"]]
        pk = tuple(op["pk"])
        g = self.get_graph()
        path = raw_path(self.spec["root"], node, pk)
        old = self.raw[op["key"]].get(pk)
        art = box_get(g.artifacts, op["key"])
        outcome, value = self.do("write", lambda: g.write(op["val"], artifact=art, partition_key=lib.to_pk(node["shape"], pk)), op)
        ctx = {"outcome": outcome, "fired": self.fired, "err": self.err_text}
        data = self.stores[node["store"]].get(path)
        new_bytes = lib.dumps(node["fmt"], op["val"])
        old_bytes = None if old is None else lib.dumps(node["fmt"], old)
        self.stats["edits"] += 1
        if outcome == "ok":
            if data != new_bytes:
                self.violate("lost_write", f"write of {op['key']} returned but {path} holds {data!r}", **ctx)
            self.raw[op["key"]][pk] = op["val"]
            return
        if outcome == "error" and not self.fired:
            self.violate("spurious_failure", f"write failed without cause: {self.err_text}", tb=self.err_tb, **ctx)
        if data == new_bytes:
            self.raw[op["key"]][pk] = op["val"]
        elif data == old_bytes:
            pass
        else:
            # An existing file overwritten in place: known finding K1 (see known_findings.json).
            self.finding("K1", old_bytes is not None and node["store"] == "file", path, f"interrupted write of {op['key']} left {data!r}", ctx, "torn_write")
            self.edit_raw({**op, "val": op["val"]})  # the operator restores the data

    def finding(self, fid, applies, path, msg, ctx, kind):
        if not applies:
            self.violate(kind, msg, **ctx)
        # K1 is limited to faults hitting the in-place rewrite of this very file.
        name = fs.rel(path)
        direct = any(
            f["at"].startswith(("fs.write ", "fs.close ", "fs.open_w ", "fs.truncate ")) and name in f["at"] for f in self.fired
        )
        lines = any(f["on"] == "line" for f in self.fired)
        if direct or lines:
            self.findings.append((fid, msg))
            self.w.log("FINDING", fid)
            return
        self.violate(kind, msg, **ctx)

    def op_swap(self, op):
        a, b = op["keys"]
        if () not in self.raw.get(a, {}) or () not in self.raw.get(b, {}):
            return
        va, vb = self.raw[a][()], self.raw[b][()]
        self.edit_raw({"key": a, "pk": [], "val": vb})
        self.edit_raw({"key": b, "pk": [], "val": va})

    def op_build(self, op):
        via = op.get("via")
        if op.get("oob") or op.get("split") or via == "snap":
            # Separate the two phases, so it is known what the snapshot captured.
            snap = self.take_snapshot({**op, "faults": [f for f in op.get("faults", ()) if f.get("n", 0) % 4 == 0]}, "snapshot")
            if snap is None:
                return
            op = {**op, "faults": [f for f in op.get("faults", ()) if f.get("n", 0) % 4 != 0]}
            if self.oob_fired:
                op = {k: v for k, v in op.items() if k != "oob"}
            self.build_snap(snap, op)
            return
        g = self.get_graph()
        before = self.raw_copy()
        missing = [k for k, v in before.items() if not v]
        if via == "exec":
            executor, used = own_executor()
            fn = lambda: g.build(executor)
        else:
            fn = lambda: g.build()
        outcome, obj = self.do("build", fn, op)
        if via == "exec" and outcome == "ok" and not used:
            self.violate("executor_ignored", "build returned without having used the executor that was passed", props=["C05"])
        ctx = {"outcome": outcome, "fired": self.fired, "err": self.err_text}
        if missing:
            if outcome == "ok":
                self.violate("missed_failure", f"build returned although {missing} has no data", **ctx)
            if self.calls:
                self.violate("wrong_inputs", f"producers ran although {missing} has no data", **ctx)
            if outcome == "error" and not self.fired and "No " not in self.err_text:
                self.violate("wrong_error", f"missing raw data was reported as {self.err_text}", **ctx)
            return
        snap = Snap(obj, self.spec, {k: list(v) for k, v in self.code.items()}, [before])
        if outcome == "ok":
            snap.name, snap.fingerprint = obj.name, obj.fingerprint
            self.handles["last"] = snap
        else:
            # Judge with a snapshot of the same contents, taken without faults.
            if outcome != "crash":
                snap.obj = self.quiet(lambda: g.snapshot())
        self.after_build(snap, outcome, op, before)
        if outcome == "ok" and op.get("reads"):
            self.reads_via_graph(g, snap)

    def quiet(self, fn):
        """An operation without faults that has to succeed."""
        self.w.begin_op("quiet")
        try:
            return fn()
        except Exception as e:
            self.violate("spurious_failure", f"operation without faults failed: {e!r}", tb=traceback.format_exc()[-1500:])
        finally:
            self.w.end_op()

    def reads_via_graph(self, g, snap):
        vals, _ = self.vals_at(snap, snap.raws[0])
        self.w.begin_op("graph.read")
        for node in self.spec["nodes"][-2:]:
            for key, shape in self.out_shapes(node):
                try:
                    got = g.read(box_get(g.artifacts, key), annotation=lib.PY[shape])
                    got_key = lib.take(shape, got)
                except FileNotFoundError:
                    got_key = None
                except Exception as e:
                    self.violate("read_error", f"reading {key} raised {e!r}")
                self.judge_read(key, shape, vals[key], got_key, True, {})
        self.w.end_op()

    def build_snap(self, snap, op):
        before = self.raw_copy()
        if op.get("via") == "snap" and op.get("reads"):
            executor, used = own_executor()
            outcome, obj = self.do("snap.build", lambda: snap.obj.build(executor), op)
            if outcome == "ok" and not used:
                self.violate("executor_ignored", "build returned without having used the executor that was passed", props=["C05"])
        else:
            outcome, obj = self.do("snap.build", lambda: snap.obj.build(), op)
        self.after_build(snap, outcome, op, before)

    def op_snap(self, op):
        snap = self.take_snapshot(op, "snapshot")
        if snap is not None:
            self.handles[op["h"]] = snap

    def op_bsnap(self, op):
        snap = self.handles.get(op["h"])
        if snap is None:
            return
        if self.torn_raw:
            return
        self.build_snap(snap, op)

    def op_rsnap(self, op):
        snap = self.handles.get(op["h"])
        if snap is None or not snap.certain:
            return
        if op.get("raws"):
            if self.read_raws(snap, op):
                self.read_under_faults(snap, {**op, "faults": []}, self.is_built(snap, snap.raws[0]))
            return
        self.read_under_faults(snap, op, self.is_built(snap, snap.raws[0]))

    def read_under_faults(self, snap, op, built):
        vals, _ = self.vals_at(snap, snap.raws[0])
        for node in snap.spec["nodes"]:
            for key, shape in self.out_shapes(node):
                outcome, got = self.do("read", lambda: self.read_art(snap, key, shape), op)
                if outcome == "crash":
                    return
                ctx = {"outcome": outcome, "fired": self.fired, "err": self.err_text}
                if outcome == "ok":
                    self.judge_read(key, shape, vals[key], lib.take(shape, got), built, ctx)
                elif outcome == "error" and not self.fired:
                    if not (isinstance(got, FileNotFoundError) and "No data" in str(got)):
                        self.violate("read_error", f"reading {key} raised {self.err_text}", **ctx)
                    self.judge_read(key, shape, vals[key], None, built, ctx)
                op = {**op, "faults": []}

    def op_read(self, op):
        """Graph.read outside of any explicit snapshot."""
        key = op["key"]
        g = self.get_graph()
        shape = self.shapes[key]
        before = self.raw_copy()
        art = box_get(g.artifacts, key)
        is_raw = key in self.nodes
        missing = [k for k, v in before.items() if not v]

        def fn():
            if op.get("conn"):
                return self.with_conn(lambda c: g.read(art, annotation=lib.PY[shape], connection=c))
            return g.read(art, annotation=lib.PY[shape])

        outcome, got = self.do("graph.read", fn, op)
        if outcome in ("crash", "interrupt"):
            return
        ctx = {"outcome": outcome, "fired": self.fired, "err": self.err_text}
        if outcome == "error" and self.fired:
            return
        if self.calls:
            self.violate("wrong_inputs", "reading ran producers", **ctx)
        got_key = None
        if outcome == "ok":
            got_key = lib.take(shape, got)
        if is_raw:
            want = read_key(shape, {(): self.nodes[key]["value"]} if self.nodes[key]["store"] == "lit" else before[key])
            if outcome == "error" and not isinstance(got, FileNotFoundError):
                self.violate("read_error", f"reading raw {key} raised {self.err_text}", **ctx)
            if got_key != want:
                self.violate("wrong_raw_read", f"raw {key} reads {got_key}, stored {want}", **ctx)
            return
        if missing:
            if outcome == "ok":
                self.violate("missed_failure", f"read of {key} returned although {missing} has no data", **ctx)
            return
        if outcome == "error" and not isinstance(got, FileNotFoundError):
            self.violate("read_error", f"reading {key} raised {self.err_text}", **ctx)
        snap = Snap(None, self.spec, self.code, [before])
        vals, _ = self.vals_at(snap, before)
        self.judge_read(key, shape, vals[key], got_key, self.is_built(snap, before), ctx)

    def with_conn(self, fn):
        """Run with an explicit connection, which has to be the one used, and be left open."""
        from sim import backend as sb

        if self.plan["backend"] != "sim":
            with self.backend.connect() as c:
                return fn(c)
        srv = sb.server(self.backend.server_name)
        with self.backend.connect() as c:
            opened = srv.opened
            n_ops = len(srv.ops)
            try:
                res = fn(c)
            finally:
                if not self.w.node.dead:
                    if c._closed:
                        self.violate("conn_misuse", "a passed connection was closed by the callee")
                    if srv.opened != opened:
                        self.violate("conn_misuse", "another connection was opened although one was passed")
                    others = {i for i, _ in srv.ops[n_ops:]} - {c._ident}
                    if others:
                        self.violate("conn_misuse", "another connection was used although one was passed")
            return res

    # tags
    def op_tag(self, op):
        snap = self.handles.get(op["h"])
        if snap is None:
            return
        tag = op["tag"]
        cur = self.tags.get((self.spec["name"], tag), [None])
        kw = {"overwrite": True} if op["overwrite"] else {}

        def fn():
            if op.get("conn"):
                return self.with_conn(lambda c: snap.obj.tag(tag, connection=c, **kw))
            return snap.obj.tag(tag, **kw)

        outcome, v = self.do("tag", fn, op)
        ctx = {"outcome": outcome, "fired": self.fired, "err": self.err_text}
        if outcome == "ok":
            if not op["overwrite"] and None not in cur:
                self.violate("tag_overwritten", f"tag {tag} existed, but tagging again without overwrite returned", **ctx)
            self.tags[self.spec["name"], tag] = [snap]
        elif outcome == "error" and not self.fired:
            if op["overwrite"] or cur == [None]:
                self.violate("spurious_failure", f"tagging failed without cause: {self.err_text}", tb=self.err_tb, **ctx)
        elif self.fired:
            if op["overwrite"] or None in cur:
                self.tags[self.spec["name"], tag] = [*cur, snap]
        if outcome == "crash" and self.plan["backend"] != "sim":
            return
        self.check_tag(tag, ctx)
        self.check_other_tags(tag, ctx)

    def op_otag(self, op):
        """Another graph is tagged in the same backend."""
        from arti import Graph

        name, tag = op["name"], op["tag"]
        if name == self.spec["name"]:
            name += "2"
        self.settle_crash()
        with Graph(name=name, backend=self.backend) as g:
            g.artifacts.a = lib.SArt(format=lib.FMT["json"](), storage=lib.StringLiteral(value=json.dumps(op["value"])))
        cur = self.tags.get((name, tag), [None])
        snap = g.snapshot()
        ctx = {"name": name}
        try:
            snap.tag(tag, **({"overwrite": True} if op["overwrite"] else {}))
        except ValueError as e:
            if op["overwrite"] or cur == [None]:
                self.violate("spurious_failure", f"tagging failed without cause: {e}", **ctx)
        else:
            if not op["overwrite"] and cur != [None]:
                self.violate("tag_overwritten", f"tag {tag} existed, but tagging again without overwrite returned", **ctx)
            self.tags[name, tag] = [Snap(snap, None, None, [])]
        self.check_other_tags(None, ctx)

    def check_other_tags(self, tag, ctx):
        for n, t in sorted(self.tags):
            if (n, t) != (self.spec["name"], tag):
                self.check_tag(t, ctx, n)

    def check_tag(self, tag, ctx, name=None):
        from arti import GraphSnapshot

        name = name or self.spec["name"]

        self.settle_crash()
        cur = self.tags.get((name, tag), [None])
        self.w.begin_op("from_tag")
        try:
            try:
                got = GraphSnapshot.from_tag(name, tag, connectable=self.backend)
            except ValueError:
                got = None
            except Exception as e:
                self.violate("tag_error", f"looking up tag {tag} raised {e!r}", **ctx)
        finally:
            self.w.end_op()
        hit = [c for c in cur if (c is None) == (got is None) and (c is None or (c.obj.id == got.id and (c.obj.graph.name, c.obj.graph.fingerprint, c.obj.graph.path_tags) == (got.graph.name, got.graph.fingerprint, got.graph.path_tags)))]
        if not hit:
            self.violate("wrong_tag", f"tag {tag!r} of {name!r} names {None if got is None else got.id}, expected one of {[c and c.obj.id for c in cur]}", **ctx)
        if got is not None:
            self.tags[name, tag] = [hit[0]]
        elif len(cur) > 1:
            self.tags[name, tag] = [None]
        return got, hit[0]

    def op_rtag(self, op):
        got, snap = self.check_tag(op["tag"], {})
        for t in alike(op["tag"])[op["h"] % 3:: 3] if "h" in op else ():
            self.check_tag(t, {})
        from arti import GraphSnapshot

        for name in ("other", self.spec["name"].upper(), self.spec["name"] + " "):
            if (name, op["tag"]) in self.tags or name == self.spec["name"]:
                continue

            try:
                GraphSnapshot.from_tag(name, op["tag"], connectable=self.backend)
                self.violate("wrong_tag", f"tag {op['tag']} is visible under another graph name")
            except (ValueError, KeyError):
                pass
        if got is None or not snap.certain:
            return
        view = Snap(got, snap.spec, snap.code, snap.raws)
        self.read_under_faults(view, op, self.is_built(snap, snap.raws[0]))

    # environment
    def op_code(self, op):
        if op["cls"] not in self.code:
            raise Discard()
        self.code[op["cls"]] = list(op["ver"])
        self.graph = None

    def op_restart(self, op):
        self.restart(fresh=op.get("fresh", False), lose=op.get("lose", False))

    def op_graph(self, op):
        self.graph = None

    def op_pickle(self, op):
        import pickle

        if self.plan["backend"] == "mem":
            g = self.get_graph()
            self.graph = self.quiet(lambda: pickle.loads(pickle.dumps(g)))
            # The copy carries a copy of the metadata; carry on with it.
            self.backend = self.graph.backend
            self.handles = {}

    def op_copy(self, op):
        g = self.get_graph()
        self.graph = self.quiet(lambda: g.model_copy())

    def op_invalid(self, op):
        if op["rule"] is None:
            lib.INVALID.pop(op["cls"], None)
        else:
            lib.INVALID[op["cls"]] = op["rule"]
            # Previously published results stay published.

    def op_debris(self, op):
        rng = random.Random(op["seed"])
        for kind, st in sorted(self.stores.items()):
            dirs = sorted({self.spec["root"], *(os.path.dirname(os.path.join(self.spec["root"], p)) for p in st.below(self.spec["root"]))})
            for _ in range(3):
                name = rng.choice([".x.tmp", ".nfs0001", ".DS_Store", *([] if kind == "gcs" else [".hidden.json"])])  # a wildcard of GCS matches dot files
                st.put(os.path.join(rng.choice(dirs), name), b"\x00garbage")

    # -- run -----------------------------------------------------------------------------------
    def run(self):
        self.cur = -1
        for i, op in enumerate(self.plan["ops"]):
            self.cur = i
            getattr(self, "op_" + op["op"])(op)
            self.settle_crash()
        self.settle()

    def settle(self):
        """Faults have stopped: one build has to succeed, and one more has to do nothing."""
        self.cur = "settle"
        lib.INVALID.clear()
        for n in raws_of(self.spec):
            if not self.raw[n["key"]]:
                pk = {"s": [], "k": [1], "d": ["2024-01-01"], "m": ["2024-01-01", 1]}[n["shape"]]
                self.edit_raw({"key": n["key"], "pk": pk, "val": 4 if n["shape"] == "s" else [{"v": 4}]})
        _, works = self.model(self.spec, self.code, self.raw)
        if any(wk.missing for h in works for wk in h):
            return  # cannot be built (eg: a sum over no partitions)
        g = self.get_graph()
        for attempt in ("recovery", "noop"):
            before = self.raw_copy()
            outcome, obj = self.do("build", lambda: g.build(), {})
            if outcome != "ok":
                self.violate("no_progress", f"the {attempt} build failed although faults have stopped: {self.err_text}", tb=self.err_tb)
            snap = self.new_snap(obj, [before])
            self.after_build(snap, outcome, {}, before)
            if attempt == "noop" and self.calls:
                self.violate("rerun", f"{self.calls[0]} ran again in a repeated build")
            self.graph = g if attempt == "recovery" and self.plan["seed"] % 2 else None
            g = self.get_graph()


def match_output(by_name, spec, path):
    """The artifact whose output template the file matches (by this harness' reading), if any."""
    for key, node in by_name.items():
        t = lib.OUT_TEMPLATES[node.get("tpl", 0)].split("/", 1)[1]
        names = key.split(".")
        shape = dict(zip(node["outs"], node["oshapes"]))[key]
        pks = {"s": None, "k": r"k_value=-?\d+", "d": r"d_Y=\d+/d_m=\d+/d_d=\d+", "m": r"d_Y=\d+/d_m=\d+/d_d=\d+/k_value=-?\d+"}[shape]
        tags = "/".join(f"{k}={v}" for k, v in spec["tags"].items())
        sub = {"{graph_name}": spec["name"], "{path_tags}": tags, "{names}": "/".join(names), "{name}": names[-1],
               "{extension}": re.escape(lib.EXT[node["fmt"]]), "{partition_key_spec}": pks or "", "{input_fingerprint}": r"-?\d+"}
        rx = t
        for k, v in sub.items():
            rx = rx.replace(k + "/", v + "/" if v else "") if not v else rx.replace(k, v)
        if re.fullmatch(rx, path):
            return key, node
    return None


def run(plan):
    r = Run(plan)
    try:
        r.run()
    finally:
        r.w.end_op()
        lib.NOISE = set()
    return {"stats": r.stats, "findings": r.findings}


def elsewhere(msg):
    """In the other process: define, build and read everything."""
    spec, code = msg["spec"], msg["code"]
    lib.INVALID.clear()
    lib.INVALID.update(msg["invalid"])
    calls0 = len(lib.CALLS)
    out = {"outcome": "ok", "err": "", "reads": {}}
    try:
        snap = lib.define(spec, code).build()
    except Exception as e:
        out.update(outcome="error", err=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-2500:])
    out["calls"] = lib.CALLS[calls0:]
    if out["outcome"] == "ok":
        for n in spec["nodes"]:
            for key, shape in zip(n.get("outs", ()), n.get("oshapes", ())):
                if key is None:
                    continue
                try:
                    got = snap.read(box_get(snap.artifacts, key), annotation=lib.PY[shape])
                    out["reads"][key] = lib.take(shape, got)
                except FileNotFoundError as e:
                    out["reads"][key] = None if "No data" in str(e) else f"!{e!r}"
                except Exception as e:
                    out["reads"][key] = f"!{e!r}"
    return out
