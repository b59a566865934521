"""Workload "storage": writing, reading and discovering partitions of artifacts under faults, against a
model of what is stored (a dict of path to content).
"""
from __future__ import annotations

import copy
import itertools
import json
import os
import random
import traceback
from datetime import date, timedelta
from typing import Annotated, Any

from arti import Artifact, Fingerprint, Graph, InputFingerprints, PartitionDependencies, PartitionKey, Producer
from arti.producers import InputPartitions
from arti.storage import StoragePartitions
from arti.partitions import DateField, Int8Field, Int16Field, Int32Field, Int64Field, NullField
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Boolean, Collection, Date, Float64, Int8, Int16, Int32, Int64, List, Map, Null, String, Struct

from sim import core, fs, gcs, lib, store
from sim.core import SimCrash, canon

# ==================================================================================================
# User code
# ==================================================================================================
TYPES = {"i8": Int8, "i16": Int16, "i32": Int32, "i64": Int64, "date": Date, "null": Null}
FIELDS = {"i8": Int8Field, "i16": Int16Field, "i32": Int32Field, "i64": Int64Field, "date": DateField, "null": NullField}
# shape -> partition fields
SHAPES: dict[str, dict[str, str]] = {
    "s": {},
    "k": {"k": "i64"},
    "d": {"d": "date"},
    "m": {"d": "date", "k": "i64"},
    "x": {"a": "i8", "b": "i32"},
    "y": {"b": "i16", "a": "date", "c": "i64"},
    "n": {"n": "null", "k": "i8"},
    "nn": {"n": "null"},
    "km": {"k": "i64"},
    # not partitioned
    "t": {}, "f": {}, "mi": {}, "ms": {}, "mm": {}, "mn": {}, "l": {},
}
# What the values are; maps are [key, value], lists [element].
VALUES = {"t": "str", "f": "float", "mi": {"map": ["int", "int"]}, "ms": {"map": ["str", ["float"]]},
          "mm": {"map": ["str", {"map": ["float", {"map": ["bool", "str"]}]}]}, "l": [{"map": ["int", "str"]}],
          "mn": {"map": ["int?", {"map": ["str?", "int"]}]}}
ROWMAP = {"map": ["int", {"map": ["bool", "str"]}]}  # of the rows of `km`
PY = {"t": str, "f": float, "mi": dict, "ms": dict, "mm": dict, "mn": dict, "l": list, "s": int}


def type_of(d):
    if isinstance(d, dict):
        return Map(key=type_of(d["map"][0]), value=type_of(d["map"][1]))
    if isinstance(d, list):
        return List(element=type_of(d[0]))
    if d.endswith("?"):
        return type_of(d[:-1]).model_copy(update={"nullable": True})
    return {"str": String, "float": Float64, "int": Int64, "bool": Boolean}[d]()


def gen_typed(rng, d):
    """A value, with maps as {"m": pairs}."""
    if isinstance(d, dict):
        ks = {json.dumps(k) for k in (gen_typed(rng, d["map"][0]) for _ in range(rng.choice([0, 1, 1, 2, 4]))) if not isinstance(k, dict)}
        return {"m": [[json.loads(k), gen_typed(rng, d["map"][1])] for k in sorted(ks)]}
    if isinstance(d, list):
        return [gen_typed(rng, d[0]) for _ in range(rng.choice([0, 1, 2, 5]))]
    if d.endswith("?"):
        if d != "str?" and rng.random() < 0.3:
            return None
        return "null" if d == "str?" and rng.random() < 0.3 else gen_typed(rng, d[:-1])
    if d == "str" and rng.random() < (0.6 if getattr(rng, "bigs", False) else 0.02):  # more than is read at once
        return {"big": [rng.choice([2**20 - 4, 2**20 + 10, 2 * 2**20 + 99, 2 * 2**20 + 99, 2 * 2**20 + 99]), rng.choice("aaab"), rng.choice(["", "", "b", "c"]), rng.choice(["", "m", "n"])]}
    return {
        "str": lambda: rng.choice(["", "a", "1", "true", "null", "\u00e9", "e\u0301", "\ud83d\ude00", 'q"\\', "l\nm\r\n", "\x00", "\ufeff", "\ud800", " x ", "{name}", "{}", "a{", "}", "{{", "{input_fingerprint}", "{k.key}", "a/", "x" * 3000]),
        "float": lambda: rng.choice([0.0, -0.0, 1.0, 1.5, -2.25, 0.1, 1e300, 5e-324, float("inf"), float("-inf"), 12345678.9]),
        "int": lambda: rng.choice([0, 1, -1, 7, 10**12, 2**63 - 1, -(2**63)]),
        "bool": lambda: rng.random() < 0.5,
    }[d]()


def real(x):
    """The value itself."""
    if isinstance(x, dict):
        if set(x) == {"big"}:
            n, fill, tail, *mid = x["big"]
            mid = "".join(mid)
            return fill * (n // 2) + mid + fill * (n - n // 2 - len(mid)) + tail
        if set(x) == {"m"}:
            return {k: real(v) for k, v in x["m"]}
        return {k: real(v) for k, v in x.items()}
    return [real(v) for v in x] if isinstance(x, list) else x


class Unstorable:
    """Can be neither pickled nor encoded as JSON."""

    def __reduce__(self):
        raise TypeError("unstorable")


def spoil(x):
    """The value with something that cannot be stored at its end, or None if that makes no sense."""
    if isinstance(x, list):
        return [*x, Unstorable()]
    return {**x, "zz": Unstorable()} if isinstance(x, dict) else None


def misfit(x):
    """Something of another type."""
    return 5 if isinstance(x, str) else "5"


def own(x):
    """A copy of a value read, which itself is changed in place: it is the reader's own."""
    mine = copy.deepcopy(x)
    lib.scramble(x)
    return mine


def from_json(d, x):
    """What a JSON document means, given the type (keys of JSON objects are text)."""
    if isinstance(d, dict):
        if not isinstance(x, dict):
            return x
        key = {"str": str, "str?": str, "int": int, "int?": lambda k: None if k == "null" else int(k), "float": float, "bool": lambda k: {"true": True, "false": False}[k]}[d["map"][0]]
        return {key(k): from_json(d["map"][1], v) for k, v in x.items()}
    if isinstance(d, list):
        return [from_json(d[0], v) for v in x] if isinstance(x, list) else x
    return x


def typed_canon(x) -> str:
    if isinstance(x, dict):
        return "{" + ",".join(sorted(f"{typed_canon(k)}:{typed_canon(v)}" for k, v in x.items())) + "}"
    return "[" + ",".join(map(typed_canon, x)) + "]" if isinstance(x, list) else repr(x)


ART: dict[str, type[Artifact]] = {}
for _shape, _fields in SHAPES.items():
    if not _fields:
        _t = type_of(VALUES[_shape]) if _shape in VALUES else Int64()
        ART[_shape] = type(f"St{_shape.upper()}", (Artifact,), {"__annotations__": {"type": __import__("arti").Type}, "type": _t, "__module__": __name__})
    else:
        _extra = {"m": type_of(ROWMAP)} if _shape == "km" else {}
        _t = Collection(element=Struct(fields={**{n: TYPES[t]() for n, t in _fields.items()}, "v": Int64(), **_extra}), partition_by=tuple(_fields))
        ART[_shape] = type(f"St{_shape.upper()}", (Artifact,), {"__annotations__": {"type": __import__("arti").Type}, "type": _t, "__module__": __name__})
_producers: dict[tuple, type[Producer]] = {}


def producer_for(shape):
    """A producer with one output of the shape (it is never run: outputs are written directly)."""
    if shape in _producers:
        return _producers[shape]
    py = PY.get(shape, list)
    ns: dict[str, Any] = {"_T": Annotated[int, ART["s"]], "_R": Annotated[py, ART[shape]], "_PD": PartitionDependencies, "_SP": StoragePartitions}
    exec("def build(i: _T) -> _R:\n    raise AssertionError\ndef map(i: _SP) -> _PD:\n    return _PD({})\n", ns)
    d = {"__annotations__": {"i": ART["s"]}, "__module__": __name__, "build": staticmethod(ns["build"])}
    if SHAPES[shape]:
        d["map"] = staticmethod(ns["map"])
    _producers[shape] = type(f"Make{shape.upper()}", (Producer,), d)
    return _producers[shape]


def to_pk(shape, key) -> PartitionKey:
    out = {}
    for (name, t), v in zip(SHAPES[shape].items(), key, strict=True):
        if t == "date":
            out[name] = DateField(value=date.fromisoformat(v))
        elif t == "null":
            out[name] = NullField()
        else:
            out[name] = FIELDS[t](value=v)
    return PartitionKey(out)


def from_pk(shape, pk) -> tuple:
    out = []
    assert set(pk) == set(SHAPES[shape]), (shape, pk)
    for name, t in SHAPES[shape].items():
        f = pk[name]
        if type(f) is not FIELDS[t]:
            return ("wrong field type", name, repr(f))
        out.append(f.value.isoformat() if t == "date" else f.value)
    return tuple(out)


# ==================================================================================================
# Templates: pieces ["lit", text] | ["f", field, component, spec, index] | ["ifp"] | ["ext"] | ["pks"] | ["names"] | ["name"] | ["graph"] | ["tags"]
# ==================================================================================================
def template(pieces) -> str:
    out = ""
    for p in pieces:
        if p[0] == "lit":
            out += p[1]
        elif p[0] == "f":
            _, name, comp, spec, idx = p
            out += "{" + name + "." + comp + (f"[{idx}]" if idx is not None else "") + (f":{spec}" if spec else "") + "}"
        else:
            out += {"ifp": "{input_fingerprint}", "ext": "{extension}", "pks": "{partition_key_spec}", "names": "{names}", "name": "{name}",
                    "graph": "{graph_name}", "tags": "{path_tags}"}[p[0]]
    return out


def component(t, v, comp, spec):
    if t == "date":
        y, m, d = v.split("-")
        x = {"Y": int(y), "m": int(m), "d": int(d), "iso": v, "value": v}[comp]
    elif t == "null":
        x = "None"
    else:
        x = hex(v) if comp == "hex" else v
    return format(x, spec) if spec else str(x)


def default_spec(shape, key):
    segs = []
    for (name, t), v in zip(SHAPES[shape].items(), key):
        if t == "date":
            segs += [f"{name}_Y={component(t, v, 'Y', '')}", f"{name}_m={component(t, v, 'm', '02')}", f"{name}_d={component(t, v, 'd', '02')}"]
        else:
            segs.append(f"{name}_value={component(t, v, 'value', '')}")
    return "/".join(segs)


def render(plan, art, key, ifp) -> str:
    """Where a partition is stored, by this harness' own reading of the template."""
    vals = dict(zip(SHAPES[art["shape"]], key))
    types = SHAPES[art["shape"]]
    segs: list[str] = [""]

    def add(text):
        segs[-1] += text

    names = art["key"].split(".")
    empty = object()
    parts: list[Any] = []
    for p in art["tpl"]:
        if p[0] == "lit":
            parts.append(p[1])
        elif p[0] == "f":
            parts.append(component(types[p[1]], vals[p[1]], p[2], p[3]))
        elif p[0] == "ifp":
            parts.append(str(ifp) if ifp is not None else empty)
        elif p[0] == "ext":
            parts.append(lib.EXT[art["fmt"]])
        elif p[0] == "pks":
            parts.append(default_spec(art["shape"], key) or empty)
        elif p[0] == "names":
            parts.append("/".join(names))
        elif p[0] == "name":
            parts.append(names[-1])
        elif p[0] == "graph":
            parts.append(plan["name"])
        elif p[0] == "tags":
            parts.append("/".join(f"{k}={v}" for k, v in plan["tags"].items()) or empty)
    out = ""
    skip = False
    for i, x in enumerate(parts):
        if x is empty:
            skip = True  # along with the following separator
            continue
        if skip and x.startswith("/"):
            x = x[1:]
        skip = False
        out += x
    return out


def discoverable(art, key) -> bool:
    """Hard coded parts of a template limit what it covers."""
    vals = dict(zip(SHAPES[art["shape"]], key))
    return all(
        p[0] != "f" or p[4] is None or component(SHAPES[art["shape"]][p[1]], vals[p[1]], p[2], "") == p[4] for p in art["tpl"]
    )


# ==================================================================================================
# Plans
# ==================================================================================================
ROOTS = ["root", "/proc/self/cwd/root", "ro ot/[a]*?", "r.o+o(t)|^$", "däta/.hid", "root/../root", "r[!a]", "root/[[]x]"]
GROOTS = ["root", "ro ot/[a]*", "r.o+o(t)|^$", "däta/.hid", "r[!a]/x", "q#1/a%20b"]

PROFILES = {
    "plain": dict(faults=0.0, oob=0.0),
    "faults": dict(faults=0.6, oob=0.05),
    "crash": dict(faults=0.7, oob=0.0, crashy=True),
    "race": dict(faults=0.05, oob=0.5),
    "gcs": dict(faults=0.15, oob=0.1, gcs=True),
    "gcsfaults": dict(faults=0.6, oob=0.05, gcs=True),
}
GCS_ON = ["gcs", "gcs.list", "gcs.get", "gcs.media", "gcs.upload"]


def gen_gcs_fault(rng, crashy=False):
    r = rng.random()
    on = rng.choice(GCS_ON)
    n = 1 + int(rng.expovariate(1 / 2))
    if r < 0.2:
        f = {"on": on, "n": n, "kind": rng.choice(["crash", "crash", "interrupt"])}
        if f["kind"] == "crash" and rng.random() < 0.5:
            f["when"] = "after"
        return f
    if r < 0.3:
        return {"on": "line", "n": 1 + int(rng.random() ** 2 * 1500), "kind": rng.choice(["crash", "interrupt"])}
    f = {"on": on, "n": n, "kind": rng.choice(["503", "500", "429", "403", "403", "401", "conn", "timeout", "412"])}
    if f["kind"] in ("503", "500", "429", "conn") or rng.random() < 0.3:
        f["sticky"] = rng.choice([0, 1, 4, 5, 6, 8, 30, 60])
    if rng.random() < 0.3:
        f["when"] = "after"
    return f


def gen_tpl(rng, shape, out, plan_root, i, store):
    """Random template over the partition fields of the shape."""
    r = rng.random()
    pieces: list[list] = [["lit", plan_root + "/"]]
    uniq = rng.random()
    fields = SHAPES[shape]
    if r < 0.15:
        # The default layout.
        pieces += [["graph"], ["lit", "/"], ["tags"], ["lit", "/"], ["names"], ["lit", "/"], ["pks"], ["lit", "/"]]
        if out:
            pieces += [["ifp"], ["lit", "/"]]
        pieces += [["name"], ["ext"]]
        return pieces
    # Each artifact has its own prefix (or its own file name, for some).
    own = rng.random() < 0.75
    if own:
        pieces.append(rng.choice([["lit", f"a{i}"], ["names"], ["lit", f"A {i}[x]"], ["lit", f"a{i}.d"], ["lit", f"a{i}*"], ["lit", f".a{i}"]]))
        pieces.append(["lit", "/"])
    comps: list[list] = []
    if rng.random() < 0.2 and fields:
        comps.append(["pks"])
    else:
        for name, t in rng.sample(list(fields.items()), len(fields)):
            if t == "date":
                k = rng.random()
                if k < 0.4:
                    comps.append(["f", name, "iso", "", None])
                elif k < 0.5:
                    comps.append(["f", name, "value", "", None])
                else:
                    pad = rng.random() < 0.6
                    y = ["f", name, "Y", "", rng.choice(["2024", "2023"]) if rng.random() < 0.15 else None]
                    grp = [y, ["f", name, "m", "02" if pad else "", None], ["f", name, "d", "02" if pad else "", None]]
                    rng.shuffle(grp)
                    comps += grp
            elif t == "null":
                comps.append(["f", name, "value", "", None])
            else:
                c = rng.choice(["value", "value", "hex"])
                comps.append(["f", name, c, "03" if c == "value" and rng.random() < 0.15 else "", None])
    if out:
        comps.insert(rng.randint(0, len(comps)), ["ifp"])
    if comps and comps[0][0] == "f" and rng.random() < 0.1:
        comps.append(list(comps[0]))  # mentioned twice
    seps = ["/", "/", "/", "__", "=", " ~ ", "[", "].", "/k=", "/p*", "+", "(", "/x/y/"]
    for j, c in enumerate(comps):
        if rng.random() < 0.25:
            pieces.append(["lit", rng.choice(["k=", "p_", "[", "v(", "*"])])
        elif pieces[-1][0] == "lit" and pieces[-1][1].endswith("/") and rng.random() < 0.2:
            pieces.append(["lit", "."])
        pieces.append(c)
        nxt = comps[j + 1] if j + 1 < len(comps) else None
        if nxt is not None:
            s = rng.choice(seps)
            if c[0] == "pks" or nxt[0] == "pks":
                s = "/"
            pieces.append(["lit", s])
    if not own or rng.random() < 0.5:
        pieces.append(["lit", "/" if comps else ""])
        pieces.append(["lit", f"f{i}" if not own else rng.choice(["data", "x y", "d[0]"])])
        if not own and not comps:
            pass
    elif not comps:
        pieces.append(["lit", "data"])
    tail = rng.random()
    if tail < 0.8:
        pieces.append(["ext"])
    elif comps and comps[-1][0] != "pks":
        pieces.append(["lit", rng.choice(["", "/z", ".bin"])])
    else:
        pieces.append(["lit", "/z"])
    return pieces


VALS = [0, 1, 1, 2, 3, 5, 12, -7, 100]
DATES = ["2023-12-31", "2024-01-01", "2024-02-29", "1999-11-11", "2024-11-01", "2024-01-11", "0999-01-05", "0001-01-01", "9999-12-31"]


def gen_key(rng, shape):
    out: list = []
    for t in SHAPES[shape].values():
        if t == "date":
            out.append(rng.choice(DATES))
        elif t == "null":
            out.append(None)
        else:
            out.append(rng.choice([-3, -1, 0, 1, 2, 3, 12, 100] + ([10**9, -(2**63), 2**63 - 1] if t == "i64" else [])))
    return out


def gen_value(rng, shape, key):
    if shape in VALUES:
        return gen_typed(rng, VALUES[shape])
    if shape == "s":
        return rng.choice(VALS + [rng.randint(-(10**12), 10**12)])
    rows = []
    base = dict(zip(SHAPES[shape], key))
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        rows.append({**base, "v": rng.choice(VALS), **({"m": gen_typed(rng, ROWMAP)} if shape == "km" else {})})
    return rows


IFPS = [1, 2, -5, 7777777777777, -9223372036854775808, 9223372036854775807, 0]


def generate(seed, profile):
    rng = random.Random(f"storage:{profile}:{seed}")
    pr = PROFILES[profile]
    kind = "gcs" if pr.get("gcs") else "file"
    root = rng.choice(GROOTS if kind == "gcs" else ROOTS)
    plan: dict[str, Any] = {
        "workload": "storage", "profile": profile, "seed": seed, "store": kind, "name": rng.choice(["g", "my graph", "g.1"]),
        "root": root, "tags": rng.choice([{}, {}, {"t": "1"}, {"a": "x", "b": "y z"}]), "arts": [], "ops": [],
        "shuffle": rng.random() < 0.8, "page": rng.choice([1, 2, 3, 1000]), **store.ways(seed),
    }
    n = rng.randint(1, 4)
    rng.bigs = rng.random() < 0.04
    twin = rng.random() < 0.25  # sibling artifacts sharing directories, differing in the extension
    for i in range(n):
        shape = rng.choice(["t", "t", "ms", "s"] if rng.bigs else ["s", "s", "k", "k", "d", "m", "x", "y", "n", "nn", "km", *VALUES] if rng.random() < 0.5 else ["s", "k", "k", "d", "m", "x", "y", "n", "nn"])
        out = rng.random() < 0.4
        fmt = rng.choice(["json", "pickle"])
        art = {"key": rng.choice(["", "ns.", "a.b."]) + f"r{i}", "shape": shape, "fmt": fmt, "out": out, "lit": False}
        art["tpl"] = gen_tpl(rng, shape, out, root, i, kind)
        if out and rng.random() < 0.1:
            art["lit"], art["fmt"] = True, "json"
        plan["arts"].append(art)
        if twin and i + 1 < n and ["ext"] in art["tpl"] and not art["lit"]:
            plan["arts"].append({**art, "key": f"twin{i}", "fmt": {"json": "pickle", "pickle": "json"}[fmt],
                                 "tpl": [p for p in art["tpl"]]})
    ops = plan["ops"]
    hist: dict = {}
    keys: dict = {}
    reads = []

    def faults(p, what):
        if rng.random() >= p:
            return []
        out = []
        for _ in range(1 if rng.random() < 0.8 else 2):
            if kind == "gcs":
                f = gen_gcs_fault(rng)
                # Requests the operation does make.
                used = {"write": ["gcs.upload", "gcs.upload", "gcs.get"], "discover": ["gcs.get", "gcs.list", "gcs.get"]}.get(what, ["gcs.get", "gcs.media", "gcs"])
                if f["on"] not in ("gcs", "line") and f["on"] not in used:
                    f["on"] = rng.choice(used)
                if f["on"] != "line" and rng.random() < 0.5:
                    f["n"] = 1
                if what == "write" and rng.random() < 0.12:
                    f = {"on": "gcs.upload", "n": 1, "kind": "garble"}
                out.append(f)
            else:
                from sim.builds import gen_fault

                f = gen_fault(rng, pr.get("crashy", False))
                if f["on"] == "line":
                    f["n"] = 1 + int(rng.random() ** 2 * 900)
                elif f["on"] in ("any", "fs"):
                    f["n"] = 1 + int(rng.expovariate(1 / 8))
                elif f["on"] == "prod":
                    f["on"] = "fs.write"
                if what != "write" and f["on"] in ("fs.write", "fs.open_w", "fs.mkdir", "fs.replace", "fs.unlink") and rng.random() < 0.8:
                    f["on"] = rng.choice(["fs.list", "fs.read", "fs.open_r", "fs.lstat", "fs.stat", "fs.close", "fs"])
                    if f["kind"] not in ("crash", "interrupt", "EIO", "EACCES", "EMFILE", "short"):
                        f["kind"] = rng.choice(["EIO", "EACCES", "EMFILE", "ENOMEM", "ETIMEDOUT"])
                elif f["n"] > 1 and f["on"].startswith("fs.") and rng.random() < 0.6:
                    f["n"] = 1
                out.append(f)
        return out

    def target():
        i = rng.randrange(len(plan["arts"]))
        a = plan["arts"][i]
        known = keys.setdefault(i, [])
        if known and rng.random() < 0.6:
            k, f = rng.choice(known)
        else:
            k, f = gen_key(rng, a["shape"]), rng.choice(IFPS) if a["out"] else None
            if a["out"] and rng.random() < 0.3:
                f = rng.randint(-(2**63), 2**63 - 1)
            known.append((k, f))
        return i, a, k, f

    def value(a, i, k, f):
        past = hist.setdefault((i, canon(k), f), [])
        v = rng.choice(past) if past and rng.random() < 0.4 else gen_value(rng, a["shape"], k)
        past.append(v)
        return v

    def ext():
        i, a, k, f = target()
        r = rng.random()
        if r < 0.25:
            return {"op": "ext", "art": i, "pk": k, "ifp": f, "do": "del"}
        if r < 0.4:
            return {"op": "ext", "art": i, "pk": k, "ifp": f, "do": rng.choice(["cut", "empty", "flip"]), "frac": round(rng.random(), 2)}
        return {"op": "ext", "art": i, "pk": k, "ifp": f, "do": "put", "val": value(a, i, k, f)}

    for _ in range(rng.randint(6, 18)):
        r = rng.random()
        op: dict[str, Any]
        if r < 0.3:
            i, a, k, f = target()
            op = {"op": "write", "art": i, "pk": k, "ifp": f, "val": value(a, i, k, f), "conn": rng.random() < 0.15}
            if rng.random() < 0.06:
                op["bad"] = rng.choice([True, "type", "view"])
        elif r < 0.5:
            op = ext()
        elif r < 0.7:
            op = {"op": "discover", "art": rng.randrange(len(plan["arts"])), "filt": rng.choice(["all", "some", "some", "other"]), "fs": rng.randrange(1 << 30),
                  "keep": rng.random() < 0.6}
        elif r < 0.82:
            op = {"op": "readold", "i": rng.randrange(1 << 16), "many": rng.random() < 0.4}
        elif r < 0.9:
            op = {"op": "read", "art": rng.randrange(len(plan["arts"])), "bad": rng.random() < 0.08}
        elif r < 0.96:
            op = {"op": "junk", "seed": rng.randrange(1 << 30)}
        elif r < 0.98:
            op = {"op": "restart"}
        else:
            op = {"op": "ipc", "i": rng.randrange(1 << 16)}
        if op["op"] in ("write", "discover", "readold", "read"):
            op["faults"] = faults(pr["faults"], op["op"])
            if rng.random() < pr["oob"]:
                e = ext()
                if rng.random() < 0.5 and op["op"] == "write":
                    e.update(art=op["art"], pk=op["pk"], ifp=op["ifp"])
                    e.pop("val", None)
                    if e["do"] == "put":
                        e["val"] = gen_value(rng, plan["arts"][op["art"]]["shape"], op["pk"])
                op["oob"] = {"n": 1 + int(rng.expovariate(1 / 6)), "edit": e}
        ops.append(op)
    lrng = random.Random(f"lits:{profile}:{seed}")
    if lrng.random() < 0.12:
        # Values given in the graph itself.
        plan["lits"] = []
        for _ in range(lrng.choice([1, 2, 3])):
            if lrng.random() < 0.5:
                shape = lrng.choice([x for x in VALUES if x != "f"])
                plan["lits"].append([shape, gen_typed(lrng, VALUES[shape])])
            else:
                d = lrng.choice(["str", "float", "int"])
                few = [gen_typed(lrng, d) for _ in range(lrng.choice([1, 1, 3]))]
                v: Any = lrng.choice([0, 0.0, "", [""], [0]]) if lrng.random() < 0.3 else lrng.choice([few[0], few])
                plan["lits"].append([None, v])
        for _ in range(lrng.randint(2, 5)):
            ops.insert(lrng.randint(0, len(ops)), {"op": "lit", "i": lrng.randrange(len(plan["lits"])), "do": lrng.choice(["read", "read", "sread", "write", "write", "found"]),
                                                  "same": lrng.random() < 0.5, "new": gen_typed(lrng, "str")})
    frng = random.Random(f"flood:{profile}:{seed}")
    wide = [i for i, a in enumerate(plan["arts"]) if a["shape"] in ("k", "m", "y")]
    if profile in ("plain", "gcs") and wide and frng.random() < 0.01:
        # Many partitions: more than any page, chunk or buffer holds.
        i = frng.choice(wide)
        plan["page"] = 1000
        looks = [{"op": "discover", "art": i, "filt": frng.choice(["all", "some"]), "fs": frng.randrange(1 << 30), "keep": False, "faults": []} for _ in range(2)]
        flood = {"op": "flood", "art": i, "n": frng.choice([40, 120, 300, 1100, 1100]), "seed": frng.randrange(1 << 30), "ifp": frng.choice(IFPS) if plan["arts"][i]["out"] else None}
        tail = [] if plan["arts"][i]["out"] or flood["n"] > 300 else [{"op": "read", "art": i, "bad": False, "faults": []}]
        plan["ops"] = [*ops[:4], flood, *looks, *tail]
        return plan
    # Some of it through snapshots of the graph.
    srng = random.Random(f"snaps:{profile}:{seed}")
    outs = [i for i, a in enumerate(plan["arts"]) if a["out"]]
    if outs and srng.random() < 0.5:
        plan["snaps"] = True
        mixed: list[dict[str, Any]] = []
        for op in ops:
            mixed.append(op)
            if op["op"] == "write" and plan["arts"][op["art"]]["out"] and srng.random() < 0.7:
                op["snap"] = srng.randrange(6)
            while srng.random() < 0.25:
                mixed.append({"op": "sread", "art": srng.choice(outs), "snap": srng.randrange(6), "conn": srng.random() < 0.2,
                              "faults": faults(pr["faults"] * 0.5, "readold")})
        plan["ops"] = mixed
    return plan


# ==================================================================================================
# Runner
# ==================================================================================================
ALL = ["C09", "C10"]


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.w = core.world()
        gcs.reset()
        self.store = store.Bucket() if plan["store"] == "gcs" else store.Local()
        self.where: dict[tuple, tuple] = {}  # stored name -> (art index, key, ifp)
        self.files: dict[str, bytes] = {}  # the model: stored name -> content
        self.fps: dict[bytes, Any] = {}
        self.old: list = []  # (snapshot, art index, key, ifp, content)
        self.stats = {"writes": 0, "writes_ok": 0, "writes_failed": 0, "discoveries": 0, "reads": 0, "old_reads": 0, "stale_reads": 0, "crashes": 0, "edits": 0}
        self.findings = []
        self.backend = None
        self.graph = None
        self.snaps: list = []  # (GraphSnapshot, {(art index, key, ifp): [contents it may have linked, or None]})
        self.needs_restart = False
        self.cur = -1
        self.errs = None

    def violate(self, kind, msg, props=ALL, **kw):
        self.w.violate(kind, msg, props=props, op=self.cur, **kw)

    # -- the graph -----------------------------------------------------------------------------
    def define(self):
        from arti.internal.mappings import frozendict

        kw: dict[str, Any] = {"name": self.plan["name"]}
        if self.plan["tags"]:
            kw["path_tags"] = frozendict(self.plan["tags"])
        with Graph(**kw) as g:
            need_in = any(a["out"] for a in self.plan["arts"])
            if need_in:
                g.artifacts.zin = ART["s"](format=lib.FMT["json"](), storage=StringLiteral(value="1"))
            for n, (shape, v) in enumerate(self.plan.get("lits", ())):
                v = real(v)
                lib.box_set(g.artifacts, f"lit{n}", v if shape is None else ART[shape](format=lib.FMT["json"](), storage=StringLiteral(value=json.dumps(v))))
            for n, a in enumerate(self.plan["arts"]):
                path = template(a["tpl"])
                st: Any
                if a["lit"]:
                    st = StringLiteral()
                elif self.plan["store"] == "gcs":
                    from arti.storage.google.cloud.storage import GCSFile

                    st = GCSFile(bucket="bkt", path=path)
                else:
                    st = LocalFile(path=path)
                art = ART[a["shape"]](format=lib.FMT[a["fmt"]](), storage=st)
                if a["out"]:
                    # One producer per output (distinguished by class: same shape twice is two nodes).
                    p = producer_for(a["shape"])(i=g.artifacts.zin, annotations=())
                    try:
                        art = p.out(art)
                    except ValueError:
                        raise core.Discard() from None
                lib.box_set(g.artifacts, a["key"], art)
        return g

    def get_graph(self):
        if self.graph is None:
            self.graph = self.define()
        return self.graph

    def snapshot(self, n):
        """A snapshot of the graph: one of those before, or a new one. None if raw data is missing."""
        if self.needs_restart:
            self.restart()
        if n < 2 * len(self.snaps):
            return self.snaps[n // 2]
        outcome, s = self.do("snapshot", self.get_graph().snapshot, {})
        if outcome != "ok":
            return None
        for known in self.snaps:
            if known[0].fingerprint == s.fingerprint:
                return known
        self.snaps.append((s, {}))
        return self.snaps[-1]

    def art(self, i):
        return lib.box_get(self.get_graph().artifacts, self.plan["arts"][i]["key"])

    def path(self, i, key, ifp):
        return self.store.key(render(self.plan, self.plan["arts"][i], key, ifp))

    def raw_path(self, i, key, ifp):
        return render(self.plan, self.plan["arts"][i], key, ifp)

    # -- operations under faults -----------------------------------------------------------------
    def do(self, label, fn, op):
        if self.needs_restart:
            self.restart()
        w = self.w
        w.begin_op(label, op.get("faults", ()))
        self.oob_fired = self.oob_name = None
        oob = op.get("oob")
        listener = None
        if oob:
            count = [0]

            def listener(name, detail):
                count[0] += 1
                if count[0] == oob["n"]:
                    before = dict(self.files)
                    self.op_ext(oob["edit"])
                    self.oob_fired = before
                    e = oob["edit"]
                    if e["art"] < len(self.plan["arts"]) and not self.plan["arts"][e["art"]]["lit"]:
                        self.oob_name = self.path(e["art"], tuple(e["pk"]), e["ifp"])

            w.listeners.append(listener)
        err = value = None
        try:
            value = fn()
            outcome = "ok"
        except SimCrash:
            outcome = "crash"
        except KeyboardInterrupt as e:
            outcome, err = "interrupt", e
        except (core.Hang, core.Violation, core.Discard):
            raise
        except Exception as e:
            outcome, err = "error", e
        finally:
            w.end_op()
            if listener:
                w.listeners.remove(listener)
        self.fired = list(w.node.fired)
        if w.node.dead:
            outcome = "crash"
        if outcome != "crash":
            leaked = sorted(str(v) for v in w.open_files.values())
            if leaked:
                self.violate("leak_file", f"{label} left files open: {leaked}", props=["C15"], outcome=outcome, fired=self.fired)
        self.err, self.err_text, self.err_tb = err, "", ""
        if err is not None:
            self.err_text = f"{type(err).__name__}: {err}"
            self.err_tb = "".join(traceback.format_exception(err)[-6:])[-2000:]
            c = err
            while c is not None:
                c.__traceback__ = None
                c = c.__cause__ or c.__context__
        w.log("OUTCOME", label, outcome, type(err).__name__ if err else "")
        if outcome == "crash":
            self.stats["crashes"] += 1
            self.needs_restart = True
        return outcome, value

    def ctx(self, outcome, **kw):
        return {"outcome": outcome, "fired": self.fired, "err": self.err_text, "tb": self.err_tb, **kw}

    def restart(self):
        w = self.w
        self.needs_restart = False
        w.main = core.Node("main")
        w.node = w.main
        w.open_files.clear()
        fs._fds.clear()
        self.graph = None
        self.snaps = []  # (the metadata was in memory)
        import gcsfs

        gcsfs.GCSFileSystem.clear_instance_cache()
        w.log("RESTART")

    # -- external changes ------------------------------------------------------------------------
    def op_ext(self, op):
        i, key, ifp = op["art"], tuple(op["pk"]), op["ifp"]
        if i >= len(self.plan["arts"]) or self.plan["arts"][i]["lit"]:
            return
        a = self.plan["arts"][i]
        path, name = self.raw_path(i, key, ifp), self.path(i, key, ifp)
        self.stats["edits"] += 1
        cur = self.files.get(name)
        do = op["do"]
        if do == "del":
            self.store.delete(path)
            self.files.pop(name, None)
        elif do == "put":
            data = lib.dumps(a["fmt"], real(op["val"]))
            self.store.put(path, data)
            self.files[name] = data
            self.where[name] = (i, key, ifp)
        elif cur is not None:
            data = {"cut": cur[: int(len(cur) * op["frac"])], "empty": b"", "flip": bytes([cur[0] ^ 1]) + cur[1:] if cur else b"x"}[do]
            self.store.put(path, data)
            self.files[name] = data
        self.w.log("EXT", do, name)

    def op_flood(self, op):
        shape = self.plan["arts"][op["art"]]["shape"] if op["art"] < len(self.plan["arts"]) else None
        if shape not in ("k", "m", "y"):
            raise core.Discard()
        rng = random.Random(op["seed"])
        for n in range(op["n"]):
            day = (date(2020, 1, 1) + timedelta(days=n)).isoformat()
            key = {"k": [n], "m": [day, n], "y": [n % 120, day, n]}[shape]
            base = dict(zip(SHAPES[shape], key))
            self.op_ext({"art": op["art"], "pk": key, "ifp": op["ifp"], "do": "put", "val": [{**base, "v": rng.randrange(1000)}]})

    def op_junk(self, op):
        """Files that do not belong to any artifact."""
        rng = random.Random(op["seed"])
        dirs = sorted({os.path.dirname(self.raw_path(*w)) for w in self.where.values()})
        exts = {lib.EXT[a["fmt"]] for a in self.plan["arts"]}
        for _ in range(3):
            if not dirs:
                return
            d = rng.choice(dirs)
            have = [n for n in self.where if os.path.dirname(self.raw_path(*self.where[n])) == d]
            base = os.path.basename(self.raw_path(*self.where[rng.choice(sorted(have))])) if have else "x"
            kind = rng.choice(["hidden", "tmp", "suffix", "dir", "deep", "repeat"])
            if self.plan["store"] == "gcs" and kind in ("hidden", "tmp", "dir"):
                kind = "suffix"
            if kind == "hidden":
                self.put_junk(os.path.join(d, f".{base}"))
            elif kind == "tmp":
                self.put_junk(os.path.join(d, f".{base}.x1y2z3.tmp"))
            elif kind == "suffix" and any(base.endswith(e) for e in exts):
                self.put_junk(os.path.join(d, base + rng.choice(["~", ".bak", ".crc", "x"])))
            elif kind == "deep":
                self.put_junk(os.path.join(d, "zz0", "more", base) if rng.random() < 0.5 else os.path.join(d, "zz", "zz2", "zz3", base))
            elif kind == "dir":
                if not self.covered(p := os.path.join(d, ".empty")):
                    with fs.outside():
                        os.makedirs(p, exist_ok=True)
        self.w.log("JUNK", op["seed"])

    def put_junk(self, path):
        """Only if no artifact's template could be read as covering the file."""
        name = self.store.key(path)
        if name in self.files or self.covered(path):
            return
        self.store.put(path, b"\x00junk")
        self.files[name] = b"\x00junk"

    def covered(self, path):
        for a in self.plan["arts"]:
            if a["lit"]:
                continue
            # Segments with placeholders are wildcards.
            full, segs = self.wild(a), path.split("/")
            # Nor may one of its directories.
            if len(full) <= len(segs) and all(w(s) for w, s in zip(full, segs)):
                return True
        return False

    def wild(self, a):
        """Per path segment, whether it could belong to the template (coarse: literal prefix and suffix)."""
        segs: list[list] = [[]]
        for p in a["tpl"]:
            if p[0] == "lit":
                texts = p[1].split("/")
            elif p[0] == "ext":
                texts = [lib.EXT[a["fmt"]]]
            elif p[0] in ("graph",):
                texts = [self.plan["name"]]
            elif p[0] == "names":
                texts = a["key"].split(".")
            elif p[0] == "name":
                texts = [a["key"].split(".")[-1]]
            elif p[0] == "tags":
                texts = [f"{k}={v}" for k, v in self.plan["tags"].items()]
                if not texts:
                    texts = None
            elif p[0] == "pks":
                n = len(default_spec(a["shape"], gen_key(random.Random(0), a["shape"])).split("/")) if SHAPES[a["shape"]] else 0
                for j in range(n):
                    if j:
                        segs.append([])
                    segs[-1].append(None)
                if not n:
                    segs[-1].append("DROP")
                continue
            elif p[0] == "ifp" and not a["out"]:
                texts = None
            else:
                segs[-1].append(None)
                continue
            if texts is None:
                segs[-1].append("DROP")
                continue
            for j, t in enumerate(texts):
                if j:
                    segs.append([])
                segs[-1].append(t)
        out: list = []
        for s in segs:
            if "DROP" in s and not any(x not in ("DROP", "") for x in s):
                continue
            s = [x for x in s if x != "DROP"]
            if None not in s:
                out.append(lambda t, want="".join(s): t == want)
            else:
                first = "".join(s[:s.index(None)])
                last = "".join(s[len(s) - s[::-1].index(None):])
                out.append(lambda t, a=first, b=last: t.startswith(a) and t.endswith(b) and len(t) >= len(a) + len(b)
                           and (a or not t.startswith(".")))
        return out

    # -- checks ----------------------------------------------------------------------------------
    def check_fp(self, data: bytes, fp, ctx):
        """Content fingerprints identify contents (for gcs: the server's md5 does)."""
        if self.plan["arts"][ctx.pop("_i")]["lit"]:
            return  # fingerprinted by other means; covered by the files
        if data in self.fps and self.fps[data] != fp:
            self.violate("wrong_fingerprint", f"equal contents have content fingerprints {self.fps[data]} and {fp}", **ctx)
        for d, f in self.fps.items():
            if f == fp and d != data:
                self.violate("wrong_fingerprint", f"contents {d[:40]!r} and {data[:40]!r} have the same content fingerprint {fp}", **ctx)
        self.fps[data] = fp

    def check_disk(self, expect: dict[str, list], ctx, kind="collateral_write"):
        """Everything stored is as the model says, apart from names in `expect` (allowed contents each)."""
        have = self.store.all()
        for name, data in have.items():
            base = os.path.basename(name)
            if name in expect:
                if data not in expect[name]:
                    return name, data
                continue
            if name in self.files:
                if self.files[name] != data:
                    self.violate(kind, f"{name} changed to {data[:60]!r}, though not written to", props=["C10"], **ctx)
            elif name in self.where:
                self.violate(kind, f"{name} appeared holding {data[:60]!r}", props=["C10"], **ctx)
            else:
                # Leftovers of a writer that was cut off must not look like data.
                for i, a in enumerate(self.plan["arts"]):
                    if not a["lit"] and not base.startswith(".") and self.plan["store"] == "file" and not name.startswith("zin"):
                        self.violate("leftover", f"{name} appeared holding {data[:60]!r}", props=["C10", "C09"], **ctx)
        for name in self.files:
            if name not in have and name not in expect:
                self.violate(kind, f"{name} vanished, though not written to", props=["C10"], **ctx)
        for name, allowed in expect.items():
            if name not in have and None not in allowed:
                return name, None
        return None

    # -- ops -------------------------------------------------------------------------------------
    def op_write(self, op):
        i, key, ifp = op["art"], tuple(op["pk"]), op["ifp"]
        if i >= len(self.plan["arts"]):
            raise core.Discard()
        a = self.plan["arts"][i]
        g, art = self.get_graph(), self.art(i)
        pk = to_pk(a["shape"], key)
        kw: dict[str, Any] = {"artifact": art, "partition_key": pk}
        if ifp is not None:
            kw["input_fingerprint"] = Fingerprint.from_int(ifp)
        through = self.snapshot(op["snap"]) if "snap" in op and a["out"] else None
        g, art = self.get_graph(), self.art(i)  # (it may have been restarted)
        kw["artifact"] = art
        to, links = through or (g, {})

        val = real(op["val"])
        bad_val = misfit(val) if op.get("bad") in ("type", "view") else spoil(val) if op.get("bad") else None
        if op.get("bad") == "view":  # (which is fine with the value, but not with the artifact)
            from arti.views.python import Int, Str

            kw["view"] = (Str(type=String(), mode="WRITE") if isinstance(bad_val, str) else Int(type=Int64(), mode="WRITE"))
        if bad_val is not None:
            val = bad_val

        def fn():
            if op.get("conn"):
                with g.backend.connect() as c:
                    return to.write(val, connection=c, **kw)
            return to.write(val, **kw)

        name = None if a["lit"] else self.path(i, key, ifp)
        if name is not None and name in self.where and self.where[name] != (i, key, ifp):
            raise core.Discard()  # templates of two artifacts collide
        old = self.files.get(name) if name else None
        outcome, snap = self.do("write", fn, op)
        self.stats["writes"] += 1
        ctx = self.ctx(outcome)
        if bad_val is not None and outcome == "ok":
            self.violate("lost_write", "a write returned although its value cannot be stored", props=["C10"], **ctx)
        new = lib.dumps(a["fmt"], val) if bad_val is None else old
        if through:
            link = (i, key, ifp)
            prior = links.get(link, [None])
            links[link] = [new] if outcome == "ok" else None if prior is None else list({*prior, new})
            if self.oob_name == name and name is not None:
                links[link] = None  # or whatever was there when its fingerprint was computed
        if name is not None:
            self.where[name] = (i, key, ifp)
        if outcome == "ok":
            self.stats["writes_ok"] += 1
        else:
            self.stats["writes_failed"] += 1
            if outcome == "error" and not self.fired and self.oob_fired is None and bad_val is None:
                self.violate("spurious_failure", f"write failed without cause: {self.err_text}", props=["C10"], **ctx)
        if a["lit"]:
            if outcome == "ok":
                self.check_snap(snap, i, key, ifp, new, ctx)
                self.old.append((snap, i, key, ifp, new))
            return
        raced = self.oob_name == name
        allowed = [new] if outcome == "ok" else [old, new]
        if raced:
            allowed = allowed + [self.files.get(name)]
        bad = self.check_disk({name: allowed}, ctx)
        if bad is not None:
            if outcome == "ok":
                self.violate("lost_write", f"write returned but {name} holds {bad[1] and bad[1][:80]!r}", props=["C10"], **ctx)
            if any(f["kind"] == "garble" for f in self.fired):
                # The service took it for what was sent; the writer was told.
                return self.repair(i, key, ifp, old)
            if raced:
                # In-place rewrite of a file while another process replaces it.
                return self.repair(i, key, ifp, new)
            self.torn(old, name, bad[1], ctx)
            return self.repair(i, key, ifp, new)
        data = self.store.get(self.raw_path(i, key, ifp))
        if data is None:
            self.files.pop(name, None)
        else:
            self.files[name] = data
        if outcome == "ok":
            if not raced:
                self.check_snap(snap, i, key, ifp, new, ctx)
                self.old.append((snap, i, key, ifp, new))
                if op.get("back", True):
                    self.read_one(snap, i, new, {})

    def repair(self, i, key, ifp, data):
        """The operator restores damaged data."""
        if data is None:
            self.store.delete(self.raw_path(i, key, ifp))
            self.files.pop(self.path(i, key, ifp), None)
            return
        self.store.put(self.raw_path(i, key, ifp), data)
        self.files[self.path(i, key, ifp)] = data

    def torn(self, old, name, data, ctx):
        msg = f"a write that failed left {name} holding {data and data[:80]!r} (before: {old and old[:80]!r})"
        if old is None or self.plan["store"] != "file":
            self.violate("torn_write", msg, props=["C10", "C03"], **ctx)
        # Known finding K1: existing local files are rewritten in place.
        hit = any(f["on"] == "line" or (f["at"].split(" ")[0] in ("fs.write", "fs.close", "fs.open_w", "fs.truncate") and name in f["at"]) for f in self.fired)
        if not hit:
            self.violate("torn_write", msg, props=["C10", "C03"], **ctx)
        self.findings.append(("K1", msg))
        self.w.log("FINDING", "K1")

    def check_snap(self, snap, i, key, ifp, data, ctx):
        a = self.plan["arts"][i]
        got_key = from_pk(a["shape"], snap.partition_key)
        if got_key != key:
            self.violate("wrong_discovery", f"partition {key} is recorded as {got_key}", **ctx)
        if (None if snap.input_fingerprint is None else int(snap.input_fingerprint)) != ifp:
            self.violate("wrong_discovery", f"partition {key} with input fingerprint {ifp} is recorded with {snap.input_fingerprint}", **ctx)
        self.check_fp(data, int(snap.content_fingerprint), {**ctx, "_i": i})

    def expected(self, i):
        """{(key, ifp): content} stored for an artifact."""
        return self.expected_in(self.files, i)

    def expected_in(self, files, i):
        a = self.plan["arts"][i]
        return {
            (w[1], w[2]): files[n] for n, w in self.where.items() if w[0] == i and n in files and discoverable(a, w[1])
        }

    def op_discover(self, op):
        i = op["art"]
        if i >= len(self.plan["arts"]):
            raise core.Discard()
        a = self.plan["arts"][i]
        art = self.art(i)
        if a["lit"]:
            return
        exp0 = self.expected(i)
        filt = None
        if a["out"] or op["filt"] == "other":
            rng = random.Random(op["fs"])
            want: dict = {}
            for k, f in sorted(exp0, key=canon):
                if op["filt"] == "all" or rng.random() < 0.6:
                    want[k] = f if rng.random() < 0.8 or f is None else f ^ 1
            if not want and a["out"] or op["filt"] == "other" and not a["out"] and not want:
                want[tuple(gen_key(rng, a["shape"]))] = rng.choice(IFPS)
            if not a["out"]:
                # Raw data has no input fingerprint, so asking for some finds nothing for these keys.
                want = {k: rng.choice([None, 3]) for k in want}
            filt = want
        kw = {}
        if filt is not None:
            kw["input_fingerprints"] = InputFingerprints(
                {to_pk(a["shape"], k): None if f is None else Fingerprint.from_int(f) for k, f in filt.items()}
            )
        def look():
            if op.get("fs", 1) % 3:
                return art.storage.discover_partitions(**kw)
            # A new backend knows nothing yet, so looks as well.
            from arti.backends.memory import MemoryBackend

            with MemoryBackend().connect() as conn:
                return conn.read_artifact_partitions(art, **kw)

        outcome, found = self.do("discover", look, op)
        self.stats["discoveries"] += 1
        ctx = self.ctx(outcome, filt=None if filt is None else [[list(k), v] for k, v in filt.items()], template=template(a["tpl"]))
        if outcome != "ok":
            if outcome == "error" and not self.fired and self.oob_fired is None:
                self.violate("spurious_failure", f"discovery failed without cause: {self.err_text}", props=["C09"], **ctx)
            self.check_disk({}, ctx)
            return
        choices = [self.expected(i)]
        if self.oob_fired is not None:
            choices.append(self.expected_in(self.oob_fired, i))
        errs = []
        for exp in choices:
            if filt is not None:
                exp = {(k, f): d for (k, f), d in exp.items() if filt.get(k) == f}
            errs.append(self.compare(i, exp, found, ctx))
        if all(errs):
            self.violate(*errs[0], props=["C09"], **ctx)
        self.check_disk({}, ctx)
        if op.get("keep") and self.oob_fired is None:
            for s in found:
                k = (from_pk(a["shape"], s.partition_key), None if s.input_fingerprint is None else int(s.input_fingerprint))
                self.check_fp(exp[k], int(s.content_fingerprint), {**ctx, "_i": i})
                self.old.append((s, i, *k, exp[k]))

    def compare(self, i, exp, found, ctx):
        a = self.plan["arts"][i]
        got = []
        for s in found:
            got.append((from_pk(a["shape"], s.partition_key), None if s.input_fingerprint is None else int(s.input_fingerprint)))
        names = set(got)
        by_fp: dict = {}
        for d, f in self.fps.items():
            by_fp.setdefault(f, []).append(d)
        for k in exp:
            if k not in names:
                return "missed_partition", f"{a['key']}: stored partition {k} was not discovered (found {len(got)}: {got[:20]})"
        for k in got:
            if k not in exp:
                return "extra_partition", f"{a['key']}: {k} was discovered but is not stored (stored {len(exp)}: {sorted(exp, key=canon)[:20]})"
        if len(got) != len(names):
            return "extra_partition", f"{a['key']}: partitions were discovered twice: {got}"
        for s, k in zip(found, got):
            known = self.fps.get(exp[k])
            if known is not None and known != int(s.content_fingerprint):
                return "wrong_fingerprint", f"{a['key']}: {k} is discovered with content fingerprint {s.content_fingerprint}, its content has {known}"
            if any(d != exp[k] for d in by_fp.get(int(s.content_fingerprint), ())):
                return "wrong_fingerprint", f"{a['key']}: {k} is discovered with the content fingerprint of other contents"
            if s.storage_partition.storage != self.art(i).storage:
                return "wrong_discovery", f"{a['key']}: {k} is discovered in other storage"
        return None

    def value_of(self, a, data):
        try:
            x = lib.loads(a["fmt"], data)
            if a["fmt"] == "json" and a["shape"] in VALUES:
                x = from_json(VALUES[a["shape"]], x)
            elif a["fmt"] == "json" and a["shape"] == "km" and isinstance(x, list):
                x = [{**r, "m": from_json(ROWMAP, r["m"])} if isinstance(r, dict) and "m" in r else r for r in x]
            return x, True
        except Exception:
            return None, False

    def key_of(self, shape, value):
        if SHAPES[shape]:
            return json.dumps(sorted(map(typed_canon, value))) if isinstance(value, list) else typed_canon(value)
        return typed_canon(value)

    def read_parts(self, i, snaps, op):
        g, art = self.get_graph(), self.art(i)
        py = PY.get(self.plan["arts"][i]["shape"], list)
        return self.do("read", lambda: own(g.read(art, annotation=py, storage_partition_snapshots=tuple(snaps))), op)

    def read_one(self, snap, i, data, op):
        a = self.plan["arts"][i]
        outcome, got = self.read_parts(i, [snap], op)
        self.stats["reads"] += 1
        ctx = self.ctx(outcome)
        if outcome != "ok":
            self.violate("read_error", f"reading what was just written raised {self.err_text}", props=["C10"], **ctx)
        want = self.value_of(a, data)[0]
        if self.key_of(a["shape"], got) != self.key_of(a["shape"], want):
            self.violate("wrong_read", f"reads {got!r}, written {want!r}", props=["C10"], **ctx)

    def op_readold(self, op):
        """Read through recorded snapshots of partitions, whose data may have changed since."""
        if not self.old:
            return
        s0 = self.old[op["i"] % len(self.old)]
        i = s0[1]
        a = self.plan["arts"][i]
        picks = [s0]
        if op.get("many") and SHAPES[a["shape"]]:
            seen = {(s0[2], s0[3])}
            for s in reversed(self.old):
                if s[1] == i and (s[2], s[3]) not in seen:
                    seen.add((s[2], s[3]))
                    picks.append(s)
        before = dict(self.files)
        outcome, got = self.read_parts(i, [s[0] for s in picks], op)
        self.stats["old_reads"] += 1
        ctx = self.ctx(outcome)

        def state(files):
            return all(a["lit"] or files.get(self.path(i, s[2], s[3])) == s[4] for s in picks)

        fresh = state(before)
        end = state(self.files)
        if not fresh:
            self.stats["stale_reads"] += 1
        want = [self.value_of(a, s[4]) for s in picks]
        readable = all(ok for _, ok in want)
        if outcome == "ok":
            if not fresh and not end:
                self.violate("stale_read", f"read of {a['key']} returned {got!r} although the data changed since it was recorded", props=["C10", "C07"], **ctx)
            if not readable:
                self.violate("wrong_read", f"read of {a['key']} returned {got!r} for unreadable contents", props=["C10"], **ctx)
            rows = [v for v, _ in want]
            exp = self.key_of(a["shape"], rows[0] if not SHAPES[a["shape"]] else [r for x in rows for r in (x if isinstance(x, list) else [x])])
            if self.key_of(a["shape"], got) != exp:
                self.violate("wrong_read", f"read of {a['key']} returned {got!r}, recorded {rows!r}", props=["C10", "C07"], **ctx)
        elif outcome == "error" and not self.fired and fresh and end and readable:
            if self.oob_fired is None:
                self.violate("read_error", f"reading {a['key']} raised {self.err_text}", props=["C10"], **ctx)
        self.check_disk({}, ctx)

    def op_sread(self, op):
        """Read what was written through a snapshot."""
        i = op["art"]
        if i >= len(self.plan["arts"]) or not self.plan["arts"][i]["out"]:
            raise core.Discard()
        a = self.plan["arts"][i]
        through = self.snapshot(op["snap"])
        if not through:
            return
        snap, links = through
        g, art = self.get_graph(), self.art(i)
        links = {(k, f): c for (j, k, f), c in links.items() if j == i}
        if any(c is None for c in links.values()):
            return
        py = PY.get(a["shape"], list)

        def fn():
            if op.get("conn"):
                with g.backend.connect() as c:
                    return own(snap.read(art, annotation=py, connection=c))
            return own(snap.read(art, annotation=py))

        outcome, got = self.do("snapshot.read", fn, op)
        self.stats["snap_reads"] = self.stats.get("snap_reads", 0) + 1
        if outcome in ("crash", "interrupt") or outcome == "error" and self.fired:
            return
        ctx = self.ctx(outcome)
        choices = list(itertools.islice(itertools.product(*([(k, d) for d in c] for k, c in links.items())), 64))
        why = []
        for choice in choices:
            parts = {k: d for k, d in choice if d is not None}
            now = all(a["lit"] or self.files.get(self.path(i, *k)) == d for k, d in parts.items())
            vals = [self.value_of(a, d) for d in parts.values()]
            if not parts:
                fine, exp = outcome == "error" and isinstance(self.err, FileNotFoundError), "no data"
            elif not now or not all(ok for _, ok in vals) or len(parts) > 1 and not SHAPES[a["shape"]]:
                fine, exp = outcome == "error", "an error"
            else:
                rows = [v for v, _ in vals]
                exp = self.key_of(a["shape"], rows[0] if not SHAPES[a["shape"]] else [r for x in rows for r in x])
                fine = outcome == "ok" and self.key_of(a["shape"], got) == exp
            if fine:
                return
            why.append(exp)
        self.violate("wrong_read", f"reading {a['key']} through a snapshot gave {got!r} {self.err_text}, expected {why}", props=["C10", "C07", "C01"], **ctx)

    def op_lit(self, op):
        """Values given in the graph itself read as such and cannot be written."""
        shape, v = self.plan["lits"][op["i"]]
        v = real(v)
        g = self.get_graph()
        art = lib.box_get(g.artifacts, f"lit{op['i']}")
        props = ["C10", "C05"]
        if op["do"] == "found":
            for _ in range(2):
                found = art.storage.discover_partitions()
                if len(found) != 1 or found[0].partition_key != PartitionKey() or found[0].input_fingerprint is not None:
                    self.violate("missed_partition", f"the literal {v!r} is discovered as {found}", props=["C09", "C10"])
            return
        if op["do"] == "write":
            new = copy.deepcopy(v) if op["same"] else real(op["new"])
            outcome, got = self.do("write", lambda: g.write(new, artifact=art), {})
            if outcome == "ok":
                self.violate("lost_write", f"a write of {new!r} to the literal {v!r} returned", props=["C10"], **self.ctx(outcome))
        py = PY.get(shape) if shape else type(v)
        src: Any = g
        if op["do"] == "sread":
            through = self.snapshot(op["i"])
            src = through[0] if through else g
        outcome, got = self.do("read", lambda: own(src.read(art, annotation=py)), {})
        if outcome in ("crash", "interrupt"):
            return
        if outcome != "ok":
            self.violate("spurious_failure", f"reading the literal {v!r} failed: {self.err_text}", props=props, **self.ctx(outcome))
        if typed_canon(got) != typed_canon(v):
            self.violate("wrong_raw_read", f"the literal {v!r} reads as {got!r}", props=props, **self.ctx(outcome))

    def op_read(self, op):
        """Graph.read of a raw artifact: what is stored now."""
        i = op["art"]
        if i >= len(self.plan["arts"]):
            raise core.Discard()
        a = self.plan["arts"][i]
        if a["out"]:
            return
        g, art = self.get_graph(), self.art(i)
        py = PY.get(a["shape"], list)
        if op.get("bad"):
            py = int if py is str else str
        before = dict(self.files)
        outcome, got = self.do("graph.read", lambda: own(g.read(art, annotation=py)), op)
        self.stats["reads"] += 1
        ctx = self.ctx(outcome)
        if op.get("bad"):
            if outcome == "ok":
                self.violate("wrong_raw_read", f"{a['key']} was read as {py}, which it is not: {got!r}", **ctx)
            self.check_disk({}, ctx)
            return
        choices = [self.expected_in(before, i)]
        if self.oob_fired is not None:
            choices.append(self.expected(i))
        if outcome in ("crash", "interrupt"):
            return
        if outcome == "error" and (self.fired or self.oob_fired is not None):
            return
        fits = False
        for exp in choices:
            vals = [self.value_of(a, d) for d in exp.values()]
            if not exp:
                fits |= outcome == "error" and isinstance(self.err, FileNotFoundError)
            elif not all(ok for _, ok in vals):
                fits |= outcome == "error"
            elif outcome == "ok":
                rows = [v for v, _ in vals]
                try:
                    want = self.key_of(a["shape"], rows[0] if not SHAPES[a["shape"]] else [r for x in rows for r in x])
                except TypeError:
                    return  # flipped into something else altogether
                fits |= self.key_of(a["shape"], got) == want
            elif any(not isinstance(v, list) for v, _ in vals if SHAPES[a["shape"]]):
                return
        if not fits:
            self.violate("wrong_raw_read", f"reading {a['key']} gave {got!r} {self.err_text}, stored are {choices}", **ctx)
        self.check_disk({}, ctx)

    def op_restart(self, op):
        self.restart()

    def op_ipc(self, op):
        """Recorded partitions are handed to another process (by pickle)."""
        import pickle

        if self.old:
            j = op["i"] % len(self.old)
            s = self.old[j]
            c = pickle.loads(pickle.dumps(s[0]))
            if c != s[0] or c.fingerprint != s[0].fingerprint:
                self.violate("wrong_fingerprint", "an unpickled partition snapshot differs from the original", props=["C06"])
            self.old[j] = (c, *s[1:])

    def run(self):
        # Templates of different artifacts must not collide.
        self.get_graph()
        names: dict = {}
        for op in self.plan["ops"]:
            for o in (op, (op.get("oob") or {}).get("edit") or {}):
                if "pk" in o and o.get("art", 99) < len(self.plan["arts"]):
                    a = self.plan["arts"][o["art"]]
                    if a["lit"]:
                        continue
                    w = (o["art"], tuple(o["pk"]), o["ifp"])
                    n = self.path(*w)
                    if names.setdefault(n, w) != w:
                        raise core.Discard()
        for n in names:
            for m in names:
                if m.startswith(n + "/"):
                    raise core.Discard()  # a file cannot be a directory as well
        for j, op in enumerate(self.plan["ops"]):
            self.cur = j
            getattr(self, "op_" + op["op"])(op)
        # Finally, without faults: everything stored is discovered and can be read.
        self.cur = "settle"
        for i, a in enumerate(self.plan["arts"]):
            if not a["lit"]:
                self.op_discover({"art": i, "filt": "all", "fs": 0, "keep": True})
                if not a["out"]:
                    self.op_read({"art": i})


def run(plan):
    r = Run(plan)
    try:
        r.run()
    finally:
        r.w.end_op()
    return {"stats": r.stats, "findings": r.findings}
