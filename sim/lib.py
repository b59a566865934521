"""The user code run against artigraph: artifacts, producers and graphs built from a JSON spec, together
with an independent pure evaluator of what such a graph means (the reference model).
"""
from __future__ import annotations

import hashlib
import json
import pickle
import sys
from datetime import date
from typing import Annotated, Any

import arti
from arti import Annotation, Artifact, Graph, PartitionDependencies, PartitionKey, Producer
from arti.formats import Format
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import DateField, Int64Field, NotPartitioned
from arti.producers import InputPartitions, producer
from arti.storage import Storage, StoragePartitions
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Date, Int64, Struct, Type
from arti.versions import SemVer, String, Timestamp

from sim import core
from sim.core import canon, canon_rows


class SArt(Artifact):
    type: Type = Int64()


class KArt(Artifact):
    type: Type = Collection(element=Struct(fields={"k": Int64(), "v": Int64()}), partition_by=("k",))


class DArt(Artifact):
    type: Type = Collection(element=Struct(fields={"d": Date(), "v": Int64()}), partition_by=("d",))


class MArt(Artifact):
    type: Type = Collection(
        element=Struct(fields={"d": Date(), "k": Int64(), "v": Int64()}), partition_by=("d", "k")
    )


ART = {"s": SArt, "k": KArt, "d": DArt, "m": MArt}
PY = {"s": int, "k": list, "d": list, "m": list}
KEYS = {"s": (), "k": ("k",), "d": ("d",), "m": ("d", "k")}


def to_pk(shape: str, key) -> PartitionKey:
    fields = {}
    for name, value in zip(KEYS[shape], key, strict=True):
        fields[name] = DateField(value=date.fromisoformat(value)) if name == "d" else Int64Field(value=value)
    return PartitionKey(fields)


def from_pk(shape: str, pk) -> tuple:
    return tuple(pk[n].value.isoformat() if n == "d" else pk[n].value for n in KEYS[shape])


# -- operations ------------------------------------------------------------------------------------
def _rows(rows, shape, f):
    return sorted(({**r, "v": f(r)} for r in rows), key=canon)


def _wt(key) -> int:
    return int(hashlib.sha256(canon(list(key)).encode()).hexdigest()[:4], 16) % 17 + 1


def _even(key) -> bool:
    last = key[-1]
    return (last if isinstance(last, int) else int(last[-2:])) % 2 == 0


def _rowkey(r):
    return [r.get("d"), r.get("k")]


class Op:
    def __init__(self, ins, outs, calc, deps=None):
        self.ins, self.outs, self.calc, self.deps = ins, outs, calc, deps


def _same(i="i0", extra=()):
    """Output partitions = partitions of `i`, each also depending on all partitions of `extra`."""

    def deps(keys):
        return {k: {i: [k], **{e: list(keys[e]) for e in extra}} for k in keys[i]}

    return deps


def _zip(keys):
    return {k: {"i0": [k], "i1": [k]} for k in keys["i0"] if k in set(keys["i1"])}


def _group(keys):
    out: dict = {}
    for k in keys["i0"]:
        out.setdefault((k[0] // 2,), []).append(k)
    return {k: {"i0": v} for k, v in out.items()}


def _window(keys):
    have = set(keys["i0"])
    return {k: {"i0": [p for p in ((k[0] - 1,), k) if p in have]} for k in keys["i0"]}


def _explode(keys):
    return {(i,): {"i0": list(keys["i0"])} for i in range(3)}


def _zipcalc(c, a, b):
    bv = {canon(_rowkey(r)): r["v"] for r in b}
    return (_rows(a, None, lambda r: 3 * r["v"] - bv.get(canon(_rowkey(r)), 0) + c),)


# `P` stands for any partitioned shape.
OPS = {
    "lin1": Op("s", "s", lambda c, a: (3 * a + c,)),
    "lin2": Op("ss", "s", lambda c, a, b: (2 * a - 5 * b + c,)),
    "lin3": Op("sss", "s", lambda c, a, b, d: (2 * a - 5 * b + 11 * d + c,)),
    "clip": Op("s", "s", lambda c, a: (a // 10 + c,)),
    "first": Op("ss", "s", lambda c, a, b: (a + c,)),
    "two": Op("ss", "ss", lambda c, a, b: (a + b + c, a - b)),
    "dup": Op("s", "ss", lambda c, a: (a + c, a + c)),
    "three": Op("s", "sss", lambda c, a: (a + c, a * 2, a - 1)),
    "const": Op("", "s", lambda c: (c,)),
    "pmap": Op("P", "P", lambda c, a: (_rows(a, None, lambda r: 2 * r["v"] + c),), _same()),
    "pclip": Op("P", "P", lambda c, a: (_rows(a, None, lambda r: r["v"] // 10 + c),), _same()),
    "pmap2": Op(
        "P", "PP",
        lambda c, a: (_rows(a, None, lambda r: r["v"] + c), _rows(a, None, lambda r: -r["v"])),
        _same(),
    ),
    "pbroad": Op("Ps", "P", lambda c, a, b: (_rows(a, None, lambda r: r["v"] + 7 * b + c),), _same("i0", ("i1",))),
    "pall": Op(
        "PP", "P",
        lambda c, a, b: (_rows(a, None, lambda r: r["v"] + sum(x["v"] for x in b) + c),),
        _same("i0", ("i1",)),
    ),
    "pfilter": Op(
        "P", "P", lambda c, a: (_rows(a, None, lambda r: r["v"] + c),),
        lambda keys: {k: {"i0": [k]} for k in keys["i0"] if _even(k)},
    ),
    "psum": Op("P", "s", lambda c, a: (sum(r["v"] * _wt(_rowkey(r)) for r in a) + c,)),
    "pzip": Op("PP", "P", _zipcalc, _zip),
    "pgroup": Op("k", "k", lambda c, a: (_rows(a, None, lambda r: r["v"] + c),), _group),
    "pwin": Op("k", "k", lambda c, a: ([{"v": sum(r["v"] * _wt(_rowkey(r)) for r in a) + c}],), _window),
    "pexplode": Op("s", "k", lambda c, a: ([{"v": a + c}],), _explode),
}


# -- versions --------------------------------------------------------------------------------------
def ident_of(ver) -> str:
    """What a version declares to be the identity of the code."""
    if ver[0] == "sem" and ver[1] > 0:
        return f"sem:{ver[1]}"
    return ":".join(map(str, ver))


def salt_of(cls, ver) -> int:
    return int(hashlib.sha256(f"{cls}|{ident_of(ver)}".encode()).hexdigest()[:6], 16) % 199 - 99


def make_version(ver):
    if ver[0] == "sem":
        return SemVer(major=ver[1], minor=ver[2], patch=ver[3])
    if ver[0] == "str":
        return String(value=ver[1])
    from datetime import datetime

    return Timestamp(dt=datetime.fromisoformat(ver[1]))


class ProducerError(Exception):
    pass


# The run's record of producer executions: (class, identity, args).
CALLS: list[tuple[str, str, str]] = []
# (class name, output position): outputs whose bytes differ from one execution to the next, not their values.
NOISE: set[tuple[str, int]] = set()
# class name -> [modulus, remainder]: outputs including such a value do not validate.
INVALID: dict[str, list[int]] = {}
VALIDATION_MSGS = ["simulated validation failure of {0}", "", "100%s {} of\nthe outputs %d", " "]


def validation_msg(cls) -> str:
    """A user's message; may be anything."""
    return VALIDATION_MSGS[int(hashlib.sha256(f"{INVALID.get(cls)}{cls}".encode()).hexdigest(), 16) % len(VALIDATION_MSGS)]


def values_in(x) -> list[int]:
    if isinstance(x, list):
        return [r["v"] for r in x]
    return [x]


def is_valid(cls: str, outs) -> bool:
    rule = INVALID.get(cls)
    return rule is None or all(v % rule[0] != rule[1] for o in outs for v in values_in(o))


def scramble(x):
    """What user code may do with a value it was given: it is its own."""
    if isinstance(x, list):
        for r in x:
            scramble(r)
        x.append({"scrambled": 1})
    elif isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, list | dict):
                scramble(v)
            else:
                x[k] = None
    return x


def take(shape, got) -> str:
    """The canonical form of a value read (which is then changed in place)."""
    key = canon_rows(got) if shape != "s" else canon(got)
    scramble(got)
    return key


class _Wrong:
    pass


_classes: dict[tuple, type[Producer]] = {}


def producer_class(opname: str, cls: str, ins: str, outs: str, ver, style: str = "dec") -> type[Producer]:
    """The Producer class for an operation; same class name for all versions of it (redeployed code)."""
    key = (opname, cls, ins, outs, tuple(ver), style)
    if key in _classes:
        return _classes[key]
    op = OPS[opname]
    salt, ident = salt_of(cls, ver), ident_of(ver)
    names = [f"i{i}" for i in range(len(ins))]

    def impl(**kwargs):
        args = [kwargs[n] for n in names]
        CALLS.append((cls, ident, args_key(dict(zip(names, args)))))
        w = core.world()
        w.log("CALL", cls, ident, CALLS[-1][2])
        f = w.event("prod", "build", cls) if w.active else None
        if f is not None:
            if f["kind"] == "arity" and len(outs) > 1:
                out = op.calc(salt, *args)
                return out[:-1] if f.get("frac", 0) < 0.5 else (*out, out[0])
            raise ProducerError(f"simulated failure in {cls}")
        out = op.calc(salt, *args)
        scramble(args)
        if NOISE and not CALLS.count(CALLS[-1]) % 2:
            out = tuple([dict(reversed(r.items())) for r in o] if (cls, i) in NOISE else o for i, o in enumerate(out))
        return out if len(out) > 1 else out[0]

    def validate(*outputs):
        w = core.world()
        if w.active:
            f = w.event("prod", "validate", cls)
            if f is not None:
                raise ProducerError(f"simulated failure in validation of {cls}")
        if is_valid(cls, outputs):
            return True, "ok"
        w.log("INVALID", cls)
        return False, validation_msg(cls)

    ns: dict[str, Any] = {"_impl": impl, "_PD": PartitionDependencies, "_SP": StoragePartitions}
    for n, shape in zip(names, ins):
        ns[f"_T{n}"] = Annotated[PY[shape], ART[shape]]
    rets = tuple(Annotated[PY[s], ART[s]] for s in outs)
    ns["_ret"] = rets[0] if len(rets) == 1 else tuple[rets]  # type: ignore[valid-type]
    params = ", ".join(f"{n}: _T{n}" for n in names)
    body = "{" + ", ".join(f"'{n}': {n}" for n in names) + "}"
    exec(f"def {cls}({params}) -> _ret:\n    return _impl(**{body})\n", ns)
    build = ns[cls]
    build.__module__ = "sim.lib"
    map_ = None
    if op.deps is not None:
        oshape = outs[0]

        def mapimpl(**kwargs):
            w = core.world()
            if w.active:
                f = w.event("prod", "map", cls)
                if f is not None and f["kind"] != "empty":
                    raise ProducerError(f"simulated failure in map of {cls}")
            keyed = {
                n: {from_pk(s, p.partition_key): p for p in kwargs[n]} for n, s in zip(names, ins)
            }
            deps = op.deps({n: sorted(v, key=canon) for n, v in keyed.items()})
            if w.active and f is not None:  # a partition without any data for one of the inputs
                if not deps or not names:
                    raise ProducerError(f"simulated failure in map of {cls}")
                k = sorted(deps, key=canon)[int(f.get("frac", 0) * len(deps))]
                deps[k] = {**deps[k], names[int(f.get("frac", 0) * 7) % len(names)]: []}
            return PartitionDependencies(
                {
                    to_pk(oshape, k): InputPartitions(
                        {n: tuple(keyed[n][i] for i in sel) for n, sel in d.items()}
                    )
                    for k, d in deps.items()
                }
            )

        ns["_mapimpl"] = mapimpl
        mp = ", ".join(f"{n}: _SP" for n in names)
        exec(f"def map({mp}) -> _PD:\n    return _mapimpl(**{body})\n", ns)
        map_ = ns["map"]
    # ("inst": given to each instance, see `outputs_of`)
    version = make_version(ver) if style != "inst" else String(value="default")
    if style == "dec":
        P = producer(name=cls, map=map_, validate_outputs=validate, version=version)(build)
    else:
        d: dict[str, Any] = {
            "__annotations__": {**{n: ART[s] for n, s in zip(names, ins)}, "version": arti.Version},
            "__module__": "sim.lib",
            "build": staticmethod(build),
            "validate_outputs": staticmethod(validate),
            "version": version,
        }
        if map_ is not None:
            d["map"] = staticmethod(map_)
        P = type(cls, (Producer,), d)
    # Importable (hence picklable) under a unique qualified name, while keeping the same class name.
    P.__module__ = "sim.lib"
    P.__qualname__ = "P_" + hashlib.sha256(repr(key).encode()).hexdigest()[:16]
    setattr(sys.modules[__name__], P.__qualname__, P)
    _classes[key] = P
    return P


def args_key(args: dict) -> str:
    return json.dumps({n: canon_rows(v) for n, v in sorted(args.items())})


# -- graphs ----------------------------------------------------------------------------------------
FMT = {"json": JSON, "pickle": Pickle}
EXT = {"json": ".json", "pickle": ".pickle"}


def dumps(fmt, value) -> bytes:
    return json.dumps(value).encode() if fmt == "json" else pickle.dumps(value)


def loads(fmt, data: bytes):
    return json.loads(data) if fmt == "json" else pickle.loads(data)


RAW_TEMPLATES = {
    "s": ["raw/{N}{extension}", "raw/{N}/data{extension}"],
    "k": ["raw/{N}/{k.value}{extension}", "raw/{N}/k={k.hex}/data{extension}", "raw/{N}/{partition_key_spec}/d{extension}"],
    "d": ["raw/{N}/{d.iso}{extension}", "raw/{N}/{d.Y}/{d.m:02}/{d.d:02}/x{extension}", "raw/{N}/{partition_key_spec}/d{extension}"],
    "m": ["raw/{N}/{d.iso}/{k.value}{extension}", "raw/{N}/{partition_key_spec}/d{extension}"],
}
OUT_TEMPLATES = [
    "out/{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}",
    "out/{graph_name}/{names}/{partition_key_spec}/{input_fingerprint}{extension}",
    "out/{names}/{input_fingerprint}/{partition_key_spec}/x{extension}",
]


def raw_path(root, art, key) -> str:
    """Where a raw partition lives, by this harness' own reading of the template."""
    t = RAW_TEMPLATES[art["shape"]][art.get("tpl", 0)]
    name = art.get("slot") or art["key"].replace(".", "-")
    shape = art["shape"]
    d = dict(zip(KEYS[shape], key))
    out = t.replace("{N}", name).replace("{extension}", EXT[art["fmt"]])
    spec = []
    if "d" in d:
        y, m, dd = d["d"].split("-")
        y = str(int(y))
        out = out.replace("{d.iso}", d["d"]).replace("{d.Y}", y).replace("{d.m:02}", m).replace("{d.d:02}", dd)
        spec += [f"d_Y={y}", f"d_m={m}", f"d_d={dd}"]
    if "k" in d:
        out = out.replace("{k.value}", str(d["k"])).replace("{k.hex}", hex(d["k"]))
        spec += [f"k_value={d['k']}"]
    return f"{root}/" + out.replace("{partition_key_spec}", "/".join(spec))


def template_of(spec, node, is_raw, i=0):
    root = spec["root"]
    if is_raw:
        name = node.get("slot") or node["key"].replace(".", "-")
        return f"{root}/" + RAW_TEMPLATES[node["shape"]][node.get("tpl", 0)].replace("{N}", name)
    if node.get("paths"):  # explicit ones, by output
        return f"{root}/" + node["paths"][i]
    return f"{root}/" + OUT_TEMPLATES[node.get("tpl", 0)]


def _storage(spec, node, is_raw, i=0):
    store = node["store"]
    if store == "lit":
        return StringLiteral()
    path = template_of(spec, node, is_raw, i)
    if store == "gcs":
        from arti.storage.google.cloud.storage import GCSFile

        return GCSFile(bucket="bkt", path=path)
    return LocalFile(path=path)


def box_set(box, key, value):
    *head, last = key.split(".")
    for h in head:
        box = getattr(box, h)
    setattr(box, last, value)


def box_get(box, key):
    for h in key.split("."):
        box = getattr(box, h)
    return box


class Note(Annotation):
    text: str


def notes_of(node):
    return {"annotations": (Note(text=node["note"]),)} if node.get("note") else {}


def artifact_of(spec, node):
    return ART[node["shape"]](format=FMT[node["fmt"]](), storage=_storage(spec, node, True), **notes_of(node))


def define(spec, code, backend=None, pause=None) -> Graph:
    """Define a graph in the order of the nodes. `pause`: called with the open graph before each of them."""
    kw: dict[str, Any] = {"name": spec["name"]}
    if backend is not None:
        kw["backend"] = backend
    if spec.get("tags"):
        from arti.internal.mappings import frozendict

        kw["path_tags"] = frozendict(spec["tags"])
    return extend(Graph(**kw), spec, code, spec["nodes"], pause)


def extend(graph, spec, code, nodes, pause=None) -> Graph:
    """Open the graph and define (more) nodes."""
    with graph as g:
        for node in nodes:
            if pause is not None:
                pause(g)
            if node["kind"] == "raw":
                if node["store"] == "lit":
                    lit = SArt(format=JSON(), storage=StringLiteral(value=json.dumps(node["value"])), **notes_of(node))
                    box_set(g.artifacts, node["key"], lit)
                else:
                    box_set(g.artifacts, node["key"], artifact_of(spec, node))
                continue
            for key, a in zip(node["outs"], outputs_of(g, spec, node, code)):
                if key is not None:
                    box_set(g.artifacts, key, a)
    return g


def outputs_of(g, spec, node, code):
    """The artifacts of a producer node. Outputs may be assigned to further keys: the same artifacts, or those
    of another, equal, instance of the producer (`again`)."""
    P = producer_of(node, code)
    n = len(sig_of(node))

    def instance():
        p = P(**{f"i{i}": box_get(g.artifacts, k) for i, k in enumerate(node["ins"])}, **given_version(node, code))
        outs = tuple(
            ART[s](format=FMT[node["fmt"]](), storage=_storage(spec, {**node, "store": st}, False, i), **notes_of(node))
            for i, (s, st) in enumerate(zip(node["oshapes"][:n], node["stores"]))
        )
        res = p.out(*outs)
        return res if isinstance(res, tuple) else (res,)

    res = instance()
    if len(node["outs"]) == n:
        return res
    more = instance() if node.get("again") else res
    return [*res, *(more[j] for j in node["pos"][n:])]


def sig_of(node) -> str:
    """Shapes of the operation's outputs."""
    return node["oshapes"][: len(OPS[node["op"]].outs)]


def pos_of(node):
    """Which output of the operation each one of the node is."""
    return node.get("pos") or list(range(len(node["outs"])))


def producer_of(node, code):
    return producer_class(
        node["op"], node["cls"], node["ishapes"], sig_of(node), code[node["cls"]], node.get("style", "dec")
    )


def given_version(node, code):
    """The fields that carry the version where the class doesn't."""
    return {"version": make_version(code[node["cls"]])} if node.get("style") == "inst" else {}


def shape_of(spec) -> dict[str, str]:
    shapes = {}
    for n in spec["nodes"]:
        if n["kind"] == "raw":
            shapes[n["key"]] = n["shape"]
        else:
            for k, s in zip(n["outs"], n["oshapes"]):
                if k is not None:
                    shapes[k] = s
    return shapes


class Work:
    """One producer execution a build calls for."""

    __slots__ = ("node", "pk", "cls", "ident", "deps", "args", "outs", "missing")

    def __init__(self, node, pk, cls, ident, deps, args, outs, missing):
        self.node, self.pk, self.cls, self.ident = node, pk, cls, ident
        self.deps, self.args, self.outs, self.missing = deps, args, outs, missing

    @property
    def run(self):
        return (self.cls, self.ident, self.args)

    @property
    def key(self):
        return (self.cls, self.ident, self.deps)


def evaluate(spec, code, raw):
    """The meaning of a graph: ({artifact key: {partition: value}}, [works by node])."""
    vals: dict[str, dict[tuple, Any]] = {}
    works: list[list[Work]] = []
    for n in spec["nodes"]:
        if n["kind"] == "raw":
            vals[n["key"]] = {(): n["value"]} if n["store"] == "lit" else dict(raw[n["key"]])
            continue
        op = OPS[n["op"]]
        ver = code[n["cls"]]
        names = [f"i{i}" for i in range(len(n["ins"]))]
        src = {nm: vals[k] for nm, k in zip(names, n["ins"])}
        if op.deps is None:
            deps = {(): {nm: sorted(src[nm], key=canon) for nm in names}}
        else:
            deps = op.deps({nm: sorted(src[nm], key=canon) for nm in names})
        outs: list[dict] = [{} for _ in n["oshapes"]]
        here = []
        for pk, sel in sorted(deps.items(), key=lambda kv: canon(kv[0])):
            args, missing = {}, False
            for nm, shape in zip(names, n["ishapes"]):
                got = [src[nm][k] for k in sel[nm]]
                if not got:
                    missing = True
                    args[nm] = None
                elif any(v is POISON for v in got):
                    missing = True
                    args[nm] = None
                else:
                    args[nm] = got[0] if shape == "s" else [r for rows in got for r in rows]
            depkey = json.dumps({nm: sorted(canon(src[nm][k]) if src[nm][k] is not POISON else "?" for k in sel[nm]) for nm in names})
            res = None if missing else op.calc(salt_of(n["cls"], ver), *[args[nm] for nm in names])
            res = None if res is None else [res[j] for j in pos_of(n)]
            here.append(Work(n, pk, n["cls"], ident_of(ver), depkey, None if missing else args_key(args), res, missing))
            for i in range(len(n["oshapes"])):
                outs[i][pk] = POISON if res is None else res[i]
        works.append(here)
        for k, v in zip(n["outs"], outs):
            if k is not None:
                vals[k] = v
    return vals, works


class _Poison:
    def __repr__(self):
        return "<not computable>"


POISON = _Poison()


def read_key(shape, value_by_pk) -> str | None:
    """Canonical form of what reading an artifact gives. None if there is no data."""
    value_by_pk = {k: v for k, v in value_by_pk.items() if v is not POISON}
    if not value_by_pk:
        return None
    if shape == "s":
        return canon(next(iter(value_by_pk.values())))
    return json.dumps(sorted(canon(r) for rows in value_by_pk.values() for r in rows))
