"""Workload "dispatch": first uses of readers, writers, views, types and producers in a fresh process, from
several threads, with plugins that are discovered lazily, failing or interrupted imports and listings.

Runs in "cold" workers: forked from a process that has imported `arti` (and third party packages), but
none of the modules artigraph discovers lazily.
"""
from __future__ import annotations

import importlib
import importlib._bootstrap_external as bext
import json
import os
import random
import sys
import traceback
from collections.abc import Sequence  # noqa: F401
from datetime import date, datetime
from typing import Annotated, Any  # noqa: F401

import arti
from arti import Artifact, Format, Graph, PartitionKey
from arti.types import Collection, Float64, Int64, List, String, Struct, TypeSystem

from sim import core, fs, sched
from sim.sched import gen_sched
from sim.core import SimCrash

PROFILES = {
    "threads": dict(threads=(2, 4), faults=0.0, interrupts=0.0),
    "failing": dict(threads=(0, 3), faults=0.8, interrupts=0.0),
    "interrupts": dict(threads=(0, 3), faults=0.1, interrupts=0.9),
    "late": dict(threads=(2, 4), faults=0.0, interrupts=0.0),
}
N_PLUG = 3


class _Types(TypeSystem):
    """Everything is fine."""

    def to_artigraph(self, type_, *, hints):
        raise NotImplementedError

    def to_system(self, type_, *, hints):
        return type_


SYSTEM = _Types(key="sim")


class PF0(Format):
    type_system = SYSTEM
    extension: str = ".pf0"


class PF1(Format):
    type_system = SYSTEM
    extension: str = ".pf1"


class PF2(Format):
    type_system = SYSTEM
    extension: str = ".pf2"


class NoFmt(Format):
    type_system = SYSTEM
    extension: str = ".no"


PFS = [PF0, PF1, PF2]


class CF0(Format):
    """Formats whose readers and writers are registered while the program runs: each is used for the formats
    derived from it, unless there is a more specific one."""

    type_system = SYSTEM
    extension: str = ".cf"


class CF1(CF0):
    pass


class CF2(CF1):
    pass


class DF1(CF0):
    pass


CFS = {"CF0": CF0, "CF1": CF1, "CF2": CF2, "DF1": DF1}
PARENT = {"CF0": None, "CF1": "CF0", "CF2": "CF1", "DF1": "CF0"}


class PT0:
    pass


class PT1:
    pass


class PT2:
    pass


PTS = [PT0, PT1, PT2]
ANNS = {
    "int": int, "str": str, "float": float, "list": list, "dict": dict, "date": date, "datetime": datetime, "None": None,
    "list[int]": list[int], "dict[str,int]": dict[str, int],
}
CLASSES = {"int": "Int", "str": "Str", "float": "Float", "list": "List", "dict": "Dict", "date": "Date", "datetime": "Datetime",
           "None": "Null", "list[int]": "List", "dict[str,int]": "Dict"}
MODULES = [
    "arti.io.json_localfile_python", "arti.io.pickle_localfile_python", "arti.io.json_stringliteral_python", "arti.io.json_gcsfile_python",
    "arti.io.pickle_gcsfile_python", "arti.views.python", "arti.types.python", "arti.types.numpy", "arti.types.pandas", "arti.types.pyarrow",
    "arti.types.bigquery", "arti.types.pydantic", "arti.storage.local", "arti.storage.literal", "arti.formats.json", "arti.formats.pickle",
    "arti.backends.memory", "arti.executors.local", "arti.versions", "arti.storage.google.cloud.storage",
]
# The combinations readers and writers exist for.
COMBOS = [("JSON", "LocalFile"), ("Pickle", "LocalFile"), ("JSON", "StringLiteral"), ("JSON", "GCSFile"), ("Pickle", "GCSFile")]


def plugin_point(name):
    """Called by plugin modules while they are imported."""
    w = core.world()
    if w is not None and w.active:
        f = w.event("plug", "import", name)
        if f is not None:
            raise ImportError(f"simulated failure importing {name}") if f["kind"] == "ImportError" else w.oserror(f, name)


IO_PLUGIN = '''from collections.abc import Sequence
from typing import Any

from sim.dispatch import {F} as F, plugin_point

plugin_point("{name}:start")

from arti.io import register_reader, register_writer
from arti.storage.local import LocalFilePartition
from arti.types import Type
{dep}
from arti.views.python import PythonBuiltin


@register_reader
def _read_{name}(type_: Type, format: F, storage_partitions: Sequence[LocalFilePartition], view: PythonBuiltin) -> Any:
    with open(storage_partitions[0].path) as f:
        return int(f.read())


plugin_point("{name}:middle")


@register_writer
def _write_{name}(data: Any, type_: Type, format: F, storage_partition: LocalFilePartition, view: PythonBuiltin) -> None:
    from arti.internal.utils import write_file

    write_file(storage_partition.path, str(data).encode())


plugin_point("{name}:end")
'''
VIEW_PLUGIN = '''from arti.types.python import python_type_system
from arti.views import View
from sim.dispatch import {T} as T, plugin_point

plugin_point("{name}:start")


class V_{name}(View):
    python_type = T
    type_system = python_type_system


plugin_point("{name}:middle")


class W_{name}(View):
    python_type = list[T]
    type_system = python_type_system


plugin_point("{name}:end")
'''


def gen_late(rng, seed):
    """Handlers registered by some threads while others look them up."""
    n = rng.randint(2, 4)
    ops = []
    todo = [{"op": "register", "f": f, "kind": k} for f in CFS for k in ("read", "write") if rng.random() < 0.7]
    for i in range(rng.choice([0, 2, 3])):
        todo.append({"op": rng.choice(["defview", "defview", "defadapter"]), "T": rng.choice([0, 0, 1]), "prio": rng.choice([0, 0, 1, 2]), "i": i})
    rng.shuffle(todo)
    late = [{"op": "late", "f": rng.choice(sorted(CFS)), "kind": rng.choice(["read", "read", "write", "check"])} if rng.random() < 0.8 else {"op": "lateview", "T": rng.choice([0, 1])} for _ in range(rng.randint(2, 8))]
    both = todo + late
    rng.shuffle(both)
    if rng.random() < 0.25:  # everyone defines something for the same type
        kind = rng.choice(["defview", "defview", "defadapter"])
        both = [{"op": kind, "T": 0, "prio": rng.choice([0, 0, 1]), "i": i, "t": i % n} for i in range(rng.randint(n, n + 3))] + late[:rng.randint(0, 3)]
    for op in both:
        ops.append({"t": rng.randrange(n), **op, "faults": []})
    if rng.random() < 0.3:
        ops.append({"op": "io", "fmt": "JSON", "first": "write", "t": rng.randrange(n), "faults": []})
    cfg = gen_sched(rng, 1500)
    if cfg["kind"] == "rand":
        cfg["p"]["line"] = rng.choice([0.01, 0.03, 0.1])
    return {"workload": "dispatch", "profile": "late", "seed": seed, "plugins": [], "ops": ops, "n": n, "sched": cfg, "shuffle": False, "warm": rng.random() < 0.85}


def generate(seed, profile):
    rng = random.Random(f"dispatch:{profile}:{seed}")
    pr = PROFILES[profile]
    if profile == "late":
        return gen_late(rng, seed)
    n = max(1, rng.randint(*pr["threads"]))
    plugins = []
    for i in range(N_PLUG):
        if rng.random() < 0.5:
            plugins.append({"kind": "io", "i": i, "dir": rng.choice(["", "nested", "deep/er"]), "name": rng.choice([f"plug{i}", f"aa{i}", f"zz{i}"]),
                            "dep": rng.choice(["", "import arti.formats.pickle", "import arti.io.json_localfile_python", "from arti.backends.memory import MemoryBackend"])})
        if rng.random() < 0.5:
            plugins.append({"kind": "view", "i": i, "dir": rng.choice(["", "nested"]), "name": rng.choice([f"plug{i}", f"aa{i}", f"zz{i}"])})
    ops = []
    for t in range(n):
        for _ in range(rng.choice([1, 1, 2, 3])):
            op = gen_op(rng, plugins)
            op.update(t=t, faults=[])
            if rng.random() < pr["faults"]:
                op["faults"].append(gen_fault(rng, n))
            if rng.random() < pr["interrupts"] and t == 0:
                op["faults"].append({"on": "line", "n": int(rng.expovariate(1 / 500)) + 1, "kind": "interrupt"})
            ops.append(op)
    return {"workload": "dispatch", "profile": profile, "seed": seed, "plugins": plugins, "ops": ops, "n": n, "sched": gen_sched(rng, 12_000), "shuffle": rng.random() < 0.7}


def gen_op(rng, plugins):
    ops = ["view", "check", "io", "graph", "cast", "producer", "noview", "noreader", "import", "types", "literal"]
    if plugins:
        ops += ["plugin", "plugin"]
    op = rng.choice(ops)
    if op == "view":
        return {"op": op, "ann": rng.choice(sorted(ANNS))}
    if op == "check":
        f, s = rng.choice(COMBOS)
        return {"op": op, "fmt": f, "store": s, "mode": rng.choice(["READ", "WRITE", "READWRITE"])}
    if op == "io":
        return {"op": op, "fmt": rng.choice(["JSON", "Pickle"]), "first": rng.choice(["read", "write"])}
    if op in ("graph", "producer"):
        return {"op": op, "fmt": rng.choice(["JSON", "Pickle"])}
    if op in ("cast", "literal"):
        return {"op": op, "v": rng.choice([5, "x", 1.5, [1, 2]])}
    if op == "import":
        return {"op": op, "m": rng.choice(MODULES)}
    if op == "types":
        return {"op": op, "sys": rng.choice(["python", "numpy", "pandas", "pyarrow", "bigquery"])}
    if op == "plugin":
        return {"op": op, "p": rng.randrange(len(plugins))}
    return {"op": op}


def gen_fault(rng, n):
    on = rng.choice(["imp.read", "imp.read", "fs.list", "fs.list", "imp.list", "plug.import", "plug.import", "plug.import", "any"] if n == 1 else ["fs.list", "fs.list", "any"])
    kind = rng.choice(["EMFILE", "EIO", "ENOMEM"])
    if on == "plug.import":
        kind = rng.choice(["ImportError", "ImportError", "EMFILE", "EIO"])
    if on == "any":
        on = rng.choice(["imp.read", "fs.list"])
    return {"on": on, "n": int(rng.expovariate(1 / 3)) + 1, "kind": kind}


# -- import seams ----------------------------------------------------------------------------------
_installed = []


def install_imports():
    if _installed:
        return
    _installed.append(1)
    real_get, real_fill = bext.FileLoader.get_data, bext.FileFinder._fill_cache

    def get_data(self, path):
        w = core.world()
        if w is not None and w.active:
            label = fs.rel(path)
            if label is not None and path.endswith(".py"):
                f = w.event("imp", "read", label)
                if f is not None:
                    raise w.oserror(f, path)
        return real_get(self, path)

    def _fill_cache(self):
        w = core.world()
        if w is not None and w.active:
            label = fs.rel(self.path or ".")
            if label is not None:
                f = w.event("imp", "list", label)
                if f is not None:
                    raise w.oserror(f, self.path)
        return real_fill(self)

    bext.FileLoader.get_data = get_data
    bext.FileFinder._fill_cache = _fill_cache


def importing(frame) -> bool:
    """Whether a module is being executed, or read in order to."""
    if core.entering(frame):
        return True
    while frame is not None:
        if frame.f_code.co_name in ("_load_unlocked", "_find_and_load_unlocked") and "importlib" in frame.f_code.co_filename:
            return True
        frame = frame.f_back
    return False


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.w = core.world()
        self.stats = {"ops": 0, "ops_ok": 0, "ops_failed": 0, "rejections": 0, "plugins": len(plan["plugins"]), "switches": 0, "sched_points": 0, "threads": 0}
        self.n = 0
        self.veto = None
        self.started: set = set()
        self.done: set = set()
        self.defs: dict = {}
        self.refused: dict = {}

    def violate(self, kind, msg, **kw):
        self.w.violate(kind, msg, **kw)

    def install_plugins(self):
        top = os.path.join(os.path.dirname(fs.BASE), "plug")
        with fs.outside():
            import shutil

            for n in ("io", "views"):
                for e in os.listdir(os.path.join(top, "arti", n)):
                    p = os.path.join(top, "arti", n, e)
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            for p in self.plan["plugins"]:
                n = "io" if p["kind"] == "io" else "views"
                d = os.path.join(top, "arti", n, p["dir"])
                os.makedirs(d, exist_ok=True)
                text = (IO_PLUGIN.format(F=f"PF{p['i']}", name=f"io{p['i']}", dep=p["dep"]) if p["kind"] == "io"
                        else VIEW_PLUGIN.format(T=f"PT{p['i']}", name=f"view{p['i']}"))
                with open(os.path.join(d, p["name"] + ".py"), "w") as f:
                    f.write(text)
                p["module"] = ".".join(x for x in ("arti", n, *p["dir"].split("/"), p["name"]) if x)
        importlib.invalidate_caches()
        fs.watch(top, "@plug/")
        fs.watch(os.path.join(core.SRC, "arti"), "@arti/")
        install_imports()
        import multimethod

        for t in (top + os.sep, multimethod.__file__):
            if t not in sched.TRACED:
                sched.TRACED.append(t)

    # -- ops -----------------------------------------------------------------------------------
    def fresh(self):
        self.n += 1
        return self.n

    def artifact(self, fmt, store, n, type_=None):
        from arti.formats.json import JSON
        from arti.formats.pickle import Pickle

        f = {"JSON": JSON, "Pickle": Pickle}[fmt]()
        return Artifact(type=type_ or Int64(), format=f, storage=self.storage(store, n))

    def storage(self, store, n):
        if store == "LocalFile":
            from arti.storage.local import LocalFile

            return LocalFile(path=f"data/{n}{{extension}}")
        if store == "StringLiteral":
            from arti.storage.literal import StringLiteral

            return StringLiteral(id="x")
        from arti.storage.google.cloud.storage import GCSFile

        return GCSFile(bucket="b", path=f"data/{n}{{extension}}")

    def want(self, what, got, exp):
        if got != exp:
            self.violate("wrong_lookup", f"{what} gave {got!r}, expected {exp!r}")

    def op_view(self, op):
        from arti.views import View

        got = View.get_class_for(ANNS[op["ann"]])
        self.want(f"View.get_class_for({op['ann']})", f"{got.__module__}.{got.__name__}", f"arti.views.python.{CLASSES[op['ann']]}")

    def op_noview(self, op):
        from arti.views import View

        try:
            got = View.get_class_for(complex)
        except ValueError as e:
            if "cannot be matched to a View" not in str(e):
                raise
            self.stats["rejections"] += 1
            return
        self.violate("wrong_lookup", f"View.get_class_for(complex) gave {got!r}")

    def op_check(self, op):
        from arti.views import View

        art = self.artifact(op["fmt"], op["store"], self.fresh())
        view = View.get_class_for(int)(artifact_class=Artifact, type=Int64(), mode=op["mode"])
        view.check_artifact_compatibility(art)

    def op_io(self, op):
        """Reading and writing directly, without having looked anything up before."""
        from arti.storage import StoragePartitionSnapshot  # noqa: F401
        from arti.views.python import Int

        n = self.fresh()
        art = self.artifact(op["fmt"], "LocalFile", n)
        view = Int(type=Int64(), mode="READWRITE")
        part = art.storage.generate_partition(partition_key=PartitionKey(), input_fingerprint=None)
        if op["first"] == "write":
            snap = arti.write(n, art.type, art.format, part, view)
        else:
            import pickle

            self.put(part.path, json.dumps(n).encode() if op["fmt"] == "JSON" else pickle.dumps(n))
            snap = part.snapshot()
        got = arti.read(art.type, art.format, (snap,), view)
        self.want("arti.read", got, n)

    def put(self, path, data):
        with fs.outside():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(data)

    def op_graph(self, op):
        n = self.fresh()
        with Graph(name="g") as g:
            g.artifacts.a = self.artifact(op["fmt"], "LocalFile", n)
        g.write(n, artifact=g.artifacts.a)
        self.want("Graph.read", g.read(g.artifacts.a, annotation=int), n)

    def op_cast(self, op):
        with Graph(name="g") as g:
            g.artifacts.a = op["v"]
        self.want("Graph.read", g.read(g.artifacts.a, annotation=type(op["v"])), op["v"])

    def op_literal(self, op):
        from arti.views import View

        a = Artifact.cast(op["v"])
        View.get_class_for(type(op["v"]))(type=a.type, mode="READ").check_artifact_compatibility(a)

    def op_noreader(self, op):
        from arti.storage.local import LocalFile
        from arti.views import View

        art = Artifact(type=Int64(), format=NoFmt(), storage=LocalFile(path="no"))
        view = View.get_class_for(int)(type=Int64(), mode="READ")
        try:
            view.check_artifact_compatibility(art)
        except ValueError as e:
            if "No `io.read` implementation" not in str(e):
                raise
            self.stats["rejections"] += 1
            return
        self.violate("wrong_lookup", "an unsupported format passes the compatibility check")

    def op_producer(self, op):
        from arti import producer
        from arti.versions import String as V

        n = self.fresh()

        @producer(version=V(value="u"))
        def plus(x: int) -> int:
            return x + 1

        with Graph(name="g") as g:
            g.artifacts.a = self.artifact(op["fmt"], "LocalFile", n)
            out = self.artifact(op["fmt"], "LocalFile", f"out{n}-{{input_fingerprint}}")
            g.artifacts.b = plus(x=g.artifacts.a).out(out)
        g.write(n, artifact=g.artifacts.a)
        s = g.build()
        self.want("a build", s.read(g.artifacts.b, annotation=int), n + 1)

    def op_import(self, op):
        importlib.import_module(op["m"])

    def op_types(self, op):
        t = {"python": Int64(), "numpy": Float64(), "pandas": Int64(), "pyarrow": Struct(fields={"a": Int64(), "b": List(element=String())}), "bigquery": Int64()}[op["sys"]]
        mod = importlib.import_module(f"arti.types.{op['sys']}")
        system = getattr(mod, f"{op['sys']}_type_system")
        if op["sys"] == "pandas":
            t = Collection(element=Struct(fields={"a": Int64(), "b": Float64()}))
        hints: dict = {}
        if op["sys"] == "bigquery":
            return
        back = system.to_artigraph(system.to_system(t, hints={}), hints=hints)
        self.want(f"{op['sys']} round trip", isinstance(back, List if isinstance(t, List) else type(t)), True)

    def op_plugin(self, op):
        p = self.plan["plugins"][op["p"] % max(1, len(self.plan["plugins"]))]
        from arti.views import View

        if p["kind"] == "view":
            T = PTS[p["i"]]
            for ann, cls in ((T, "V"), (list[T], "W")):
                got = View.get_class_for(ann)
                self.want("View.get_class_for(plugin type)", f"{got.__module__}.{got.__name__}", f"{p['module']}.{cls}_view{p['i']}")
            return
        from arti.storage.local import LocalFile

        n = self.fresh()
        with Graph(name="g") as g:
            g.artifacts.a = Artifact(type=Int64(), format=PFS[p["i"]](), storage=LocalFile(path=f"plug/{n}{{extension}}"))
        g.write(n, artifact=g.artifacts.a)
        self.want("Graph.read through a plugin", g.read(g.artifacts.a, annotation=int), n)

    # -- handlers registered late --------------------------------------------------------------
    def op_register(self, op):
        from arti.storage.local import LocalFilePartition
        from arti.types import Type
        from arti.views.python import PythonBuiltin

        f, kind = op["f"], op["kind"]
        if (f, kind) in self.started:
            return
        F = CFS[f]
        if kind == "read":
            def handler(type_: Type, format: F, storage_partitions: Sequence[LocalFilePartition], view: PythonBuiltin) -> Any:
                return f

            reg = arti.io.register_reader
        else:
            def handler(data: Any, type_: Type, format: F, storage_partition: LocalFilePartition, view: PythonBuiltin) -> None:
                data.append(f)

            reg = arti.io.register_writer
        for k, v in list(handler.__annotations__.items()):
            if isinstance(v, str):
                handler.__annotations__[k] = eval(v, {**globals(), **locals()})
        self.started.add((f, kind))
        reg(handler)
        self.done.add((f, kind))

    def op_late(self, op):
        from arti.storage.local import LocalFile
        from arti.views.python import Int

        f, kind = op["f"], op["kind"]
        k = "read" if kind == "check" else kind
        before, f0 = set(self.done), f
        art = Artifact(type=Int64(), format=CFS[f](), storage=LocalFile(path=f"data/cf{self.fresh()}"))
        view = Int(type=Int64(), mode="READ" if k == "read" else "WRITE")
        part = art.storage.generate_partition(partition_key=PartitionKey(), input_fingerprint=None)
        self.put(part.path, b"cf")
        got = None
        try:
            if kind == "check":
                view.check_artifact_compatibility(art)
                got = "?"
            elif kind == "read":
                got = arti.read(art.type, art.format, (part.snapshot(),), view)
            else:
                data: list = []
                arti.write(data, art.type, art.format, part, view)
                got = data[0]
        except (NotImplementedError, ValueError) as e:
            if "implement" not in str(e):
                raise
        chain = [f0]
        while PARENT[chain[-1]]:
            chain.append(PARENT[chain[-1]])
        allowed = []
        for c in chain:
            if (c, k) in self.started:
                allowed.append(c)
            if (c, k) in before:
                break
        else:
            allowed.append(None)
        if got == "?":
            if allowed == [None]:
                self.violate("wrong_lookup", f"a check passes for {f} without any {k}er")
        elif got not in allowed:
            self.violate("wrong_lookup", f"the {k}er for {got} is used for {f}, expected one of {allowed}")
        if got is None:
            self.stats["rejections"] += 1
        self.stats["late_lookups"] = self.stats.get("late_lookups", 0) + 1

    def op_defview(self, op):
        """A View of a type others may have, or define, views of as well: the one with the highest priority is used."""
        from arti.types.python import python_type_system
        from arti.views import View

        T, prio = PTS[op["T"]], op["prio"]
        self._define(("view", op["T"]), prio, op["i"], lambda name: type(View)(
            name, (View,), {"__module__": __name__, "__qualname__": f"defs.{name}", "__annotations__": {}, "python_type": T, "type_system": python_type_system, "priority": prio}))

    def op_defadapter(self, op):
        from arti.types import TypeAdapter

        key = f"a{op['T']}"

        def make(name):
            return SYSTEM.register_adapter(type(name, (TypeAdapter,), {"key": key, "artigraph": Int64, "system": PTS[op["T"]], "priority": op["prio"]}))

        self._define(("adapter", op["T"]), None, op["i"], make)

    def _define(self, slot, prio, i, make):
        """Definitions of equal priority exclude each other."""
        if (slot, i) in self.started:
            return
        self.started.add((slot, i))
        known = self.defs.setdefault(slot, [])
        before = [d for d in known if d[1] == prio and d[2]]
        me = [f"X{slot[0]}{slot[1]}_{i}", prio, False]
        known.append(me)
        try:
            make(me[0])
        except ValueError as e:
            if "already registered" not in str(e):
                raise
            known.remove(me)
            self.refused[slot] = self.refused.get(slot, 0) + 1
            if not any(d[1] == prio for d in known):
                self.violate("wrong_lookup", f"{me[0]} is refused as a duplicate, but there is no other of priority {prio}")
            return
        me[2] = True
        if before and (prio is None or prio >= max(d[1] for d in before)) and not any(d[1] > prio for d in known if prio is not None):
            self.violate("wrong_lookup", f"{me[0]} (priority {prio}) is accepted next to {before}")

    def op_lateview(self, op):
        from arti.views import View

        known = self.defs.get(("view", op["T"]), [])
        before = max((d[1] for d in known if d[2]), default=None)
        try:
            got = View.get_class_for(PTS[op["T"]]).__name__
        except ValueError as e:
            if "cannot be matched to a View" not in str(e):
                raise
            got = None
        known = self.defs.get(("view", op["T"]), [])
        allowed = [d[0] for d in known if before is None or d[1] >= before]
        if got not in allowed and not (got is None and before is None):
            self.violate("wrong_lookup", f"View.get_class_for gives {got} for the type of {known}")
        self.stats["late_lookups"] = self.stats.get("late_lookups", 0) + 1

    def check_definitions(self):
        for slot, known in self.defs.items():
            prios = [d[1] for d in known]
            top = max((p for p in prios if p is not None), default=None)
            if prios.count(top) > 1:
                self.violate("wrong_lookup", f"after all threads ended: several definitions with the highest priority were accepted: {known}")

    # -- run -----------------------------------------------------------------------------------
    def one(self, op, node, label):
        w = self.w
        self.stats["ops"] += 1
        w.begin_op(label, op["faults"])
        err = None
        try:
            getattr(self, "op_" + op["op"])(op)
        except (SimCrash, core.Hang, core.Violation, core.Discard):
            raise
        except BaseException as e:
            err = e
        fired = list(node.fired)
        node.faults = []
        if w.sched is None:
            sys.settrace(None)
        w.log("OUTCOME", node.name, label, type(err).__name__ if err else "ok")
        if err is None:
            self.stats["ops_ok"] += 1
            return
        self.stats["ops_failed"] += 1
        if not fired:
            self.violate("spurious_error", f"{op['op']} failed without cause: {type(err).__name__}: {err}", tb="".join(traceback.format_exception(err))[-3500:], op=op)
        err.__traceback__ = None

    def actor(self, ops):
        def body():
            node = self.w.node
            node.veto = self.veto
            for op in ops:
                self.one(op, node, f"{op['op']}")

        return body

    def run(self):
        if any(m in sys.modules for m in ("arti.views.python", "arti.io.json_localfile_python", "arti.types.python")):
            raise RuntimeError("this process has discovered plugins before")
        self.install_plugins()
        by: dict = {}
        for op in self.plan["ops"]:
            by.setdefault(op["t"], []).append(op)
        # CPython: a thread that waited for a module whose import then fails goes on with the broken module.
        self.veto = importing if len(by) > 1 else core.entering
        if self.plan.get("warm"):
            self.one({"op": "io", "fmt": "JSON", "first": "write", "faults": []}, self.w.main, "warm up")
        sc = sched.Sched(self.w, self.plan["sched"], self.plan.get("decisions"))
        for t, ops in sorted(by.items()):
            sc.spawn(f"t{t}", self.actor(ops))
        self.w.sched = self.keep = sc
        try:
            sc.run()
        finally:
            self.stats["switches"] += sc.switches
            self.stats["sched_points"] += sc.n
            self.stats["threads"] += len(sc.threads)
        self.w.sched = None
        self.w.node = self.w.main
        # Whatever happened, everything is found from now on.
        every = [{"op": "view", "ann": a} for a in sorted(ANNS)] + [{"op": "noview"}, {"op": "noreader"}]
        every += [{"op": "check", "fmt": f, "store": s, "mode": "READWRITE"} for f, s in COMBOS]
        every += [{"op": "producer", "fmt": f} for f in ("JSON", "Pickle")] + [{"op": "cast", "v": 5}]
        if self.plan["profile"] == "late":
            every = [{"op": "late", "f": f, "kind": k} for f in CFS for k in ("read", "write", "check")]
            every += [{"op": "lateview", "T": t} for t in (0, 1)]
            self.check_definitions()
        every += [{"op": "plugin", "p": i} for i in range(len(self.plan["plugins"]))]
        for op in [*every, *self.plan["ops"]]:
            try:
                self.one({**op, "faults": []}, self.w.main, "settle " + op["op"])
            except core.Violation as v:
                v.details["settle"] = True
                v.msg = "after all threads ended: " + v.msg
                raise
        self.w.sched = sc
        self.w.end_op()



def run(plan):
    r = Run(plan)
    try:
        r.run()
    finally:
        if r.w.sched is None:
            r.w.sched = getattr(r, "keep", None)
    return {"stats": r.stats, "findings": [], "shape": r.keep.shape()}
