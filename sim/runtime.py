"""Executing plans: each run is a forked child of a warmed-up process, in its own scratch directory."""
from __future__ import annotations

import gc
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

CPU_LIMIT = 60  # seconds of CPU per run, some hundred times what a run takes
WALL_LIMIT = float(os.environ.get("SIM_WALL", "240"))

WORKLOADS = ("builds", "storage", "ident", "versions", "context", "conc", "dispatch")


def scratch_root() -> str:
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 64 << 20:
                return d
    return tempfile.gettempdir()


class Runtime:
    def __init__(self, cold: bool = False):
        self.cold = cold
        self.mods = {}
        self.dir = tempfile.mkdtemp(prefix="artisim-", dir=scratch_root())
        self.work = os.path.join(self.dir, "w")
        os.mkdir(self.work)
        os.chdir(self.work)
        sys.dont_write_bytecode = True
        from sim import core

        sys.path.insert(0, core.SRC)
        from sim import fs

        fs.install()
        from sim import sched

        sched.install()
        self.plug = os.path.join(self.dir, "plug")
        if cold:
            self.prepare_cold()
        import arti  # noqa: F401

        assert os.path.realpath(arti.__file__).startswith(core.SRC), arti.__file__
        if cold:
            self.module("dispatch")
        else:
            from sim import lib  # noqa: F401

            self.warmup()
        gc.collect()
        gc.freeze()
        gc.disable()

    def prepare_cold(self):
        """Plugins are found below a directory that has to exist when arti is imported. Third party
        packages are loaded beforehand."""
        for n in ("io", "views", "types"):
            os.makedirs(os.path.join(self.plug, "arti", n, "nested"))
        sys.path.append(self.plug)
        import gcsfs, numpy, pandas, pyarrow  # noqa: F401,E401
        import google.cloud.bigquery  # noqa: F401

    def warmup(self):
        """Trigger lazy plugin discovery and imports outside of any run: a simulated process that dies in
        the middle of an import must not leave a half imported module to the others."""
        import pkgutil

        import arti

        for m in pkgutil.walk_packages(arti.__path__, "arti."):
            importlib.import_module(m.name)
        from arti.formats.json import JSON
        from arti.storage.local import LocalFile
        from arti.types import Int64
        from arti.views import View

        View.get_class_for(int)
        from sim import lib

        import datetime
        import fsspec.asyn, gcsfs  # noqa: F401,E401
        from arti.storage.google.cloud.storage import GCSFile  # noqa: F401
        from sim import gcs

        gcs.install()

        art = lib.SArt(format=JSON(), storage=LocalFile(path="warm/{name}{extension}"))
        from arti import Graph

        with Graph(name="warm") as g:
            g.artifacts.a = art
        g.write(1, artifact=g.artifacts.a)
        g.read(g.artifacts.a, annotation=int)
        g.build()
        shutil.rmtree("warm", ignore_errors=True)

    def module(self, name):
        if name not in self.mods:
            self.mods[name] = importlib.import_module(f"sim.{name}")
        return self.mods[name]

    def preload(self):
        for n in WORKLOADS:
            try:
                self.module(n)
            except ModuleNotFoundError as e:
                if e.name != f"sim.{n}":
                    raise

    def clean(self):
        for e in os.listdir(self.work):
            p = os.path.join(self.work, e)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def close(self):
        from sim import peer

        peer.close()
        os.chdir("/")
        shutil.rmtree(self.dir, ignore_errors=True)

    def plan_for(self, job) -> dict:
        if "plan" in job:
            return job["plan"]
        plan = self.module(job["workload"]).generate(job["seed"], job["profile"])
        return json.loads(json.dumps(plan))

    def run(self, job) -> dict:
        """Run a job in a forked child."""
        from sim import peer

        self.clean()
        if peer.needed((job.get("plan") or job).get("workload"), (job.get("plan") or job).get("profile")):
            peer.ensure()
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                out = self._child(job)
                data = json.dumps(out, default=repr).encode()
                view = memoryview(data)
                while view:
                    view = view[os.write(wr, view):]
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        chunks = []
        deadline = time.monotonic() + WALL_LIMIT
        hang = None
        while True:
            ready, _, _ = select.select([rd], [], [], max(0.1, deadline - time.monotonic()))
            if not ready:
                if time.monotonic() > deadline:
                    hang = "no progress (blocked)"
                    os.kill(pid, signal.SIGKILL)
                    break
                continue
            b = os.read(rd, 1 << 16)
            if not b:
                break
            chunks.append(b)
        os.close(rd)
        _, status = os.waitpid(pid, 0)
        if status != 0:
            peer.drop()
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig == signal.SIGXCPU:
                hang = f"more than {CPU_LIMIT}s of CPU time"
            elif hang is None:
                # Ended from outside (eg: out of memory): says nothing about the code.
                return {"outcome": "aborted", "signal": sig, "plan": self.plan_for(job)}
        if hang:
            return {"outcome": "violation", "plan": self.plan_for(job),
                    "violation": {"kind": "hang", "msg": f"the run did not finish: {hang}", "details": {}}}
        try:
            return json.loads(b"".join(chunks))
        except ValueError:
            return {"outcome": "aborted", "signal": None, "plan": self.plan_for(job)}

    def _child(self, job) -> dict:
        from sim import core, fs, peer

        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        plan = self.plan_for(job)
        random.seed(f"user:{plan.get('seed', 0)}")
        tempfile._name_sequence = None
        if getattr(tempfile, "_RandomNameSequence", None) is not None:
            seq = tempfile._RandomNameSequence()
            seq._rng_pid = os.getpid()
            seq._rng = random.Random(f"tmp:{plan.get('seed', 0)}")
            tempfile._name_sequence = seq
        tempfile.tempdir = self.work
        fs.set_base(self.work)
        w = core.World(plan)
        core.set_world(w)
        mod = self.module(plan["workload"])
        out: dict = {"outcome": "ok"}
        res: dict = {}
        try:
            res = mod.run(plan) or {}
        except core.Discard:
            out["outcome"] = "discard"
        except core.Violation as v:
            if v not in w.violations:
                w.violations.append(v)
        except core.Hang as e:
            w.violations.append(core.Violation("hang", f"the run did not finish: {e}"))
        except BaseException as e:
            w.violations.append(core.Violation("unexpected_error", f"{e!r}", tb=traceback.format_exc()[:1500] + traceback.format_exc()[-1500:]))
        sys.settrace(None)
        w.active = False
        peer.end()
        if w.violations:
            out["outcome"] = "violation"
            out["violation"] = w.violations[0].to_json()
            out["others"] = [v.to_json() for v in w.violations[1:4]]
        out.update(
            digest=w.digest.hexdigest(), events=w.n_events, sim_time=round(w.sim_time, 3),
            faults=dict(w.fault_counts), event_counts=dict(w.event_counts),
            stats=res.get("stats", {}), findings=res.get("findings", []), shape=res.get("shape"),
        )
        if out["outcome"] == "violation" or job.get("want_plan"):
            out["plan"] = plan
            if w.sched is not None:
                out["decisions"] = w.sched.recorded()
        if job.get("want_trace"):
            out["trace"] = w.trace[-4000:]
        return out
