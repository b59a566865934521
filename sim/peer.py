"""A second simulated machine: a process with another hash seed and time zone, sharing the storage.

Started by the worker (`Pool`), which serves each run from a fork of its own; called from the run (`call`).
"""
from __future__ import annotations

import json
import os
import subprocess
import sys
import traceback

HASHSEED = "77"
TZ = "SIM-5:45"
_pool: "Pool | None" = None


def needed(workload, profile) -> bool:
    return workload in ("ident", "versions") or profile == "peers"


class Pool:
    """The worker's handle on its peer."""

    def __init__(self):
        env = {**os.environ, "PYTHONHASHSEED": HASHSEED, "TZ": TZ}
        self.proc = subprocess.Popen([sys.executable, "-m", "sim.peer"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        self.ready = False

    def wait(self):
        if not self.ready:
            if not self.proc.stdout.readline():
                raise RuntimeError("the peer did not start")
            self.ready = True

    def send(self, msg):
        self.proc.stdin.write(json.dumps(msg) + "\n")
        self.proc.stdin.flush()

    def recv(self):
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError("the peer died")
        return json.loads(line)

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(10)
        except Exception:
            self.proc.kill()
            self.proc.wait()


def start():
    global _pool
    if _pool is None:
        _pool = Pool()


def ensure():
    start()
    _pool.wait()


def drop():
    """After a run that ended abnormally."""
    global _pool
    if _pool is not None:
        _pool.proc.kill()
        _pool.proc.wait()
        _pool = None


def close():
    global _pool
    if _pool is not None:
        _pool.close()
        _pool = None


_open = False


def call(msg) -> dict:
    """Have the peer do something (from within a run)."""
    from sim import core

    global _open
    assert _pool is not None
    if not _open:
        _pool.send({"begin": {"seed": core.world().plan.get("seed", 0), "shuffle": core.world().plan.get("shuffle"), "composite": core.world().plan.get("composite")}, "cwd": os.getcwd()})
        _open = True
    _pool.send(msg)
    return _pool.recv()


def end():
    global _open
    if _open:
        _pool.send({"end": True})
        _pool.recv()
        _open = False


# -- the peer itself -------------------------------------------------------------------------------
def serve(out, begin):
    from sim import core, fs, gcs

    os.chdir(begin["cwd"])
    fs.set_base(begin["cwd"])
    plan = {"seed": f"peer:{begin['begin']['seed']}", "shuffle": begin["begin"]["shuffle"], "composite": begin["begin"]["composite"]}
    core.set_world(core.World(plan))
    while line := _big_readline():
        msg = json.loads(line)
        if msg.get("end"):
            break
        try:
            res = handle(msg)
        except BaseException:
            res = {"fail": traceback.format_exc()}
        out.write(json.dumps(res, default=repr) + "\n")
    core.world().active = False


def handle(msg):
    import base64

    from sim import gcs

    if msg.get("objs") is not None:
        gcs.reset()
        for k, v in msg["objs"].items():
            gcs.BUCKETS["bkt"][k] = base64.b64decode(v)
    if msg["cmd"] == "observe":
        from sim import ident

        return ident.observe(msg["spec"], msg["code"], pickled=msg.get("pickled"), want_pickle=msg.get("want_pickle", False), parts=msg.get("parts", True))
    if msg["cmd"] == "build":
        from sim import builds

        return builds.elsewhere(msg)
    from sim import versions

    return versions.peer(msg)


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    from sim.runtime import Runtime

    rt = Runtime()
    rt.preload()
    try:
        out.write('{"ready": true}\n')
        while True:
            # Unbuffered: the fork reads the lines that follow.
            line = readline()
            if not line:
                break
            begin = json.loads(line)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    serve(out, begin)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    out.flush()
                    os._exit(code)
            os.waitpid(pid, 0)
            out.write('{"ended": true}\n')
    finally:
        rt.close()


def readline():
    buf = bytearray()
    while True:
        b = os.read(0, 1)
        if not b:
            return bytes(buf)
        if b == b"\n":
            return bytes(buf)
        buf += b


_rest = b""


def _big_readline():
    """Messages are strictly request and response, so nothing follows a line until it is answered,
    except for the end."""
    global _rest
    while b"\n" not in _rest:
        b = os.read(0, 1 << 16)
        if not b:
            return b""
        _rest += b
    line, _rest = _rest.split(b"\n", 1)
    return line


if __name__ == "__main__":
    main()
