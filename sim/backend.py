"""A Backend whose connections pass the simulator, standing in for an external metadata database.

The state is held by artigraph's own MemoryBackend; this wrapper adds what a networked backend has:
connections that open, close and can fail, operations that can fail before or after taking effect, and
state that survives the death of the processes using it (serialised, as a database would hold it).
"""
from __future__ import annotations

import pickle
from typing import Any

from pydantic import PrivateAttr

from arti import Backend, BackendConnection
from arti.backends.memory import MemoryBackend

from sim import core


class BackendError(Exception):
    pass


class _Server:
    """The external state. One per name and run."""

    def __init__(self):
        self.memory = MemoryBackend()
        self.open = 0
        self.opened = 0
        self.closed = 0
        self.ops = []

    def restart(self):
        """What a new process sees: the state went through serialisation."""
        self.memory = pickle.loads(pickle.dumps(self.memory))


SERVERS: dict[str, _Server] = {}


def server(name) -> _Server:
    if name not in SERVERS:
        # No thread switches while a server is set up.
        w = core.world()
        if w:
            w.in_server += 1
        try:
            SERVERS[name] = _Server()
        finally:
            if w:
                w.in_server -= 1
    return SERVERS[name]


def _guard(what, detail, effect):
    w = core.world()
    f = w.event("be", what, detail) if w and w.active else None
    if f is None:
        return effect()
    if f.get("when") == "after":
        effect()
        if f["kind"] == "crash":
            w.crash()
    elif f["kind"] == "torn":
        w.crash()
    raise BackendError(f"simulated backend failure: {what}")


class SimConnection(BackendConnection):
    def __init__(self, srv: _Server, conn, ident: int):
        self._srv, self._conn, self._ident, self._closed = srv, conn, ident, False

    def __repr__(self):
        return f"<SimConnection {self._ident}>"

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return getattr(self._conn, name)


def _method(name):
    def fn(self, *args, **kwargs):
        if self._closed:
            raise BackendError(f"{name} on a closed connection")
        self._srv.ops.append((self._ident, name))

        def effect():
            w = core.world()
            w.in_server += 1
            try:
                return getattr(self._conn, name)(*args, **kwargs)
            finally:
                w.in_server -= 1

        return _guard(name, f"c{self._ident}", effect)

    fn.__name__ = name
    return fn


for _name in (
    "read_artifact_partitions", "write_artifact_partitions", "read_graph", "write_graph", "read_snapshot",
    "write_snapshot", "read_snapshot_tag", "write_snapshot_tag", "read_snapshot_partitions",
    "write_snapshot_partitions",
):
    setattr(SimConnection, _name, _method(_name))


class _Connect:
    """Context manager for a connection (a class, so never exiting it is not masked by GC)."""

    def __init__(self, srv):
        self._srv = srv

    def __enter__(self):
        srv = self._srv

        def effect():
            srv.open += 1
            srv.opened += 1

        w = core.world()
        f = w.event("be", "connect", "") if w and w.active else None
        if f is not None:
            if f["kind"] == "torn":
                w.crash()
            raise BackendError("simulated backend failure: connect")
        w.in_server += 1
        cm = srv.memory.connect()
        self._cm = cm
        conn = cm.__enter__()
        w.in_server -= 1
        effect()
        self._conn = SimConnection(srv, conn, srv.opened)
        return self._conn

    def __exit__(self, *exc):
        srv = self._srv
        w = core.world()
        w.in_server += 1
        try:
            self._cm.__exit__(None, None, None)
        finally:
            w.in_server -= 1
            if not self._conn._closed:
                self._conn._closed = True
                srv.open -= 1
                srv.closed += 1
        f = w.event("be", "close", "") if w and w.active else None
        if f is not None and exc[0] is None:
            if f["kind"] in ("torn", "crash"):
                w.crash()
            raise BackendError("simulated backend failure: close")
        return False


class SimBackend(Backend[SimConnection]):
    server_name: str

    def connect(self) -> Any:
        return _Connect(server(self.server_name))
