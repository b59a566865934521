"""File system seam: real files in a scratch directory, with every operation passing the simulator.

All Python level entry points to the file system are interposed before artigraph is imported. Calls on
paths outside of the scratch directory pass straight through. Inside it, each call is an event at
which the simulator may switch threads, fail the call with an errno, tear a write, stall, interrupt or
crash the simulated process. After a crash the process' files keep what was written (the page cache
survives a process crash), while nothing it does afterwards has any effect.
"""
from __future__ import annotations

import builtins
import io
import os
import uuid

from sim import core

_real = {}
BASE: str | None = None  # scratch directory; also the working directory of the run


WATCH: list[tuple[str, str]] = []  # further (directory, label) whose listings and reads are events (code and plugins)


def watch(path: str, label: str):
    WATCH.append((os.path.realpath(path) + "/", label))


def set_base(path: str):
    global BASE
    BASE = os.path.realpath(path)


def rel(path) -> str | None:
    """Path relative to the scratch directory, or None if outside of it."""
    if BASE is None or isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p.startswith("/proc/self/cwd/"):
        p = p[len("/proc/self/cwd/"):]
    if not p.startswith("/"):
        p = BASE + "/" + p
    p = os.path.normpath(p)
    if p == BASE:
        return "."
    if p.startswith(BASE + "/"):
        return p[len(BASE) + 1:]
    for top, label in WATCH:
        if (p + "/").startswith(top):
            return label + p[len(top):]
    return None


def guarded(what, detail, effect, path=None):
    w = core.world()
    f = w.event("fs", what, detail)
    if f is None:
        return effect()
    if f.get("when") == "after":
        effect()
        if f["kind"] in ("crash", "torn"):
            w.crash()
    raise w.oserror(f, path)


class SimRaw(io.FileIO):
    def __init__(self, file, mode="r", closefd=True, opener=None, label=None):
        self._label = label
        self._w = core.world()
        self._node = self._w.node
        self._closing = False
        self._writes = any(c in mode for c in "wxa+")
        super().__init__(file, mode, closefd, opener)
        self._w.open_files[id(self)] = label

    def write(self, b):
        w = self._w
        if self._node.dead or not w.active:
            return len(b) if self._node.dead else super().write(b)
        f = w.event("fs", "write", f"{self._label} {len(b)}")
        if f is None:
            return super().write(b)
        data = bytes(b)
        cut = int(len(data) * f.get("frac", 0.5))
        kind = f["kind"]
        if kind == "short":  # a legal short write: fewer bytes than asked for
            return super().write(data[: max(1, cut)])
        if kind in ("ENOSPC", "EDQUOT", "torn", "EIO") or f.get("when") == "after":
            if kind == "crash":
                cut = len(data)
            if cut:
                super().write(data[:cut])
        if kind in ("torn", "crash"):
            w.crash()
        raise w.oserror(f)

    def _read_event(self):
        w = self._w
        if self._node.dead or not w.active:
            return
        f = w.event("fs", "read", self._label)
        if f is not None:
            if f["kind"] in ("crash", "torn"):
                w.crash()
            if f["kind"] != "short":
                raise w.oserror(f)
            return f

    def readinto(self, b):
        f = self._read_event()
        if f is not None and len(b) > 1:
            return super().readinto(memoryview(b)[: max(1, int(len(b) * 0.01))])
        return super().readinto(b)

    def readall(self):
        self._read_event()
        return super().readall()

    def read(self, size=-1):
        self._read_event()
        return super().read(size)

    def truncate(self, size=None):
        if self._node.dead or not self._w.active:
            return 0 if self._node.dead else super().truncate(size)
        return guarded("truncate", self._label, lambda: super(SimRaw, self).truncate(size))

    def close(self):
        if self.closed or self._closing:
            return super().close()
        self._closing = True
        w = self._w
        w.open_files.pop(id(self), None)
        f = None
        try:
            if w.active and not self._node.dead and core.world() is w:
                f = w.event("fs", "close", self._label)
        finally:
            super().close()
        if f is not None:
            if f["kind"] in ("crash", "torn"):
                w.crash()
            if self._writes:
                raise w.oserror(f)


def _open_like(raw, text, mode, buffering, encoding, errors, newline):
    """The layering done by io.open, on top of a given raw file."""
    try:
        binary = "b" in mode
        updating = "+" in mode
        writing = any(c in mode for c in "wxa")
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if updating:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        out = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
        out.mode = mode
        return out
    except BaseException:
        raw.close()
        raise


_fds: dict[int, str] = {}  # descriptors opened through os.open


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = core.world()
    real = _real["open"]
    if w is None or not w.active:
        return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        label = _fds.get(file)
        if label is None:
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
        if closefd:
            _fds.pop(file, None)
            w.open_files.pop(("fd", file), None)
        return _open_like(SimRaw(file, rawmode, closefd, None, label), None, mode, buffering, encoding, errors, newline)
    label = rel(file)
    if label is None or opener is not None:
        # With an opener (eg: tempfile) the descriptor comes from os.open, which is a seam as well.
        if opener is not None and label is not None:
            fd = opener(file, _flags(mode))
            return sim_open(fd, mode, buffering, encoding, errors, newline, True)
        return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    what = "open_w" if any(c in mode for c in "wxa+") else "open_r"
    if os.fspath(file) != file:
        file = os.fspath(file)
    raw = []

    def effect():
        raw.append(SimRaw(file, rawmode, True, None, label))
        return raw[0]

    try:
        r = guarded(what, f"{label} {rawmode}", effect, label)
    except BaseException:
        if raw:
            raw[0]._closing = True
            w.open_files.pop(id(raw[0]), None)
            raw[0].close()
        raise
    return _open_like(r, None, mode, buffering, encoding, errors, newline)


def _flags(mode):
    base = os.O_RDWR if "+" in mode else (os.O_WRONLY if any(c in mode for c in "wax") else os.O_RDONLY)
    if "w" in mode:
        base |= os.O_CREAT | os.O_TRUNC
    if "x" in mode:
        base |= os.O_CREAT | os.O_EXCL
    if "a" in mode:
        base |= os.O_CREAT | os.O_APPEND
    return base | os.O_CLOEXEC


class _ScanDir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _order(w, items, key):
    items = sorted(items, key=key)
    if w.plan.get("shuffle", True):
        w.rng.shuffle(items)
    return items


def install():
    """Interpose. Must run before artigraph (and anything binding these functions) is imported."""
    if _real:
        return
    _real["open"] = io.open
    import _io

    builtins.open = io.open = _io.open = sim_open

    def wrap1(name, what=None, two=False):
        real = getattr(os, name)
        _real[name] = real
        what = what or name

        def fn(path, *args, **kwargs):
            w = core.world()
            if w is None or not w.active or any(kwargs.get(k) is not None for k in ("dir_fd", "src_dir_fd", "dst_dir_fd")):
                return real(path, *args, **kwargs)
            label = rel(path)
            if label is None:
                return real(path, *args, **kwargs)
            detail = label
            if two:
                dst = args[0] if args else kwargs.get("dst")
                detail = f"{label} -> {rel(dst)}"
            return guarded(what, detail, lambda: real(path, *args, **kwargs), label)

        fn.__name__ = name
        fn.__wrapped__ = real
        setattr(os, name, fn)

    for name in ("stat", "lstat", "mkdir", "rmdir", "access", "truncate", "utime", "chmod", "readlink"):
        wrap1(name)
    wrap1("unlink", "unlink")
    wrap1("remove", "unlink")
    for name in ("rename", "replace", "link", "symlink"):
        wrap1(name, "replace" if name == "rename" else name, two=True)

    real_listdir = _real["listdir"] = os.listdir

    def listdir(path="."):
        w = core.world()
        if w is None or not w.active or (label := rel(path)) is None:
            return real_listdir(path)
        return guarded("list", label, lambda: _order(w, real_listdir(path), str), label)

    os.listdir = listdir
    real_scandir = _real["scandir"] = os.scandir

    def scandir(path="."):
        w = core.world()
        if w is None or not w.active or (label := rel(path)) is None:
            return real_scandir(path)

        def effect():
            with real_scandir(path) as it:
                return _ScanDir(_order(w, list(it), lambda e: e.name))

        return guarded("list", label, effect, label)

    os.scandir = scandir

    real_os_open = _real["os_open"] = os.open

    def os_open(path, flags, *args, **kwargs):
        w = core.world()
        if w is None or not w.active or kwargs.get("dir_fd") is not None or (label := rel(path)) is None:
            return real_os_open(path, flags, *args, **kwargs)
        what = "open_w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else "open_r"
        opened = []

        def effect():
            opened.append(real_os_open(path, flags, *args, **kwargs))
            return opened[0]

        try:
            fd = guarded(what, label, effect, label)
        except BaseException:
            if opened:
                _real["os_close"](opened[0])
            raise
        _fds[fd] = label
        w.open_files[("fd", fd)] = label
        return fd

    os.open = os_open
    real_close = _real["os_close"] = os.close

    def os_close(fd):
        label = _fds.pop(fd, None)
        if label is None:
            return real_close(fd)
        w = core.world()
        w.open_files.pop(("fd", fd), None)
        try:
            f = w.event("fs", "close", label) if w.active else None
        finally:
            real_close(fd)
        if f is not None:
            raise w.oserror(f)

    os.close = os_close
    real_write = _real["os_write"] = os.write

    def os_write(fd, data):
        label = _fds.get(fd)
        w = core.world()
        if label is None or not w.active:
            return real_write(fd, data)
        f = w.event("fs", "write", f"{label} {len(data)}")
        if f is None:
            return real_write(fd, data)
        cut = int(len(data) * f.get("frac", 0.5))
        if f["kind"] == "short":
            return real_write(fd, bytes(data)[: max(1, cut)])
        if f["kind"] in ("ENOSPC", "EDQUOT", "torn", "EIO") and cut:
            real_write(fd, bytes(data)[:cut])
        if f["kind"] in ("torn", "crash"):
            w.crash()
        raise w.oserror(f)

    os.write = os_write
    real_read = _real["os_read"] = os.read

    def os_read(fd, n):
        label = _fds.get(fd)
        w = core.world()
        if label is None or not w.active:
            return real_read(fd, n)
        f = w.event("fs", "read", label)
        if f is not None and f["kind"] != "short":
            if f["kind"] in ("crash", "torn"):
                w.crash()
            raise w.oserror(f)
        return real_read(fd, n)

    os.read = os_read
    for name in ("fsync", "fdatasync"):
        real = getattr(os, name)

        def sync(fd, real=real):
            w = core.world()
            if w is not None and w.active:
                f = w.event("fs", "fsync", "")
                if f is not None:
                    if f["kind"] in ("crash", "torn"):
                        w.crash()
                    raise w.oserror(f)
            return real(fd)

        setattr(os, name, sync)

    import shutil

    shutil._USE_CP_SENDFILE = False

    # Randomness: temporary names and uuids come from the run's PRNG.
    real_urandom = _real["urandom"] = os.urandom

    def urandom(n):
        w = core.world()
        if w is None or not w.active:
            return real_urandom(n)
        return w.rng.randbytes(n)

    os.urandom = urandom
    uuid.os.urandom = urandom
    uuid._generate_time_safe = None


class outside:
    """Harness access to the scratch files, not passing (or observable to) the simulator."""

    def __enter__(self):
        w = core.world()
        self._was = w.active if w else None
        if w:
            w.active = False

    def __exit__(self, *a):
        w = core.world()
        if w:
            w.active = self._was
