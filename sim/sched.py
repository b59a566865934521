"""Thread scheduling seam: real threads, of which exactly one runs at a time, switched at points the
simulator decides on.

Points are the environment interactions, lock operations, imports and every line and function
return of the traced code. (Switching at every bytecode crashes CPython 3.12's tracing.) Which thread continues at a point is drawn from the plan's
seed, or taken from recorded decisions. Locks created by the library, and the interpreter's module
import locks, are simulated: blocking on one hands control to another thread, and threads that all
wait for each other are reported as a deadlock.
"""
from __future__ import annotations

import _thread
import _imp
import hashlib
import importlib._bootstrap as _bootstrap
import os
import random
import sys
import threading
import time

from sim import core

_alloc = _thread.allocate_lock
_RealRLock = threading.RLock
MAX_POINTS = 6_000_000
STREAK = 150_000
TRACED = [core.ARTI_SRC]


def _current():
    """(scheduler, simulated thread) if called from one."""
    w = core.WORLD
    if w is None or w.sched is None or not w.active:
        return None, None
    t = getattr(w.sched.tls, "t", None)
    return (w.sched, t) if t is not None else (None, None)


def gen_sched(rng, length=25_000):
    cfg = {"seed": rng.randrange(1 << 40)}
    r = rng.random()
    if r < 0.6:
        cfg["kind"] = "rand"
        cfg["p"] = {"line": rng.choice([0.0, 0.001, 0.004, 0.02, 0.08]), "ev": rng.choice([0.1, 0.3, 0.6]), "lock": rng.choice([0.1, 0.5])}
        if rng.random() < 0.5:
            # Dense switching within some source files, wherever the others are.
            cfg["hot"] = [rng.randrange(1 << 20), rng.choice([2, 5, 10])]
            cfg["p"]["hot"] = rng.choice([0.03, 0.1, 0.3])
    else:
        cfg["kind"] = "pct"
        cfg["d"] = rng.randint(1, 6)
        cfg["len"] = int(length * rng.choice([0.1, 0.3, 1, 1]))
        if rng.random() < 0.5:
            # The changes of priority happen within some source files.
            cfg["hot"] = [rng.randrange(1 << 20), rng.choice([2, 5, 10])]
            cfg["len"] = rng.choice([30, 100, 300, 1000, 3000])
    return cfg


class SimThread:
    def __init__(self, i, name, fn, node):
        self.i, self.name, self.fn, self.node = i, name, fn, node
        self.sem = _alloc()
        self.sem.acquire()
        self.finished = False
        self.ready = None  # while blocked: callable telling whether it may go on
        self.why = ""
        self.deadline = None
        self.timed_out = False
        self.prio = 0.0


class Sched:
    def __init__(self, w, cfg, decisions=None):
        self.w, self.cfg = w, cfg
        self.tls = threading.local()
        self.threads: list[SimThread] = []
        self.n = 0
        self.switches = 0
        self.since = 0
        self.rng = random.Random(f"sched:{cfg.get('seed', 0)}")
        self.replay = None if decisions is None else {int(a): b for a, b in decisions}
        self.rec: list[list[int]] = []
        self.sha = hashlib.sha256()
        self.done = _alloc()
        self.done.acquire()
        self.failure: BaseException | None = None
        self.kind = cfg.get("kind", "rand")
        self.p = {"line": 0.01, "ev": 0.2, "lock": 0.3, **cfg.get("p", {})}
        self.gap = {k: self._gap(k) for k in self.p}
        self.low = 0.0
        self.changes = set()
        self.reconsider = False
        self.traced: dict = {}
        self.hot: dict = {}
        self.n_hot = 0
        self.meets: dict = {}
        if self.kind == "pct":
            n = max(10, cfg.get("len", 20_000))
            self.changes = {1 + int(self.rng.random() * n) for _ in range(cfg.get("d", 3))}

    # -- set up --------------------------------------------------------------------------------
    def spawn(self, name, fn, node=None):
        t = SimThread(len(self.threads), name, fn, node or core.Node(name))
        t.prio = self.rng.random()
        self.threads.append(t)
        return t

    def run(self):
        """Runs all threads to their end. Raises what went wrong in any of them."""
        if not self.threads:
            return
        for t in self.threads:
            threading.Thread(target=self._boot, args=(t,), daemon=True, name=t.name).start()
        self._hand_over(None)
        self.done.acquire()
        if self.failure is not None:
            raise self.failure

    def _boot(self, t):
        t.sem.acquire()
        self.tls.t = t
        self.w.node = t.node
        try:
            try:
                sys.settrace(self._tracer)
                t.fn()
            finally:
                sys.settrace(None)
        except core.SimCrash:
            pass
        except (core.Violation, core.Hang, core.Discard) as e:
            self.fail(e)
        except BaseException as e:
            import traceback

            self.fail(core.Violation("unexpected_error", f"in {t.name}: {e!r}", tb=traceback.format_exc()[-3000:]))
        t.finished = True
        if self.failure is not None:
            return
        self._hand_over(t)

    def fail(self, exc):
        """Stop everything here: the other threads never go on."""
        if self.failure is None:
            self.failure = exc
        self.done.release()
        _alloc_park()

    # -- tracing -------------------------------------------------------------------------------
    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        hit = self.traced.get(fn)
        if hit is None:
            hit = self.traced[fn] = any(fn.startswith(p) for p in TRACED)
            if hit and self.cfg.get("hot"):
                salt, n = self.cfg["hot"]
                name = "/".join(fn.split(os.sep)[-2:])
                if int(hashlib.sha256(f"{salt}:{name}".encode()).hexdigest()[:8], 16) % n == 0:
                    self.hot[fn] = "hot"
        if not hit:
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            t = self.tls.t
            w = self.w
            if w.in_server or not w.active:
                return self._local
            node = t.node
            if node.faults:
                w.line(node, frame)
            self.point(self.hot.get(frame.f_code.co_filename, "line"), frame)
            if node.dead and not core.at_with_exit(frame):
                raise core.SimCrash()
        elif event == "return":
            if self.w.active and not self.w.in_server:
                self.point(self.hot.get(frame.f_code.co_filename, "line"), frame)
        return self._local

    # -- scheduling ----------------------------------------------------------------------------
    def _gap(self, k):
        p = self.p[k]
        if p <= 0:
            return 1 << 60
        return 1 + int(self.rng.expovariate(p))

    def runnable(self):
        out = []
        for t in self.threads:
            if t.finished:
                continue
            if t.ready is None or t.ready():
                out.append(t)
        return out

    def point(self, cls, frame=None):
        """A place where another thread may take over."""
        t = getattr(self.tls, "t", None)
        if t is None:
            return
        self.n += 1
        n = self.n
        self.since += 1
        if self.replay is not None:
            if n not in self.replay and self.since < STREAK:
                return
        elif self.kind == "pct":
            at = n
            if self.cfg.get("hot"):
                self.n_hot += cls == "hot"
                at = self.n_hot if cls == "hot" else 0
            change = at in self.changes
            if not change and not self.reconsider and self.since < STREAK:
                return
        else:
            cls = cls if cls in self.gap else "ev"
            self.gap[cls] -= 1
            if self.gap[cls] > 0 and self.since < STREAK:
                return
            self.gap[cls] = self._gap(cls)
        if n > MAX_POINTS:
            self.fail(core.Hang(f"more than {MAX_POINTS} scheduling points"))
        if _imp.lock_held():
            # The interpreter's own lock, held while modules are looked for: others would really block.
            return
        cands = self.runnable()
        if len(cands) < 2:
            self.reconsider = False
            return
        if self.replay is not None:
            want = self.replay.get(n)
            nxt = next((c for c in cands if c.i == want), t)
            if self.since >= STREAK and nxt is t:
                nxt = next(c for c in cands if c is not t)
        elif self.kind == "pct":
            if change or self.since >= STREAK:
                self.low -= 1.0
                t.prio = self.low
            self.reconsider = False
            nxt = max(cands, key=lambda c: c.prio)
        else:
            nxt = self.rng.choice([c for c in cands if c is not t])
        if nxt is t:
            return
        where = cls if frame is None else f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
        self._switch(t, nxt, where)

    def _switch(self, t, nxt, where):
        self.rec.append([self.n, nxt.i])
        self.switches += 1
        self.since = 0
        self.sha.update(f"{t.i}@{where}>{nxt.i};".encode())
        self.w.log("SWITCH", t.name, where, nxt.name)
        nxt.ready = None
        nxt.sem.release()
        t.sem.acquire()

    def _hand_over(self, t):
        """`t` cannot go on (None: at the start)."""
        self.n += 1
        while True:
            cands = self.runnable()
            if cands:
                break
            timers = [x for x in self.threads if not x.finished and x.deadline is not None]
            if timers:
                x = min(timers, key=lambda x: (x.deadline, x.i))
                self.w.sim_time = max(self.w.sim_time, x.deadline)
                x.timed_out = True
                x.ready, x.deadline = None, None
                continue
            if all(x.finished for x in self.threads):
                self.done.release()
                return
            waits = "; ".join(f"{x.name} waits for {x.why}" for x in self.threads if not x.finished)
            v = core.Violation("deadlock", f"no thread can go on: {waits}")
            self.w.violations.append(v)
            self.fail(v)
        if self.replay is not None:
            want = self.replay.get(self.n)
            nxt = next((c for c in cands if c.i == want), cands[0])
        elif self.kind == "pct":
            nxt = max(cands, key=lambda c: c.prio)
        else:
            nxt = self.rng.choice(cands)
        self.rec.append([self.n, nxt.i])
        self.since = 0
        self.sha.update(f"{-1 if t is None else t.i}#>{nxt.i};".encode())
        if t is None:
            nxt.sem.release()
            return
        if nxt is t:
            t.ready = None
            return
        self.w.log("SWITCH", t.name, "end" if t.finished else f"blocked:{t.why}", nxt.name)
        nxt.ready = None
        nxt.sem.release()
        if not t.finished:
            t.sem.acquire()

    def block(self, t, why, ready, timeout=None):
        """Returns whether it became ready (False: timed out)."""
        t.why, t.ready, t.timed_out = why, ready, False
        t.deadline = None if timeout is None else self.w.sim_time + timeout
        self._hand_over(t)
        t.ready = t.deadline = None
        if t.node.dead:
            raise core.SimCrash()
        return not t.timed_out

    def meet(self, name, k=2):
        """Threads that go on together (alone if nobody else comes)."""
        t = self.tls.t
        here = self.meets.setdefault(name, [])
        here.append(t)
        if len(here) >= k:
            self.meets[name] = []
            self.point("ev")
        elif not self.block(t, f"others at {name}", lambda: len(here) >= k, timeout=1.0):
            here.remove(t)

    def recorded(self):
        return self.rec

    def shape(self):
        return self.sha.hexdigest()[:24]


def _alloc_park():
    lock = _alloc()
    lock.acquire()
    lock.acquire()


# ==================================================================================================
# Locks
# ==================================================================================================
def _where():
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__") in _TRANSPARENT:
        f = f.f_back
    return "" if f is None else f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}"


class SimLock:
    def __init__(self):
        self._real = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        s, t = _current()
        if t is None:
            if not blocking:
                return self._real.acquire(False)
            if timeout is None or timeout < 0:
                if not self._real.acquire(False):
                    if threading.active_count() == 1:
                        w = core.world()
                        v = core.Violation("deadlock", f"the only thread waits for a lock it holds at {_where()}")
                        if w is not None:
                            w.violations.append(v)
                        raise core.Hang(v.msg)
                    self._real.acquire()
                return True
            return self._real.acquire(True, timeout)
        s.point("lock")
        while not self._real.acquire(False):
            if not blocking:
                return False
            if not s.block(t, f"lock at {_where()}", lambda: not self._real.locked(), None if timeout is None or timeout < 0 else timeout):
                return self._real.acquire(False)
        return True

    def release(self):
        self._real.release()
        s, t = _current()
        if t is not None:
            s.reconsider = True

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _alloc()


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = (self._owner, self._count)
        self._owner, self._count = None, 0
        self._lock.release()
        return state

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._owner, self._count = state

    def _at_fork_reinit(self):
        self.__init__()


_TRANSPARENT = {"threading", "queue", "concurrent.futures._base", "concurrent.futures.thread", "functools", "contextlib", __name__}


def _wants_sim():
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__") in _TRANSPARENT:
        f = f.f_back
    name = (f.f_globals.get("__name__") or "") if f is not None else ""
    return name == "arti" or name.startswith("arti.")


def _lock_factory():
    return SimLock() if _wants_sim() else _alloc()


def _rlock_factory(*a, **k):
    return SimRLock() if _wants_sim() else _RealRLock(*a, **k)


_RealModuleLock = _bootstrap._ModuleLock


class SimModuleLock:
    """importlib's per module lock, with its semantics (reentrant, breaking deadlocks among themselves)."""

    waiting: dict = {}  # SimThread -> lock waited for

    def __init__(self, name):
        self.name = name
        self._inner = None
        self._owner = None
        self._count = 0

    def acquire(self):
        s, t = _current()
        if t is None:
            if self._inner is None:
                self._inner = _RealModuleLock(self.name)
            return self._inner.acquire()
        s.point("lock")
        while True:
            if self._owner is None or self._owner is t:
                self._owner = t
                self._count += 1
                return True
            # Is there a cycle of threads waiting for each other's modules?
            seen, o = set(), self._owner
            while o is not None and o not in seen:
                seen.add(o)
                lock = self.waiting.get(o)
                if lock is None:
                    break
                o = lock._owner
                if o is t:
                    raise _bootstrap._DeadlockError(f"deadlock detected by {self!r}")
            self.waiting[t] = self
            try:
                s.block(t, f"import of {self.name}", lambda: self._owner is None)
            finally:
                self.waiting.pop(t, None)

    def release(self):
        s, t = _current()
        if self._owner is not None and (t is None or self._owner is t):
            self._count -= 1
            if not self._count:
                self._owner = None
                if s is not None:
                    s.reconsider = True
            return
        if self._inner is None:
            raise RuntimeError("cannot release un-acquired lock")
        return self._inner.release()

    def __repr__(self):
        return f"_ModuleLock({self.name!r}) at {id(self)}"


_real_sleep = time.sleep


def _sleep(secs):
    w = core.world()
    if w is None or not w.active:
        return _real_sleep(secs)
    s, t = _current()
    if t is None:
        w.sim_time += secs
        return
    s.block(t, f"sleep of {secs}s", lambda: False, max(secs, 0))


def install():
    if threading.Lock is _lock_factory:
        return
    threading.Lock = _lock_factory
    threading._allocate_lock = _lock_factory
    threading.RLock = _rlock_factory
    _bootstrap._ModuleLock = SimModuleLock
    time.sleep = _sleep
