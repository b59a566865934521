"""Simulated git: repositories with a minimal real `.git`, and git processes run without processes.

The common ways to ask for the commit are answered in place; any other git command is run for real on the
(real, minimal) repository. Every way of starting a process passes `subprocess.Popen` in the end.
"""
from __future__ import annotations

import errno
import io
import os
import re
import shutil
import subprocess

from sim import core, fs

_RealPopen = subprocess.Popen
REPOS: dict[str, dict] = {}  # directory -> {"head": sha or None, "branch": bool}


def reset():
    REPOS.clear()


def set_repo(base, name, state):
    """state: None (no repository), {"head": sha | None, "branch": bool}"""
    path = os.path.join(base, name)
    with fs.outside():
        os.makedirs(os.path.join(path, "sub"), exist_ok=True)
        git = os.path.join(path, ".git")
        shutil.rmtree(git, ignore_errors=True)
        REPOS[path] = state
        if state is None:
            return
        for d in ("objects", "refs/heads"):
            os.makedirs(os.path.join(git, d))
        sha = state["head"]
        with open(os.path.join(git, "HEAD"), "w") as f:
            f.write("ref: refs/heads/main\n" if sha is None or state["branch"] else sha + "\n")
        if sha is not None and state["branch"]:
            with open(os.path.join(git, "refs/heads/main"), "w") as f:
                f.write(sha + "\n")
        with open(os.path.join(git, "config"), "w") as f:
            f.write("[core]\n\trepositoryformatversion = 0\n\tbare = false\n" if sha is None or len(sha) == 40 else
                    "[core]\n\trepositoryformatversion = 1\n\tbare = false\n[extensions]\n\tobjectformat = sha256\n")


def find(cwd):
    while True:
        if REPOS.get(cwd) is not None:
            return REPOS[cwd]
        up = os.path.dirname(cwd)
        if up == cwd:
            return None
        cwd = up


def answer(args, cwd):
    """(rc, stdout, stderr), or None if to be run for real."""
    args = list(args)
    while args:
        if args[0] == "-C" and len(args) > 1:
            cwd = os.path.join(cwd, args[1])
            del args[:2]
        elif args[0] in ("--no-pager", "--no-optional-locks"):
            del args[0]
        else:
            break
    rest = [a for a in args[1:] if a not in ("--verify", "-q", "--quiet", "--end-of-options", "--no-patch", "-s", "-1", "-n1", "--no-show-signature", "--no-color")]
    if not args or (args[0] == "rev-parse" and rest not in (["HEAD"], ["@"])) or args[0] not in ("rev-parse", "log", "show"):
        return None
    if args[0] in ("log", "show"):
        if not rest or not all(re.fullmatch(r"--(format|pretty)=(format:|tformat:)?%H|HEAD|@", a) for a in rest) or not any("%H" in a for a in rest):
            return None
    repo = find(os.path.realpath(cwd))
    if repo is None:
        return 128, "", "fatal: not a git repository (or any of the parent directories): .git\n"
    if repo["head"] is None:
        if args[0] == "rev-parse":
            verify = "--verify" in args
            return 128, "" if verify else rest[0] + "\n", "fatal: Needed a single revision\n" if verify else f"fatal: ambiguous argument '{rest[0]}': unknown revision or path not in the working tree.\n"
        return 128, "", "fatal: your current branch 'main' does not have any commits yet\n"
    return 0, repo["head"] + "\n", ""


class Popen(_RealPopen):
    def __init__(self, args, *pos, **kw):
        w = core.world()
        self._sim = False
        if w is None or not w.active or w.plan.get("workload") != "versions":
            super().__init__(args, *pos, **kw)
            return
        words = args.split() if isinstance(args, (str, bytes)) else [os.fsdecode(a) for a in args]
        if words[:2] == ["/bin/sh", "-c"]:
            words = words[2].split()
        if not words or os.path.basename(words[0]) != "git" or pos:
            super().__init__(args, *pos, **kw)
            return
        self._child_created = False
        f = w.event("git", "spawn", " ".join(words[1:]))
        kind = f["kind"] if f else None
        if kind in ("EAGAIN", "ENOMEM", "EMFILE"):
            e = getattr(errno, kind)
            raise OSError(e, os.strerror(e))
        if kind == "missing":
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), words[0])
        cwd = os.path.join(os.getcwd(), os.fspath(kw.get("cwd") or "."))
        res = answer(words[1:], cwd)
        if res is None:
            if kind is None or kind in ("slow", "warn"):
                self._child_created = True
                with fs.outside():
                    super().__init__(args, **kw)
                return
            res = (0, "", "")
        rc, out, err = res
        self._slow = 0.0
        if kind == "killed":  # by a signal, having written some of its output
            rc, out = -9, out[: int(len(out) * f.get("frac", 0.5))]
        elif kind == "rc":
            rc, out, err = 128, "", "fatal: detected dubious ownership in repository\n"
        elif kind == "warn":
            err = "warning: unable to access '/root/.config/git/attributes': Permission denied\n" + err
        elif kind == "stall":
            self._slow = f.get("s", 30.0)
        self._sim = True
        self.args, self.pid, self._rc = args, 4242, rc
        self.returncode = None
        self.stdin = None
        enc = kw.get("encoding")
        self.text_mode = bool(kw.get("text") or kw.get("universal_newlines") or enc or kw.get("errors"))
        if kw.get("stderr") is subprocess.STDOUT:
            out, err = err + out, None

        def pipe(how, data):
            if how == subprocess.PIPE:
                return io.StringIO(data) if self.text_mode else io.BytesIO(data.encode())
            if hasattr(how, "write"):
                try:
                    how.write(data.encode())
                except TypeError:
                    how.write(data)
            return None

        self.stdout = pipe(kw.get("stdout"), out)
        self.stderr = None if kw.get("stderr") is subprocess.STDOUT else pipe(kw.get("stderr"), err)

    def _finish(self, timeout):
        if self.returncode is None:
            if self._slow:
                if timeout is not None and timeout < self._slow:
                    raise subprocess.TimeoutExpired(self.args, timeout)
                core.world().sim_time += self._slow
            self.returncode = self._rc
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if not self._sim:
            return super().communicate(input, timeout)
        self._finish(timeout)
        out = self.stdout.read() if self.stdout else None
        err = self.stderr.read() if self.stderr else None
        return out, err

    def poll(self):
        return self._finish(None) if self._sim else super().poll()

    def wait(self, timeout=None):
        return self._finish(timeout) if self._sim else super().wait(timeout)

    def send_signal(self, sig):
        if not self._sim:
            return super().send_signal(sig)
        if self.returncode is None:
            self.returncode, self._slow = -sig, 0.0

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def __exit__(self, *exc):
        if not self._sim:
            return super().__exit__(*exc)
        for s in (self.stdout, self.stderr):
            if s:
                s.close()
        self._finish(None)

    def __del__(self, *a, **kw):
        if not getattr(self, "_sim", True):
            super().__del__(*a, **kw)


def install():
    if subprocess.Popen is not Popen:
        subprocess.Popen = Popen
