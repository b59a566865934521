"""Harness access to what is stored, past the simulator: scratch files and simulated buckets."""
from __future__ import annotations

import os
import random

from sim import core, fs, gcs


def ways(seed, inplace=False) -> dict:
    """How others write: see `Local.put`, and whether GCS has MD5 checksums for existing objects."""
    rng = random.Random(f"ways:{seed}")
    return {"ext": rng.choice([None, None, "times", "inplace" if inplace else "times"]), "composite": rng.random() < 0.25}


class Local:
    def get(self, path):
        with fs.outside():
            try:
                with open(path, "rb") as f:
                    return f.read()
            except (FileNotFoundError, NotADirectoryError):
                return None

    def put(self, path, data):
        """Store as some other program would: moved into place or (`inplace`) written over what is there,
        possibly keeping (`times`) the modification time."""
        how = core.world().plan.get("ext")
        with fs.outside():
            os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
            # (Not under someone's feet: what they read would be neither the old nor the new contents.)
            if how == "inplace" and os.path.exists(path) and not core.world().open_files:
                with open(path, "r+b") as f:
                    f.write(data)
                    f.truncate()
            else:
                tmp = os.path.join(os.path.dirname(path), ".ext-writer.tmp")
                with open(tmp, "wb") as f:
                    f.write(data)
                os.replace(tmp, path)
            if how:
                os.utime(path, (1_700_000_000, 1_700_000_000))

    def delete(self, path):
        with fs.outside():
            try:
                os.unlink(path)
            except FileNotFoundError:
                pass

    def all(self, top="."):
        out = {}
        with fs.outside():
            for d, dirs, files in os.walk(top):
                for f in files:
                    p = os.path.normpath(os.path.join(d, f))
                    with open(p, "rb") as fh:
                        out[p] = fh.read()
        return out

    def below(self, top):
        """Contents by path relative to `top`."""
        return {os.path.relpath(p, os.path.normpath(top)): d for p, d in self.all(top).items()}

    def key(self, path):
        """Name of a stored file as listed by `all`."""
        return fs.rel(path)


class Bucket:
    name = "bkt"

    def objs(self):
        return gcs.BUCKETS[self.name]

    def get(self, path):
        return self.objs().get(path)

    def put(self, path, data):
        self.objs()[path] = data

    def delete(self, path):
        self.objs().pop(path, None)

    def all(self, top=None):
        return dict(self.objs())

    def below(self, top):
        return {k[len(top) + 1:]: v for k, v in self.objs().items() if k.startswith(top + "/")}

    def key(self, path):
        return path
