"""Google Cloud Storage seam: an in-process bucket server below the real gcsfs and fsspec.

The HTTP session of gcsfs is replaced by one whose requests are events of the simulator; coroutines run on
a private event loop (no IO thread), and backoff sleeps advance virtual time only.
"""
from __future__ import annotations

import asyncio
import base64
import hashlib
import json
import logging
import threading
from urllib.parse import parse_qs, unquote, urlsplit

from sim import core

BUCKETS: dict[str, dict[str, bytes]] = {"bkt": {}}
_uploads: dict[str, dict] = {}
_tls = threading.local()


def reset():
    BUCKETS.clear()
    BUCKETS["bkt"] = {}
    _uploads.clear()


def meta(bucket, name, uploaded=False):
    data = BUCKETS[bucket][name]
    out = {
        "kind": "storage#object", "bucket": bucket, "name": name, "size": str(len(data)),
        "contentType": "application/octet-stream", "generation": "1", "updated": "2024-01-01T00:00:00.000Z",
        "timeCreated": "2024-01-01T00:00:00.000Z", "id": f"{bucket}/{name}/1",
        "md5Hash": base64.b64encode(hashlib.md5(data).digest()).decode(),
        "crc32c": base64.b64encode(hashlib.sha1(data).digest()[:4]).decode(),
    }
    if not uploaded and (w := core.world()) is not None and w.plan.get("composite"):
        del out["md5Hash"]  # composite objects have none
    return out


class _Response:
    def __init__(self, status, body=b"", headers=None):
        self.status, self._body, self.headers = status, body, headers or {}
        self.request_info = None

    async def read(self):
        return self._body


def _json(obj):
    return _Response(200, json.dumps(obj).encode())


def _error(status):
    return _Response(status, json.dumps({"error": {"code": status, "message": f"simulated {status}"}}).encode())


class _Request:
    def __init__(self, fn):
        self._fn = fn

    async def __aenter__(self):
        return self._fn()

    async def __aexit__(self, *a):
        return False


class FakeSession:
    closed = False

    async def close(self):
        self.closed = True

    def request(self, method, url, params=None, json=None, headers=None, data=None, timeout=None, **kw):
        return _Request(lambda: self._handle(method.upper(), url, dict(params or {}), json, headers or {}, data))

    def _handle(self, method, url, params, body, headers, data):
        parts = urlsplit(url)
        for k, v in parse_qs(parts.query).items():
            params.setdefault(k, v[0])
        segs = parts.path.split("/")
        if hasattr(data, "read"):
            data = data.read()
        what, detail, effect = self._route(method, segs, params, body, headers, data)
        w = core.world()
        if w is None or not w.active:
            return effect()
        try:
            f = w.event("gcs", what, detail)
        except KeyboardInterrupt:
            # Interrupts arrive in the thread waiting for the request, which itself goes on.
            _tls.interrupted = True
            return effect()
        if f is None:
            return effect()
        if f["kind"] == "garble":
            # Damaged on the way: the service stores (and describes) what it received.
            res = effect()
            if what == "upload":
                bucket, name = unquote(segs[segs.index("b") + 1]), detail.rsplit(" ", 1)[0]
                old = BUCKETS[bucket].get(name)
                if old:
                    BUCKETS[bucket][name] = old[: len(old) // 2] + bytes([old[len(old) // 2] ^ 1]) + old[len(old) // 2 + 1:]
                    res = _json(meta(bucket, name, True))
            return res
        if f.get("when") == "after":
            effect()
        kind = f["kind"]
        if kind in ("crash", "torn"):
            w.crash()
        if kind == "conn":
            import aiohttp

            raise aiohttp.ClientConnectionError("simulated connection failure")
        if kind == "timeout":
            raise asyncio.TimeoutError()
        return _error(int(kind) if kind.isdigit() else 403)

    def _route(self, method, segs, params, body, headers, data):
        # /storage/v1/b/{bucket}/o[/{object}]; the same below /upload and /download.
        i = segs.index("b") if "b" in segs else None
        if i is None:
            return "other", "/".join(segs), lambda: _error(404)
        kind = segs[1]
        bucket = unquote(segs[i + 1])
        key = unquote("/".join(segs[i + 3:])) if len(segs) > i + 3 else None
        objs = BUCKETS.get(bucket)
        if objs is None:
            return "other", bucket, lambda: _error(404)
        if kind == "upload":
            if params.get("uploadType") == "multipart":
                _, head, rest = data.split(b"--==0==", 2)
                name = _parse_json(head)["name"]
                payload = rest.split(b"\n\n", 1)[1]
                payload = payload[: -len(b"\n--==0==--")]

                def effect():
                    objs[name] = payload
                    return _json(meta(bucket, name, True))

                return "upload", f"{name} {len(payload)}", effect
            if params.get("upload_id"):
                u = _uploads[params["upload_id"]]

                def effect():
                    rng = headers.get("Content-Range", "")
                    if data:
                        start = int(rng.split()[1].split("-")[0]) if "-" in rng else 0
                        u["data"] = u["data"][:start] + data
                    if rng.endswith("/*"):
                        return _Response(308, b"", {"Range": f"bytes=0-{len(u['data']) - 1}"})
                    objs[u["name"]] = u["data"]
                    return _json(meta(bucket, u["name"], True))

                if method == "DELETE":
                    return "cancel", u["name"], lambda: _Response(499)
                return "upload", f"{u['name']} {len(data or b'')}", effect

            def effect():
                uid = str(len(_uploads) + 1)
                _uploads[uid] = {"name": body["name"], "data": b""}
                return _Response(200, b"", {"Location": f"http://sim/upload/storage/v1/b/{bucket}/o?upload_id={uid}"})

            return "begin_upload", body["name"], effect
        if method == "DELETE":
            def effect():
                if key not in objs:
                    return _error(404)
                del objs[key]
                return _Response(204)

            return "delete", key, effect
        if key is not None and (kind == "download" or params.get("alt") == "media"):
            def effect():
                if key not in objs:
                    return _error(404)
                out = objs[key]
                r = headers.get("Range")
                if r:
                    lo, hi = r.split("=")[1].split("-")
                    if lo == "":
                        out = out[-int(hi):]
                    elif int(lo) >= len(out):
                        return _Response(416, b"range not satisfiable")
                    else:
                        out = out[int(lo): int(hi) + 1 if hi else None]
                return _Response(200, out, {"Content-Length": str(len(out))})

            return "media", key, effect
        if key is not None:
            return "get", key, lambda: _json(meta(bucket, key)) if key in objs else _error(404)
        if len(segs) > i + 2:
            return "list", f"{params.get('prefix', '')} {params.get('pageToken', '')}", lambda: self._list(bucket, objs, params)
        return "bucket", bucket, lambda: _json({"kind": "storage#bucket", "name": bucket})

    def _list(self, bucket, objs, params):
        prefix, delim = params.get("prefix") or "", params.get("delimiter") or ""
        entries: list[tuple[str, bool]] = []
        for name in sorted(objs):
            if not name.startswith(prefix):
                continue
            if delim and delim in name[len(prefix):]:
                p = prefix + name[len(prefix):].split(delim)[0] + delim
                if (p, True) not in entries:
                    entries.append((p, True))
            else:
                entries.append((name, False))
        w = core.world()
        limit = int(params.get("maxResults") or 1000)
        if w is not None:
            limit = min(limit, int(w.plan.get("page", 1000)))  # servers may return fewer than asked for
        tok = params.get("pageToken")
        if tok:
            last = base64.b64decode(tok).decode()
            entries = [e for e in entries if e[0] > last]
        page, more = entries[:limit], entries[limit:]
        out = {"kind": "storage#objects"}
        if prefixes := [n for n, p in page if p]:
            out["prefixes"] = prefixes
        if items := [meta(bucket, n) for n, p in page if not p]:
            out["items"] = items
        if more:
            out["nextPageToken"] = base64.b64encode(page[-1][0].encode()).decode()
        return _json(out)


def _parse_json(part: bytes):
    text = part.decode()
    return json.loads(text[text.index("{"):].strip())


# -- installation ----------------------------------------------------------------------------------
_real_sleep = asyncio.sleep


async def _sleep(delay, result=None):
    w = core.world()
    if w is None:
        return await _real_sleep(delay, result)
    w.sim_time += delay
    w.event_counts["gcs.backoff"] += 1
    return result


def _loop():
    loop = getattr(_tls, "loop", None)
    if loop is None:
        loop = _tls.loop = asyncio.new_event_loop()
    return loop


def _sync(loop, func, *args, timeout=None, **kwargs):
    _tls.interrupted = False
    try:
        res = _loop().run_until_complete(func(*args, **kwargs))
    except asyncio.TimeoutError as e:
        import fsspec.exceptions

        res = e
        if not _tls.interrupted:
            raise fsspec.exceptions.FSTimeoutError from e
    if _tls.interrupted:
        _tls.interrupted = False
        raise KeyboardInterrupt("simulated")
    return res


def _track_handles(core_mod):
    """Open handles of remote objects count as open files of the world, until they are closed."""
    real_open, real_close = core_mod.GCSFileSystem._open, core_mod.GCSFile.close

    def _open(self, path, mode="rb", *args, **kwargs):
        file = real_open(self, path, mode, *args, **kwargs)
        if (w := core.world()) is not None:
            w.open_files[("gcs", id(file))] = f"gs://{path}"
        return file

    def close(self):
        try:
            return real_close(self)
        finally:
            if (w := core.world()) is not None:
                w.open_files.pop(("gcs", id(self)), None)

    core_mod.GCSFileSystem._open, core_mod.GCSFile.close = _open, close


def install():
    import fsspec.asyn
    import fsspec.config
    import gcsfs
    import gcsfs.core

    if getattr(gcsfs.core, "_sim", False):
        return
    gcsfs.core._sim = True

    async def get_client(**kw):
        return FakeSession()

    gcsfs.core.get_client = get_client
    _track_handles(gcsfs.core)
    # Bound under several names (sync_wrapper looks it up in its module).
    fsspec.asyn.sync = _sync
    for mod in (gcsfs.core,):
        if hasattr(mod, "sync"):
            mod.sync = _sync
    fsspec.asyn.get_loop = lambda: _PlaceholderLoop()
    asyncio.sleep = _sleep
    for p in ("gcs", "gs"):
        fsspec.config.conf[p] = {"token": "anon", "project": "sim", "endpoint_url": "http://sim"}
    logging.getLogger("gcsfs").setLevel(logging.CRITICAL + 1)


class _PlaceholderLoop:
    def is_running(self):
        return False

    def is_closed(self):
        return False
