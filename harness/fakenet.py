"""A fake server below `requests`, archives, child processes with faults injected from outside.

Nothing here depends on how pyspectral is written: HTTP is intercepted at the transport adapter, file
system faults through the interpreter's audit events, partial writes through RLIMIT_FSIZE.
"""
import gzip
import io
import json
import os
import pathlib
import resource
import signal
import sys
import tarfile

import requests
import urllib3
from urllib3.response import HTTPResponse

KILL = 137


class Body(io.RawIOBase):
    """Response body that can break or kill the process after some bytes."""

    def __init__(self, data, fail_at=None, how="error"):
        self.data, self.pos, self.fail_at, self.how = data, 0, fail_at, how

    def readable(self):
        return True

    def read(self, n=-1):
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        if self.fail_at is not None and end > self.fail_at:
            if self.pos >= self.fail_at:
                if self.how == "kill":
                    os.kill(os.getpid(), signal.SIGKILL)
                if self.how == "timeout":
                    raise urllib3.exceptions.ReadTimeoutError(None, "", "read timed out")
                raise urllib3.exceptions.ProtocolError("connection broken")
            end = self.fail_at
        out = self.data[self.pos:end]
        self.pos = end
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def irregular(body, amt):
    """As a server that sends its answer in pieces of any size."""
    sizes = [1, 7, 1, 1000, 1, 4096, 100000]
    for k in range(10 ** 9):
        data = body.read(min(amt, sizes[k % len(sizes)]))
        if not data:
            return
        yield data


class FakeNet:
    """handler(url) -> dict(status, body, headers, fail_at, how) or raises a requests exception."""

    def __init__(self, handler, logfile=None):
        self.handler, self.log, self.logfile = handler, [], logfile

    def __enter__(self):
        self._orig = requests.adapters.HTTPAdapter.send
        net = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            net.log.append(request.url)
            if net.logfile:
                fd = os.open(net.logfile, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
                os.write(fd, (request.url + "\n").encode())
                os.close(fd)
            r = net.handler(request.url)
            body = Body(r.get("body", b""), r.get("fail_at"), r.get("how", "error"))
            hd = dict(r.get("headers", {}))
            if r.get("length", True):
                hd.setdefault("content-length", str(r.get("declared", len(r.get("body", b"")))))
            raw = HTTPResponse(body=body, headers=hd, status=r.get("status", 200), reason="fake",
                               preload_content=False, decode_content=False, request_method=request.method)
            if r.get("pieces"):
                raw.stream = lambda amt=65536, decode_content=None: irregular(body, amt)
            resp = adapter.build_response(request, raw)
            if not stream:
                resp.content
            return resp
        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *a):
        requests.adapters.HTTPAdapter.send = self._orig


def make_tar(members):
    """members: list of (name, bytes) or TarInfo-like dicts; returns gzipped tar bytes."""
    buf = io.BytesIO()
    with tarfile.open(mode="w", fileobj=buf) as tar:
        for m in members:
            if isinstance(m, tuple):
                info = tarfile.TarInfo(m[0])
                info.size = len(m[1])
                info.mtime = 1700000000
                tar.addfile(info, io.BytesIO(m[1]))
            else:
                info = tarfile.TarInfo(m["name"])
                info.mtime = 1700000000
                info.type = m["type"]
                info.linkname = m.get("linkname", "")
                info.mode = m.get("mode", 0o644)
                info.devmajor, info.devminor = m.get("dev", (0, 0))
                data = m.get("data", b"")
                info.size = len(data)
                tar.addfile(info, io.BytesIO(data) if data else None)
    return gzip.compress(buf.getvalue(), mtime=0)


_WRITE_EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod", "os.utime", "os.symlink",
                 "os.link", "os.truncate", "os.chown", "os.mkfifo", "os.mknod"}


class FsFault:
    """Count writes below root; at the k-th either kill the process or raise OSError."""

    def __init__(self, root, k=None, how="kill"):
        self.root, self.k, self.how, self.n, self.armed = os.path.realpath(root), k, how, 0, True
        self.busy = False
        sys.addaudithook(self)

    def __call__(self, event, args):
        if not self.armed or self.busy:
            return
        if event == "open":
            path, mode, flags = args
            w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or \
                (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            if not w:
                return
            paths = [path]
        elif event in _WRITE_EVENTS:
            paths = [p for p in args if isinstance(p, (str, bytes, os.PathLike))]
        else:
            return
        self.busy = True
        try:
            hit = False
            for p in paths:
                if isinstance(p, int):
                    continue
                p = os.fsdecode(p)
                full = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
                if (full + "/").startswith(self.root + "/"):
                    hit = True
            if not hit:
                return
            self.n += 1
            fire = self.k is not None and self.n == self.k
        finally:
            self.busy = False
        if fire:
            if self.how == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            raise OSError(28, "No space left on device")


def in_child(fn, size_limit=None, size_kill=False, fs=None, uid=None, timeout=60):
    """Run fn() in a forked child. Returns dict(outcome=ok|error|killed, ret, err, errs, msg, nfs)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(timeout)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
            if uid is not None:
                os.setgroups([])
                os.setgid(uid)
                os.setuid(uid)
            hook = FsFault(*fs) if fs else None
            if size_limit is not None:
                if size_kill:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (size_limit, size_limit))
            try:
                res = {"outcome": "ok", "ret": fn(), "errs": [], "err": "", "msg": ""}
            except BaseException as e:  # noqa: BLE001
                res = {"outcome": "error", "ret": None, "err": type(e).__name__, "msg": str(e)[:300],
                       "errs": [c.__name__ for c in type(e).__mro__]}
            if hook:
                hook.armed = False
                res["nfs"] = hook.n
            os.write(w, json.dumps(res, default=str).encode())
        except BaseException:  # noqa: BLE001
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        raise RuntimeError("child did not end")
    if os.WIFSIGNALED(status) or not data:
        if not os.WIFSIGNALED(status):
            raise RuntimeError(f"child failed, status {status}")
        return {"outcome": "killed", "ret": None, "err": "", "errs": [], "msg": "", "nfs": 0}
    return json.loads(data)


def snapshot(root):
    """path -> content digest for everything below root (symlinks as such)."""
    import hashlib
    out = {}
    root = pathlib.Path(root)
    for dp, dn, fn in os.walk(root, followlinks=False):
        for n in dn + fn:
            p = os.path.join(dp, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = "link:" + os.readlink(p)
            elif os.path.isdir(p):
                out[rel] = "dir"
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    out[rel] = hashlib.sha1(f.read()).hexdigest()
            else:
                out[rel] = "special"
    return out
