"""Simulated disk: a real scratch directory behind file objects that fail, shorten transfers and die on schedule.

plan: list of [op number, kind, argument]; operations (open, read, write, close, rename, remove, mkdir) on files below
the scratch directory are numbered from 0 in the order they happen.  kinds:
  eio       the operation fails with EIO                      (argument unused)
  enospc    a write stores the first `argument` bytes, then fails with ENOSPC; so do later writes until a remove
  eacces    an open fails
  short     from here on, reads and writes transfer at most `argument` bytes at a time
  truncate  reads see the end of the file here
  crash     the process dies: a write stores its first `argument` bytes; nothing later reaches the disk
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

from .core import SimCrash

_real_open = io.open


class _Raw(io.RawIOBase):
    def __init__(self, disk, path, fileio):
        self.disk, self.path, self.f = disk, path, fileio
        self.name = path
        self.mode = fileio.mode
        self._ended = False

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return self.f.seekable()

    def seek(self, pos, whence=0):
        return self.f.seek(pos, whence)

    def tell(self):
        return self.f.tell()

    def truncate(self, size=None):
        if self.disk.dead:
            raise SimCrash()
        return self.f.truncate(size)

    def isatty(self):
        return False

    # no fileno: transfers have to come through here
    def readinto(self, b):
        act = self.disk.op("read", self.path)
        if act and act[0] == "truncate":
            self._ended = True
        if self._ended:
            return 0
        n = len(b)
        if self.disk.short:
            n = min(n, self.disk.short)
        data = self.f.read(n)
        b[:len(data)] = data
        self.disk.log("read", len(data))
        return len(data)

    def write(self, b):
        data = bytes(b)
        act = self.disk.op("write", self.path)
        if self.disk.full:
            self.disk.fire("enospc-again")
            raise OSError(errno.ENOSPC, "No space left on device (simulated)")
        if act and act[0] in ("enospc", "crash"):
            part = data[:act[1] if act[1] >= 0 else len(data)]
            if part:
                self.f.write(part)
            if act[0] == "crash":
                self.disk.die()
            self.disk.full = True
            raise OSError(errno.ENOSPC, "No space left on device (simulated)")
        if self.disk.short:
            data = data[:self.disk.short]
        self.disk.log("write", len(data))
        return self.f.write(data)

    def close(self):
        if self.closed:
            return
        try:
            if not self.disk.dead:
                act = self.disk.op("close", self.path, super().close)
        finally:
            if not self.closed:
                super().close()
            self.f.close()


class Disk:
    def __init__(self, plan, st=None):
        self.plan = {}
        for k, kind, arg in plan:
            self.plan.setdefault(k, (kind, arg))
        self.st = st
        self.n = 0
        self.short = None
        self.full = False
        self.dead = False
        self.fired = []
        self.ops = []
        self.handles = []
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="dst-disk-"))
        self.enabled = False

    # -------------------------------------------------------------- bookkeeping
    def log(self, *a):
        if self.st is not None:
            self.st.log(*a)

    def fire(self, kind):
        self.fired.append(kind)
        if self.st is not None:
            self.st.fault("disk-" + kind)

    def die(self):
        self.dead = True
        raise SimCrash()

    def op(self, what, path, cleanup=None):
        if self.dead:
            raise SimCrash()
        k = self.n
        self.n += 1
        self.ops.append(what)
        self.log("op", k, what, os.path.basename(str(path)))
        act = self.plan.get(k)
        if act is None:
            return None
        kind, arg = act
        if kind == "short":
            self.short = max(1, arg)
            self.fire("short")
        elif kind == "eio":
            self.fire("eio-" + what)
            raise OSError(errno.EIO, "Input/output error (simulated)")
        elif kind == "eacces":
            if what in ("open", "rename", "remove"):
                self.fire("eacces")
                raise PermissionError(errno.EACCES, "Permission denied (simulated)")
        elif kind == "truncate":
            if what == "read":
                self.fire("truncate")
                return act
        elif kind == "enospc":
            if what == "write":
                self.fire("enospc")
                return act
        elif kind == "crash":
            self.fire("crash-" + what)
            if what == "write":
                return act
            self.die()
        return None

    def inside(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.path.abspath(os.fspath(path))
            if isinstance(p, bytes):
                p = os.fsdecode(p)
        except TypeError:
            return False
        return p == self.root or p.startswith(self.root + os.sep)

    # -------------------------------------------------------------- the patched calls
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.enabled or not self.inside(file):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = "b" in mode
        rawmode = mode.replace("t", "").replace("b", "").replace("U", "")
        self.op("open", file)
        raw = _Raw(self, os.fspath(file), io.FileIO(file, rawmode, closefd, opener))
        self.handles.append(raw)
        if binary and buffering == 0:
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif rawmode == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
        text.mode = mode
        return text

    def _wrap(self, name, what):
        real = getattr(os, name)

        def call(path, *a, **kw):
            if self.enabled and self.inside(path):
                self.op(what, path)
                if what == "remove":
                    self.full = False
            return real(path, *a, **kw)

        return real, call

    def __enter__(self):
        self.saved = builtins.open, io.open
        builtins.open = io.open = self.open
        self.saved_os = {}
        for name, what in (("rename", "rename"), ("replace", "rename"), ("remove", "remove"), ("unlink", "remove"),
                           ("mkdir", "mkdir")):
            real, call = self._wrap(name, what)
            self.saved_os[name] = real
            setattr(os, name, call)
        self.enabled = True
        return self

    def __exit__(self, *a):
        self.enabled = False
        builtins.open, io.open = self.saved
        for name, real in self.saved_os.items():
            setattr(os, name, real)
        return False

    # -------------------------------------------------------------- for the harness
    def path(self, name):
        return os.path.join(self.root, name)

    def put(self, name, data):
        with _real_open(self.path(name), "wb") as f:
            f.write(data)

    def get(self, name):
        """the bytes on the disk now, None without such a file"""
        try:
            with _real_open(self.path(name), "rb") as f:
                return f.read()
        except OSError:
            return None

    def names(self):
        out = []
        for d, _, fs in os.walk(self.root):
            out += [os.path.relpath(os.path.join(d, f), self.root) for f in fs]
        return sorted(out)

    def new_process(self):
        """as a restarted process sees it: no fault from here on"""
        self.plan, self.short, self.full, self.dead = {}, None, False, False

    def remove(self):
        self.dead = True
        for h in self.handles:
            try:
                h.close()
            except BaseException:
                pass
        shutil.rmtree(self.root, ignore_errors=True)


def plan(rng, n_ops, kinds, count=None):
    """a seeded fault plan over about n_ops operations"""
    out = []
    for _ in range(count if count is not None else rng.choice([0, 0, 1, 1, 1, 2])):
        kind = rng.choice(kinds)
        arg = rng.choice([0, 1, 7, 100, rng.randint(0, 9000)])
        if kind == "short":
            out.append([rng.choice([0, 0, rng.randrange(n_ops)]), kind, rng.choice([1, 2, 5, 64, 1000, 8191])])
        else:
            out.append([rng.randrange(n_ops), kind, arg])
    return out
