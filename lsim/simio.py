"""Simulated disk: real files in a scratch directory, every transfer decided by a plan.

Seams: builtins.open / io.open / os.fdopen (through a FileIO subclass below the normal
buffering layers), os.open/os.write/os.read on scratch files, os.replace/rename/fsync.
Everything outside the scratch directory is left alone.

Plan (JSON):
  bufs:   list of buffer sizes, used in turn by the opened files
  short:  list of maximal transfer sizes (0 = no limit), used in turn by raw transfers
  fault:  {"on": "write"|"read"|"open"|"close"|"fsync"|"rename", "at": k, "kind":
           "ENOSPC"|"EIO"|"INT"|"crash", "part": fraction of the transfer done before,
           "sticky": bool}
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

from . import core

_real_open = io.open
_real = {n: getattr(os, n) for n in ("open", "write", "read", "replace", "rename", "fsync", "unlink", "remove", "truncate", "ftruncate", "link")}


class SimCrash(BaseException):
    """The simulated process died here."""


class Disk:
    def __init__(self):
        self.root = None
        self.reset_plan(None)
        self.fds = {}

    def reset_plan(self, plan):
        plan = plan or {}
        self.bufs = plan.get("bufs") or []
        self.short = plan.get("short") or []
        self.fault = plan.get("fault")
        self.count = {}
        self.nb = self.ns = 0
        self.dead = False
        self.fired = []
        self.log = []

    # ------------------------------------------------------------------ decisions
    def bufsize(self, default):
        if not self.bufs:
            return default
        b = self.bufs[self.nb % len(self.bufs)]
        self.nb += 1
        return b or default

    def limit(self, n):
        if not self.short or n <= 1:
            return n
        s = self.short[self.ns % len(self.short)]
        self.ns += 1
        if s and s < n:
            core.SIM.stats["io:short"] += 1
            return s
        return n

    def step(self, what, n=0):
        """Counts an I/O step; returns None, or (kind, bytes to transfer first)."""
        core.SIM.stats["io:" + what] += 1
        c = self.count[what] = self.count.get(what, 0) + 1
        s = core._in_sched()
        if s is not None:
            s.point(None)
        f = self.fault
        if self.dead or not f or f["on"] != what:
            return None
        if c == f["at"] or (f.get("sticky") and c > f["at"]):
            part = int(n * f.get("part", 0.0))
            self.fired.append((what, c, f["kind"]))
            core.SIM.stats["fault:%s-%s" % (what, f["kind"])] += 1
            core.SIM.ev("iofault", what, c, f["kind"], part)
            return f["kind"], min(part, max(0, n - 1))
        return None

    def err(self, kind, path=None):
        if kind == "crash":
            self.dead = True
            raise SimCrash()
        if kind == "INT":
            raise core.InjectedInterrupt()
        raise OSError(getattr(errno, kind), "simulated " + os.strerror(getattr(errno, kind)), path)

    def inside(self, path):
        if self.root is None or isinstance(path, int):
            return False
        try:
            p = os.path.abspath(os.fsdecode(os.fspath(path)))
        except TypeError:
            return False
        return p == self.root or p.startswith(self.root + os.sep)

    def inside_fd(self, fd):
        if self.root is None:
            return False
        try:
            return os.readlink("/proc/self/fd/%d" % fd).startswith(self.root + os.sep)
        except OSError:
            return False

    # --------------------------------------------------------------------- set up
    def mount(self, plan=None):
        self.root = tempfile.mkdtemp(prefix="lsim_", dir=os.environ["LSIM_SCRATCH"])
        self.saved_tmp, tempfile.tempdir = tempfile.tempdir, self.root
        self.saved_cwd = os.getcwd()
        os.chdir(self.root)
        self.reset_plan(plan)

    def unmount(self):
        if self.root:
            r, self.root = self.root, None
            os.chdir(self.saved_cwd)
            tempfile.tempdir = self.saved_tmp
            shutil.rmtree(r, ignore_errors=True)

    def snapshot(self, path):
        try:
            with _real_open(path, "rb") as f:
                return f.read()
        except OSError:
            return None


DISK = Disk()


class SimRaw(io.FileIO):
    def __init__(self, file, mode, closefd=True, opener=None):
        self._lost = False
        k = DISK.step("open")
        if k:
            DISK.err(k[0], str(file))
        if DISK.dead:
            raise SimCrash()
        super().__init__(file, mode, closefd, opener)

    def write(self, b):
        b = memoryview(b).cast("B")
        n = len(b)
        k = DISK.step("write", n)
        if DISK.dead or self._lost:
            return n  # the process is gone: nothing reaches the disk
        if k:
            if k[1]:
                super().write(b[: k[1]])
            DISK.err(k[0])
        m = DISK.limit(n)
        return super().write(b[:m]) if m < n else super().write(b)

    def readinto(self, b):
        m = memoryview(b).cast("B")
        n = len(m)
        k = DISK.step("read", n)
        if k:
            DISK.err(k[0])
        q = DISK.limit(n)
        return super().readinto(m[:q]) if q < n else super().readinto(m)

    def readall(self):
        out = bytearray()
        while True:
            buf = bytearray(4096)
            r = self.readinto(buf)
            if not r:
                return bytes(out)
            out += buf[:r]

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        r = self.readinto(buf)
        return bytes(buf[:r])

    def close(self):
        if self.closed:
            return
        writable = self.writable()
        k = DISK.step("close") if writable else None
        if k and not DISK.dead:
            f = DISK.fault
            if f.get("lose"):  # delayed allocation failure: the tail never got to disk
                size = os.fstat(self.fileno()).st_size
                _real["ftruncate"](self.fileno(), int(size * (1 - f["lose"])))
            super().close()
            DISK.err(k[0])
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not (DISK.inside(file) or (isinstance(file, int) and not isinstance(file, bool) and DISK.inside_fd(file))):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    raw = SimRaw(file, rawmode, closefd, opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = DISK.bufsize(8192 if buffering < 2 else buffering)
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in rawmode for c in "wax"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _two(name):
    real = _real[name]

    def f(src, dst, *a, **k):
        if not (DISK.inside(src) or DISK.inside(dst)):
            return real(src, dst, *a, **k)
        r = DISK.step("rename")
        if DISK.dead:
            raise SimCrash()
        if r:
            DISK.err(r[0])
        return real(src, dst, *a, **k)
    return f


def _unlink(name):
    real = _real[name]

    def f(path, *a, **k):
        if DISK.inside(path) and DISK.dead:
            raise SimCrash()
        return real(path, *a, **k)
    return f


def _fsync(fd):
    n = fd if isinstance(fd, int) else fd.fileno()
    if not DISK.inside_fd(n):
        return _real["fsync"](fd)
    k = DISK.step("fsync")
    if DISK.dead:
        raise SimCrash()
    if k:
        DISK.err(k[0])


def _write(fd, data):
    if not DISK.inside_fd(fd):
        return _real["write"](fd, data)
    n = len(data)
    k = DISK.step("write", n)
    if DISK.dead:
        raise SimCrash()
    if k:
        if k[1]:
            _real["write"](fd, bytes(data)[: k[1]])
        DISK.err(k[0])
    return _real["write"](fd, bytes(data)[: DISK.limit(n)])


def _read(fd, n):
    if not DISK.inside_fd(fd):
        return _real["read"](fd, n)
    k = DISK.step("read", n)
    if k:
        DISK.err(k[0])
    return _real["read"](fd, DISK.limit(n))


def install():
    builtins.open = sim_open
    io.open = sim_open
    for n in ("replace", "rename", "link"):
        setattr(os, n, _two(n))
    for n in ("unlink", "remove"):
        setattr(os, n, _unlink(n))
    os.fsync, os.write, os.read = _fsync, _write, _read
