"""Saving and loading in the simulated file system."""
import os
import pathlib
import pickle
import struct
from .. import canon, core, ops, simio
from ..core import Violation  # noqa: F401

_write, _read = os.write, os.read
if hasattr(simio, "_real"):
    _write, _read = simio._real["write"], simio._real["read"]


def describe(latt):
    """Everything of a lattice that a saved file has to bring back."""
    finite = hasattr(latt, "periodic_axes")
    st = canon.state(latt) if finite else (canon.cell_state(latt), canon.analysis_state(latt))
    return (type(latt).__name__, st, canon.atom_indices(latt), extra(latt))


def extra(latt):
    return canon.canon(getattr(latt, "user_tag", None))


class Loader:
    """A process of its own: knows nothing but the files."""

    def __init__(self):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(a[1])
                os.close(b[0])
                self._serve(a[0], b[1])
            except BaseException:
                code = 9
            os._exit(code)
        os.close(a[0])
        os.close(b[1])
        self.w, self.r = a[1], b[0]

    @staticmethod
    def _get(fd, n):
        out = b""
        while len(out) < n:
            b = _read(fd, n - len(out))
            if not b:
                return None
            out += b
        return out

    @classmethod
    def _recv(cls, fd):
        h = cls._get(fd, 4)
        return None if h is None else pickle.loads(cls._get(fd, struct.unpack("I", h)[0]))

    @staticmethod
    def _send(fd, x):
        d = pickle.dumps(x)
        d = struct.pack("I", len(d)) + d
        while d:
            d = d[_write(fd, d):]

    def _serve(self, r, w):
        while True:
            m = self._recv(r)
            if m is None:
                return
            path, plan, views, later, spec = m
            simio.DISK.reset_plan(plan)
            try:
                latt = core.lp.Lattice.load(path)
            except BaseException as e:  # noqa
                self._send(w, ("E", type(e).__name__))
                continue
            try:
                out = after(latt, views, later, spec)
            except BaseException as e:  # noqa
                out = ("broken", type(e).__name__ + ": " + str(e)[:200])
            self._send(w, ("ok", out))

    def load(self, path, plan=None, views=None, later=(), spec=None):
        self._send(self.w, (path, plan, views, later, spec))
        m = self._recv(self.r)
        if m is None:
            raise core.HarnessError("loader process died")
        return m

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def after(latt, views, later, spec):
    """Description of a lattice, its answers and what later operations make of it."""
    from . import hist
    out = [describe(latt)]
    finite = hasattr(latt, "periodic_axes")
    if views:
        names = [q for q in ops.QUERIES if q not in ("b_ws", "b_bz", "fromdict") and (finite or q in ops.STRUCT)]
        out.append({q: ops.ask(latt, [q, *views]) for q in names})
    for op in later:
        if not finite:
            if op["op"] not in ("analyze", "add_atom", "add_connection", "add_connections", "set_attr"):
                continue
        r = hist.apply(latt, op, spec)
        out.append((op["op"], None if r is None else type(r.exc).__name__, describe(latt)[1]))
    return out


def compare(ref, got, what):
    """ref/got: results of after(). Raises the violation."""
    if isinstance(got, tuple) and got and got[0] == "broken":
        raise Violation("broken", what + ": the loaded lattice does not work: " + got[1])
    if ref[0] != got[0]:
        raise Violation("loaded-state", what + ": " + canon.diff(ref[0], got[0]))
    for a, b in zip(ref[1:], got[1:]):
        if isinstance(a, dict):
            for q in a:
                if a[q] != b.get(q):
                    raise Violation("loaded-view", "%s: query %s: %s" % (what, q, canon.diff(a[q], b.get(q))))
        elif a != b:
            raise Violation("loaded-later", "%s: later %s: %s" % (what, a[0], canon.diff(a, b)))


def target(path, how):
    """The argument given to dump/load."""
    if how == "bytes":
        return os.fsencode(path)
    if how == "path":
        return pathlib.Path(path)
    if how == "fd-w":
        return os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    if how == "fd-r":
        return os.open(path, os.O_RDONLY)
    return path


def gen_plan(rng):
    p = {}
    if rng.random() < 0.7:
        p["bufs"] = [rng.choice([0, 1, 2, 7, 16, 64, 100, 512, 4096, 65536]) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.7:
        p["short"] = [rng.choice([0, 1, 3, 17, 100, 1000, 5000]) for _ in range(rng.choice([1, 2, 3]))]
        if set(p["short"]) <= {1, 3}:
            p["short"].append(0)
    return p


def fork_call(fn):
    """Result of fn() in a process of its own."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            d = pickle.dumps(("ok", fn()))
        except Violation as e:
            d = pickle.dumps(("violation", e.kind, e.msg))
        except core.Skip as e:
            d = pickle.dumps(("skip", str(e)))
        except BaseException as e:  # noqa
            import traceback
            v = core.leaked(e)
            d = pickle.dumps(("violation", v.kind, v.msg) if v else ("error", traceback.format_exc()))
        while d:
            d = d[_write(wr, d):]
        os._exit(0)
    os.close(wr)
    buf = []
    while True:
        b = _read(rd, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(rd)
    os.waitpid(pid, 0)
    return unwrap(pickle.loads(b"".join(buf)))


def unwrap(r):
    if r[0] == "violation":
        raise Violation(r[1], r[2])
    if r[0] == "skip":
        raise core.Skip(r[1])
    if r[0] == "error":
        raise core.HarnessError(r[1])
    return r[1]
