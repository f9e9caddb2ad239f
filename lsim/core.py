"""Deterministic simulation core: scheduler, tracer, seams for locks, threads, KD-tree
workers, clock and randomness.

Everything nondeterministic lattpy could touch is replaced here *before* lattpy is
imported (see boot()).  No choice is ever taken from a real clock, real scheduler or real
random source: all of them come from the JSON program being executed.
"""
import _thread
import importlib
import os
import sys
import threading
import time as _time
import types
import zlib
from collections import Counter

REPO = os.environ.get("LSIM_REPO", "/repo")  # the variable is for developing the checks only
PKG = os.path.join(REPO, "lattpy") + os.sep

# originals, taken before anything is patched
REAL_LOCK = _thread.allocate_lock
REAL_TIME = _time.perf_counter


class Violation(Exception):
    """The property is broken. `kind` classifies it (used by the minimiser)."""

    def __init__(self, kind, msg=""):
        super().__init__(kind, msg)
        self.kind, self.msg = kind, msg


class Skip(Exception):
    """The generated program is outside the property's domain."""


class HarnessError(Exception):
    """Something is wrong with the simulator itself."""


class InjectedMemoryError(MemoryError):
    """Failed allocation / lost worker injected by the simulator."""


class InjectedInterrupt(KeyboardInterrupt):
    """Ctrl-C injected by the simulator."""


class UserCodeError(RuntimeError):
    """Raised by simulated user code (callback, shape)."""


def leaked(e):
    """A leaked exception that came out of lattpy code is a violation, else our bug."""
    tb = e.__traceback__
    last = None
    inside = False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(PKG):
            inside = True
            last = "%s:%s" % (os.path.basename(f), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    if inside and not isinstance(e, HarnessError):
        return Violation("crash:%s@%s" % (type(e).__name__, last.split(":")[1]), "unexpected %s in %s: %s" % (type(e).__name__, last, str(e)[:300]))
    return None


# ---------------------------------------------------------------------------- sim state
class Sim:
    """State of one simulated run."""

    def __init__(self):
        self.stats = Counter()
        self.probes = Counter()
        self.events = []
        self.sched = None
        self.clock = 1.6e9
        self.clock_step = 1e-3
        self.clock_reads = 0
        self.cpus = 4
        self.kd = KD()
        self.report = None  # callable(dict) used by fatal()

    def ev(self, *a):
        self.events.append(a)

    def digest(self):
        import hashlib
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
        return h.hexdigest()[:16]

    def fatal(self, violation):
        """Ends the run from any thread (deadlock, step budget)."""
        self.report(violation)
        os._exit(0)


class KD:
    """Control block of the KD-tree seam."""

    def __init__(self):
        self.calls = 0
        self.fail_at = None  # n-th call of an armed window raises
        self.fail_chunk = None  # (n-th query, worker index)
        self.queries = 0
        self.order = None  # permutation seed
        self.window = False
        self.fired = 0
        self.parallel = 0

    def arm(self, fail_at=None, fail_chunk=None):
        self.calls = self.queries = 0
        self.fail_at, self.fail_chunk, self.window = fail_at, fail_chunk, True

    def disarm(self):
        self.window, self.fail_at, self.fail_chunk = False, None, None

    def hit(self, what):
        if not self.window:
            return
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            self.fired += 1
            SIM.stats["fault:kdtree-" + what] += 1
            SIM.ev("kdfault", what)
            raise InjectedMemoryError("simulated: out of memory in KD-tree " + what)


SIM = Sim()


def new_sim():
    global SIM
    SIM = Sim()
    return SIM


# ------------------------------------------------------------------------------ tracing
_TRACED = {}
_COPY_FILE = importlib.import_module("copy").__file__


def _is_traced(code):
    r = _TRACED.get(code)
    if r is None:
        f = code.co_filename
        r = (f.startswith(PKG) and "/tests/" not in f) or f == _COPY_FILE
        _TRACED[code] = r
    return r


class Tracer:
    """Calls `point(frame)` at every line (or opcode) of lattpy code."""

    def __init__(self, point, ops=False):
        self.point, self.ops = point, ops

    def glob(self, frame, event, arg):
        if event == "call" and _is_traced(frame.f_code):
            if self.ops:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            self.point(frame)
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point(frame)
        return self.loc


class Stepper:
    """Counts lattpy steps of an operation and optionally raises at the k-th one."""

    BUDGET = 3_000_000

    def __init__(self, at=None, exc=None, ops=False):
        self.n, self.at, self.exc, self.fired = 0, at, exc, False
        self.where = None
        self.seen = {} if at is None else None
        self.tr = Tracer(self._point, ops)

    def _point(self, frame):
        self.n += 1
        if self.seen is not None:
            self.seen.setdefault((frame.f_code, frame.f_lineno), []).append(self.n)
        if self.n == self.at:
            self.fired = True
            self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
            raise self.exc()
        if self.n > self.BUDGET:
            SIM.fatal(Violation("no-progress", "step budget exhausted inside one operation"))

    def __enter__(self):
        sys.settrace(self.tr.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def pick_step(st, how):
    """The step to strike: uniform over the executed steps, near the end, or uniform over the
    distinct places reached (so that code executed once is struck as often as an inner loop)."""
    n, u = st.n, how["at"]
    if not n:
        return 0
    mode = how.get("mode") or ("tail" if how.get("tail") else "step")
    if mode == "tail":
        return max(1, n - int(u * min(n, 120)))
    if mode == "place":
        places = list(st.seen.values())  # in order of first execution
        x = u * len(places)
        occ = places[int(x)]
        return occ[int((x - int(x)) * len(occ))]
    return 1 + int(u * n)


MODES = ("step", "place", "place", "tail")


def _may_raise(frame):
    """Exceptions strike in lattpy code, not in copy's or an import's."""
    return frame.f_code.co_filename.startswith(PKG) and frame.f_code.co_name != "<module>"


# ---------------------------------------------------------------------------- scheduler
class _T:
    __slots__ = ("tid", "fn", "sem", "done", "blocked", "ident", "result", "n", "inject", "fired", "seen", "occ")

    daemon, native_id = False, None  # what threading.current_thread() of a simulated thread shows

    @property
    def name(self):
        return "sim-%d" % self.tid

    getName = lambda self: self.name
    is_alive = lambda self: not self.done

    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.sem = REAL_LOCK()
        self.sem.acquire()
        self.done, self.blocked, self.ident, self.result = False, None, None, None
        self.n, self.inject, self.fired, self.seen, self.occ = 0, [], [], None, {}


class Scheduler:
    """Runs real threads one at a time; `schedule` = [[steps, pick], ...] decides who runs.

    A thread runs for `steps` lattpy steps, then the next entry's thread (pick modulo the
    number of runnable threads; a negative pick excludes the thread itself) continues.  When the list is used up, the running thread
    runs to its end and the lowest runnable thread follows.
    """

    def __init__(self, sim, schedule, ops=False, budget=2_000_000):
        self.sim, self.schedule, self.ops = sim, list(schedule), ops
        self.pos, self.left, self.steps, self.budget = 0, 0, 0, budget
        self.threads = []
        self.cur = None
        self.main = REAL_LOCK()
        self.main.acquire()
        self.switches = 0
        self.trail = []

    def _next_slice(self):
        if self.pos < len(self.schedule):
            self.left = max(1, int(self.schedule[self.pos][0]))
            pick = int(self.schedule[self.pos][1])
            self.pos += 1
            return pick
        self.left = -1
        return 0

    def spawn(self, fn):
        t = _T(len(self.threads), fn)
        self.threads.append(t)
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _boot(self, t):
        t.sem.acquire()
        t.ident = _thread.get_ident()
        sys.settrace(Tracer(self.point, self.ops).glob)
        try:
            t.fn()
        finally:
            sys.settrace(None)
            t.done = True
            for o in self.threads:
                if o.blocked is not None and o.blocked[0] == "join" and o.blocked[1] is t:
                    o.blocked = None
            self._leave()

    def _runnable(self):
        return [t for t in self.threads if not t.done and t.blocked is None]

    def _leave(self):
        """Current thread ended: give the baton away."""
        r = self._runnable()
        if not r:
            if any(not t.done for t in self.threads):
                self.sim.fatal(Violation("deadlock", "all unfinished threads wait for each other"))
            self.cur = None
            self.main.release()
            return
        pick = self._next_slice()
        self._go(r[abs(pick) % len(r)])

    def _go(self, t):
        self.cur = t
        self.trail.append(t.tid)
        t.sem.release()

    def run(self):
        self.sim.sched = self
        r = self._runnable()
        if r:
            pick = self._next_slice()
            self._go(r[abs(pick) % len(r)])
            self.main.acquire()
        self.sim.sched = None
        self.sim.stats["switches"] += self.switches
        self.sim.stats["steps"] += self.steps

    # -- called by the running thread
    def point(self, frame=None):
        self.steps += 1
        if self.steps > self.budget:
            self.sim.fatal(Violation("no-progress", "step budget exhausted"))
        me = self.cur
        me.n += 1
        if me.seen is not None and frame is not None:
            me.seen.setdefault((frame.f_code, frame.f_lineno), []).append(me.n)
        if self.left > 0:
            self.left -= 1
            if self.left == 0:
                self._preempt(frame)
        if me.inject and frame is not None:
            # at the k-th step of the thread, or at the k-th execution of a place: [file, function, line, k]
            c = frame.f_code
            place = (c.co_filename, c.co_firstlineno, c.co_name, frame.f_lineno)
            k = me.occ[place] = me.occ.get(place, 0) + 1
            at = me.inject[0][0]
            if (at == (place, k) if isinstance(at, tuple) else me.n >= at) and _may_raise(frame):
                exc = me.inject.pop(0)[1]
                me.fired.append((place, k))
                raise exc()

    def retrace(self):
        """Switches tracing on again in a thread whose trace function raised."""
        sys.settrace(Tracer(self.point, self.ops).glob)

    def _preempt(self, frame):
        f = frame
        while f is not None:  # never park a thread that holds an import or logging lock
            c = f.f_code
            if c.co_name == "<module>" and c.co_filename.startswith(PKG) or c.co_filename.startswith("<frozen importlib") or "/logging/" in c.co_filename:
                self.left = 1
                return
            f = f.f_back
        pick = self._next_slice()
        me = self.cur
        r = self._runnable()
        if pick < 0:    # somebody else, if there is anybody
            r = [t for t in r if t is not me] or r
        t = r[abs(pick) % len(r)]
        if t is not me:
            self.switches += 1
            self._go(t)
            me.sem.acquire()

    def block(self, reason):
        """The running thread cannot continue until somebody clears `blocked`."""
        me = self.cur
        me.blocked = reason
        r = self._runnable()
        if not r:
            self.sim.fatal(Violation("deadlock", "every thread is blocked: %r" % (reason[0],)))
        pick = self._next_slice()
        self.switches += 1
        self._go(r[abs(pick) % len(r)])
        me.sem.acquire()

    def wake(self, obj):
        for t in self.threads:
            if t.blocked is not None and t.blocked[1] is obj:
                t.blocked = None

    def join(self, t):
        if not t.done:
            self.block(("join", t))

    def trail_digest(self):
        return zlib.crc32(bytes(x & 255 for x in self.trail))


# ------------------------------------------------------------------------- thread seams
def _in_sched():
    s = SIM.sched
    return s if s is not None and s.cur is not None and s.cur.ident == _thread.get_ident() else None


class SimLock:
    """Replacement of threading.Lock: blocking is decided by the scheduler."""

    _re = False

    def __init__(self):
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._count and not (self._re and self._owner == me):
            if not blocking:
                return False
            s = _in_sched()
            if s is None:
                if timeout is not None and timeout >= 0:
                    return False
                SIM.fatal(Violation("deadlock", "lock acquired twice by the only thread"))
            if timeout is not None and timeout >= 0 and not [t for t in s._runnable() if t is not s.cur]:
                return False
            s.block(("lock", self))
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            s = SIM.sched
            if s is not None:
                s.wake(self)

    def locked(self):
        return bool(self._count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # as real locks: neither picklable nor copyable
    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '_thread.lock' object")

    # used by threading.Condition
    def _is_owned(self):
        return self._count > 0 and self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SimRLock(SimLock):
    _re = True

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        if SIM.sched is not None:
            SIM.sched.wake(self)
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


class SimThread:
    """Replacement of threading.Thread."""

    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThread._n += 1
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name, self.daemon = name or "Thread-%d" % SimThread._n, bool(daemon)
        self._t, self._started, self._done = None, False, False
        self.ident = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def _main(self):
        try:
            self.run()
        except Exception:  # as threading.excepthook: printed, not propagated
            SIM.ev("thread-exception")
        finally:
            self._done = True

    def start(self):
        if self._started:
            raise RuntimeError("threads can only be started once")
        self._started = True
        SIM.stats["lib-threads"] += 1
        self.ident = 10_000 + SimThread._n
        s = _in_sched()
        if s is not None:
            self._t = s.spawn(self._main)
        else:
            self._main()

    def join(self, timeout=None):
        s = _in_sched()
        if self._t is not None and s is not None:
            s.join(self._t)

    def is_alive(self):
        return self._started and not self._done

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle thread objects")


class SimFuture:
    def __init__(self, ex, fn, a, k):
        self.ex, self.fn, self.a, self.k = ex, fn, a, k
        self.state, self.val, self.err, self.cbs, self._t = "P", None, None, [], None

    def _run(self):
        if self.state != "P":
            return
        self.state = "R"
        try:
            self.val = self.fn(*self.a, **self.k)
        except BaseException as e:  # noqa
            self.err = e
        self.state = "D"
        SIM.executor_order.append(self)
        for cb in self.cbs:
            cb(self)

    def _wait(self):
        s = _in_sched()
        if self._t is not None and s is not None:
            s.join(self._t)
        else:
            self.ex._drain(self)

    def result(self, timeout=None):
        self._wait()
        if self.err is not None:
            raise self.err
        return self.val

    def exception(self, timeout=None):
        self._wait()
        return self.err

    def done(self):
        return self.state == "D"

    def running(self):
        return self.state == "R"

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def add_done_callback(self, cb):
        if self.state == "D":
            cb(self)
        else:
            self.cbs.append(cb)


class SimExecutor:
    def __init__(self, max_workers=None, *a, **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.pending = []

    def submit(self, fn, *a, **k):
        f = SimFuture(self, fn, a, k)
        SIM.stats["lib-tasks"] += 1
        s = _in_sched()
        if s is not None:
            f._t = s.spawn(f._run)
        else:
            self.pending.append(f)
        return f

    def _drain(self, upto=None):
        while self.pending and (upto is None or upto.state == "P"):
            i = SIM.pick(len(self.pending))
            self.pending.pop(i)._run()

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, cancel_futures=False):
        s = _in_sched()
        self._drain()
        if s is not None and wait:
            for t in list(s.threads):
                if t is not s.cur and any(getattr(t.fn, "__self__", None) is f for f in self._all(s)):
                    s.join(t)

    def _all(self, s):
        return [t.fn.__self__ for t in s.threads if isinstance(getattr(t.fn, "__self__", None), SimFuture) and t.fn.__self__.ex is self]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


def sim_as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        f._wait()
    order = [f for f in SIM.executor_order if f in fs]
    seen = []
    for f in order:
        if not any(f is x for x in seen):
            seen.append(f)
            yield f


def sim_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    for f in fs:
        f._wait()
    import collections
    return collections.namedtuple("DoneAndNotDoneFutures", "done not_done")(set(fs), set())


class SimThreadPool:
    def __init__(self, processes=None, *a, **k):
        self.ex = SimExecutor()

    def map(self, fn, it, chunksize=None):
        return [f.result() for f in [self.ex.submit(fn, x) for x in it]]

    def starmap(self, fn, it, chunksize=None):
        return [f.result() for f in [self.ex.submit(fn, *x) for x in it]]

    def imap(self, fn, it, chunksize=None):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=None):
        fs = [self.ex.submit(fn, x) for x in it]
        return iter([f.result() for f in sim_as_completed(fs)])

    def apply_async(self, fn, args=(), kwds=None, callback=None):
        f = self.ex.submit(fn, *args, **(kwds or {}))
        f.get, f.wait, f.ready = f.result, f._wait, f.done
        if callback:
            f.add_done_callback(lambda x: callback(x.val))
        return f

    def apply(self, fn, args=(), kwds=None):
        return self.ex.submit(fn, *args, **(kwds or {})).result()

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        self.ex.shutdown()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.join()


def _sim_pick(self, n):
    """Seeded choice for events outside a schedule."""
    self._lcg = (getattr(self, "_lcg", None) or (self.kd.order or 0) * 2654435761 + 12345) & 0xFFFFFFFF
    self._lcg = (self._lcg * 1664525 + 1013904223) & 0xFFFFFFFF
    return (self._lcg >> 8) % n


Sim.pick = _sim_pick
Sim.executor_order = property(lambda self: self.__dict__.setdefault("_exo", []))


# ----------------------------------------------------------------------------- kd seam
def make_kdtree(base, np):
    """Subclass of scipy's tree: real scipy code, work split over simulated workers."""

    class SimKDTree(base):
        def __init__(self, *a, **k):
            SIM.kd.hit("build")
            super().__init__(*a, **k)

        def query(self, x, k=1, eps=0.0, p=2.0, distance_upper_bound=np.inf, workers=1):
            kd = SIM.kd
            kd.hit("query")
            if kd.window:
                kd.queries += 1
            x = np.asarray(x)
            if workers == 1 or x.ndim < 2 or not isinstance(workers, (int, np.integer)) or workers == 0 or workers < -1:
                if kd.window and kd.fail_chunk and kd.fail_chunk[0] == kd.queries:
                    self._lost()
                return super().query(x, k, eps, p, distance_upper_bound, workers)
            n = SIM.cpus if workers == -1 else int(workers)
            parts = np.array_split(np.arange(len(x)), n) if len(x) else [np.arange(0)]
            parts = [q for q in parts if len(q)] or [np.arange(0)]
            kd.parallel += 1
            order = list(range(len(parts)))
            out = [None] * len(parts)
            lost = None
            if kd.window and kd.fail_chunk and kd.fail_chunk[0] == kd.queries:
                lost = kd.fail_chunk[1] % len(parts)
            while order:
                i = order.pop(SIM.pick(len(order)) if kd.order is not None else 0)
                if i == lost:
                    self._lost()
                out[i] = super().query(x[parts[i]], k, eps, p, distance_upper_bound, 1)
            SIM.stats["worker-chunks"] += len(parts)
            return np.concatenate([o[0] for o in out]), np.concatenate([o[1] for o in out])

        def _lost(self):
            SIM.kd.fired += 1
            SIM.stats["fault:worker-lost"] += 1
            SIM.ev("kdfault", "worker")
            raise InjectedMemoryError("simulated: a query worker failed")

        def query_ball_tree(self, *a, **k):
            SIM.kd.hit("ball")
            return super().query_ball_tree(*a, **k)

        def query_ball_point(self, *a, **k):
            SIM.kd.hit("ball")
            return super().query_ball_point(*a, **k)

        def query_pairs(self, *a, **k):
            SIM.kd.hit("ball")
            return super().query_pairs(*a, **k)

    SimKDTree.__name__ = base.__name__
    return SimKDTree


# --------------------------------------------------------------------------------- boot
lp = None
np = None


def boot():
    """Installs every seam, then imports lattpy from /repo's working tree."""
    global lp, np
    if lp is not None:
        return lp
    sys.dont_write_bytecode = True
    # Python 3.12 delivers opcode events only to trace functions set after some frame asked for them
    sys._getframe().f_trace_opcodes = True
    sys._getframe().f_trace_opcodes = False
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.captureWarnings(True)
    logging.getLogger("py.warnings").disabled = True
    import numpy
    import scipy.spatial
    import scipy.spatial.distance
    import scipy.sparse
    import hashlib, pickle, copy, random, tempfile, shutil, pathlib, json, uuid, gzip, datetime, secrets  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import mpl_toolkits.mplot3d.axes3d  # noqa
    import mpl_toolkits.mplot3d.art3d  # noqa
    import concurrent.futures as cf
    import concurrent.futures.thread  # noqa
    import multiprocessing.pool as mpp
    import queue  # noqa
    np = numpy

    scipy.spatial.cKDTree = make_kdtree(scipy.spatial.cKDTree, numpy)
    scipy.spatial.KDTree = make_kdtree(scipy.spatial.KDTree, numpy)
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._allocate_lock = SimLock
    threading.Thread = SimThread
    real_current = threading.current_thread
    threading.current_thread = threading.currentThread = lambda: _in_sched().cur if _in_sched() else real_current()
    cf.ThreadPoolExecutor = SimExecutor
    cf.thread.ThreadPoolExecutor = SimExecutor
    cf.as_completed, cf.wait = sim_as_completed, sim_wait
    mpp.ThreadPool = SimThreadPool
    import multiprocessing
    multiprocessing.cpu_count = lambda: SIM.cpus
    os.cpu_count = lambda: SIM.cpus
    os.sched_getaffinity = lambda pid=0: set(range(SIM.cpus))

    def now(scale=1.0):
        def f():
            SIM.clock_reads += 1
            SIM.clock += SIM.clock_step
            return SIM.clock * scale
        return f
    _time.time, _time.perf_counter, _time.monotonic, _time.process_time = now(), now(), now(), now()
    for n in ("time", "perf_counter", "monotonic", "process_time"):
        setattr(_time, n + "_ns", (lambda g: lambda: int(g() * 1e9))(getattr(_time, n)))

    def sleep(sec):
        SIM.clock += sec
        s = _in_sched()
        if s is not None:
            s.left = 1 if s.left > 0 else s.left
            s.point(sys._getframe())
    _time.sleep = sleep

    sys.pycache_prefix = "/nonexistent-lsim"  # never use stale byte code of /repo
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(PKG, "_version.py")):
        m = types.ModuleType("lattpy._version")
        m.version = m.__version__ = "0.0"
        m.version_tuple = m.__version_tuple__ = (0, 0)
        sys.modules["lattpy._version"] = m
    import lattpy
    if not os.path.abspath(lattpy.__file__).startswith(PKG):
        raise HarnessError("lattpy imported from " + lattpy.__file__)
    import lattpy.plotting, lattpy.disptools  # noqa
    lp = lattpy
    return lp
