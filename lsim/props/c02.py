"""C02: a save cut short is never taken for a good one."""
import os
import threading
from .. import canon, cells, core, ops, simio
from ..core import Violation
from . import common, files, hist

RUNS = {"quick": 10500, "thorough": 200000}
RULE = ("seeded programs: lattices with histories are saved over empty, good and torn files while one I/O step (open, k-th raw "
        "write after a part of its bytes, close, rename, sync) fails with ENOSPC, EIO or Ctrl-C, stays failing, or kills the process, or "
        "while the content cannot be serialised; then the file is loaded in this and in a new process, with and without read "
        "errors, and the save is retried. Non-trivial: a fault fired inside a save or load.")
MEASURE = "distinct (faulted step, error, part of the file written, previous content of the file)"
PROBES = ("crash-in-save", "error-in-save", "unserialisable", "error-in-load", "over-good-file", "over-torn-file", "retried", "old-content-kept", "refused-torn-file", "killed-then-loaded")


def gen(rng, tier):
    slots = []
    for _ in range(rng.choice([1, 1, 2])):
        spec = ops.gen_atom_kw(rng, cells.gen_cell(rng, dims=(1, 2, 2, 3)))
        slots.append({"cell": spec, "prim": rng.random() < 0.25, "cls": rng.choice(["Lattice"] * 5 + ["LatticeStructure"])})
    steps = [{"do": "op", "i": i, "op": hist.gen_build(rng, s["cell"], s["prim"])} for i, s in enumerate(slots) if rng.random() < 0.92]
    for _ in range(rng.choice([3, 4, 6, 8])):
        i = rng.randrange(len(slots))
        s = slots[i]
        r = rng.random()
        if r < 0.2:
            steps.append({"do": "op", "i": i, "op": hist.gen_op(rng, s["cell"], s["prim"])})
        elif r < 0.28:
            steps.append({"do": "query", "i": i, "q": ops.gen_query(rng, heavy=0.1, lazy=0.7)})
        elif r < 0.45:
            steps.append(save(rng, i, None))
        elif r < 0.82:
            steps.append(save(rng, i, gen_fault(rng)))
        else:
            steps.append({"do": "load", "path": rng.choice(["a.latt", "a.latt", "b"]), "how": rng.choice(["str", "fd-r"]), "plan": files.gen_plan(rng),
                          "fault": {"on": rng.choice(["read", "read", "open"]), "at": rng.u(3), "kind": rng.choice(["EIO", "EIO", "INT"]), "sticky": rng.random() < 0.3}})
    steps.append(save(rng, rng.randrange(len(slots)), gen_fault(rng)))
    return {"slots": slots, "env": common.gen_env(rng), "steps": steps}


FIXED = ("cell",)


def gen_fault(rng):
    if rng.random() < 0.12:
        return {"on": "content", "kind": rng.choice(["lambda", "lock"])}
    on = rng.choice(["write"] * 6 + ["open", "close", "close", "rename", "fsync"])
    f = {"on": on, "at": rng.u(4), "kind": rng.choice(["crash", "crash", "ENOSPC", "ENOSPC", "EIO", "INT"]), "part": rng.choice([0.0, 0.0, 0.3, 0.5, 0.999])}
    if f["kind"] != "crash" and rng.random() < 0.4:
        f["sticky"] = True
    if on == "close" and f["kind"] != "crash" and rng.random() < 0.6:
        f["lose"] = rng.choice([0.01, 0.3, 1.0])
    return f


def save(rng, i, fault):
    st = {"do": "save", "i": i, "path": rng.choice(["a.latt", "a.latt", "a.latt", "b"]), "how": rng.choice(["str", "str", "bytes", "path", "fd-w", "none"]), "plan": files.gen_plan(rng)}
    if fault:
        st["fault"] = fault
    return st


def make(slot):
    return ops.make_lattice(slot["cell"], getattr(core.lp, slot["cls"]))


def count_io(latt, plan, on, how):
    """Number of I/O steps a fault-free save takes."""
    disk = simio.DISK
    disk.reset_plan(plan)
    latt.dump(files.target("count.tmp", how if how != "none" else "str"))
    n = disk.count.get(on, 0)
    disk.reset_plan(None)
    simio._real["unlink"]("count.tmp")
    return n


def place(f, n):
    f = dict(f)
    f["at"] = 1 + int(f["at"] * n)
    return f


def outcome_of_load(latt_cls, path, how="str", plan=None):
    """("E", name) or ("ok", description) of loading a path now."""
    simio.DISK.reset_plan(plan)
    try:
        latt = latt_cls.load(files.target(path, how))
    except FileNotFoundError:
        return ("E", "FileNotFoundError")
    except Exception as e:
        return ("E", type(e).__name__)
    finally:
        simio.DISK.reset_plan(None)
    return ("ok", files.describe(latt))


def new_process_load(path):
    ld = files.Loader()
    try:
        r = ld.load(path)
    finally:
        ld.close()
    if r[0] == "E":
        return r
    if r[1][0] == "broken":
        raise Violation("partial-loaded", "loading %s gave a lattice that does not work: %s" % (path, r[1][1]))
    return ("ok", r[1][0])


def run(p):
    common.set_env(p.get("env"))
    sim, disk = core.SIM, simio.DISK
    disk.mount()
    latts = [make(s) for s in p["slots"]]
    log = [[] for _ in latts]
    tried = {}          # path -> descriptions completely handed to a save of it
    good = {}           # path -> description the file must hold now (last save returned)
    fired_any, sig = 0, []
    for n, st in enumerate(p["steps"]):
        what = "step %d" % n
        sim.ev(st["do"])
        if st["do"] == "op":
            if p["slots"][st["i"]]["cls"] == "Lattice":
                hist.apply(latts[st["i"]], st["op"], p["slots"][st["i"]]["cell"])
            log[st["i"]].append(st["op"])
            continue
        if st["do"] == "query":
            if p["slots"][st["i"]]["cls"] == "Lattice" and latts[st["i"]].num_sites:
                ops.ask(latts[st["i"]], st["q"])
            continue
        if st["do"] == "load":
            fired_any += load_step(st, what, tried, good, sim, sig)
            continue
        # ------------------------------------------------------------------ save
        latt = latts[st["i"]]
        path, how, f = st["path"], st["how"], st.get("fault")
        if how == "none":
            if hasattr(latt, "periodic_axes") is False:
                how = "str"
            else:
                path = "%s.latt" % latt.__hash__()
        d0 = files.describe(latt)
        state0 = "good" if path in good else "torn" if path in tried else "new"
        junk = f is not None and f["on"] == "content"
        plan = dict(st["plan"])
        if f and not junk:
            k = count_io(latt, st["plan"], f["on"], how)
            if k:
                plan["fault"] = place(f, k)
            else:
                f = None
        tried.setdefault(path, [])
        if junk:
            at = latt.atoms[0]
            old = dict(at)
            at["extra"] = (lambda: 1) if f["kind"] == "lambda" else threading.Lock()
            d_mem = canon.cell_state(latt)
        else:
            tried[path].append(d0)
        arg = files.target(path, how) if how != "none" else None
        if how == "fd-w":
            good.pop(path, None)    # the caller truncated the file
        disk.reset_plan(plan)
        exc = None
        try:
            latt.dump(arg)
        except (Exception, KeyboardInterrupt, simio.SimCrash) as e:
            exc = e
        fired, dead = list(disk.fired), disk.dead
        io = dict(disk.count)
        disk.reset_plan(None)
        if isinstance(arg, int):
            try:
                os.close(arg)
            except OSError:
                pass
        if junk:
            if exc is None:
                # whatever was written: it must load completely or not at all
                sim.probes["unserialisable"] += 1
            if canon.cell_state(latt) != d_mem:
                raise Violation("memory-changed", what + ": the failed save changed the lattice")
            del at["extra"]
            if dict(at) != old:
                raise Violation("memory-changed", what + ": the failed save changed an atom")
            sim.stats["fault:unserialisable"] += 1
            sim.probes["unserialisable"] += 1
        what += " (saving to %s, %s)" % (path, "content not serialisable" if junk else fired or "no fault")
        if files.describe(latt) != d0:
            raise Violation("memory-changed", "%s changed the lattice in memory: %s" % (what, canon.diff(d0, files.describe(latt))))
        if exc is not None and not (fired or junk):
            raise exc
        if fired or junk:
            fired_any += 1
            sim.probes["crash-in-save" if dead else "error-in-save"] += 1
            if state0 != "new":
                sim.probes["over-%s-file" % state0] += 1
        # a crash ends the process: look at the file from a new one
        res = new_process_load(path) if (dead or n % 3 == 0) else outcome_of_load(core.lp.Lattice, path)
        if dead:
            sim.probes["killed-then-loaded"] += 1
        size = len(disk.snapshot(path) or b"")
        if exc is None:
            if junk:
                if res[0] == "ok":
                    raise Violation("swallowed", what + " returned normally and the file loads as %s" % canon.digest(res[1]))
                raise Violation("swallowed", what + " returned normally, but the file does not load")
            if res[0] != "ok":
                raise Violation("swallowed", "%s returned normally, but loading the file raises %s (%d bytes)" % (what, res[1], size))
            if res[1] != d0:
                raise Violation("wrong-content", "%s returned normally, but the file holds another lattice: %s" % (what, canon.diff(d0, res[1])))
            good[path] = d0
        else:
            good.pop(path, None)
            judge(res, tried[path], what)
            if res[0] == "ok":
                sim.probes["old-content-kept"] += res[1] != d0
                good[path] = res[1]
            else:
                sim.probes["refused-torn-file"] += 1
            # retry once the fault is gone
            if dead:
                # new process: the lattice is made again
                slot = p["slots"][st["i"]]
                latt = latts[st["i"]] = make(slot)
                for op in log[st["i"]]:
                    if slot["cls"] == "Lattice":
                        hist.apply(latt, op, slot["cell"])
            if n % 2 == 0:
                d1 = files.describe(latt)
                tried[path].append(d1)
                latt.dump(path)
                res = outcome_of_load(core.lp.Lattice, path)
                if res != ("ok", d1):
                    raise Violation("retry", "retrying the save after %s: %s" % (what, res[1] if res[0] == "E" else canon.diff(d1, res[1])))
                good[path] = d1
                sim.probes["retried"] += 1
        sig.append((f and f["on"], f and f["kind"], bool(f and f.get("sticky")), state0, size and min(9, 10 * io.get("write", 0) // (1 + size)), res[0]))
        sim.ev(path, fired, type(exc).__name__, res[0], size)
    return {"nontrivial": fired_any > 0, "sig": canon.digest(sig)}


def judge(res, ok, what):
    if res[0] == "ok" and res[1] not in ok:
        near = min((canon.diff(d, res[1]) for d in ok), key=len, default="nothing was saved there")
        raise Violation("partial-loaded", "%s: the file loads as a lattice nobody saved there: %s" % (what, near))


def load_step(st, what, tried, good, sim, sig):
    disk, path = simio.DISK, st["path"]
    if path not in good:
        res = outcome_of_load(core.lp.Lattice, path)
        judge(res, tried.get(path, []), what + " (loading %s)" % path)
        return 0
    d0 = good[path]
    disk.reset_plan(st["plan"])
    core.lp.Lattice.load(files.target(path, st["how"]))
    k = disk.count.get(st["fault"]["on"], 0)
    if not k:
        return 0
    plan = dict(st["plan"])
    plan["fault"] = place(st["fault"], k)
    arg = files.target(path, st["how"])
    disk.reset_plan(plan)
    exc, latt = None, None
    try:
        latt = core.lp.Lattice.load(arg)
    except (Exception, KeyboardInterrupt) as e:
        exc = e
    fired = list(disk.fired)
    disk.reset_plan(None)
    if isinstance(arg, int):
        try:
            os.close(arg)
        except OSError:
            pass
    what += " (loading %s with %s)" % (path, fired)
    if fired:
        sim.probes["error-in-load"] += 1
    elif exc is not None:
        raise exc
    if exc is None and (latt is None or files.describe(latt) != d0):
        raise Violation("load-swallowed", what + " returned something else than the saved lattice")
    res = outcome_of_load(core.lp.Lattice, path)
    if res != ("ok", d0):
        raise Violation("load-damaged", "%s: loading again: %s" % (what, res[1] if res[0] == "E" else canon.diff(d0, res[1])))
    sig.append(("load", st["fault"]["on"], st["fault"]["kind"], type(exc).__name__))
    return bool(fired)
