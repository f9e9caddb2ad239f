"""C06: threads using separate lattices never affect each other."""
import json
import os
import pickle
from .. import canon, cells, core, ops, simio
from ..core import Violation
from . import common, files, hist, threads

RUNS = {"quick": 3000, "thorough": 120000}
RULE = ("seeded programs: 2-4 threads, each configuring (or, in a third of the runs, each about to do one similar thing), analyzing, building, changing, querying, copying, saving and loading lattices of "
        "its own, some hit by failing callbacks, failing shapes, rejected calls or an exception at a chosen step, under a seeded "
        "schedule; every thread's record is compared with the record of the same program run alone in a process of its own. "
        "Non-trivial: the threads really alternated.")
MEASURE = "distinct sequences of scheduled threads"
PROBES = ("alternated", "one-operation-each", "faulty-thread", "interrupted-thread", "bytecode-granularity", "same-cell", "atoms-compared")
EXCS = {"int": core.InjectedInterrupt, "mem": core.InjectedMemoryError}
SMALL = 60


def gen(rng, tier):
    if rng.random() < 0.35:
        return focused(rng)
    nt = rng.choice([2, 2, 3, 4])
    like = rng.random() < 0.45      # all do similar things with similar lattices
    shared = like or rng.random() < 0.35
    spec = None
    ths = []
    for i in range(nt):
        if like and i:
            ths.append(variant(rng, ths[0]))
            continue
        if spec is None or not shared:
            spec = ops.gen_atom_kw(rng, cells.gen_cell(rng, dims=(1, 1, 2, 2, 3)))
        prim = rng.random() < 0.25
        seq = [{"do": "make"}]
        if rng.random() < 0.85:
            seq.append({"do": "op", "op": hist.gen_build(rng, spec, prim)})
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            if r < 0.4:
                op = hist.gen_op(rng, spec, prim)
                if op["op"] == "build" and rng.random() < 0.4:
                    op["fault"] = rng.choice([{"cb": "raise", "exc": rng.choice(ops.USER_ERRORS)}, {"cb": "garbage"}, {"shape": {"where": rng.choice(["limits", "contains"]), "at": rng.randint(1, 2)}}])
                seq.append({"do": "op", "op": op})
            elif r < 0.65:
                seq.append({"do": "query", "q": ops.gen_query(rng, heavy=0.1)})
            elif r < 0.72:
                seq.append({"do": "save"})
            elif r < 0.79:
                seq.append({"do": "load"})
            elif r < 0.86:
                seq.append({"do": "copy"})
            elif r < 0.93:
                seq.append({"do": "make"})
            else:
                seq.append({"do": "reject", "what": rng.choice(["occupied", "dim", "site"])})
        th = {"cell": spec, "seq": seq}
        if rng.random() < 0.25:
            th["inject"] = [rng.randint(1, 3000), rng.choice(["int", "mem"])]
        ths.append(th)
    return {"env": common.gen_env(rng), "threads": ths, "schedule": threads.gen_schedule(rng, total=2000), "opc": rng.random() < 0.4 and not any("inject" in t for t in ths)}


FOCUS = ["op"] * 6 + ["make", "save", "load", "copy", "query"]


def focused(rng):
    """Two or three threads with lattices made beforehand, each about to do one similar thing."""
    spec = ops.gen_atom_kw(rng, cells.gen_cell(rng, dims=(1, 1, 2, 2, 3)))
    prim = rng.random() < 0.25
    seq = [{"do": "make"}, {"do": "op", "op": hist.gen_build(rng, spec, prim)}]
    if rng.random() < 0.3:
        seq.append({"do": "op", "op": hist.gen_op(rng, spec, prim)})
    do = rng.choice(FOCUS)
    if do == "load":
        seq.append({"do": "save"})
    calm = len(seq)
    if do == "op":
        seq.append({"do": do, "op": hist.gen_op(rng, spec, prim)})
    elif do == "query":
        seq += [{"do": do, "q": ops.gen_query(rng, heavy=0.2)} for _ in range(2)]
    else:
        seq += [{"do": do}, {"do": "load"}] if do == "save" else [{"do": do}]
    th = {"cell": spec, "seq": seq, "calm": calm}
    ths = [th] + [variant(rng, th) for _ in range(rng.choice([1, 1, 2]))]
    schedule = threads.gen_schedule(rng, total=400, styles=("place", "place", "place", "pin", "step", "mixed", "fine"))
    return {"env": common.gen_env(rng), "threads": ths, "schedule": schedule, "opc": rng.random() < 0.4 and not any("inject" in t for t in ths)}


def variant(rng, th):
    """Almost the same program: other parameters here and there, or everything larger by a factor."""
    th = json.loads(json.dumps(th))
    th.pop("inject", None)
    spec = th["cell"]
    prim = any(s["do"] == "op" and s["op"].get("primitive") for s in th["seq"])
    for n, s in enumerate(th["seq"]):
        if rng.random() < 0.3:
            if s["do"] == "op" and s["op"]["op"] != "build":
                s["op"] = hist.gen_op(rng, spec, prim, kinds=[s["op"]["op"]] if rng.random() < 0.7 else None)
            elif s["do"] == "op" and n < th.get("calm", 0):
                s["op"] = hist.gen_build(rng, spec, prim)
            elif s["do"] == "query":
                s["q"] = ops.gen_query(rng, heavy=0.1) if rng.random() < 0.3 else [s["q"][0]] + [rng.u(3) for _ in range(3)]
    if not prim and rng.random() < 0.6:
        scale(th, rng.choice([2.0, 0.5, 4.0]))
    if rng.random() < 0.2:
        th["inject"] = [rng.randint(1, 3000), rng.choice(["int", "mem"])]
    return th


def scale(th, f):
    c = th["cell"]
    c["vectors"] = [[f * x for x in v] for v in c["vectors"]]
    for a in c["atoms"]:
        a[0] = [f * x for x in a[0]]
    for s in th["seq"]:
        op = s.get("op") or {}
        for b in (op, op.get("other") or {}):
            for k in ("shape", "pos"):
                if isinstance(b.get(k), list):
                    b[k] = [f * x for x in b[k]]
        if "size" in op:
            op["size"] *= f


def program(i, th, sched, out, atoms):
    """What one thread does; out: record of everything it saw."""
    spec, mine, calm = th["cell"], "own%d.latt" % i, th.get("calm", 0)
    box = [None]

    def steps(seq, sched):
        latt = box[0]
        for st in seq:
            rec = None
            try:
                if st["do"] == "make":
                    latt = ops.make_lattice(spec)
                    atoms.append([a.index for a in latt.atoms])
                elif latt is None:
                    continue
                elif st["do"] == "op":
                    if not hist.possible(latt, st["op"], SMALL):
                        continue
                    try:
                        thunk = ops.prepare(latt, st["op"], spec)
                    except core.Skip:
                        continue
                    thunk()
                elif st["do"] == "query":
                    if not latt.num_sites:
                        continue
                    rec = ops.raw_query(latt, st["q"])
                elif st["do"] == "save":
                    latt.dump(mine)
                elif st["do"] == "load":
                    rec = core.lp.Lattice.load(mine)
                elif st["do"] == "copy":
                    latt = latt.copy()
                elif st["do"] == "reject":
                    if st["what"] == "occupied":
                        latt.add_atom(list(spec["atoms"][0][0]), "Z")
                    elif st["what"] == "dim":
                        latt.add_atom([0.1] * (latt.dim + 1), "Z")
                    else:
                        latt.data.remove([10 ** 6])
                out.append((st["do"], "ok", rec))
            except (Exception, KeyboardInterrupt) as e:
                if isinstance(e, (core.HarnessError, Violation)):
                    raise
                out.append((st["do"], type(e).__name__, None))
                if sched:
                    sched.retrace()
            box[0] = latt

    def go():
        steps(th["seq"][calm:], sched)
        out.append(("end", "", box[0]))
    # what is done before the threads start
    steps(th["seq"][:calm], None)
    return go


def freeze(out):
    """Canonical record (made after all threads ended)."""
    r = []
    for do, exc, rec in out:
        try:
            r.append((do, exc, canon.canon(rec)))
        except Exception as e:
            r.append((do, exc, ("broken", type(e).__name__)))
    return r


def alone(i, th, opc, places):
    """Record of a thread's program run alone, in a process of its own."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            sim = core.SIM
            sched = core.Scheduler(sim, [], ops=opc)
            out, atoms = [], []
            t = sched.spawn(program(i, th, sched, out, atoms))
            if th.get("inject"):
                t.inject = [(th["inject"][0], EXCS[th["inject"][1]])]
            t.seen = {} if places else None
            sched.run()
            d = pickle.dumps((freeze(out), t.fired, t.n, list(t.seen.values()) if places else []))
        except BaseException as e:  # noqa
            d = pickle.dumps(("error", repr(e)))
        while d:
            d = d[files._write(wr, d):]
        os._exit(0)
    os.close(wr)
    buf = b""
    while True:
        b = files._read(rd, 1 << 16)
        if not b:
            break
        buf += b
    os.close(rd)
    os.waitpid(pid, 0)
    r = pickle.loads(buf)
    if r[0] == "error":
        raise core.HarnessError("reference run: " + r[1])
    return r


def run(p):
    common.set_env(p.get("env"))
    sim, disk = core.SIM, simio.DISK
    disk.mount()
    # raising from one thread's trace function while others are traced per bytecode crashes CPython 3.12
    opc = p.get("opc") and not any("inject" in t for t in p["threads"])
    ref = [alone(i, th, opc, any(-1 < k < 0 for k, _ in p["schedule"])) for i, th in enumerate(p["threads"])]
    for f in os.listdir("."):
        simio._real["unlink"](f)
    sched = core.Scheduler(sim, threads.resolve(p["schedule"], sum(r[2] for r in ref), [r[3] for r in ref]), ops=opc)
    outs = [[] for _ in p["threads"]]
    atoms = []
    ts = []
    for i, th in enumerate(p["threads"]):
        t = sched.spawn(program(i, th, sched, outs[i], atoms))
        if th.get("inject") and ref[i][1]:
            # where it struck alone: other threads may have done shared work (a cache), which changes the steps
            t.inject = [(ref[i][1][0], EXCS[th["inject"][1]])]
        ts.append(t)
    sched.run()
    sim.ev("trail", sched.trail_digest(), sched.steps)
    if sched.switches > 0:
        sim.probes["alternated"] += 1
    if p["threads"][0].get("calm"):
        sim.probes["one-operation-each"] += 1
    if opc:
        sim.probes["bytecode-granularity"] += 1
    if len(p["threads"]) > 1 and all(t["cell"] == p["threads"][0]["cell"] for t in p["threads"]):
        sim.probes["same-cell"] += 1
    for i, th in enumerate(p["threads"]):
        want, fired, nsteps = ref[i][:3]
        got = freeze(outs[i])
        if any(e not in ("ok", "") for _, e, _ in got):
            sim.probes["faulty-thread"] += 1
        if ts[i].fired:
            sim.probes["interrupted-thread"] += 1
            sim.stats["fault:interrupt" if th["inject"][1] == "int" else "fault:alloc"] += 1
        if ts[i].fired != fired:
            continue    # the place was not reached as often as alone (shared caches)
        d = differs(want, got)
        if d:
            raise Violation("thread-result", "thread %d: %s (steps alone %d %s, here %d %s)" % (i, d, nsteps, fired, ts[i].n, ts[i].fired))
        sim.ev(i, [x[:2] for x in got], canon.digest(got))
    flat = [x for a in atoms for x in a]
    sim.probes["atoms-compared"] += len(flat)
    if len(set(flat)) != len(flat):
        raise Violation("atom-index", "atoms created concurrently share an index: %s" % sorted(flat))
    return {"nontrivial": sched.switches > 0, "sig": str(sched.trail_digest())}


def differs(want, got):
    for n, (a, b) in enumerate(zip(want, got)):
        if a[:2] != b[:2]:
            return "step %d %s: alone %s, among other threads %s" % (n, a[0], a[1], b[1])
        if a[2] != b[2]:
            return "step %d %s: result differs: %s" % (n, a[0], canon.diff(a[2], b[2]))
    return None if len(want) == len(got) else "number of steps"
