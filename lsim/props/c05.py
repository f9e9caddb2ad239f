"""C05: concurrent queries on one lattice answer as if run alone."""
from .. import canon, cells, core, ops, simio
from ..core import Violation
from . import common, files, hist, threads

RUNS = {"quick": 5500, "thorough": 150000}
RULE = ("seeded programs: a lattice with a history, 2-4 threads of queries, copies, exports and saves on it under a "
        "seeded schedule that switches threads at lattpy lines or bytecodes; every answer is compared with the answer of "
        "a lattice of the same history asked by one thread in a process of its own. Non-trivial: the threads really alternated.")
MEASURE = "distinct sequences of scheduled threads"
PROBES = ("alternated", "first-lazy-query-raced", "save-raced", "copy-raced", "bytecode-granularity", "library-threads")


def gen(rng, tier):
    spec = ops.gen_atom_kw(rng, cells.gen_cell(rng, dims=(1, 2, 2, 3)))
    prim = rng.random() < 0.25
    seq = [hist.gen_build(rng, spec, prim)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        seq.append(hist.gen_op(rng, spec, prim))
    nt = rng.choice([2, 2, 3, 4])
    same = rng.random() < 0.4
    first = ops.gen_query(rng, heavy=0.1, lazy=0.6)
    ths = []
    for _ in range(nt):
        qs = []
        if same:
            qs.append(list(first))
        for _ in range(rng.choice([1, 2, 3, 5])):
            r = rng.random()
            if r < 0.1:
                qs.append(["!save", rng.u(3), rng.u(3), rng.u(3)])
            elif r < 0.17:
                qs.append(["!hash", 0, 0, 0])
            elif r < 0.24:
                qs.append(["copy", 0, 0, 0])
            else:
                qs.append(ops.gen_query(rng, heavy=0.15, lazy=0.35))
        ths.append(qs)
    return {"cell": spec, "env": common.gen_env(rng), "ops": seq, "warm": rng.random() < 0.2, "threads": ths,
            "schedule": threads.gen_schedule(rng, total=800, styles=("fine", "mixed", "burst", "pin", "pin", "place", "place", "place", "step", "step")), "opc": rng.random() < 0.3, "u": [rng.u(3) for _ in range(3)]}


def reference(p, spec):
    """Every answer of an equal lattice asked by one thread, in a process of its own."""
    twin = ops.make_lattice(spec)
    hist.play(twin, p["ops"], spec)
    if not twin.num_sites:
        raise core.Skip("not built")
    out = [[None if q[0][0] == "!" else ops.ask(twin, q) for q in t] for t in p["threads"]]
    total, seen = 0, []
    if threads.relative(p["schedule"]):
        base = ops.make_lattice(spec)
        hist.play(base, p["ops"], spec)
        for t in p["threads"]:
            st = core.Stepper(ops=p.get("opc"))
            tw2 = base.copy()
            with st:
                for q in t:
                    try:
                        tw2.copy() if q[0] == "!save" else tw2.__hash__() if q[0] == "!hash" else ops.raw_query(tw2, q)
                    except Exception:
                        pass
            total += st.n
            seen.append(list(st.seen.values()))
    return out, ops.full_views(twin, p["u"]), total, seen


def run(p):
    spec = p["cell"]
    common.set_env(p.get("env"))
    sim, disk = core.SIM, simio.DISK
    alone, va, steps, seen = files.fork_call(lambda: reference(p, spec))
    latt = ops.make_lattice(spec)
    hist.play(latt, p["ops"], spec)
    if not latt.num_sites:
        raise core.Skip("not built")
    if p.get("warm"):
        latt.dmap()
    h0, eq0, s0 = latt.__hash__(), latt.copy(), canon.state(latt)
    saves = any(q[0] == "!save" for t in p["threads"] for q in t)
    if saves:
        disk.mount()
    sched = core.Scheduler(sim, threads.resolve(p["schedule"], steps, seen), ops=p.get("opc"))
    res = [[None] * len(t) for t in p["threads"]]

    def client(i):
        def go():
            for j, q in enumerate(p["threads"][i]):
                try:
                    if q[0] == "!save":
                        latt.dump("t%d-%d.latt" % (i, j))
                        r = ("v", "saved")
                    elif q[0] == "!hash":
                        r = ("v", (latt.__hash__() == h0, latt == eq0))
                    else:
                        r = ("v", ops.raw_query(latt, q))
                except Exception as e:
                    r = ("e", e)
                res[i][j] = r
        return go
    for i in range(len(p["threads"])):
        sched.spawn(client(i))
    sched.run()
    sim.ev("trail", sched.trail_digest(), sched.steps)
    if sched.switches > 0:
        sim.probes["alternated"] += 1
    if p.get("opc"):
        sim.probes["bytecode-granularity"] += 1
    if len(sched.threads) > len(p["threads"]):
        sim.probes["library-threads"] += 1
    first = [t[0][0] for t in p["threads"] if t]
    if sched.switches > 0 and len([q for q in first if q in ops.LAZY]) > 1 and not p.get("warm"):
        sim.probes["first-lazy-query-raced"] += 1
    disk.reset_plan(None)
    for i, t in enumerate(p["threads"]):
        for j, q in enumerate(t):
            what = "thread %d, call %d (%s)" % (i, j, q[0])
            kind, val = res[i][j]
            sim.stats["queries"] += 1
            if q[0] == "!save":
                sim.probes["save-raced"] += 1
                if kind == "e":
                    raise Violation("raised", "%s raised %r, but does not when it runs alone" % (what, val))
                try:
                    l2 = core.lp.Lattice.load("t%d-%d.latt" % (i, j))
                except Exception as e:
                    raise Violation("saved", "%s: the saved file does not load: %r" % (what, e))
                if canon.state(l2) != s0:
                    raise Violation("saved", what + ": saved lattice: " + canon.diff(s0, canon.state(l2)))
                continue
            if q[0] == "!hash":
                if kind == "e" or val != (True, True):
                    raise Violation("answer", "%s: hash or comparison changed: %r" % (what, val))
                continue
            if q[0] == "copy":
                sim.probes["copy-raced"] += 1
            got = ("E", type(val).__name__) if kind == "e" else canon.canon(val)
            if got != alone[i][j]:
                if kind == "e":
                    raise Violation("raised", "%s raised %r, but does not when it runs alone" % (what, val))
                raise Violation("answer", "%s: %s" % (what, canon.diff(alone[i][j], got)))
    if canon.state(latt) != s0:
        raise Violation("changed", "the lattice changed: " + canon.diff(s0, canon.state(latt)))
    vb = ops.full_views(latt, p["u"])
    for k in va:
        if va[k] != vb[k]:
            raise Violation("answer-later", "%s after the threads ended: %s" % (k, canon.diff(va[k], vb[k])))
    return {"nontrivial": sched.switches > 0, "sig": str(sched.trail_digest())}
