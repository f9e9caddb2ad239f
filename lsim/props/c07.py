"""C07: worker count and scheduling never change the computed neighbors."""
import numpy as np
from .. import canon, cells, core, ops
from ..core import Violation
from . import common, hist, threads

RUNS = {"quick": 8500, "thorough": 120000}
RULE = ("seeded programs: the same sequence of builds, extensions, boundary changes and neighbor computations run with one job on "
        "one processor and with other job counts, processor counts and worker completion orders, alone or inside a scheduled thread, "
        "some losing a worker; all results are compared bit by bit. Non-trivial: a search was really split over workers.")
MEASURE = "distinct (operations, job counts, processors, completion order) variants"
PROBES = ("split-searches", "more-jobs-than-sites", "all-processors", "worker-lost", "raised-on-loss", "library-threads", "in-thread")


def gen(rng, tier):
    spec = cells.gen_cell(rng, dims=(1, 2, 2, 3))
    prim = rng.random() < 0.25
    seq = [{"op": "build", **hist.gen_build(rng, spec, prim, big=rng.random() < 0.3)}]
    for _ in range(rng.choice([0, 1, 2, 3])):
        r = rng.random()
        if r < 0.3:
            seq.append({"op": "compute", "n": ops.ncells(rng, len(spec["vectors"]))})
        elif r < 0.42:
            seq.append({"op": "tree", "k": rng.choice([1, 3, 8]), "zero": rng.random() < 0.5, "compact": rng.random() < 0.7})
        else:
            seq.append(hist.gen_op(rng, spec, prim, kinds=["set_periodic", "extend", "extend", "append", "repeat", "build"]))
    var = []
    for _ in range(rng.choice([2, 3])):
        v = {"jobs": rng.choice([1, 2, 3, 4, 7, 13, 500, -1, -1, -1]), "cpus": rng.choice([1, 2, 3, 5, 8, 16, 64]), "order": rng.randrange(1, 1 << 20)}
        if rng.random() < 0.3:
            v["lose"] = [rng.randrange(len(seq)), rng.randint(1, 3), rng.randrange(8)]
        if rng.random() < 0.3:
            v["schedule"] = threads.gen_schedule(rng, 20, styles=("fine", "mixed", "coarse", "burst", "step"))
        var.append(v)
    return {"cell": spec, "ops": seq, "variants": var}


def one(latt, op, jobs, spec):
    """Runs one operation with a job count; returns the canonical result."""
    o = op["op"]
    if o == "compute":
        ind, pos = latt.build_indices([float(x) for x in op["n"]], return_pos=True)
        if not len(ind):
            return None
        nb, ds = latt.compute_neighbors(ind, pos, num_jobs=jobs)
        return canon.canon([np.asarray(nb), np.asarray(ds)])
    if o == "tree":
        if not latt.num_sites:
            return None
        tree = core.lp.spatial.KDTree(latt.positions, k=op["k"] + 1, max_dist=10.0)
        nb, ds = tree.query(num_jobs=jobs, decimals=6, include_zero=op["zero"], compact=op["compact"])
        return canon.canon([np.asarray(nb), np.asarray(ds)])
    op = dict(op)
    if o in ("build", "extend"):
        op["num_jobs"] = jobs
    if not hist.possible(latt, op, 250):
        return "not possible"
    try:
        thunk = ops.prepare(latt, op, spec)
    except core.Skip:
        return "not possible"
    try:
        thunk()
    except core.InjectedMemoryError:
        raise
    except ValueError as e:
        return ("E", type(e).__name__)
    return "done"


def play(p, v, ref=None):
    """Plays the sequence under a variant; ref: reference records to compare with."""
    sim, spec = core.SIM, p["cell"]
    sim.cpus, sim.kd.order = v["cpus"], v["order"]
    sim._lcg = None
    latt = ops.make_lattice(spec)
    out = []
    for n, op in enumerate(p["ops"]):
        lose = v.get("lose")
        armed = ref is not None and lose and lose[0] == n
        f0 = sim.kd.fired
        if armed:
            sim.kd.arm(None, lose[1:])
        exc, val = None, None
        try:
            val = one(latt, op, v["jobs"], spec)
        except core.InjectedMemoryError as e:
            exc = e
        finally:
            sim.kd.disarm()
        if armed and sim.kd.fired > f0:
            sim.probes["worker-lost"] += 1
            if exc is not None:
                sim.probes["raised-on-loss"] += 1
                out.append("lost")
                return out      # what a failed operation leaves behind is C03/C10/C11
        elif exc is not None:
            raise exc
        rec = (val, canon.finite_state(latt))
        out.append(rec)
        if ref is not None and rec != ref[n]:
            w = "operation %d (%s) with %s jobs on %d processors%s" % (n, op["op"], v["jobs"], v["cpus"], " after a worker was lost and the call returned normally" if armed and sim.kd.fired > f0 else "")
            raise Violation("partial" if armed and sim.kd.fired > f0 else "differs", "%s: %s" % (w, canon.diff(ref[n], rec)))
    return out


def run(p):
    sim = core.SIM
    ref = play(p, {"jobs": 1, "cpus": 1, "order": None})
    sig = []
    for v in p["variants"]:
        if v.get("schedule"):
            box = {}

            def go():
                try:
                    box["r"] = play(p, v, ref)
                except BaseException as e:  # noqa
                    box["e"] = e
            sched = core.Scheduler(sim, v["schedule"])
            sched.spawn(go)
            sched.run()
            sim.probes["in-thread"] += 1
            if len(sched.threads) > 1:
                sim.probes["library-threads"] += 1
            if "e" in box:
                raise box["e"]
            out = box["r"]
        else:
            out = play(p, v, ref)
        n = max((x[1][0][0] for x in ref if isinstance(x, tuple) and x[1][0] != ("unbuilt",)), default=0)
        sim.probes["more-jobs-than-sites"] += v["jobs"] > n
        sim.probes["all-processors"] += v["jobs"] == -1
        sig.append((v["jobs"], v["cpus"], v["order"]))
        sim.ev(v["jobs"], v["cpus"], canon.digest(out))
    sim.probes["split-searches"] += sim.kd.parallel
    return {"nontrivial": sim.kd.parallel > 0 or sim.stats.get("lib-threads", 0) + sim.stats.get("lib-tasks", 0) > 0,
            "sig": canon.digest((sig, [o["op"] for o in p["ops"]]))}
