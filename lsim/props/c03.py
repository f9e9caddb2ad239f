"""C03: a failed build never leaves a half-built lattice."""
import numpy as np
from .. import canon, cells, core, ops, views
from ..core import Violation
from . import common, files, hist

RUNS = {"quick": 9000, "thorough": 200000}
RULE = ("seeded histories ending in one or more builds that fail through a raising/garbage callback, a raising shape "
        "object, a failed KD-tree allocation, a lost worker or a rejected argument (and copies of which run out of memory at a chosen line, which must raise); the lattice must then equal one of "
        "the states computed by fault-free twins. Non-trivial: the fault fired on a lattice that was built before.")
MEASURE = "sequences of (fault kind, position, resulting state class)"
PROBES = ("state:old", "state:new", "state:new-open", "state:unbuilt", "fault-on-built", "rebuilt-after-failure", "starved-build")


def gen(rng, tier):
    spec = ops.gen_atom_kw(rng, cells.gen_cell(rng, dims=(1, 2, 2, 3)))
    dim = len(spec["vectors"])
    prim = rng.random() < 0.25

    def build():
        if dim == 2 and rng.random() < 0.15:
            s = float(np.mean(np.linalg.norm(spec["vectors"], axis=1)))
            b = {"op": "build", "shape": {"kind": "circle", "pos": [0.01, 0.02], "r": round(rng.uniform(1.6, 3.0) * s, 3)}}
        else:
            b = {"op": "build", **ops.gen_box(rng, spec, primitive=prim)}
        if rng.random() < 0.4:
            b["periodic"] = common.gen_axes(rng, dim)
        if rng.random() < 0.25:
            b["callback"] = {"m": rng.choice([4, 5, 7]), "r": rng.randrange(3)}
        if rng.random() < 0.2:
            b["min_neighbors"] = rng.choice([1, 2])
        if rng.random() < 0.5:
            b["num_jobs"] = rng.choice([1, 2, 3, -1])
        return b
    seq = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            seq.append(build() if not seq or rng.random() < 0.3 else hist.gen_op(rng, spec, prim, kinds=["set_periodic", "remove", "sort", "append", "repeat"]))
        b = build()
        r = rng.random()
        if rng.random() < 0.08:
            b["alloc"] = [[rng.u(6), rng.choice(core.MODES)] for _ in range(rng.choice([2, 4, 8]))]
        if r < 0.75:
            b["fault"] = common.gen_coarse_fault(rng, "build")
            if b["fault"].get("cb") is None and "shape" not in b["fault"] and rng.random() < 0.5:
                b["periodic"] = common.gen_axes(rng, dim)
                b["fault"] = {"kd": rng.randint(1, 8)}
            elif rng.random() < 0.1:
                b["fault"] = {"cb": "empty"}
        else:
            b["badarg"] = rng.choice(["shape", "pos", "axis", "shape-type", "callback-type", "unconfigured"])
            if b["badarg"] == "axis":
                b["periodic"] = rng.choice([[dim + 1], dim + 2, [0, dim]])
            if b["badarg"] == "shape":
                b["shape"] = [2.0] * (dim + 1)
            if b["badarg"] == "shape-type":
                b["shape"] = ["x"] * dim
            if b["badarg"] == "pos":
                b["pos"] = [0.5] * (dim + 2)
                b["periodic"] = None
        b["victim"] = True
        # the user may try the failing call several times
        seq += [b] * (rng.randint(3, 9) if rng.random() < 0.12 else 1)
    return {"cell": spec, "env": common.gen_env(rng), "ops": seq, "final": build(), "u": [rng.u(3) for _ in range(6)]}


def in_chain(e, types):
    seen = 0
    while e is not None and seen < 12:
        if isinstance(e, types) and e.args[:1] in (("callback",), ("shape.limits",), ("shape.contains",)):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def twin_states(spec, op):
    """States the requested build reaches without the fault."""
    clean = {k: v for k, v in op.items() if k not in ("fault", "victim", "badarg", "alloc")}
    out = {}
    for name, b in (("new", clean), ("new-open", {k: v for k, v in clean.items() if k != "periodic"})):
        tw = ops.make_lattice(spec)
        try:
            kw = ops.build_kwargs(tw, b)
            tw.build(**kw)
        except Exception:
            continue
        out[name] = canon.finite_state(tw)
    return out


def reference(p, spec):
    """Made in a process of its own, which sees no fault."""
    twins = {n: twin_states(spec, op) for n, op in enumerate(p["ops"]) if op.get("victim")}
    tw = ops.make_lattice(spec)
    rb = ops.run_op(tw, p["final"], spec)
    return twins, (rb.exc and repr(rb.exc), canon.finite_state(tw))


def starved(latt, op, spec, new):
    """The build without its fault, but with an allocation failing at some place: it has to raise.
    (What it leaves behind is for C04 to judge.)"""
    b = {k: v for k, v in op.items() if k not in ("fault", "victim", "badarg", "alloc")}

    def strike(k=None):
        st = core.Stepper(k, core.InjectedMemoryError)
        exc = None
        try:
            kw = ops.build_kwargs(latt, b)
            with st:
                latt.build(**kw)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        if k is None:
            return [core.pick_step(st, {"at": u, "mode": m}) for u, m in op["alloc"]]
        if st.fired and exc is None and canon.finite_state(latt) != new:
            raise Violation("swallowed", "a failed allocation at step %d of a build (in %s) was swallowed, the lattice is another" % (k, st.where[1]))
        return st.fired
    for k in files.fork_call(strike):
        if k and files.fork_call(lambda: strike(k)):
            core.SIM.stats["fault:alloc"] += 1
            core.SIM.probes["starved-build"] += 1


def is_unbuilt(latt):
    return latt.num_sites == 0 and latt.shape is None and latt.pos is None and len(np.atleast_1d(latt.periodic_axes)) == 0


def run(p):
    spec = p["cell"]
    common.set_env(p.get("env"))
    sim = core.SIM
    twins, ref = files.fork_call(lambda: reference(p, spec))
    latt = ops.make_lattice(spec)
    cell0, ana0 = canon.cell_state(latt), canon.analysis_state(latt)
    nontrivial, sig = False, []
    for n, op in enumerate(p["ops"]):
        if not op.get("victim"):
            hist.apply(latt, op, spec)
            continue
        what = "after op %d" % n
        built = latt.num_sites > 0
        old = canon.finite_state(latt)
        old_unbuilt = is_unbuilt(latt)
        accept = twins[n]
        if op.get("alloc") and "new" in accept:
            starved(latt, op, spec, accept["new"])
        before = dict(sim.stats)
        if op.get("badarg") == "callback-type":
            op = dict(op)
            try:
                kw = ops.build_kwargs(latt, {k: v for k, v in op.items()})
                kw["callback"] = 17
                latt.build(**kw)
                res = ops.OpResult()
            except Exception as e:
                res = ops.OpResult(e)
        elif op.get("badarg") == "unconfigured":
            # the build of an unconfigured lattice; it has nothing to lose
            l2 = ops.make_lattice(spec, configure=False)
            r2 = ops.run_op(l2, op, spec)
            if r2.exc is None:
                raise Violation("accepted", what + ": a lattice without connections was built")
            if not is_unbuilt(l2):
                raise Violation("unconfigured", what + ": refused build left a shape or sites")
            continue
        else:
            res = ops.run_op(latt, op, spec)
        fired = sorted(k[6:] for k in sim.stats if k.startswith("fault:") and sim.stats[k] != before.get(k, 0))
        if res.exc is None:
            # nothing failed (the fault position does not exist, or the work was redone);
            # an error of user code is never the library's to hide
            user = [k for k in fired if k in ("callback-raise", "callback-interrupt", "shape-limits", "shape-contains")]
            if user:
                raise Violation("swallowed", "%s: the user's error (%s) never reached the caller" % (what, user[0]))
            if (fired or op.get("badarg")) and canon.finite_state(latt) != accept.get("new"):
                raise Violation("swallowed", "%s: the build failed (%s) but returned normally with another model" % (what, fired or op.get("badarg")))
            continue
        if not fired and not op.get("badarg") and "new" in accept:
            raise res.exc
        if "callback-raise" in fired or "shape-limits" in fired or "shape-contains" in fired:
            f = op.get("fault") or {}
            if not in_chain(res.exc, ops.user_error((f.get("shape") or f).get("exc"))):
                raise Violation("error-lost", "%s: the user's error became %r" % (what, res.exc))
        if "callback-interrupt" in fired and not isinstance(res.exc, KeyboardInterrupt):
            raise Violation("error-lost", "%s: the interrupt became %r" % (what, res.exc))
        if canon.cell_state(latt) != cell0 or canon.analysis_state(latt) != ana0:
            raise Violation("cell", what + ": the failed build changed the unit cell")
        st = canon.finite_state(latt)
        cls = None
        if is_unbuilt(latt):
            cls = "unbuilt"
            try:
                latt.set_periodic(0)
            except Exception:
                pass
            else:
                raise Violation("not-refused", what + ": periodic boundaries were set on an unbuilt lattice")
        elif built and st == old:
            cls = "old"
        else:
            for k in ("new", "new-open"):
                if accept.get(k) == st:
                    cls = k
                    break
        if cls is None:
            raise Violation("half-built", "%s (%s, %s): %d sites, shape %s at %s, periodic %s; vs before: %s; vs requested: %s" % (
                what, fired, type(res.exc).__name__, latt.num_sites, latt.shape, latt.pos, latt.periodic_axes,
                canon.diff(old, st, lim=2), canon.diff(accept.get("new-open"), st, lim=2)))
        if cls == "unbuilt" or not old_unbuilt:
            sim.probes["state:" + cls] += 1
        if built:
            sim.probes["fault-on-built"] += 1
            nontrivial = True
        sig.append((tuple(fired), op.get("badarg"), cls, repr(op.get("fault"))))
        sim.ev(fired, cls, type(res.exc).__name__)
    # building again works and gives the same as on a fresh object
    ra = ops.run_op(latt, p["final"], spec)
    if (ra.exc is None) != (ref[0] is None):
        raise Violation("rebuild", "building again after the failures: %r, fresh object: %r" % (ra.exc, ref[0]))
    if ra.exc is None:
        sim.probes["rebuilt-after-failure"] += 1
        if canon.finite_state(latt) != ref[1]:
            raise Violation("rebuild", "building again after the failures: " + canon.diff(ref[1], canon.finite_state(latt)))
    return {"nontrivial": nontrivial, "sig": canon.digest(sig)}
