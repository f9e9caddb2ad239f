"""C04: after an interruption at any instant, rebuilding fully recovers."""
from .. import canon, cells, core, ops, views
from ..core import Violation
from . import common, files, hist

RUNS = {"quick": 1800, "thorough": 120000}
RULE = ("seeded programs: history, then 1-3 operations interrupted at a chosen lattpy line or bytecode (position taken "
        "from a step count of the same operation in a forked process) by Ctrl-C or a failed allocation, then analyze and build; "
        "unit cell and bystander lattices are compared with their state before, the rebuilt lattice and all later "
        "operations with a fresh object in a process that saw no interruption. Non-trivial: the interruption fired inside the operation.")
MEASURE = "distinct (operation, function, step class) interruption instants"
PROBES = ("interrupted", "interrupt-in-build", "interrupt-in-append", "interrupt-in-set_periodic", "interrupt-in-remove", "interrupt-in-sort", "interrupt-in-analyze", "later-ops")
EXCS = {"int": core.InjectedInterrupt, "mem": core.InjectedMemoryError}


def gen(rng, tier):
    spec = ops.gen_atom_kw(rng, cells.gen_cell(rng, dims=(1, 2, 2, 3)))
    prim = rng.random() < 0.25
    seq = [hist.gen_build(rng, spec, prim)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        seq.append(hist.gen_op(rng, spec, prim))
    victims = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        op = {"op": "analyze"} if rng.random() < 0.2 else hist.gen_op(rng, spec, prim)
        op["at"] = rng.u(7)
        op["mode"] = rng.choice(core.MODES)
        op["exc"] = rng.choice(["int", "int", "mem"])
        op["opc"] = rng.random() < 0.5
        op["alts"] = [[rng.u(7), rng.choice(core.MODES), rng.choice(["int", "mem"])] for _ in range(rng.choice([3, 4, 6]))]
        if rng.random() < 0.05:
            # struck at many places
            u = rng.u(5)
            op["alts"] = [[round((i + u) / 24, 6), "place", rng.choice(["int", "mem"])] for i in range(24)]
        if rng.random() < 0.15:
            op["times"] = rng.randint(3, 9)
        victims.append(op)
        if rng.random() < 0.3:
            victims.append({"ask": ops.gen_query(rng, heavy=0.1)})
    post = [hist.gen_op(rng, spec, prim) for _ in range(rng.choice([1, 2, 3]))]
    return {"cell": spec, "env": common.gen_env(rng), "ops": seq, "victims": victims, "build": hist.gen_build(rng, spec, prim),
            "post": post, "other": hist.gen_build(rng, spec, prim), "u": [rng.u(3) for _ in range(4)]}


def count_steps(latt, op, spec):
    """Steps of an operation, counted on the lattice itself in a process of its own."""
    def count():
        if op["op"] != "analyze" and not hist.possible(latt, op):
            return [0, 0]
        try:
            thunk = ops.prepare(latt, op, spec)
        except core.Skip:
            raise
        except Exception:
            return [0, 0]
        st = core.Stepper(ops=op.get("opc"))
        try:
            with st:
                thunk()
        except Exception:
            pass
        return [st.n, core.pick_step(st, op)] + [core.pick_step(st, {"at": a[0], "mode": a[1]}) for a in op.get("alts", [])]
    return files.fork_call(count)


def reference(p, spec):
    """What a freshly configured object does, in a process that never saw an interruption."""
    fresh = ops.make_lattice(spec)
    fresh.analyze()
    out = [canon.analysis_state(fresh)]
    steps = [p["build"]] + p["post"]
    for n, op in enumerate(steps):
        a = hist.apply(fresh, op, spec)
        out.append((None if a is None else type(a.exc).__name__, canon.state(fresh), views_of(fresh, p, n, len(steps))))
    other = ops.make_lattice(spec)
    hist.apply(other, p["other"], spec)
    a = hist.apply(other, p["post"][0], spec)
    return out, (None if a is None else type(a.exc).__name__, canon.state(other), views_of(other, p, 1, 3))


def views_of(latt, p, n, steps):
    """All queries after the build and at the end, a few in between."""
    u = p["u"][:3]
    if n in (0, steps - 1):
        return ops.full_views(latt, u)
    names = list(ops.FINITE)
    return {q: ops.ask(latt, [q, *u]) for q in (names[int(x * len(names))] for x in p["u"])}


def compare(ref, latt, a, p, n, steps, what):
    got = None if a is None else type(a.exc).__name__
    if got != ref[0]:
        raise Violation("recovery-outcome", "%s: fresh object %s, this object %r" % (what, ref[0], a and a.exc))
    sb = canon.state(latt)
    if ref[1] != sb:
        raise Violation("recovery", "%s: %s" % (what, canon.diff(ref[1], sb)))
    vb = views_of(latt, p, n, steps)
    for q in ref[2]:
        if ref[2][q] != vb[q]:
            raise Violation("recovery-view", "query %s %s: %s" % (q, what, canon.diff(ref[2][q], vb[q])))


def interrupted(latt, op, spec, k):
    """Runs an operation with an exception at its k-th step."""
    if not k or (op["op"] != "analyze" and not hist.possible(latt, op)):
        return None, None
    try:
        thunk = ops.prepare(latt, op, spec)
    except core.Skip:
        raise
    except Exception:
        return None, None
    st = core.Stepper(k, EXCS[op["exc"]], ops=op.get("opc"))
    exc = None
    try:
        with st:
            thunk()
    except BaseException as e:  # noqa
        exc = e
    if st.fired:
        core.SIM.stats["fault:interrupt" if op["exc"] == "int" else "fault:alloc"] += 1
        core.SIM.probes["interrupted"] += 1
        core.SIM.probes["interrupt-in-" + op["op"]] += 1
        core.SIM.ev("interrupt", op["op"], st.where, k)
    return st, exc


def repeated(latt, op, spec, k):
    """The operation interrupted as often as asked for; the last interruption that struck."""
    hit = None
    for _ in range(op.get("times", 1)):
        st, exc = interrupted(latt, op, spec, k)
        if st is None or not st.fired:
            break
        hit = st
    return hit


def unaffected(latt, what, by, cell0, idx0):
    if canon.cell_state(latt) != cell0 or canon.atom_indices(latt) != idx0:
        raise Violation("cell", what + ": unit cell changed: " + canon.diff(cell0, canon.cell_state(latt)))
    for name, (l, s) in by.items():
        if canon.state(l) != s:
            raise Violation("bystander", what + ": changed the %s: %s" % (name, canon.diff(s, canon.state(l))))


def alternative(latt, op, spec, k, p, ref, by, cell0, idx0):
    """Interrupts the operation at step k and recovers by analyze and build."""
    st = repeated(latt, op, spec, k)
    if st is None:
        return None
    what = "interrupting %s at step %d (in %s)" % (op["op"], k, st.where[1])
    unaffected(latt, what, by, cell0, idx0)
    latt.analyze()
    if canon.analysis_state(latt) != ref[0]:
        raise Violation("analysis", "%s: analysis after recovery: %s" % (what, canon.diff(ref[0], canon.analysis_state(latt))))
    a = hist.apply(latt, p["build"], spec)
    got = None if a is None else type(a.exc).__name__
    if got != ref[1][0]:
        raise Violation("recovery-outcome", "%s, then build: fresh object %s, this object %r" % (what, ref[1][0], a and a.exc))
    if canon.state(latt) != ref[1][1]:
        raise Violation("recovery", "%s, then build: %s" % (what, canon.diff(ref[1][1], canon.state(latt))))
    for x in p["u"]:
        q = list(ops.FINITE)[int(x * len(ops.FINITE))]
        b = ops.ask(latt, [q, *p["u"][:3]])
        if b != ref[1][2].get(q, b):
            raise Violation("recovery-view", "%s, then build, query %s: %s" % (what, q, canon.diff(ref[1][2][q], b)))
    return st.where


def run(p):
    spec = p["cell"]
    common.set_env(p.get("env"))
    sim = core.SIM
    ref, oref = files.fork_call(lambda: reference(p, spec))
    latt = ops.make_lattice(spec)
    hist.play(latt, p["ops"], spec)
    other = ops.make_lattice(spec)
    hist.apply(other, p["other"], spec)
    twin = latt.copy()
    by = {"other": (other, canon.state(other)), "copy": (twin, canon.state(twin))}
    cell0 = canon.cell_state(latt)
    idx0 = canon.atom_indices(latt)
    sig, fired = [], 0
    for i, op in enumerate(p["victims"]):
        if "op" not in op:
            ops.ask(latt, op["ask"])
            continue
        n, k, *ks = count_steps(latt, op, spec)
        for a, ka in zip(op.get("alts", []), ks):
            # the same operation struck elsewhere, in a process of its own
            w = files.fork_call(lambda: alternative(latt, dict(op, exc=a[2]), spec, ka, p, ref, by, cell0, idx0)) if ka else None
            if w:
                fired += 1
                sim.stats["fault:interrupt" if a[2] == "int" else "fault:alloc"] += 1
                sim.probes["interrupted"] += 1
                sim.probes["interrupt-in-" + op["op"]] += 1
                sim.ev("alternative", op["op"], w, ka)
                sig.append((op["op"], w, bool(op.get("opc"))))
        st = repeated(latt, op, spec, k)
        if st is None:
            continue
        fired += 1
        sig.append((op["op"], st.where, bool(op.get("opc"))))
        unaffected(latt, "interrupting %s at step %d of %d (in %s)" % (op["op"], k, n, st.where[1]), by, cell0, idx0)
    # recover
    latt.analyze()
    if canon.analysis_state(latt) != ref[0]:
        raise Violation("analysis", "analysis after recovery: " + canon.diff(ref[0], canon.analysis_state(latt)))
    steps = [p["build"]] + p["post"]
    for n, op in enumerate(steps):
        compare(ref[1 + n], latt, hist.apply(latt, op, spec), p, n, len(steps), "after step %d (%s) of the recovery" % (n, op["op"]))
        sim.probes["later-ops"] += 1
    if fired:
        compare(oref, other, hist.apply(other, p["post"][0], spec), p, 1, 3, "%s on another lattice" % p["post"][0]["op"])
    sim.ev(canon.digest(canon.state(latt)))
    return {"nontrivial": fired > 0, "sig": canon.digest(sig)}
