"""C08: a failed or interrupted query leaves no trace."""
from .. import canon, cells, core, ops, simio
from ..core import Violation
from . import common, files, hist

RUNS = {"quick": 4200, "thorough": 150000}
RULE = ("seeded programs: a lattice with a history, then queries of which some are interrupted at a chosen lattpy line "
        "or bytecode, fail through a KD-tree allocation, a failing disk (saving) or an invalid argument; the state and "
        "all later answers are compared with those of an equal lattice in a process that never saw a failing call. Non-trivial: a query failed.")
MEASURE = "distinct (query, function interrupted, failure kind)"
PROBES = ("interrupted-query", "kd-failed-query", "bad-argument", "failed-save", "interrupted-lazy", "re-asked", "swept-place")
EXCS = {"int": core.InjectedInterrupt, "mem": core.InjectedMemoryError}
BAD = ["site-big", "site-str", "distidx-str", "pos-dim", "index-dim", "csr-shape", "relpos-dim", "name", "axis"]


def gen(rng, tier):
    spec = ops.gen_atom_kw(rng, cells.gen_cell(rng, dims=(1, 2, 2, 3)))
    prim = rng.random() < 0.25
    seq = [hist.gen_build(rng, spec, prim)]
    for _ in range(rng.choice([0, 1, 2])):
        seq.append(hist.gen_op(rng, spec, prim))
    qs = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        q = {"q": ops.gen_query(rng, heavy=0.3, lazy=0.35)}
        r = rng.random()
        if r < 0.6:
            q["fail"] = {"kind": "interrupt", "at": rng.u(7), "exc": rng.choice(["int", "mem"]), "opc": rng.random() < 0.5, "mode": rng.choice(core.MODES)}
            if rng.random() < 0.1:
                # struck at many places, each in a process of its own
                q["fail"]["sweep"] = [rng.choice([12, 24, 48]), rng.u(3)]
        elif r < 0.7:
            q["fail"] = {"kind": "kd", "at": rng.randint(1, 2)}
            q["q"] = [rng.choice(["kdtree", "s_compute", "compute_connections", "copy", "dmap"]), 0.4, 0.5, 0.6]
        elif r < 0.82:
            q["fail"] = {"kind": "bad", "what": rng.choice(BAD)}
        elif r < 0.9:
            q["fail"] = {"kind": "save", "on": rng.choice(["write", "open", "close"]), "at": 1, "err": rng.choice(["ENOSPC", "EIO"])}
        if "fail" in q and rng.random() < 0.15:
            q["fail"]["times"] = rng.randint(3, 9)
        if rng.random() < 0.25:
            q["then"] = hist.gen_op(rng, spec, prim)
        qs.append(q)
    return {"cell": spec, "env": common.gen_env(rng), "ops": seq, "qs": qs, "u": [rng.u(3) for _ in range(3)]}


def bad_call(l, what):
    n = l.num_sites
    if what == "site-big":
        for f in (l.neighbors, l.position, l.alpha, l.atom, l.nearest_neighbors, l.minimum_distances):
            attempt(lambda: f(n + 1000))
    elif what == "site-str":
        for f in (l.neighbors, l.position, l.alpha):
            attempt(lambda: f("x"))
        attempt(lambda: list(l.iter_neighbors("x")))
    elif what == "distidx-str":
        attempt(lambda: l.neighbors(0, "x"))
        attempt(lambda: l.dmap().hopping("x"))
    elif what == "pos-dim":
        attempt(lambda: l.superindex_from_pos([0.1] * (l.dim + 3)))
        attempt(lambda: l.estimate_index([0.1] * (l.dim + 3)))
    elif what == "index-dim":
        attempt(lambda: l.superindex_from_index([1] * (l.dim + 4)))
        attempt(lambda: l.get_neighbors([1] * (l.dim + 2)))
        attempt(lambda: l.get_position([1] * (l.dim + 2)))
    elif what == "csr-shape":
        attempt(lambda: l.dmap().build_csr([1.0, 2.0]))
        attempt(lambda: l.dmap().build_bsr([1.0]))
    elif what == "relpos-dim":
        attempt(lambda: l.relative_position([0.1] * (l.dim + 2)))
        attempt(lambda: l.check_points([[0.0] * (l.dim + 1)], [1.0] * (l.dim + 2)))
    elif what == "name":
        attempt(lambda: l.get_alpha("no such atom"))
        attempt(lambda: l.get_atom("no such atom"))
    elif what == "axis":
        attempt(lambda: l.periodic_translation_vectors([l.dim + 2], l.primitive))
        attempt(lambda: l.data.find_outer_sites(l.dim + 1, 0.5))


def attempt(f):
    try:
        f()
    except Exception:
        pass


def reference(p, spec):
    """The answers and states of a lattice that never sees a failing call, made in a process of its own."""
    twin = ops.make_lattice(spec)
    hist.play(twin, p["ops"], spec)
    if not twin.num_sites:
        raise core.Skip("not built")
    out = []
    for n, e in enumerate(p["qs"]):
        rec = {"ask": [ops.ask(twin, q) for q in again(p, n)]}
        if e.get("then"):
            r = hist.apply(twin, e["then"], spec)
            rec["then"] = (None if r is None else type(r.exc).__name__, canon.state(twin))
        out.append(rec)
        if not twin.num_sites:
            break
    return out, ops.full_views(twin, p["u"])


def again(p, n):
    return (p["qs"][n]["q"], [("dmap" if n % 2 else "dmap_csr"), *p["u"]], ["neighbor_pairs", *p["u"]])


def run(p):
    spec = p["cell"]
    common.set_env(p.get("env"))
    sim = core.SIM
    ref, va = files.fork_call(lambda: reference(p, spec))
    latt = ops.make_lattice(spec)
    hist.play(latt, p["ops"], spec)
    failed, sig = 0, []
    for n, e in enumerate(p["qs"]):
        q, f = e["q"], e.get("fail")
        s0 = canon.state(latt)
        what = "query %d (%s)" % (n, q[0])
        if f:
            bad = None
            for w in sweep(latt, q, f, s0, what, again(p, n), ref[n]["ask"]):
                failed += 1
                sig.append((q[0], "sweep", w))
                sim.stats["fault:interrupt" if f["exc"] == "int" else "fault:alloc"] += 1
                sim.probes["interrupted-query"] += 1
                sim.probes["swept-place"] += 1
            for _ in range(f.get("times", 1)):
                bad = fail(latt, q, f, sim) or bad
            if bad is not None:
                failed += 1
                sig.append((q[0] if f["kind"] in ("interrupt", "kd") else "", f["kind"], bad))
                if canon.state(latt) != s0:
                    raise Violation("changed", "%s failed (%s in %s) and changed the lattice: %s" % (what, f["kind"], bad, canon.diff(s0, canon.state(latt))))
        # ask again, and something else
        for q2, a in zip(again(p, n), ref[n]["ask"]):
            b = ops.ask(latt, q2)
            if a != b:
                raise Violation("answer", "%s answers differently after the failure of %s (%s): %s" % (q2[0], what, f, canon.diff(a, b)))
        sim.probes["re-asked"] += 1
        if e.get("then"):
            r = hist.apply(latt, e["then"], spec)
            a, b = ref[n]["then"], (None if r is None else type(r.exc).__name__, canon.state(latt))
            if a[0] != b[0]:
                raise Violation("later-op", "%s behaves differently after the failure of %s: %s instead of %s" % (e["then"]["op"], what, b[0], a[0]))
            if a != b:
                raise Violation("later-op", "%s gives another lattice after the failure of %s: %s" % (e["then"]["op"], what, canon.diff(a[1], b[1])))
            if not latt.num_sites:
                break
    vb = ops.full_views(latt, p["u"])
    for k in va:
        if va[k] != vb[k]:
            raise Violation("answer", "%s differs at the end: %s" % (k, canon.diff(va[k], vb[k])))
    sim.ev(canon.digest(canon.state(latt)), canon.digest(sig))
    return {"nontrivial": failed > 0, "sig": canon.digest(sig)}


def sweep(latt, q, f, s0, what, qs, answers):
    """Interrupts the query at many places of its code, every time on the lattice as it is now."""
    if not f.get("sweep"):
        return []
    num, u = f["sweep"]

    def count():
        st = core.Stepper(ops=f.get("opc"))
        try:
            with st:
                ops.raw_query(latt, q)
        except Exception:
            pass
        places = list(st.seen.values())
        stride = max(1.0, len(places) / num)
        return [places[int(i * stride)][int(u * len(places[int(i * stride)]))] for i in range(min(num, len(places)))]

    def strike(k):
        st = core.Stepper(k, EXCS[f["exc"]], ops=f.get("opc"))
        try:
            with st:
                ops.raw_query(latt, q)
        except (Exception, KeyboardInterrupt):
            pass
        if not st.fired:
            return None
        s1 = canon.state(latt)
        if s1 != s0:
            raise Violation("changed", "%s interrupted at step %d (in %s) changed the lattice: %s" % (what, k, st.where[1], canon.diff(s0, s1)))
        for q2, a in zip(qs, answers):
            b = ops.ask(latt, q2)
            if a != b:
                raise Violation("answer", "%s answers differently after %s was interrupted at step %d (in %s): %s" % (q2[0], what, k, st.where[1], canon.diff(a, b)))
        return st.where
    out = []
    for k in files.fork_call(count):
        w = files.fork_call(lambda: strike(k))
        if w:
            out.append(w)
    return out


def fail(latt, q, f, sim):
    """Makes the query fail; returns where it did, or None."""
    if f["kind"] == "interrupt":
        # count the steps on the lattice itself, in a process of its own
        def count():
            st = core.Stepper(ops=f.get("opc"))
            try:
                with st:
                    ops.raw_query(latt, q)
            except Exception:
                pass
            return core.pick_step(st, f)
        k = files.fork_call(count)
        if k == 0:
            return None
        st = core.Stepper(k, EXCS[f["exc"]], ops=f.get("opc"))
        try:
            with st:
                ops.raw_query(latt, q)
        except (Exception, KeyboardInterrupt):
            pass
        if not st.fired:
            return None
        sim.stats["fault:interrupt" if f["exc"] == "int" else "fault:alloc"] += 1
        sim.probes["interrupted-query"] += 1
        if q[0] in ops.LAZY:
            sim.probes["interrupted-lazy"] += 1
        sim.ev("interrupt", q[0], st.where, k)
        return st.where
    if f["kind"] == "kd":
        sim.kd.arm(f["at"], None)
        try:
            ops.raw_query(latt, q)
        except (Exception, KeyboardInterrupt):
            pass
        finally:
            fired = sim.kd.calls >= f["at"]
            sim.kd.disarm()
        if fired:
            sim.probes["kd-failed-query"] += 1
            return "kd"
        return None
    if f["kind"] == "bad":
        bad_call(latt, f["what"])
        sim.probes["bad-argument"] += 1
        sim.stats["fault:bad-argument"] += 1
        return f["what"]
    simio.DISK.mount({"bufs": [64], "fault": {"on": f["on"], "at": f["at"], "kind": f["err"], "sticky": True}})
    try:
        try:
            latt.dump("x.latt")
        except OSError:
            sim.probes["failed-save"] += 1
        fired = bool(simio.DISK.fired)
    finally:
        simio.DISK.unmount()
    return "save" if fired else None
