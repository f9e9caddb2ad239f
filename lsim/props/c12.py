"""C12: a model is never built from an outdated unit-cell analysis."""
import itertools
import numpy as np
from .. import canon, cells, core, model, ops
from ..core import Violation
from . import common

RUNS = {"quick": 15000, "thorough": 200000}
RULE = ("seeded configuration histories (atoms, connections, analysis) with rejected calls, failing and interrupted "
        "analyses, builds and neighbor queries anywhere; every answer is compared with a brute-force evaluation of the "
        "unit cell configured at that moment. Non-trivial: the unit cell changed after it had been analyzed or a "
        "configuration call failed.")
MEASURE = "sequences of (call, outcome)"
ASSUMPTIONS = ["unit cells whose distance shells are clearly separated (> 1e-3) and inside the search range of the analysis"]
PROBES = ("query-refused", "query-answered", "build-refused", "build-answered", "stale-window", "analysis-interrupted", "rejected", "reconfigured-after-build",
          "connecting-interrupted", "connected-by-shared-name", "connected-by-atom")
EXCS = {"int": core.InjectedInterrupt, "mem": core.InjectedMemoryError}
BASES = [
    ([[1.0]], [[0.0], [0.4], [0.7]]),
    ([[2.0]], [[0.0], [0.6], [1.3]]),
    ([[1.0, 0], [0, 1.0]], [[0.0, 0.0], [0.5, 0.5], [0.3, 0.0], [0.0, 0.4]]),
    ([[1.0, 0], [0, 1.3]], [[0.0, 0.0], [0.5, 0.65], [0.25, 0.1]]),
    ([[1.5, 0.8660254037844386], [1.5, -0.8660254037844386]], [[0.0, 0.0], [1.0, 0.0]]),
    ([[2.0, 0], [1.0, 1.7320508075688772]], [[0.0, 0.0], [1.0, 0.0], [0.5, 0.8660254037844386]]),
    ([[9.0]], [[0.0], [1.2], [2.0], [3.35], [4.25], [5.25], [6.1], [7.0], [8.0]]),
    ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], [[0.0, 0.0, 0.0], [0.5, 0.5, 0.5]]),
]
NAMES = ["A", "B", "C"] * 3


def gen(rng, tier):
    b = rng.randrange(len(BASES))
    vecs, cand = BASES[b]
    dim = len(vecs)
    order = list(range(len(cand)))
    rng.shuffle(order)
    seq = []
    na = 0
    same = rng.random() < 0.4       # most atoms share a name

    def add():
        nonlocal na
        if na >= len(order):
            return None
        i = order[na]
        op = {"op": "add_atom", "pos": cand[i], "name": rng.choice([NAMES[i], NAMES[i], "X", "X"] if not same else ["X", "X", "A"])}
        if rng.random() < 0.3:
            op["neighbors"] = rng.choice([1, 1, 2])
        na += 1
        return op

    def atom_arg():
        i = rng.randrange(max(1, na))
        r = rng.random()
        return i if r < 0.45 else {"name": i} if r < 0.85 else {"atom": i}

    def step():
        r = rng.random()
        if r < 0.14:
            return add()
        if r < 0.3:
            return {"op": "add_connections", "n": rng.choice([1, 1, 2, 3] if dim < 3 else [1, 1, 2]), "analyze": rng.random() < 0.6}
        if r < 0.45:
            return {"op": "add_connection", "a": atom_arg(), "b": atom_arg(), "n": rng.choice([0, 1, 1, 2]), "analyze": rng.random() < 0.4}
        if r < 0.6:
            op = {"op": "analyze"}
            return op
        if r < 0.72:
            return {"op": "build"}
        if r < 0.9:
            return {"op": "query", "u": rng.u(3), "v": rng.u(3)}
        return {"op": "reject", "what": rng.choice(["occupied", "occupied", "dim", "no-atom", "no-index", "bad-pos"]), "u": rng.u(3)}
    seq.append(add())
    if len(cand) > 4 and rng.random() < 0.8:
        seq += [add() for _ in range(len(cand) - 1)]
        for s in seq:
            if rng.random() < 0.8:
                s.pop("neighbors", None)
    elif rng.random() < 0.4:
        seq += [s for s in [add() for _ in range(rng.randint(1, 2))] if s]
    top = len(seq) + rng.choice([4, 6, 8, 11])
    while len(seq) < top:
        if na > 1 and rng.random() < 0.12:
            # the same numbers for other pairs, analyzed before and after
            ij = rng.sample([(i, j) for i in range(na) for j in range(i, na)], 2)
            k = rng.choice([[2, 1], [1, 0], [2, 0]])
            rep = [rng.random() < 0.5, rng.random() < 0.5]
            seq += [{"op": "add_connection", "a": ij[x][0], "b": ij[x][1], "n": k[x], "analyze": bool(x)} for x in (0, 1)]
            if rep[0]:
                seq.append({"op": "query", "u": rng.u(3), "v": rng.u(3)})
            seq += [{"op": "add_connection", "a": ij[x][0], "b": ij[x][1], "n": k[1 - x], "analyze": bool(x) and rep[1]} for x in (0, 1)]
            seq += [{"op": "analyze"}] * (not rep[1]) + [{"op": rng.choice(["build", "query"]), "u": rng.u(3), "v": rng.u(3)}]
            continue
        s = step()
        if s is None:
            continue
        if s["op"] in ("analyze", "add_connections", "add_connection", "add_atom") and rng.random() < 0.35:
            if rng.random() < 0.4:
                s["fault"] = {"kd": rng.randint(1, 3)}
            else:
                s["stop"] = {"at": rng.u(7), "mode": rng.choice(core.MODES), "exc": rng.choice(["int", "mem"]), "opc": rng.random() < 0.4}
        seq.append(s)
        if s["op"] != "query" and rng.random() < 0.3:
            seq.append({"op": "query", "u": rng.u(3), "v": rng.u(3)})
        elif s["op"] != "build" and rng.random() < 0.2:
            seq.append({"op": "build"})
    seq += [{"op": "analyze"}, {"op": "query", "u": 0.1, "v": 0.3}, {"op": "build"}]
    return {"vectors": vecs, "env": common.gen_env(rng), "ops": seq, "cls": rng.choice(["Lattice", "Lattice", "LatticeStructure"])}


FIXED = ("vectors",)


def current(latt):
    """Specification of the unit cell configured right now."""
    d = latt.todict()
    pos = [np.asarray(x, dtype=float).tolist() for x in d["positions"]]
    con = np.asarray(d["connections"])
    return {"vectors": np.asarray(d["vectors"]).tolist(), "atoms": [[q, a.name] for q, a in zip(pos, d["atoms"])],
            "con": con}


def judged(cur):
    """The brute-force oracle applies (clearly separated shells)."""
    n = len(cur["atoms"])
    con = cur["con"]
    if con.shape != (n, n) or n == 0 or con.max() == 0:
        return False
    if not np.array_equal(con, con.T):
        return False    # connecting was interrupted halfway through a pair
    fr = (tuple(map(tuple, cur["vectors"])), tuple((tuple(q), m) for q, m in cur["atoms"]),
          tuple((i, j, int(con[i, j])) for i in range(n) for j in range(i, n)))
    return cells.valid(fr)


def brute_neighbors(cur, alpha):
    """[(distance, set of indices)] of atom alpha in cell 0."""
    v = np.array(cur["vectors"], dtype=float)
    pos = np.array([q for q, _ in cur["atoms"]], dtype=float)
    allowed, _ = cells.shells(v, pos, cur["con"])
    dim = len(v)
    r = {1: 9, 2: 5, 3: 3}[dim]
    out = {}
    grid = np.array(list(itertools.product(range(-r, r + 1), repeat=dim)))
    for b in range(len(pos)):
        d = np.sqrt((((grid @ v) + pos[b] - pos[alpha]) ** 2).sum(1))
        for x in allowed[alpha][b]:
            for g in grid[np.abs(d - x) < 5e-6]:
                out.setdefault(x, set()).add(tuple(int(t) for t in g) + (b,))
    return sorted(out.items())


def run(p):
    lp = core.lp
    common.set_env(p.get("env"))
    sim = core.SIM
    cls = getattr(lp, p["cls"])
    latt = cls(np.array(p["vectors"], dtype=float))
    finite = p["cls"] == "Lattice"
    fresh = False       # an analysis of the present unit cell completed
    ever, touched, sig = False, False, []
    want = None         # the configured connections
    built = False
    for n, op in enumerate(p["ops"]):
        o = op["op"]
        what = "call %d (%s)" % (n, o)
        if o in ("add_atom", "add_connection", "add_connections", "analyze"):
            c0 = canon.cell_state(latt)
            pairs = None
            sim.probes["reconfigured-after-build"] += built and o != "analyze"
            if o == "add_connection":
                op, pairs = resolve(latt, op)
            exc, fired = config_call(latt, op, sim)
            c1 = canon.cell_state(latt)
            if exc is None:
                done = o == "analyze" or (op.get("analyze") and o != "add_atom") or (o == "add_atom" and op.get("neighbors"))
                fresh = bool(done)
                if ever and not done:
                    sim.probes["stale-window"] += 1
                    touched = True
                ever = ever or fresh
            else:
                touched = True
                if not fired and not isinstance(exc, (lp.utils.ConfigurationError if hasattr(lp, "utils") else Exception, ValueError, IndexError, KeyError)):
                    raise exc
                if not fired and judged(current(latt)):
                    # a plain call whose unit cell the oracle understands; only refusing is allowed
                    if core.leaked(exc) is None:
                        raise exc
                    if not refused(exc) or o == "analyze":
                        raise Violation("config-failed", "%s failed: %r" % (what, exc))
                if not fired and o != "analyze" and not op.get("analyze") and not op.get("neighbors") and c1 != c0:
                    raise Violation("rejected-changed", "%s was rejected (%r) and changed the unit cell: %s" % (what, exc, canon.diff(c0, c1)))
                if o == "analyze" and c1 != c0:
                    raise Violation("analyze-changed", "%s failed and changed the unit cell: %s" % (what, canon.diff(c0, c1)))
                fresh = False
            sig.append((o, type(exc).__name__))
            if o in ("add_atom",) and exc is None:
                # a plain configuration call does what it says
                d = latt.todict()
                if not np.allclose(np.asarray(d["positions"][-1], dtype=float), op["pos"]) or d["atoms"][-1].name != op["name"]:
                    raise Violation("config", what + ": the new atom is not the configured one")
            con = np.asarray(latt.todict()["connections"])
            if exc is not None:
                want = con.copy()       # judged below by the answers
            elif o == "add_atom":
                want = np.full(con.shape, op.get("neighbors") or 0)
            elif o == "add_connections":
                want = np.full(con.shape, op["n"])
            elif o == "add_connection":
                want = want.copy()
                for i, j in pairs:
                    want[i, j] = want[j, i] = op["n"]
            if want is not None and not np.array_equal(con, want):
                raise Violation("config", "%s: the connections are %s, configured were %s" % (what, con.tolist(), want.tolist()))
        elif o == "reject":
            c0, a0 = canon.cell_state(latt), canon.atom_indices(latt)
            exc = reject(latt, op["what"], op.get("u", 0))
            if exc is not None:
                sim.probes["rejected"] += 1
                touched = True
                fresh = fresh if canon.analysis_state(latt)[0] is not None else False
                if canon.cell_state(latt) != c0 or canon.atom_indices(latt) != a0:
                    raise Violation("rejected-changed", "rejected call (%s) changed the unit cell: %s" % (op["what"], canon.diff(c0, canon.cell_state(latt))))
            elif op["what"] in ("occupied", "dim"):
                raise Violation("accepted", what + ": invalid configuration (%s) accepted" % op["what"])
            elif canon.cell_state(latt) != c0 or canon.atom_indices(latt) != a0:
                raise core.Skip("accepted odd value")
            else:
                fresh = False   # nothing configured; whether the analysis is kept is not prescribed
            sig.append((o, op["what"]))
        elif o == "query":
            sig.append((o, query(latt, op, fresh, what, sim)))
        elif o == "build" and finite:
            sig.append((o, build(latt, fresh, what, sim)))
            built = True
        sim.ev(o, sig[-1] if sig else None)
    return {"nontrivial": touched, "sig": canon.digest(sig)}


def resolve(latt, op):
    """The atoms meant by the arguments of add_connection, and the pairs they stand for."""
    atoms = list(latt.todict()["atoms"])
    n = len(atoms)
    args, sel = {}, []
    for k in "ab":
        x = op[k]
        if isinstance(x, dict):
            i = x.get("name", x.get("atom")) % n
            same = [j for j in range(n) if atoms[j].name == atoms[i].name]
            if "atom" in x and len(same) == 1:
                args[k], s = latt.atoms[i], [i]
                core.SIM.probes["connected-by-atom"] += 1
            else:
                args[k], s = atoms[i].name, same
                core.SIM.probes["connected-by-shared-name"] += len(same) > 1
        else:
            args[k], s = x, [x]
        sel.append(s)
    return dict(op, **args), [(i, j) for i in sel[0] for j in sel[1]]


def config_call(latt, op, sim):
    thunk = ops.prepare(latt, op)
    if op.get("stop"):
        s = op["stop"]
        # analysis and connections are interrupted, adding an atom is not
        if op["op"] != "add_atom":
            tw = latt.copy()
            tw_op = {k: tw.atoms[[x is v for x in latt.atoms].index(True)] if isinstance(v, core.lp.Atom) else v for k, v in op.items()}
            st = core.Stepper(ops=s.get("opc"))
            try:
                t2 = ops.prepare(tw, tw_op)
                with st:
                    t2()
            except Exception:
                pass
            k = core.pick_step(st, s) or 1
            st = core.Stepper(k, EXCS[s["exc"]], ops=s.get("opc"))
            exc = None
            try:
                with st:
                    thunk()
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            if st.fired:
                sim.stats["fault:interrupt" if s["exc"] == "int" else "fault:alloc"] += 1
                sim.probes["analysis-interrupted" if op["op"] == "analyze" else "connecting-interrupted"] += 1
                sim.ev("interrupt", st.where)
            return exc, st.fired
    if op.get("fault"):
        sim.kd.arm(op["fault"]["kd"], None)
    exc = None
    try:
        thunk()
    except (Exception, KeyboardInterrupt) as e:
        exc = e
    finally:
        fired = bool(sim.kd.fail_at and sim.kd.calls >= sim.kd.fail_at)
        sim.kd.disarm()
    return exc, fired


def reject(latt, what, u=0):
    d = latt.dim
    pos0 = latt.todict()["positions"]
    pos0 = np.asarray(pos0[int(u * len(pos0))], dtype=float)
    try:
        if what == "occupied":
            latt.add_atom(pos0.tolist(), "Z")
        elif what == "dim":
            latt.add_atom([0.1] * (d + 1), "Z")
        elif what == "no-atom":
            latt.add_connection("no such atom", 0, 1)
        elif what == "no-index":
            latt.add_connection(0, 25, 1)
        elif what == "bad-pos":
            latt.add_atom([[0.1] * d, [0.2] * d, [0.3] * d, [0.1] * d], "Z")
    except Exception as e:
        return e
    return None


def refused(e):
    return isinstance(e, core.lp.utils.ConfigurationError)


def query(latt, op, fresh, what, sim):
    cur = current(latt)
    n = len(cur["atoms"])
    if n == 0:
        return "none"
    alpha = min(n - 1, int(op["u"] * n))
    ok = judged(cur)
    ref = brute_neighbors(cur, alpha) if ok else None
    distidx = min(int(op["v"] * (len(ref) if ref else 1)), max(0, len(ref or ()) - 1))
    try:
        nb = latt.get_neighbors(alpha=alpha, distidx=distidx)
        npos = latt.get_neighbor_positions(alpha=alpha, distidx=distidx)
        nvec = latt.get_neighbor_vectors(alpha=alpha, distidx=distidx)
        nd = latt.num_distances
        fw = latt.fourier_weights(np.zeros(latt.dim), alpha=alpha, distidx=distidx)
    except Exception as e:
        if refused(e):
            sim.probes["query-refused"] += 1
            if fresh and np.asarray(cur["con"]).max() > 0:
                raise Violation("refused", "%s: the unit cell is analyzed, but the query was refused: %r" % (what, e))
            return "refused"
        if ok and not ref:
            return "no-neighbors"   # an atom without connections
        if not ok:
            return "not-judged"
        raise
    if not ok:
        return "not-judged"
    sim.probes["query-answered"] += 1
    if not ref:
        if len(nb):
            raise Violation("stale-query", "%s: neighbors %s of an unconnected atom" % (what, np.asarray(nb).tolist()[:3]))
        return "answered"
    dist, want = ref[distidx]
    got = {tuple(int(x) for x in r) for r in np.asarray(nb)}
    if got != want or len(nb) != len(want):
        raise Violation("stale-query", "%s: get_neighbors(alpha=%d, distidx=%d): %s, configured unit cell has %s" % (what, alpha, distidx, sorted(got)[:5], sorted(want)[:5]))
    v = np.array(cur["vectors"])
    pos = np.array([q for q, _ in cur["atoms"]])
    wpos = sorted(tuple(np.round(np.array(w[:-1]) @ v + pos[w[-1]], 5) + 0.0) for w in want)
    gpos = sorted(tuple(np.round(np.asarray(x, dtype=float), 5) + 0.0) for x in npos)
    if len(wpos) != len(gpos) or not np.allclose(np.array(wpos), np.array(gpos), atol=1e-4):
        raise Violation("stale-query", "%s: get_neighbor_positions" % what)
    if len(nvec) != len(want) or not np.allclose(sorted(np.linalg.norm(np.asarray(nvec, dtype=float), axis=1)), dist, atol=1e-4):
        raise Violation("stale-query", "%s: get_neighbor_vectors" % what)
    if abs(fw - len(want)) > 1e-6:
        raise Violation("stale-query", "%s: fourier weight at k=0 is %s, %d neighbors" % (what, fw, len(want)))
    if int(nd) != int(np.asarray(cur["con"]).max()):
        raise Violation("stale-query", "%s: num_distances %s, configured connections %s" % (what, nd, np.asarray(cur["con"]).tolist()))
    return "answered"


def build(latt, fresh, what, sim):
    cur = current(latt)
    if not cur["atoms"]:
        return "none"
    v = np.array(cur["vectors"], dtype=float)
    size = {1: 9.3, 2: 3.4, 3: 2.2}[latt.dim] * float(np.mean(np.linalg.norm(v, axis=1)))
    b = {"shape": [size] * latt.dim}
    spec = {"vectors": cur["vectors"], "atoms": cur["atoms"]}
    try:
        latt.build(b["shape"])
    except Exception as e:
        if refused(e):
            sim.probes["build-refused"] += 1
            if fresh and np.asarray(cur["con"]).max() > 0:
                raise Violation("refused", "%s: the unit cell is analyzed, but the build was refused: %r" % (what, e))
            return "refused"
        if not judged(cur):
            return "not-judged"
        raise
    if not judged(cur):
        return "not-judged"
    sim.probes["build-answered"] += 1
    m = model.Model(model.Cell(cur["vectors"], [q for q, _ in cur["atoms"]], cur["con"]), model.box_keys(spec, b))
    r = model.compare(latt, m, what)
    if r is not None:
        raise Violation("stale-build:" + r[0], r[1])
    return "answered"
