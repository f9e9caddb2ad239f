"""C11: growing, trimming and re-bounding keep exactly the right bonds."""
import numpy as np
from .. import cells, core, model, ops
from ..core import Violation
from . import common, hist

RUNS = {"quick": 8000, "thorough": 200000}
RULE = ("seeded programs: a unit cell, 1-9 operations (build, append, extend, repeat, remove, sort, periodic "
        "boundaries) with queries between them and faults inside some; after every operation the whole lattice is "
        "compared with a brute-force model. Non-trivial: at least two operations after the first build took effect.")
MEASURE = "sequences of (operation, outcome, number of sites, number of links)"
ASSUMPTIONS = ["growing and periodic boundaries are judged for rectangular cells in cartesian mode and for any cell "
               "in primitive mode", "periodic extents exceed twice the longest bond"]
PROBES = ("failed-op-survived", "periodic-then-grow", "remove-then-periodic", "grow-then-periodic", "over-127-sites", "over-255-sites", "new-distance-on-append", "trimmed-build")


def gen(rng, tier):
    prim = rng.random() < 0.3
    big = rng.random() < 0.12
    spec = cells.gen_cell(rng, dims=(1, 2) if big else (1, 2, 2, 3), orth=None if prim else True)
    dim = len(spec["vectors"])
    faulty = rng.random() < 0.5

    def box(thin=False):
        n = None
        if big:
            n = [rng.randint(30, min(rng.choice([150, 300]), 900 // len(spec["atoms"])))] if dim == 1 else [rng.randint(4, 14), rng.randint(4, 12)]
        elif thin:
            n = [rng.randint(1, {1: 8, 2: 4, 3: 3, 4: 2}[dim]) for _ in range(dim)]
        b = ops.gen_box(rng, spec, n=n, primitive=prim, pos=not prim)
        if rng.random() < 0.4:
            b["num_jobs"] = rng.choice([1, 2, 5, -1])
        return b

    def one(first=False):
        if first or rng.random() < 0.1:
            op = {"op": "build", **box()}
            if rng.random() < 0.3:
                op["periodic"] = common.gen_axes(rng, dim)
            if not prim and rng.random() < 0.25:
                op["callback"] = {"m": rng.choice([3, 4, 5, 7]), "r": rng.randrange(3)}
            if not prim and rng.random() < 0.2:
                op["min_neighbors"] = rng.choice([1, 2, 2, 3, 4])
        else:
            o = rng.choice(["set_periodic"] * 4 + ["append"] * 3 + ["append_self"] + ["extend"] * 2 + ["repeat"] * 2 + ["remove"] * 3 + ["sort"] * 2 + ["sort_neighbors"] + ["remove_periodic"])
            if prim and o == "extend":
                o = "append"
            op = {"op": o}
            if o == "set_periodic":
                op["axis"] = common.gen_axes(rng, dim)
            if o in ("append", "append_self", "extend", "repeat"):
                op["ax"] = rng.randrange(dim)
                op["side"] = rng.choice([1, 1, -1])
                if rng.random() < 0.3:
                    op["sort_ax"] = rng.randrange(dim)
                    op["rev"] = rng.random() < 0.3
            if o == "append":
                op["other"] = box(thin=rng.random() < 0.3)
                if rng.random() < 0.3:
                    op["other"]["periodic"] = common.gen_axes(rng, dim)
                op["warm"] = rng.random() < 0.3
            if o == "extend":
                a = spec["vectors"][op["ax"]][op["ax"]]
                op["size"] = round(rng.randint(1, 3) * a + rng.choice([0, 0.3, 0.55]) * a, 6)
            if o == "repeat":
                op["num"] = rng.choice([1, 1, 2, 3])
            if o == "remove":
                op["sites"] = [rng.u(4) for _ in range(rng.randint(1, 5))]
                op["form"] = rng.choice(ops.FORMS)
            if o == "sort":
                op["ax"] = rng.randrange(dim)
                op["rev"] = rng.random() < 0.4
                if rng.random() < 0.25:
                    op["perm"] = rng.randrange(1 << 16)
        if faulty and rng.random() < 0.4:
            o = op["op"]
            if o == "append" and rng.random() < 0.3:
                op["bad"] = rng.choice(["unbuilt", "dim"])
            elif o == "remove" and rng.random() < 0.6:
                op["bad"] = "range"
            elif o == "set_periodic" and rng.random() < 0.3:
                op["axis"] = [0, dim + 1]
            elif o in ("build", "set_periodic", "append", "append_self", "extend", "repeat"):
                op["fault"] = common.gen_coarse_fault(rng, o)
        if rng.random() < 0.3:
            op["ask"] = [ops.gen_query(rng, heavy=0.05) for _ in range(rng.randint(1, 2))]
        return op
    n = rng.choice([2, 3, 4, 5, 6, 8] if tier == "quick" else [3, 4, 6, 8, 12])
    if big:
        n = min(n, 5)
    return {"cell": spec, "env": common.gen_env(rng), "ops": [one(True)] + [one() for _ in range(n)]}


def boxed(cellm, spec, op):
    """Model of a cartesian box build; sites with too few neighbors are dropped once."""
    m = model.Model(cellm, model.box_keys(spec, op))
    if op.get("min_neighbors"):
        deg = dict.fromkeys(m.keys, 0)
        for a, b in m.links():
            deg[a] += a != b
        few = [k for k in m.keys if deg[k] < op["min_neighbors"]]
        core.SIM.probes["trimmed-build"] += bool(few)
        m = m.remove(few)
    return m


def expected(m, op, spec, latt, cellm):
    """Possible models after the operation: (model if it succeeds, models if it fails)."""
    o = op["op"]
    if o in ("set_periodic", "remove_periodic"):
        new = m.set_periodic(op.get("axis") if o == "set_periodic" else None)
        return new, [m, m.set_periodic(None)]
    if o in ("append", "append_self", "extend", "repeat"):
        ax, side = op.get("ax", 0), op.get("side", 1)
        if o == "append_self":
            k2 = m.keys
        elif o == "repeat":
            k2 = m.keys
        elif o == "extend":
            b = {"shape": [float(x) for x in latt.shape], "pos": [float(x) for x in latt.pos]}
            b["shape"][ax] = op["size"]
            k2 = model.box_keys(spec, b)
        else:
            k2 = op["_keys"]
        k2 = [tuple(k) for k in k2]
        if not k2:
            return None, []
        alts = [m, m.set_periodic(None)]
        new = m
        for _ in range(op.get("num", 1) if o == "repeat" else 1):
            new = new.append(k2, ax, side)
            alts.append(new)
        return new, alts
    if o in ("sort", "sort_neighbors"):
        return m, [m]
    raise core.HarnessError(o)


def run(p):
    spec = p["cell"]
    common.set_env(p.get("env"))
    cellm = model.Cell.of_spec(spec)
    latt = ops.make_lattice(spec)
    sim = core.SIM
    m, sig, effective = None, [], 0
    grown = removed = False
    for n, op in enumerate(p["ops"]):
        o = op["op"]
        what = "after op %d (%s)" % (n, o)
        if o != "build" and m is None:
            continue
        if o == "build":
            prim = bool(op.get("primitive"))
            if not prim and len(boxed(cellm, spec, op).keys) < 2:
                raise core.Skip("empty box")
            res = ops.run_op(latt, op, spec)
            if res.exc is not None:
                if not op.get("fault"):
                    if prim and isinstance(res.exc, ValueError):
                        raise core.Skip("no sites")
                    raise res.exc
                if not latt.num_sites:
                    m = None
                    continue
            keys = common.keys_of(latt)
            if prim:
                m2 = model.Model(cellm, sorted(set(keys)))
                if not keys:
                    raise Violation("sites", "primitive build is empty")
            else:
                m2 = boxed(cellm, spec, op)
                if not m2.keys:
                    raise core.Skip("empty box")
            cands = []
            if op.get("periodic") is not None:
                mp = m2.set_periodic(op["periodic"])
                if not common.wide_enough(cellm, mp.trans):
                    raise core.Skip("narrow")
                cands.append(mp)
            if res.exc is not None or not cands:
                cands.append(m2)
            if res.exc is not None and m is not None:
                cands.append(m)
            m = settle(latt, cands, what, res)
            grown = removed = False
        elif o == "remove":
            if op.get("bad") is None and latt.num_sites - len(op["sites"]) < 3:
                continue
            keys = common.keys_of(latt)
            sites = ops.pick_sites(latt, op["sites"])
            res = ops.run_op(latt, op, spec)
            if res.exc is not None:
                if not op.get("bad"):
                    raise res.exc
                m = settle(latt, [m], what, res)
            else:
                if op.get("bad"):
                    raise Violation("accepted", "removing a site that does not exist was accepted")
                m = settle(latt, [m.remove([keys[i] for i in sites])], what, res)
                removed = True
        else:
            if o == "append" and not op.get("bad"):
                other = ops.make_other(op, spec)
                op = dict(op, _keys=common.keys_of(other))
                if not op["_keys"]:
                    continue
            if o == "append" and op.get("bad"):
                new, alts = None, [m, m.set_periodic(None)]
            elif o == "set_periodic" and isinstance(op["axis"], list) and max(op["axis"]) >= len(spec["vectors"]):
                new, alts = None, [m, m.set_periodic(None)]
            else:
                if o == "extend" and not hist.moderate(latt, op, 2000):
                    continue
                new, alts = expected(m, op, spec, latt, cellm)
                if new is None:
                    continue
                if not common.wide_enough(cellm, new.trans):
                    sim.stats["narrow"] += 1
                    continue
                if len(new.keys) > 700:
                    continue
            if new is not None and new.trans and grown:
                sim.probes["grow-then-periodic"] += 1
            if new is not None and new.trans and removed:
                sim.probes["remove-then-periodic"] += 1
            if m.trans and o in ("append", "append_self", "extend", "repeat"):
                sim.probes["periodic-then-grow"] += 1
            nd = int(np.isfinite(latt.data.distvals).sum())
            res = ops.run_op(latt, op, spec)
            if res.exc is not None:
                if not (op.get("fault") or op.get("bad") or new is None):
                    raise res.exc
                sim.probes["failed-op-survived"] += 1
                m = settle(latt, alts + ([new] if new is not None else []), what, res)
            elif new is None:
                raise Violation("accepted", what + ": an impossible argument was accepted")
            else:
                m = settle(latt, [new], what, res)
                if o in ("append", "append_self", "extend", "repeat"):
                    grown = True
                    if int(np.isfinite(latt.data.distvals).sum()) > nd:
                        sim.probes["new-distance-on-append"] += 1
            ax = op.get("sort_ax") if o != "sort" else None if op.get("perm") is not None else op.get("ax")
            if res.exc is None and ax is not None:
                x = np.asarray(latt.indices)[:, ax]
                dx = np.diff(x.astype(np.int64))
                if np.any(dx > 0) if op.get("rev") else np.any(dx < 0):
                    raise Violation("unsorted", what + ": sites are not sorted along axis %d" % ax)
        if res.exc is None:
            effective += 1
        for q in op.get("ask") or ():
            ops.ask(latt, q)
        ns = latt.num_sites
        if ns > 127:
            sim.probes["over-127-sites"] += 1
        if ns > 255:
            sim.probes["over-255-sites"] += 1
        sig.append((o, res.exc is None, ns, len(m.axes)))
        sim.ev(o, res.exc is None, ns)
    # the model must still hold after all the queries
    if m is not None:
        settle(latt, [m], "at the end", None)
    return {"nontrivial": effective >= 3, "sig": str(hash_sig(sig))}


def hash_sig(x):
    import zlib
    return zlib.crc32(repr(x).encode())


def settle(latt, cands, what, res):
    """The candidate model the lattice equals, or a violation."""
    first = None
    for c in cands:
        r = model.compare(latt, c, what)
        if r is None:
            return c
        first = first or r
    kind = first[0]
    if res is not None and res.exc is not None:
        kind = "failed-op:" + kind
        first = (kind, first[1] + " (after a failed operation: %s; none of %d acceptable states)" % (type(res.exc).__name__, len(cands)))
    raise Violation(kind, first[1])
