"""C10: every view of a finite lattice agrees after any history."""
import numpy as np
from .. import cells, canon, core, ops, views
from ..core import Violation
from . import common, hist

RUNS = {"quick": 8500, "thorough": 150000}
RULE = ("seeded histories of 1-9 operations (build with boxes, circles, callbacks, min_neighbors; periodic boundaries; "
        "append, extend, repeat, remove, sort, manual links), with queries and faults anywhere; all views are compared "
        "with the per-level neighbor lists. Non-trivial: a view was cached before a later change of the lattice.")
MEASURE = "sequences of (operation, outcome, number of sites, links, periodic links)"
ASSUMPTIONS = ["periodic extents exceed twice the longest bond", "shape is compared with the limits only while no site was removed by hand"]
PROBES = ("cached-view-then-change", "failed-op", "unbuilt-after-failure", "views-checked", "min-image-checked")


def gen(rng, tier):
    spec = cells.gen_cell(rng, dims=(1, 2, 2, 3))
    dim = len(spec["vectors"])
    orth = cells.is_orth(spec["vectors"])
    prim = rng.random() < (0.2 if orth else 0.5)
    faulty = rng.random() < 0.45
    gs = (orth or prim)  # growing is judged for these

    def box():
        if dim == 2 and not prim and rng.random() < 0.15:
            s = float(np.mean(np.linalg.norm(spec["vectors"], axis=1)))
            return {"shape": {"kind": "circle", "pos": [0.01, 0.02], "r": round(rng.uniform(1.6, 3.2) * s, 3)}}
        b = ops.gen_box(rng, spec, primitive=prim)
        return b

    def one(first=False):
        if first or rng.random() < 0.12:
            op = {"op": "build", **box()}
            if rng.random() < 0.3:
                op["periodic"] = common.gen_axes(rng, dim)
            if rng.random() < 0.15:
                op["callback"] = {"m": rng.choice([4, 5, 7]), "r": rng.randrange(3)}
            if rng.random() < 0.1:
                op["check"] = False
            if rng.random() < 0.15:
                op["min_neighbors"] = rng.choice([1, 2])
        else:
            o = rng.choice(["set_periodic"] * 4 + ["append"] * 2 + ["append_self"] + ["extend"] + ["repeat"] * 2 + ["remove"] * 3 + ["sort"] * 2 + ["sort_neighbors"] + ["remove_periodic"] + ["link"])
            if o == "extend" and (prim or not orth):
                o = "repeat"
            op = {"op": o}
            if o == "set_periodic":
                op["axis"] = common.gen_axes(rng, dim)
            if o in ("append", "append_self", "extend", "repeat"):
                op["ax"] = rng.randrange(dim)
                op["side"] = rng.choice([1, 1, -1])
                if rng.random() < 0.3:
                    op["sort_ax"] = rng.randrange(dim)
                    op["rev"] = rng.random() < 0.3
            if o == "append":
                op["other"] = ops.gen_box(rng, spec, primitive=prim)
                if rng.random() < 0.3:
                    op["other"]["periodic"] = common.gen_axes(rng, dim)
                op["warm"] = rng.random() < 0.3
            if o == "extend":
                a = spec["vectors"][op["ax"]][op["ax"]]
                op["size"] = round(rng.randint(1, 3) * a + 0.3 * a, 6)
            if o == "repeat":
                op["num"] = rng.choice([1, 1, 2])
            if o == "remove":
                op["sites"] = [rng.u(4) for _ in range(rng.randint(1, 4))]
                op["form"] = rng.choice(ops.FORMS)
            if o == "sort":
                op["ax"] = rng.randrange(dim)
                op["rev"] = rng.random() < 0.4
                if rng.random() < 0.25:
                    op["perm"] = rng.randrange(1 << 16)
            if o == "link":
                op["u"] = [rng.u(4) for _ in range(3)]
        if faulty and rng.random() < 0.4:
            o = op["op"]
            if o == "append" and rng.random() < 0.3:
                op["bad"] = rng.choice(["unbuilt", "dim"])
            elif o == "remove" and rng.random() < 0.6:
                op["bad"] = "range"
            elif o == "set_periodic" and rng.random() < 0.3:
                op["axis"] = [0, dim + 1]
            elif o in ("build", "set_periodic", "append", "append_self", "extend", "repeat"):
                op["fault"] = common.gen_coarse_fault(rng, o)
        r = rng.random()
        if r < 0.35:
            op["ask"] = [ops.gen_query(rng, heavy=0.05, lazy=0.6) for _ in range(rng.randint(1, 2))]
        op["chk"] = rng.random() < 0.4
        return op
    n = rng.choice([1, 2, 3, 4, 5, 6, 8])
    return {"cell": spec, "grow": gs, "env": common.gen_env(rng), "u": [rng.u(3) for _ in range(12)],
            "ops": [one(True)] + [one() for _ in range(n)]}


GROW = ("append", "append_self", "extend", "repeat")


def periodic_ok(latt, axes, reach):
    """Domain: the periodic extents exceed twice the longest bond."""
    if axes is None or axes is False:
        return True
    if axes is True:
        axes = list(range(latt.dim))
    axes = [int(a) for a in np.atleast_1d(axes)]
    if any(a >= latt.dim for a in axes):
        return True
    ax = sorted(set(axes))
    try:
        t = [latt.translate(v) for _, v in latt.periodic_translation_vectors(ax, latt.primitive)]
    except Exception:
        return False
    # every combination counts, also those of translations
    import itertools
    gen = [latt.translate(latt.periodic_translation_vectors([a], latt.primitive)[0][1]) for a in ax]
    for s in itertools.product((-1, 0, 1), repeat=len(gen)):
        if any(s):
            t.append(sum(k * g for k, g in zip(s, gen)))
    return min(np.linalg.norm(x) for x in t) > 2 * reach * 1.0001 + 1e-3


def run(p):
    spec = p["cell"]
    common.set_env(p.get("env"))
    sim = core.SIM
    latt = ops.make_lattice(spec)
    reach = cells.max_reach({**spec, "atoms": [a[:2] for a in spec["atoms"]]})
    orth = cells.is_orth(spec["vectors"])
    removed = manual = False
    cached = nontrivial = False
    sig = []

    def check(what, twice=False):
        sim.probes["views-checked"] += 1
        mi = p["grow"] and not removed and not manual and len(np.atleast_1d(latt.periodic_axes)) > 0
        if mi:
            sim.probes["min-image-checked"] += 1
        return views.check(latt, what, shape_known=not removed, geometric=not manual, min_image=mi, rng_sites=p["u"])

    for n, op in enumerate(p["ops"]):
        o = op["op"]
        what = "after op %d (%s)" % (n, o)
        built = latt.num_sites > 0 and latt.shape is not None
        if o != "build" and not built:
            continue
        if o in GROW and (not p["grow"] or latt.num_sites > 90):
            continue
        if o == "extend" and not hist.moderate(latt, op, 600):
            continue
        if o == "set_periodic" and not periodic_ok(latt, op["axis"], reach):
            continue
        if o == "set_periodic" and not p["grow"] and not isinstance(op["axis"], int) and op["axis"] is not True and max(op["axis"]) < latt.dim:
            continue
        if not p["grow"] and o == "set_periodic" and op["axis"] is True and latt.dim > 1:
            continue
        if o == "remove" and latt.num_sites - len(op["sites"]) < 2:
            continue
        if o == "build" and op.get("periodic") is not None:
            tw = ops.make_lattice(spec)
            try:
                tw.build(**ops.build_kwargs(tw, {k: v for k, v in op.items() if k not in ("periodic",)}))
                okp = periodic_ok(tw, op["periodic"], reach) and (p["grow"] or (isinstance(op["periodic"], int) and op["periodic"] is not True))
            except Exception:
                okp = False
            if not okp:
                op = {k: v for k, v in op.items() if k != "periodic"}
        res = ops.run_op(latt, op, spec)
        if res.exc is not None:
            expected = op.get("fault") or op.get("bad") or (o == "set_periodic" and isinstance(op["axis"], list) and max(op["axis"]) >= latt.dim)
            if not expected:
                if o == "build" and isinstance(res.exc, (ValueError, IndexError)):
                    raise core.Skip("build refused")
                raise res.exc
            sim.probes["failed-op"] += 1
        if cached:
            sim.probes["cached-view-then-change"] += 1
            nontrivial = True
        if o == "build":
            removed = manual = False
            if not latt.num_sites:
                sim.probes["unbuilt-after-failure"] += 1
                if latt.shape is not None:
                    raise Violation("shape", what + ": no sites, but shape %s" % (latt.shape,))
                if len(np.atleast_1d(latt.periodic_axes)):
                    raise Violation("periodic-axes", what + ": no sites, but periodic axes %s" % (latt.periodic_axes,))
                cached = False
                continue
        if res.exc is None:
            if o == "remove":
                removed = True
            if o in GROW:
                removed = False
            if o == "link":
                manual = True
        r = None
        if op.get("chk"):
            r = check(what)
            cached = True
        for q in op.get("ask") or ():
            ops.ask(latt, q)
            cached = True
        sig.append((o, res.exc is None, latt.num_sites, r))
        sim.ev(o, res.exc is None, latt.num_sites)
    if latt.num_sites and latt.shape is not None:
        sig.append(check("at the end"))
        a = canon.digest(canon.finite_state(latt))
        check("asked again")
        if canon.digest(canon.finite_state(latt)) != a:
            raise Violation("query-changed", "queries changed the lattice")
        sim.ev(a)
    import zlib
    return {"nontrivial": nontrivial, "sig": str(zlib.crc32(repr(sig).encode()))}
