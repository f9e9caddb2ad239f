"""Plain (fault-free) histories used to bring lattices into interesting states."""
import numpy as np
from .. import cells, core, ops
from . import common


def gen_build(rng, spec, prim, big=False, periodic=0.4):
    b = {"op": "build", **ops.gen_box(rng, spec, primitive=prim, big=big)}
    if len(spec["vectors"]) in (2, 3) and not prim and rng.random() < 0.12:
        b["shape"] = gen_shape(rng, spec)
        b.pop("pos", None)
    if rng.random() < 0.07:
        b["dtype"] = rng.choice(["int16", "int64", "int32"])
    if rng.random() < periodic:
        b["periodic"] = common.gen_axes(rng, len(spec["vectors"]))
    if rng.random() < 0.2:
        b["callback"] = {"m": rng.choice([4, 5, 7]), "r": rng.randrange(3)}
    if rng.random() < 0.1:
        b["min_neighbors"] = rng.choice([1, 1, 2, 3])
    if rng.random() < 0.4:
        b["num_jobs"] = rng.choice([1, 2, 3, -1])
    return b


def gen_shape(rng, spec):
    """A shape object: circle, ring, box or convex hull."""
    v = np.array(spec["vectors"], dtype=float)
    dim = len(v)
    a = float(np.mean(np.linalg.norm(v, axis=1)))
    pos = [round(rng.uniform(-1, 1) * a, 3) for _ in range(dim)]
    r = round(a * rng.uniform(1.6, 2.6 if dim == 2 else 2.0), 3)
    k = rng.choice(["circle", "circle", "donut", "hull", "box"])
    if k == "circle":
        return {"kind": "circle", "pos": pos, "r": r}
    if k == "donut":
        return {"kind": "donut", "pos": pos, "r": r, "r2": round(0.4 * r, 3)}
    if k == "hull":
        pts = [[round(x + (2.5 * a if i == j else 0.13 * a * i), 3) for j, x in enumerate(pos)] for i in range(dim + 1)]
        return {"kind": "hull", "pts": pts + [[round(x - 0.31 * a, 3) for x in pos]]}
    return {"kind": "box", "size": [r] * dim, "pos": pos}


KINDS = ["set_periodic", "set_periodic", "append", "append_self", "extend", "repeat", "remove", "sort", "sort_neighbors", "remove_periodic", "build"]


def gen_op(rng, spec, prim, kinds=None):
    dim = len(spec["vectors"])
    o = rng.choice(kinds or KINDS)
    if o == "extend" and (prim or not cells.is_orth(spec["vectors"])) and rng.random() < 0.7:
        o = "repeat"
    if o == "build":
        return gen_build(rng, spec, prim)
    op = {"op": o}
    if o == "set_periodic":
        op["axis"] = common.gen_axes(rng, dim)
    if o in ("append", "append_self", "extend", "repeat"):
        op["ax"] = rng.randrange(dim)
        op["side"] = rng.choice([1, 1, -1])
        if rng.random() < 0.3:
            op["sort_ax"] = rng.randrange(dim)
            op["rev"] = rng.random() < 0.3
    if o == "append":
        op["other"] = ops.gen_box(rng, spec, primitive=prim)
        if rng.random() < 0.3:
            op["other"]["periodic"] = common.gen_axes(rng, dim)
        op["warm"] = rng.random() < 0.3
    if o == "extend":
        a = abs(spec["vectors"][op["ax"]][op["ax"]]) or 1.0
        op["size"] = round(rng.randint(1, 3) * a + 0.3 * a, 6)
        op["num_jobs"] = rng.choice([1, 2, -1])
    if o == "repeat":
        op["num"] = rng.choice([1, 1, 2])
    if o == "remove":
        op["sites"] = [rng.u(4) for _ in range(rng.randint(1, 4))]
        op["form"] = rng.choice(ops.FORMS)
    if o == "sort":
        op["ax"] = rng.randrange(dim)
        op["rev"] = rng.random() < 0.4
        if rng.random() < 0.25:
            op["perm"] = rng.randrange(1 << 16)
    return op


def moderate(latt, op, limit):
    """Whether an extension has a moderate number of sites; a lattice of pieces far apart has a large bounding box."""
    size = np.array(latt.shape if np.ndim(latt.shape) else [1.0] * latt.dim, dtype=float)
    if op["ax"] < len(size):
        size[op["ax"]] = 1.0
    return np.prod(size) * op["size"] / max(latt.cell_volume, 1e-3) * latt.num_base <= limit


def possible(latt, op, limit=150):
    o = op["op"]
    if o == "build" or o in ("analyze", "add_atom", "add_connection", "add_connections", "set_attr"):
        return True
    if not latt.num_sites or latt.shape is None:
        return False
    if o in ("append", "append_self", "extend", "repeat") and latt.num_sites * (1 + op.get("num", 1)) > limit * 2:
        return False
    if o == "extend" and not moderate(latt, op, 4 * limit):
        return False
    if o == "remove" and latt.num_sites - len(op["sites"]) < 2:
        return False
    return True


def apply(latt, op, spec, limit=150):
    """Runs a fault-free operation if it makes sense; None if it was left out."""
    if not possible(latt, op, limit):
        return None
    return ops.run_op(latt, op, spec)


def play(latt, seq, spec):
    return [apply(latt, op, spec) for op in seq]
