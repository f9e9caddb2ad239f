"""JSON operations on lattices: construction, mutation, queries, and their generators."""
import random
import re
import numpy as np
from . import core, canon, cells
from .core import UserCodeError, Violation

NQ = 4  # number of free query arguments


# ------------------------------------------------------------------------ construction
def make_lattice(spec, cls=None, configure=True):
    lp = core.lp
    cls = cls or lp.Lattice
    if spec.get("via") == "ctor":
        # everything through the constructor
        kw = {"atoms": {tuple(a[0]): lp.Atom(a[1], **a[2]) if len(a) > 2 else a[1] for a in spec["atoms"]}}
        if configure:
            c = spec["cons"]
            kw["cons"] = c if isinstance(c, int) else {(i, j): k for i, j, k in c}
        return cls(np.array(spec["vectors"], dtype=float), **kw)
    if spec.get("via") == "basis":
        latt = cls(lp.LatticeBasis(np.array(spec["vectors"], dtype=float)))
    else:
        latt = cls(np.array(spec["vectors"], dtype=float))
    for a in spec["atoms"]:
        kw = a[2] if len(a) > 2 else {}
        latt.add_atom(list(a[0]), a[1], **kw)
    if configure:
        connect(latt, spec["cons"])
    return latt


def connect(latt, cons):
    if isinstance(cons, int):
        latt.add_connections(cons)
    else:
        for i, j, k in cons:
            latt.add_connection(i, j, k)
        latt.analyze()


def gen_atom_kw(rng, spec):
    """Adds attributes to some atoms of a cell spec."""
    for a in spec["atoms"]:
        if rng.random() < 0.5:
            kw = {}
            if rng.random() < 0.5:
                kw["color"] = rng.choice(["r", "C1", None])
            if rng.random() < 0.5:
                kw["radius"] = rng.choice([0.1, 0.35])
            if rng.random() < 0.5:
                kw["weight"] = rng.choice([0.5, 2.0])
            if rng.random() < 0.4:
                kw["mass"] = rng.choice([1.5, 3.0])
            if rng.random() < 0.4:
                kw["tags"] = [rng.randrange(9), "t\u00e9"]
            if kw:
                del a[2:]
                a.append(kw)
    return spec


# ------------------------------------------------------------------------- user code
USER_ERRORS = ["UserCodeError", "UserCodeError", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "StopIteration",
               "ZeroDivisionError", "FloatingPointError", "MemoryError", "OSError", "NotImplementedError", "AssertionError", "UserWarning"]


def user_error(name):
    import builtins
    return getattr(builtins, name or "", None) or UserCodeError


class Callback:
    """Deterministic site filter; may raise or return garbage at a chosen call."""

    def __init__(self, spec, fault=None, exc=None):
        self.spec, self.fault, self.exc = spec or {"m": 1, "r": -1}, fault, exc
        self.calls = 0

    def __call__(self, indices, positions):
        self.calls += 1
        if self.fault == "raise":
            core.SIM.stats["fault:callback-raise"] += 1
            raise user_error(self.exc)("callback")
        if self.fault == "interrupt":
            core.SIM.stats["fault:callback-interrupt"] += 1
            raise core.InjectedInterrupt()
        if self.fault == "garbage":
            core.SIM.stats["fault:callback-garbage"] += 1
            return np.ones(len(indices) + 3, dtype=bool)
        if self.fault == "empty":
            core.SIM.stats["fault:callback-empty"] += 1
            return np.zeros(len(indices), dtype=bool)
        return keep_mask(np.asarray(indices), self.spec)


def keep_mask(indices, spec):
    w = np.array([7, 11, 13, 17, 19, 23][: indices.shape[1]])
    return ((indices.astype(np.int64) * w).sum(axis=1) % spec["m"]) != spec["r"]


def make_shape(latt, sh, fault=None, pos=None, primitive=False):
    """Plain sequences are boxes; dicts are shape objects (possibly failing)."""
    lp = core.lp
    if isinstance(sh, dict):
        if sh["kind"] == "circle":
            base = lp.Circle(tuple(sh["pos"]), sh["r"])
        elif sh["kind"] == "donut":
            base = lp.Donut(tuple(sh["pos"]), sh["r"], sh["r2"])
        elif sh["kind"] == "hull":
            base = lp.ConvexHull(sh["pts"])
        else:
            base = lp.Shape(sh["size"], pos=sh.get("pos"))
    else:
        if not fault:
            return sh if not isinstance(sh, list) or len(sh) != 1 else sh[0]
        base = lp.Shape(sh, pos=pos, basis=latt.vectors if primitive else None)
    if not fault:
        return base

    class Faulty(lp.AbstractShape):
        def __init__(self):
            super().__init__(base.dim, base.pos)
            self.n = {"limits": 0, "contains": 0}

        def _hit(self, what):
            self.n[what] += 1
            if fault["where"] == what and self.n[what] == fault["at"]:
                core.SIM.stats["fault:shape-" + what] += 1
                raise user_error(fault.get("exc"))("shape." + what)

        def limits(self):
            self._hit("limits")
            return base.limits()

        def contains(self, points, tol=0.0):
            self._hit("contains")
            return base.contains(points, tol)

        def plot(self, ax, *a, **k):
            return None

    return Faulty()


# --------------------------------------------------------------------------- mutators
def build_kwargs(latt, b, fault=None):
    fault = fault or {}
    kw = dict(shape=make_shape(latt, b["shape"], fault.get("shape"), b.get("pos"), b.get("primitive")))
    for k in ("primitive", "pos", "min_neighbors", "num_jobs", "periodic", "check", "dtype"):
        if b.get(k) is not None:
            kw[k] = b[k]
    if b.get("callback") or fault.get("cb"):
        kw["callback"] = Callback(b.get("callback"), fault.get("cb"), fault.get("exc"))
    return kw


class OpResult:
    __slots__ = ("exc", "val")

    def __init__(self, exc=None, val=None):
        self.exc, self.val = exc, val


def run_op(latt, op, spec=None, sink=None):
    """Executes one mutating operation; faults in op["fault"] are armed around it.

    Returns OpResult; exceptions that lattpy let through are recorded, not raised.
    """
    sim = core.SIM
    fault = op.get("fault") or {}
    pre = prepare(latt, op, spec)
    if "kd" in fault or "worker" in fault:
        sim.kd.arm(fault.get("kd"), fault.get("worker"))
    try:
        val = pre()
        r = OpResult(None, val)
    except (Violation, core.Skip, core.HarnessError):
        raise
    except BaseException as e:  # noqa  - the library's answer
        r = OpResult(e, None)
    finally:
        sim.kd.disarm()
    sim.stats["op:" + op["op"]] += 1
    if r.exc is not None:
        sim.stats["op-failed"] += 1
    n = getattr(latt, "num_sites", 0) if not isinstance(latt, type) else 0
    if n > 127:
        sim.probes["over-255-sites" if n > 255 else "over-127-sites"] += 1
    sim.ev("op", op["op"], type(r.exc).__name__ if r.exc is not None else "ok")
    return r


def prepare(latt, op, spec=None):
    """Returns a thunk executing the operation (arguments are made before)."""
    o = op["op"]
    if o == "build":
        kw = build_kwargs(latt, op, op.get("fault"))
        return lambda: latt.build(**kw)
    if o == "set_periodic":
        ax = op["axis"]
        return lambda: latt.set_periodic(ax)
    if o == "append":
        other = make_other(op, spec)
        kw = dict(ax=op.get("ax", 0), side=op.get("side", 1), sort_ax=op.get("sort_ax"), sort_reverse=op.get("rev", False))
        return lambda: latt.append(other, **kw)
    if o == "append_self":
        kw = dict(ax=op.get("ax", 0), side=op.get("side", 1), sort_ax=op.get("sort_ax"), sort_reverse=op.get("rev", False))
        return lambda: latt.append(latt, **kw)
    if o == "extend":
        kw = dict(ax=op.get("ax", 0), side=op.get("side", 1), num_jobs=op.get("num_jobs", 1), sort_ax=op.get("sort_ax"), sort_reverse=op.get("rev", False))
        return lambda: latt.extend(op["size"], **kw)
    if o == "repeat":
        kw = dict(ax=op.get("ax", 0), side=op.get("side", 1), sort_ax=op.get("sort_ax"), sort_reverse=op.get("rev", False))
        return lambda: latt.repeat(op.get("num", 1), **kw)
    if o == "remove":
        sites = site_form(latt, pick_sites(latt, op["sites"], op.get("bad")), op.get("form"))
        return lambda: latt.data.remove(sites)
    if o == "sort" and op.get("perm") is not None:
        perm = np.array(random.Random(op["perm"]).sample(range(latt.num_sites), latt.num_sites), dtype=np.int64)
        return lambda: latt.data.sort(indices=perm, reverse=op.get("rev", False))
    if o == "sort":
        return lambda: latt.data.sort(op["ax"], reverse=op.get("rev", False))
    if o == "sort_neighbors":
        return lambda: latt.data.sort_neighbors()
    if o == "link":
        return lambda: link(latt, op["u"])
    if o == "analyze":
        return lambda: latt.analyze()
    if o == "add_atom":
        kw = dict(op.get("kw") or {})
        return lambda: latt.add_atom(op["pos"], op.get("name"), neighbors=op.get("neighbors", 0), **kw)
    if o == "add_connection":
        return lambda: latt.add_connection(op["a"], op["b"], op["n"], analyze=op.get("analyze", False))
    if o == "add_connections":
        return lambda: latt.add_connections(op["n"], analyze=op.get("analyze", True))
    if o == "set_attr":
        return lambda: set_attr(latt, op)
    if o == "remove_periodic":
        return lambda: latt.set_periodic(None)
    raise core.HarnessError("unknown op " + o)


def set_attr(latt, op):
    latt.atoms[op["i"] % len(latt.atoms)][op["key"]] = op["val"]


def pick_sites(latt, us, bad=None):
    n = latt.num_sites
    s = sorted({min(int(u * n), n - 1) for u in us}) if n else []
    if n and len(s) >= n:
        s = s[: n - 1]
    if bad == "range":
        s = s + [n + 5]
    return s


FORMS = [None, None, None, "array", "neg", "dup", "rev", "int", "np"]


def site_form(latt, s, form):
    """The same sites in another form a caller may use."""
    if not s or form is None:
        return s
    if form == "array":
        return np.array(s)
    if form == "np":
        return np.array(s, dtype=np.min_scalar_type(max(s)))
    if form == "neg":
        return [x - latt.num_sites if i % 2 == 0 and x < latt.num_sites else x for i, x in enumerate(s)]
    if form == "dup":
        return s + s[:2]
    if form == "rev":
        return tuple(s[::-1])
    return s[0] if len(s) == 1 else s


def link(latt, u):
    n = latt.num_sites
    i, j = (min(int(x * n), n - 1) for x in u[:2])
    if i == j or latt.check_neighbors(i, j) is not None:
        return
    vals = latt.data.distvals
    vals = vals[np.isfinite(vals)]
    if not len(vals):
        return
    d = vals[int(u[2] * len(vals))]
    latt.data.add_neighbors(i, j, d)
    latt.data.add_neighbors(j, i, d)


def make_other(op, spec):
    lp = core.lp
    if op.get("bad") == "unbuilt":
        return make_lattice(spec)
    if op.get("bad") == "dim":
        d = len(spec["vectors"])
        o = lp.Lattice(np.eye(d + 1))
        o.add_atom(neighbors=1)
        o.build([2] * (d + 1))
        return o
    o = make_lattice(op.get("cell") or spec)
    try:
        o.build(**build_kwargs(o, op["other"]))
    except ValueError:
        if op["other"].get("primitive"):
            raise core.Skip("no sites") from None
        raise
    if op.get("warm"):
        o.dmap()
    return o


# ----------------------------------------------------------------------------- queries
def _site(l, u):
    n = l.num_sites
    if n == 0:
        raise IndexError("no sites")
    return min(int(u * n), n - 1)


def _lev(l, u):
    return int(u * 4)


def _clean(s):
    return re.sub(r", \d+\)", ")", s)


def _csr(l):
    d = l.dmap()
    x = d.zeros()
    x[d.onsite(0)] = 2.5
    for k in range(6):
        x[d.hopping(k)] = k + 1
    return d.build_csr(x)


def _bsr(l):
    d = l.dmap()
    x = d.zeros(norb=2)
    x[d.onsite()] = np.eye(2)
    x[d.hopping(0)] = 3.0
    return d.build_bsr(x)


def _tree(t):
    x = t.query(num_jobs=1, decimals=6)
    return t.k, float(t.max_dist), t.eps, t.n, x


def _masks(l, u):
    d = l.dmap()
    return d.onsite(int(u[0] * 3)), d.hopping(_lev(l, u[1])), d.hopping(), d.zeros(), d.rows, d.cols, d.size, d.nbytes


def _lp():
    import lattpy
    return lattpy


FINITE = {
    "neighbors": lambda l, u: l.neighbors(_site(l, u[0])),
    "neighbors_d": lambda l, u: l.neighbors(_site(l, u[0]), _lev(l, u[1])),
    "neighbors_u": lambda l, u: l.neighbors(_site(l, u[0]), unique=True),
    "nearest": lambda l, u: l.nearest_neighbors(_site(l, u[0])),
    "iter_neighbors": lambda l, u: [(int(d), n) for d, n in l.iter_neighbors(_site(l, u[0]))],
    "iter_neighbors_u": lambda l, u: [(int(d), n) for d, n in l.iter_neighbors(_site(l, u[0]), unique=True)],
    "check_neighbors": lambda l, u: l.check_neighbors(_site(l, u[0]), _site(l, u[1])),
    "neighbor_pairs": lambda l, u: l.neighbor_pairs(),
    "neighbor_pairs_u": lambda l, u: l.neighbor_pairs(unique=True),
    "adjacency": lambda l, u: l.adjacency_matrix(),
    "dmap": lambda l, u: l.dmap(),
    "dmap_csr": lambda l, u: _csr(l),
    "dmap_bsr": lambda l, u: _bsr(l),
    "dmap_indptr": lambda l, u: l.dmap().indices_indptr(),
    "from_pos": lambda l, u: l.superindex_from_pos(l.position(_site(l, u[0]))),
    "from_pos_none": lambda l, u: l.superindex_from_pos(l.position(_site(l, u[0])) + 0.123),
    "from_index": lambda l, u: l.superindex_from_index(l.indices[_site(l, u[0])]),
    "alpha": lambda l, u: l.alpha(_site(l, u[0])),
    "atom": lambda l, u: l.atom(_site(l, u[0])),
    "position": lambda l, u: l.position(_site(l, u[0])),
    "limits": lambda l, u: l.limits(),
    "center": lambda l, u: l.center(),
    "cog": lambda l, u: l.center_of_gravity(),
    "relpos": lambda l, u: l.relative_position(np.full(l.dim, u[0])),
    "volume": lambda l, u: l.volume(),
    "num_cells": lambda l, u: l.num_cells,
    "num_sites": lambda l, u: l.num_sites,
    "min_dist": lambda l, u: l.minimum_distances(_site(l, u[0])),
    "ptv": lambda l, u: l.periodic_translation_vectors(list(range(1 + int(u[0] * l.dim))), l.primitive),
    "kdtree": lambda l, u: l.kdtree().query(num_jobs=1, decimals=6),
    "kdtree_eps": lambda l, u: _tree(l.kdtree(eps=round(0.5 * u[0], 3))),
    "kdtree_of": lambda l, u: _tree(l.kdtree(l.positions[_site(l, u[0]):])),
    "compute_connections": lambda l, u: l.compute_connections(l),
    "index_limits": lambda l, u: l.data.get_index_limits(),
    "cell_limits": lambda l, u: l.data.get_cell_limits(),
    "find_sites": lambda l, u: l.data.find_sites([u[0] * 2], [u[0] * 2 + 2.2]),
    "find_sites_not": lambda l, u: l.data.find_sites([None] * (l.dim - 1) + [u[0] * 2], None, invert=True),
    "site_mask": lambda l, u: l.data.site_mask(maxs=np.full(l.dim, 1 + 3 * u[0])),
    "outer_sites_ax": lambda l, u: l.data.find_outer_sites(int(u[1] * l.dim), 0.5 + u[0]),
    "mask": lambda l, u: l.data.neighbor_mask(_site(l, u[0]), _lev(l, u[1]), u[2] < 0.5, u[2] < 0.25),
    "data_limits": lambda l, u: (l.data.get_limits(), l.data.get_translation_limits(), l.data.dim, l.data.nbytes),
    "data_str": lambda l, u: str(l.data),
    "dmap_masks": lambda l, u: _masks(l, u),
    "from_pos_tol": lambda l, u: l.superindex_from_pos(l.position(_site(l, u[0])) + 0.01, atol=0.001 + 0.03 * u[1]),
    "equal": lambda l, u: (l == l.copy(), hash(l) == hash(l)),
    "outer_sites": lambda l, u: l.data.find_outer_sites(0, 0.5 + u[0]),
    "sublattice": lambda l, u: l.data.get_positions(int(u[0] * 3)),
    "pneighbors": lambda l, u: l.data.get_neighbors(_site(l, u[0]), periodic=True),
    "npneighbors": lambda l, u: l.data.get_neighbors(_site(l, u[0]), periodic=False),
    "num_distances": lambda l, u: l.data.num_distances,
    "data_copy": lambda l, u: l.data.copy(),
    "data_map": lambda l, u: l.data.map(),
    "repr": lambda l, u: repr(l),
    "dumps": lambda l, u: _clean(l.dumps()),
    "todict": lambda l, u: l.todict(),
    "copy": lambda l, u: l.copy(),
    "fromdict": lambda l, u: type(l).fromdict(l.todict()),
    "positions": lambda l, u: l.positions,
    "indices": lambda l, u: l.indices,
    "shape": lambda l, u: (l.shape, l.pos, list(np.atleast_1d(l.periodic_axes))),
}
STRUCT = {
    "s_neighbors": lambda l, u: l.get_neighbors(alpha=int(u[0] * l.num_base), distidx=int(u[1] * 2)),
    "s_neighbors_n": lambda l, u: l.get_neighbors([1] * l.dim, alpha=int(u[0] * l.num_base)),
    "s_npos": lambda l, u: l.get_neighbor_positions(alpha=int(u[0] * l.num_base), distidx=int(u[1] * 2)),
    "s_nvec": lambda l, u: l.get_neighbor_vectors(alpha=int(u[0] * l.num_base), include_zero=u[2] < 0.5),
    "s_fourier": lambda l, u: l.fourier_weights(np.full(l.dim, u[2]), alpha=int(u[0] * l.num_base)),
    "s_atomdict": lambda l, u: [(a.name, p) for a, p in l.get_base_atom_dict().items()],
    "s_position": lambda l, u: l.get_position([1] * l.dim, alpha=int(u[0] * l.num_base)),
    "s_positions": lambda l, u: l.get_positions(np.array([[i] * l.dim + [int(u[0] * l.num_base)] for i in range(3)])),
    "s_estimate": lambda l, u: l.estimate_index(np.full(l.dim, 1.2 + u[0])),
    "s_alpha": lambda l, u: l.get_alpha(l.atoms[int(u[0] * l.num_base)].name),
    "s_atom": lambda l, u: l.get_atom(l.atoms[int(u[0] * l.num_base)].name),
    "s_build_indices": lambda l, u: l.build_indices([2.1] * l.dim, return_pos=True),
    "s_build_circle": lambda l, u: l.build_indices(_lp().Circle(np.full(l.dim, u[0]), 1.2 + u[1]), return_pos=True) if l.dim == 2 else None,
    "s_build_prim": lambda l, u: l.build_indices([2] * l.dim, primitive=True, pos=None, callback=lambda i, p: i[:, 0] > 0, return_pos=True),
    "s_check_rel": lambda l, u: l.check_points(np.array([[0.0] * l.dim, [u[0] * 3] * l.dim, [9.0] * l.dim]), [2.0] * l.dim, relative=True, pos=[u[1]] * l.dim),
    "s_build_nvecs": lambda l, u: l.build_translation_vectors([2.1] * l.dim),
    "s_compute": lambda l, u: l.compute_neighbors(*l.build_indices([1.9 if l.dim > 2 else 3.1] * l.dim, return_pos=True), num_jobs=1 + int(u[0] * 3)),
    "s_check": lambda l, u: l.check_points(np.array([[0.0] * l.dim, [u[0] * 3] * l.dim, [9.0] * l.dim]), [2.0] * l.dim),
    "s_base": lambda l, u: canon.analysis_state(l),
    "s_numdist": lambda l, u: l.num_distances,
    "b_transform": lambda l, u: l.transform([1] * l.dim),
    "b_itransform": lambda l, u: l.itransform([u[0]] * l.dim),
    "b_translate": lambda l, u: l.translate([1] * l.dim, np.full(l.dim, u[0])),
    "b_itranslate": lambda l, u: l.itranslate(np.full(l.dim, 3 * u[0])),
    "b_rvecs": lambda l, u: l.reciprocal_vectors() if l.dim <= 3 else None,
    "b_rlatt": lambda l, u: l.reciprocal_lattice() if l.dim <= 3 else None,
    "b_ncells": lambda l, u: l.get_neighbor_cells(),
    "b_ws": lambda l, u: l.wigner_seitz_cell() if l.dim <= 3 else None,
    "b_bz": lambda l, u: l.brillouin_zone() if l.dim <= 3 else None,
    "b_sidx": lambda l, u: l.get_cell_superindex([1] * l.dim, [4] * l.dim),
    "b_norms": lambda l, u: (l.norms, l.cell_size, l.cell_volume, l.vectors, l.vectors3d if l.dim <= 3 else None),
}
QUERIES = {**FINITE, **STRUCT}
HEAVY = {"b_ws", "b_bz", "fromdict", "s_compute", "copy", "kdtree", "kdtree_eps", "kdtree_of", "compute_connections", "equal"}
LAZY = ["dmap", "dmap_csr", "dmap_bsr", "dmap_indptr", "dmap_masks", "data_map"]


def gen_query(rng, finite=True, heavy=0.3, lazy=0.25):
    """A random query [name, u...]."""
    while True:
        if finite and rng.random() < lazy:
            name = rng.choice(LAZY)
        else:
            name = rng.choice(list(QUERIES) if finite else list(STRUCT))
        if name in HEAVY and rng.random() > heavy:
            continue
        return [name] + [rng.u(3) for _ in range(3)]


def raw_query(latt, q):
    return QUERIES[q[0]](latt, q[1:])


def ask(latt, q):
    """Canonical answer of a query; a raised exception is an answer too."""
    core.SIM.stats["queries"] += 1
    try:
        return canon.canon(raw_query(latt, q))
    except (Violation, core.Skip, core.HarnessError):
        raise
    except Exception as e:
        return ("E", type(e).__name__)


def full_views(latt, u=(0.1, 0.5, 0.9)):
    """Answers of every query (used to compare two lattices completely)."""
    out = {}
    for name in QUERIES:
        if name in ("b_ws", "b_bz", "fromdict"):
            continue
        out[name] = ask(latt, [name, *u])
    return out


# ------------------------------------------------------------------------ op generators
EDGE = 0.03


def ncells(rng, dim, big=False, least=1):
    hi = {1: 12, 2: 6, 3: 4, 4: 3}[dim]
    if big:
        hi = {1: 40, 2: 12, 3: 5, 4: 3}[dim]
    lo = max(least, {1: 3, 2: 2, 3: 2, 4: 2}[dim])
    return [rng.randint(lo, max(lo, hi)) for _ in range(dim)]


def edge_cells(rng, spec):
    """Numbers of cells giving about as many sites as small integer types can hold."""
    num, dim = len(spec["atoms"]), len(spec["vectors"])
    cells_ = rng.choice([127, 128, 129, 255, 256, 256, 257]) // num
    if dim == 1:
        return [cells_]
    pairs = [[a, cells_ // a] for a in range(2, cells_) if cells_ % a == 0 and cells_ // a > 1]
    if not pairs or not cells.is_orth(spec["vectors"]):
        return [16, max(2, 16 // num)]
    return rng.choice(pairs)


def gen_box(rng, spec, n=None, big=False, primitive=None, pos=True):
    """A box-shaped build (no faults, no boundary ambiguities)."""
    v = np.array(spec["vectors"], dtype=float)
    dim = len(v)
    orth = cells.is_orth(v)
    if primitive is None:
        primitive = (not orth) or rng.random() < 0.25
    for t in range(60):
        n_ = [x + t // 20 for x in n] if n else (edge_cells(rng, spec) if dim < 3 and rng.random() < EDGE else ncells(rng, dim, big))
        if primitive:
            b = {"shape": [x - 1 for x in n_] if rng.random() < 0.5 else list(n_), "primitive": True}
            b["shape"] = [max(1, x) for x in b["shape"]]
        elif orth:
            d = np.diag(v)
            b = {"shape": [round(float((x - 1) * a + rng.choice([0, 0, 0.3, 0.55]) * a), 6) for x, a in zip(n_, d)]}
            if pos and rng.random() < 0.3:
                far = rng.random()
                if far < 0.2:       # around the origin
                    b["pos"] = [round(float(-(x // 2) * a), 6) for x, a in zip(n_, d)]
                elif far < 0.3:
                    b["pos"] = [round(float(rng.choice([-1, 1]) * far_cells(rng) * a), 6) for a in d]
                else:
                    b["pos"] = [round(float(rng.randint(-3, 4) * a), 6) for a in d]
        else:
            s = float(np.mean(np.linalg.norm(v, axis=1)))
            b = {"shape": [round(float((x - 1) * s * rng.uniform(0.8, 1.2)), 3) for x in n_]}
        if not primitive and ambiguous(spec, b):
            continue
        return b
    raise core.HarnessError("no box")


def far_cells(rng):
    """How far from the origin: also about the limits of small integer types."""
    k = rng.random()
    if k < 0.4:
        return rng.randint(50, 400)
    if k < 0.85:
        return rng.randint(118, 132)
    return rng.randint(32758, 32772)


def ambiguous(spec, b):
    lo, hi = box_limits(spec, b)
    pos = grid(spec, lo, hi)[1]
    for i in range(len(lo)):
        for bound in (lo[i], hi[i]):
            d = np.abs(pos[:, i] - bound)
            if np.any((d > 1e-6) & (d < 5e-3)):
                return True
    # neither does it hold no site
    return not np.any(np.all((pos >= lo - 1e-6) & (pos <= hi + 1e-6), axis=1))


def box_limits(spec, b):
    p = np.array(b.get("pos") or [0.0] * len(spec["vectors"]), dtype=float)
    return p, p + np.array(b["shape"], dtype=float)


def grid(spec, lo, hi, pad=2):
    """All lattice sites of a region comfortably containing [lo, hi]."""
    import itertools
    v = np.array(spec["vectors"], dtype=float)
    at = np.array([a[0] for a in spec["atoms"]], dtype=float).reshape(len(spec["atoms"]), -1)
    corners = np.array(list(itertools.product(*zip(lo, hi))))
    c = corners @ np.linalg.inv(v)
    mn = np.floor(c.min(0)).astype(int) - pad
    mx = np.ceil(c.max(0)).astype(int) + pad
    cs = np.array(list(itertools.product(*[range(a, b + 1) for a, b in zip(mn, mx)])))
    keys, pos = [], []
    for al in range(len(at)):
        keys.append(np.c_[cs, np.full(len(cs), al)])
        pos.append(cs @ v + at[al])
    return np.concatenate(keys), np.concatenate(pos)
