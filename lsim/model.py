"""Brute-force reference model of finite lattices (sites and links)."""
import itertools
import numpy as np
from . import cells, ops
from .core import Violation

TOL = 1e-6


class Cell:
    """Unit cell of the model."""

    def __init__(self, vectors, positions, con):
        self.v = np.asarray(vectors, dtype=float)
        self.at = np.asarray(positions, dtype=float).reshape(len(positions), -1)
        self.con = np.asarray(con)
        self.allowed, _ = cells.shells(self.v, self.at, self.con)

    @classmethod
    def of_spec(cls, spec):
        return cls(spec["vectors"], [a[0] for a in spec["atoms"]], cells.con_matrix(spec))

    @classmethod
    def of_lattice(cls, latt):
        d = latt.todict()
        return cls(np.asarray(d["vectors"]), [np.asarray(p, dtype=float) for p in d["positions"]], np.asarray(d["connections"]))

    def pos(self, keys):
        k = np.asarray(keys)
        return k[:, :-1] @ self.v + self.at[k[:, -1].astype(int)]


class Model:
    """Set of sites (n_1..n_D, alpha) and active periodic translations."""

    def __init__(self, cell, keys, trans=(), axes=()):
        self.cell = cell
        self.keys = sorted(tuple(int(x) for x in k) for k in keys)
        self.trans = tuple(tuple(int(x) for x in t) for t in trans)
        self.axes = tuple(axes)

    def copy(self, **kw):
        m = Model(self.cell, self.keys, self.trans, self.axes)
        for k, v in kw.items():
            setattr(m, k, v)
        return m

    def limits(self):
        k = np.array(self.keys)[:, :-1]
        return k.min(0), k.max(0)

    # -- operations
    def set_periodic(self, axes):
        dim = len(self.cell.v)
        if axes is True:
            axes = list(range(dim))
        if axes is None or axes is False:
            return self.copy(trans=(), axes=())
        axes = [axes] if isinstance(axes, int) else list(axes)
        mn, mx = self.limits()
        ext = mx - mn + 1
        t = []
        ax = sorted(set(a % dim for a in axes))
        for s in itertools.product((-1, 0, 1), repeat=len(ax)):
            if any(s):
                vec = [0] * dim
                for a, x in zip(ax, s):
                    vec[a] = int(x * ext[a])
                t.append(tuple(vec))
        return self.copy(trans=tuple(t), axes=tuple(axes))

    def append(self, keys, ax, side):
        k2 = np.array(sorted(keys))
        mn, mx = self.limits()
        sh = np.zeros(k2.shape[1], dtype=int)
        if side > 0:
            sh[ax] = mx[ax] + 1 - k2[:, ax].min()
        else:
            sh[ax] = mn[ax] - 1 - k2[:, ax].max()
        return Model(self.cell, list(self.keys) + [tuple(x) for x in (k2 + sh)])

    def remove(self, keys):
        gone = set(map(tuple, keys))
        return self.copy(keys=[k for k in self.keys if k not in gone])

    # -- links
    def links(self):
        """{(key, key): {distance: set of 'direct'/translation}}"""
        out = {}
        if not self.keys:
            return out
        k = np.array(self.keys)
        p = self.cell.pos(k)
        al = k[:, -1].astype(int)
        n = len(k)
        for t in ((0,) * len(self.cell.v),) + self.trans:
            sh = np.array(t) @ self.cell.v
            d = np.sqrt(((p[None, :, :] + sh - p[:, None, :]) ** 2).sum(-1))  # i -> image of j
            direct = not any(t)
            na = len(self.cell.at)
            for a in range(na):
                for b in range(na):
                    for x in self.cell.allowed[a][b]:
                        m = (np.abs(d - x) < 5 * TOL) & (al[:, None] == a) & (al[None, :] == b)
                        for i, j in zip(*np.where(m)):
                            out.setdefault((self.keys[i], self.keys[j]), {}).setdefault(round(x, 6), set()).add("direct" if direct else tuple(-q for q in t))
        return out


def observe(latt):
    """Sites and links of a lattice, by lattice index (public data)."""
    from . import canon
    d = latt.data
    ind = np.asarray(d.indices)
    if not len(ind):
        return [], {}, np.zeros((0, 1)), []
    keys = [tuple(int(x) for x in r) for r in ind]
    rows = canon.links(d)
    return keys, rows, np.asarray(d.positions, dtype=float), ind


def compare(latt, model, what=""):
    """None if the lattice is the model, else (kind, message)."""
    keys, rows, pos, _ = observe(latt)
    if not keys:
        return ("sites", "lattice is unbuilt") if model.keys else None
    if len(set(keys)) != len(keys):
        dup = [k for k in keys if keys.count(k) > 1][:3]
        return "duplicate-site", f"{what}: sites occur twice: {dup}"
    if sorted(keys) != sorted(model.keys):
        miss = sorted(set(model.keys) - set(keys))[:4]
        extra = sorted(set(keys) - set(model.keys))[:4]
        return "sites", f"{what}: {len(keys)} sites, expected {len(model.keys)}; missing {miss} extra {extra}"
    ref = model.cell.pos(keys)
    scale = 1 + np.abs(ref).max()
    if pos.shape != ref.shape or np.abs(pos - ref).max() > 1e-8 * scale:
        return "positions", f"{what}: positions do not belong to the lattice indices"
    return compare_links(latt, model, keys, rows, what)


def compare_links(latt, model, keys, rows, what=""):
    exp = model.links()
    v = model.cell.v
    pos = {k: p for k, p in zip(keys, model.cell.pos(keys))}
    seen = {}
    for i, row in enumerate(rows):
        for (j, d, per, pax, pnv) in row:
            if not 0 <= j < len(keys):
                return "link-range", f"{what}: site {i} linked to site {j} of {len(keys)}"
            pr = (keys[i], keys[j])
            if pr in seen:
                return "link-twice", f"{what}: {pr} linked twice"
            seen[pr] = (d, per, pax, pnv)
    for pr, (d, per, pax, pnv) in seen.items():
        if pr[0] == pr[1]:
            continue
        e = exp.get(pr)
        if e is None:
            return "extra-link", f"{what}: {pr} linked (d={d}, periodic={per}), should not be"
        if not any(abs(d - x) < 5 * TOL for x in e):
            return "link-distance", f"{what}: {pr} carries distance {d}, expected {sorted(e)}"
        if len(e) == 1 and all(len(s) == 1 for s in e.values()):
            want = "direct" not in next(iter(e.values()))
            if bool(per) != want:
                return "link-flag", f"{what}: {pr} periodic={per}, expected {want}"
            if per:
                img = pos[pr[1]] - np.array(pnv) @ v
                if abs(np.linalg.norm(img - pos[pr[0]]) - d) > 1e-5:
                    return "link-vector", f"{what}: {pr} periodic vector {pnv} does not give distance {d}"
        back = seen.get((pr[1], pr[0]))
        if back is None:
            return "asymmetric", f"{what}: {pr} linked, reverse not"
        if abs(back[0] - d) > 1e-9 or back[1] != per:
            return "asymmetric", f"{what}: {pr} and its reverse differ"
    for pr in exp:
        if pr[0] != pr[1] and pr not in seen:
            return "missing-link", f"{what}: {pr} not linked, distance {sorted(exp[pr])} expected"
    return None


def box_keys(spec, b):
    """Sites of a cartesian box build (brute force)."""
    lo, hi = ops.box_limits(spec, b)
    keys, pos = ops.grid(spec, lo, hi)
    m = np.all((pos >= lo - 1e-4) & (pos <= hi + 1e-4), axis=1)
    keys = keys[m]
    if b.get("callback"):
        keys = keys[ops.keep_mask(keys, b["callback"])]
    return [tuple(int(x) for x in k) for k in keys]
