"""Canonical, hashable forms of everything lattpy hands out (public API only)."""
import hashlib
import numpy as np


def arr(a):
    a = np.asarray(a)
    if a.dtype == object:
        return ("o", a.shape, tuple(canon(x) for x in a.ravel().tolist()))
    if a.dtype.kind in "iub":
        a = a.astype(np.int64)
        k = "i"
    elif a.dtype.kind == "f":
        a = a.astype(np.float64) + 0.0  # -0.0 == 0.0
        k = "f"
    elif a.dtype.kind == "c":
        a = a.astype(np.complex128) + 0.0
        k = "c"
    else:
        return ("s", a.shape, tuple(map(str, a.ravel().tolist())))
    return (k, a.shape, a.tobytes())


def scalar(x):
    if isinstance(x, (bool, np.bool_)):
        return ("i", int(x))
    if isinstance(x, (int, np.integer)):
        return ("i", int(x))
    if isinstance(x, (float, np.floating)):
        return ("f", float(x) + 0.0)
    if isinstance(x, (complex, np.complexfloating)):
        return ("c", complex(x))
    return None


def canon(x, depth=0):
    if x is None:
        return None
    s = scalar(x)
    if s is not None:
        return s
    if isinstance(x, (str, bytes)):
        return x
    if isinstance(x, np.ndarray):
        return arr(x)
    if isinstance(x, BaseException):
        return ("E", type(x).__name__)
    t = type(x).__name__
    if t == "Atom":
        return atom(x)
    if isinstance(x, dict):
        return ("d", tuple(sorted(((canon(k), canon(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(canon(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("S", tuple(sorted((canon(v) for v in x), key=repr)))
    if hasattr(x, "tocoo"):
        c = x.tocoo(copy=True)
        c.sum_duplicates()
        c.eliminate_zeros()
        return ("m", x.shape, arr(c.row), arr(c.col), arr(c.data))
    if hasattr(x, "onsite") and hasattr(x, "hopping"):
        return dmap(x)
    if hasattr(x, "neighbor_mask") and hasattr(x, "distvals"):
        return ("data", data_state(x))
    if hasattr(x, "periodic_axes"):
        return ("latt", state(x))
    if hasattr(x, "base_neighbors"):
        return ("struct", cell_state(x))
    if hasattr(x, "wigner_seitz_cell"):
        return ("basis", arr(x.vectors))
    if hasattr(x, "vertices") and hasattr(x, "points"):
        return ("vor", arr(x.points), arr(x.vertices), canon(x.edges))
    if hasattr(x, "query_ball_tree"):
        return ("kd", arr(x.data))
    if callable(x):
        return ("fn", getattr(x, "__qualname__", t))
    if depth < 3 and hasattr(x, "__dict__"):
        return ("O", t, tuple(sorted((k, canon(v, depth + 1)) for k, v in vars(x).items())))
    return ("?", t, repr(x) if "object at 0x" not in repr(x) else t)


def atom(a):
    """Everything of an atom except its running index (process-wide counter)."""
    return ("atom", a.name, canon(a.weight), tuple(sorted(((str(k), canon(a[k])) for k in a), key=repr)))


def dmap(d):
    lev = [arr(d.hopping(i)) for i in range(12)]
    ons = [arr(d.onsite(i)) for i in range(10)]
    return ("dmap", d.size, arr(d.indices), arr(d.onsite()), arr(d.hopping()), tuple(lev), tuple(ons))


def base_neighbors(l):
    bn = l.base_neighbors
    if bn is None:
        return None
    return tuple(tuple((float(k), arr(v[k])) for k in sorted(v)) for v in bn)


def cell_state(l):
    """The configured unit cell only (vectors, atoms, connections)."""
    d = l.todict()
    return (arr(d["vectors"]), tuple(atom(a) for a in d["atoms"]),
            tuple(arr(np.asarray(p, dtype=float)) for p in d["positions"]), canon(d["connections"]))


def atom_indices(l):
    return tuple(a.index for a in l.atoms)


def analysis_state(l):
    return (base_neighbors(l), canon(l.num_neighbors), canon(l.distances))


def links(data, ordered=True):
    """Per site: list of (neighbor, distance, periodic, paxes, pnvec)."""
    out = []
    vals = np.asarray(data.distvals, dtype=float)
    for i in range(data.num_sites):
        m = data.neighbor_mask(i)
        n = np.asarray(data.neighbors[i])[m]
        d = vals[np.asarray(data.distances[i])[m]]
        p = np.asarray(data.pmask[i])[m]
        ax = np.asarray(data.paxes[i])[m]
        nv = np.asarray(data.pnvecs[i])[m]
        row = [(int(n[j]), float(d[j]), bool(p[j]),
                tuple(int(x) for x in ax[j]) if p[j] else (),
                tuple(int(x) for x in nv[j]) if p[j] else ()) for j in range(len(n))]
        out.append(tuple(row if ordered else sorted(row)))
    return tuple(out)


def data_state(data, ordered=True):
    return _part(lambda d: _data_state(d, ordered), data)


def _data_state(data, ordered):
    if not len(data.indices):
        return ("unbuilt",)
    vals = np.asarray(data.distvals, dtype=float)
    return (data.num_sites, arr(data.indices), arr(np.asarray(data.positions, dtype=float)),
            links(data, ordered), arr(vals[np.isfinite(vals)]))


def finite_state(l, ordered=True):
    """The finite model: sites, links, shape, position, boundaries."""
    return (data_state(l.data, ordered), canon(l.shape), canon(l.pos),
            tuple(int(a) for a in np.atleast_1d(l.periodic_axes)) if len(np.atleast_1d(l.periodic_axes)) else (),
            bool(l.primitive) if l.shape is not None else None)


def state(l):
    return tuple(_part(f, l) for f in (cell_state, analysis_state, finite_state))


def _part(f, l):
    """A lattice too damaged to be described is described as such."""
    try:
        return f(l)
    except Exception as e:
        return ("broken", type(e).__name__, str(e)[:100])


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:20]


def diff(a, b, path="", lim=6):
    """Human readable description of the first differences of two canonical values."""
    out = []

    def rec(a, b, path):
        if len(out) >= lim:
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3 and a and a[0] in ("i", "f") and isinstance(a[2], bytes):
            if a != b:
                x = np.frombuffer(a[2], dtype=np.int64 if a[0] == "i" else np.float64)
                y = np.frombuffer(b[2], dtype=np.int64 if b[0] == "i" else np.float64) if isinstance(b[2], bytes) else b
                out.append(f"{path}: {a[1]}{x[:12].tolist()} != {b[1]}{np.asarray(y)[:12].tolist()}")
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for i, (u, v) in enumerate(zip(a, b)):
                if u != v:
                    rec(u, v, f"{path}/{i}")
            return
        if a != b:
            out.append(f"{path}: {str(a)[:150]} != {str(b)[:150]}")
    rec(a, b, path)
    return "; ".join(out) or "equal"
