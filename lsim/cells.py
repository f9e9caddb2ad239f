"""Pool of unit cells.  A cell spec is JSON: vectors, atoms, connections."""
import functools
import itertools
import math
import numpy as np

S3 = math.sqrt(3)
POOL = {
    # name: (vectors, [(pos, name)], orthogonal)
    "chain": ([[1.0]], [([0.0], "A")]),
    "chain2": ([[1.0]], [([0.0], "A"), ([0.4], "B")]),
    "chain3": ([[2.0]], [([0.0], "A"), ([0.7], "B"), ([1.5], "A")]),
    "chain9": ([[9.0]], [([x + 0.1 * (x % 3)], n) for x, n in zip(range(9), "ABCDABCDE")]),
    "square": ([[1.0, 0], [0, 1.0]], [([0.0, 0.0], "A")]),
    "rect": ([[1.0, 0], [0, 1.3]], [([0.0, 0.0], "A")]),
    "rect2": ([[1.0, 0], [0, 1.25]], [([0.0, 0.0], "A"), ([0.5, 0.5], "B")]),
    # equal distances between different pairs of atoms
    "stripe": ([[1.0, 0], [0, 2.0]], [([0.0, 0.0], "A"), ([0.0, 1.0], "B")]),
    "tri2": ([[1.0, 0], [0, S3]], [([0.0, 0.0], "A"), ([0.5, S3 / 2], "B")]),
    "slab": ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 2.0]], [([0.0, 0.0, 0.0], "A"), ([0.0, 0.0, 1.0], "B")]),
    "lieb": ([[2.0, 0], [0, 2.0]], [([0.0, 0.0], "A"), ([1.0, 0.0], "B"), ([0.0, 1.0], "B")]),
    "square4": ([[2.0, 0], [0, 2.0]], [([0.0, 0.0], "A"), ([0.9, 0.1], "B"), ([0.2, 1.0], "C"), ([1.1, 1.2], "A")]),
    "oblique": ([[1.0, 0], [0.3, 1.1]], [([0.0, 0.0], "A")]),
    "tri": ([[1.0, 0], [0.5, S3 / 2]], [([0.0, 0.0], "A")]),
    "hex": ([[1.5, S3 / 2], [1.5, -S3 / 2]], [([0.0, 0.0], "A")]),
    "graphene": ([[1.5, S3 / 2], [1.5, -S3 / 2]], [([0.0, 0.0], "C1"), ([1.0, 0.0], "C2")]),
    "kagome": ([[2.0, 0], [1.0, S3]], [([0.0, 0.0], "A"), ([1.0, 0.0], "B"), ([0.5, S3 / 2], "C")]),
    "sc": ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], [([0.0, 0.0, 0.0], "A")]),
    "ortho2": ([[1.0, 0, 0], [0, 1.2, 0], [0, 0, 1.5]], [([0.0, 0.0, 0.0], "A"), ([0.5, 0.6, 0.5], "B")]),
    "fcc": ([[0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]], [([0.0, 0.0, 0.0], "A")]),
    "bcc": ([[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]], [([0.0, 0.0, 0.0], "A")]),
    "hyper4": (np.eye(4).tolist(), [([0.0] * 4, "A")]),
}


def is_orth(vectors):
    v = np.asarray(vectors, dtype=float)
    return bool(np.all(np.abs(v - np.diag(np.diag(v))) < 1e-12)) and bool(np.all(np.diag(v) > 0))


def gen_cell(rng, dims=(1, 2, 3), names=None, orth=None, max_cons=3, max_atoms=9):
    """Random unit cell of the pool: scaled, shuffled atoms, random connections."""
    for _ in range(200):
        cand = [n for n in (names or POOL) if len(POOL[n][0]) in dims and len(POOL[n][1]) <= max_atoms]
        if orth is not None:
            cand = [n for n in cand if is_orth(POOL[n][0]) == orth]
        name = rng.choice(cand)
        if len(POOL[name][1]) > 4 and rng.random() < 0.6:
            continue
        vecs, atoms = POOL[name]
        s = rng.choice([1.0, 1.0, 1.0, 2.0, 0.5, 1.5])
        vecs = [[s * x for x in v] for v in vecs]
        atoms = [[[s * x for x in p], n] for p, n in atoms]
        if len(atoms) > 1 and rng.random() < 0.4:
            rng.shuffle(atoms)
        if rng.random() < 0.2:
            # move the whole motif away from the lattice points
            off = [s * rng.choice([-0.25, 0.0, 0.125, 0.25, 0.3]) for _ in vecs]
            atoms = [[[round(x + o, 9) for x, o in zip(p, off)], n] for p, n in atoms]
        n = len(atoms)
        dim = len(vecs)
        if rng.random() < 0.6 or n == 1:
            top = 3 if dim < 3 else 2
            if dim >= 4:
                top = 1
            cons = rng.choice([1, 1, 2, 2, 3][: 2 + min(top, max_cons)]) if True else 1
            cons = min(cons, max_cons, top)
        else:
            cons = []
            for i in range(n):
                for j in range(i, n):
                    k = rng.choice([0, 1, 1, 2]) if dim < 3 else rng.choice([0, 1, 1])
                    if k:
                        cons.append([i, j, min(k, max_cons)])
            if not cons:
                cons = [[0, n - 1, 1]]
        spec = {"name": name, "vectors": vecs, "atoms": atoms, "cons": cons}
        if rng.random() < 0.25:
            spec["via"] = rng.choice(["ctor", "ctor", "basis"])
        if valid(_freeze(spec)):
            return spec
    raise RuntimeError("no valid cell found")


def _freeze(spec):
    c = spec["cons"]
    return (tuple(map(tuple, spec["vectors"])), tuple((tuple(p), n) for p, n in spec["atoms"]),
            c if isinstance(c, int) else tuple(map(tuple, c)))


def con_matrix(spec):
    n = len(spec["atoms"])
    m = np.zeros((n, n), dtype=int)
    c = spec["cons"]
    if isinstance(c, int):
        m.fill(c)
    else:
        for i, j, k in c:
            m[i, j] = m[j, i] = k
    return m


def shells(vectors, positions, con):
    """Brute force: allowed (rounded) distances per atom pair and all shell distances."""
    v = np.asarray(vectors, dtype=float)
    pos = np.asarray(positions, dtype=float).reshape(len(positions), -1)
    dim = len(v)
    r = {1: 14, 2: 7, 3: 4, 4: 3}[dim]
    cells = np.array(list(itertools.product(range(-r, r + 1), repeat=dim)))
    shifts = cells @ v
    n = len(pos)
    out = [[None] * n for _ in range(n)]
    full = [[None] * n for _ in range(n)]
    for a in range(n):
        for b in range(n):
            d = np.sqrt(((shifts + pos[b] - pos[a]) ** 2).sum(1))
            d = np.sort(d[d > 1e-9])
            # cluster
            lev, cnt, raw = [], [], []
            for x in d:
                if lev and abs(x - lev[-1]) < 1e-7:
                    cnt[-1] += 1
                else:
                    lev.append(x)
                    cnt.append(1)
                if len(lev) > 12:
                    break
            lev, cnt = lev[:12], cnt[:12]
            full[a][b] = list(zip(lev, cnt))
            out[a][b] = [round(x, 6) for x in lev[: con[a][b]]]
    return out, full


@functools.lru_cache(maxsize=None)
def valid(fr):
    """Cells whose distance shells are far from every rounding boundary, and inside the
    documented reach of the neighbor search."""
    vectors, atoms, cons = fr
    spec = {"vectors": vectors, "atoms": atoms, "cons": cons if isinstance(cons, int) else [list(c) for c in cons]}
    con = con_matrix(spec)
    if con.max() == 0:
        return False
    allowed, full = shells(vectors, [p for p, _ in atoms], con)
    n = len(atoms)
    mx = con.max()
    # number of sites inside the search radius must not exceed the search width
    k = sum(c for a in range(n) for b in range(n) for _, c in full[a][b][:mx])
    far = max(x for a in range(n) for b in range(n) for x in (allowed[a][b] or [0]))
    rad = far + 0.1 * min(full[a][b][i][0] for a in range(n) for b in range(n) for i in range(mx)) + 1e-6
    alld = sorted({round(x, 6) for a in range(n) for b in range(n) for x, _ in full[a][b] if x < 1.2 * rad})
    if any(y - x < 1e-3 for x, y in zip(alld, alld[1:])):
        return False
    if any(abs((x * 1e6) % 1.0 - 0.5) < 0.02 for a in range(n) for b in range(n) for x, _ in full[a][b] if x < 1.2 * rad):
        return False
    for a in range(n):
        c = sum(cc for b in range(n) for x, cc in full[a][b] if x <= rad)
        if c > k or c > 100:
            return False
        if any(full[a][b][-1][0] <= rad for b in range(n)):
            return False
    return True


def max_reach(spec):
    """Largest configured bond length."""
    allowed, _ = shells_cached(_freeze(spec))
    return max(x for r in allowed for c in r for x in (c or [0]))


@functools.lru_cache(maxsize=None)
def shells_cached(fr):
    vectors, atoms, cons = fr
    spec = {"vectors": vectors, "atoms": atoms, "cons": cons if isinstance(cons, int) else [list(c) for c in cons]}
    return shells(vectors, [p for p, _ in atoms], con_matrix(spec))
