"""Cross-check of every public view of one finite lattice."""
import numpy as np
from .core import Violation


def bad(kind, msg):
    raise Violation(kind, msg)


def check(latt, what="", shape_known=True, geometric=True, min_image=False, rng_sites=None):
    """Raises Violation if two views of the (built) lattice disagree."""
    n = latt.num_sites
    data = latt.data
    ind = np.asarray(latt.indices)
    pos = np.asarray(latt.positions, dtype=float)
    if not (len(ind) == len(pos) == n == data.num_sites):
        bad("sizes", f"{what}: {len(ind)} indices, {len(pos)} positions, num_sites {n}")
    dv = np.asarray(data.distvals, dtype=float)
    levels = list(range(len(dv) + 1))  # also levels that do not exist
    # the reference view: neighbors per site and distance level
    ref = {}
    for i in range(n):
        for d in levels:
            for j in np.asarray(latt.neighbors(i, d)).tolist():
                j = int(j)
                if not 0 <= j < n:
                    bad("range", f"{what}: neighbor {j} of site {i}, lattice has {n} sites")
                if (i, j) in ref:
                    bad("double", f"{what}: {j} is listed twice as neighbor of {i}")
                ref[i, j] = d
    for (i, j), d in ref.items():
        if ref.get((j, i)) != d:
            bad("symmetry", f"{what}: {j} is neighbor {d} of {i}, but not the reverse")
    lists = [[] for _ in range(n)]
    for (i, j), d in ref.items():
        lists[i].append((j, d))
    used = sorted({d for d in ref.values()})
    sub = range(n) if rng_sites is None else sorted({min(n - 1, int(u * n)) for u in rng_sites})
    for i in sub:
        mine = sorted(j for j, _ in lists[i])
        if sorted(int(x) for x in latt.neighbors(i)) != mine:
            bad("neighbors", f"{what}: neighbors({i}) differs from its distance levels")
        if sorted(int(x) for x in latt.neighbors(i, unique=True)) != [j for j in mine if j > i]:
            bad("neighbors-unique", f"{what}: neighbors({i}, unique=True)")
        if sorted(int(x) for x in latt.nearest_neighbors(i)) != sorted(j for j, d in lists[i] if d == 0):
            bad("nearest", f"{what}: nearest_neighbors({i})")
        it = sorted((int(j), int(d)) for d, ns in latt.iter_neighbors(i) for j in ns)
        if it != sorted(lists[i]):
            bad("iter", f"{what}: iter_neighbors({i}) gives {it[:6]}, expected {sorted(lists[i])[:6]}")
        per = sorted(int(x) for x in data.get_neighbors(i, periodic=True))
        nop = sorted(int(x) for x in data.get_neighbors(i, periodic=False))
        if sorted(per + nop) != mine:
            bad("periodic-split", f"{what}: periodic and other neighbors of {i} do not add up")
        for j, d in lists[i]:
            c = latt.check_neighbors(i, j)
            if c is None or int(c) != d:
                bad("check", f"{what}: check_neighbors({i}, {j}) = {c}, expected {d}")
        others = [j for j in range(n) if j not in mine]
        for j in (others[:2] + others[-1:]):
            if latt.check_neighbors(i, j) is not None:
                bad("check", f"{what}: check_neighbors({i}, {j}) of two sites without link")
        if latt.superindex_from_pos(pos[i]) != i:
            bad("lookup-pos", f"{what}: superindex_from_pos of site {i}")
        if latt.superindex_from_index(ind[i]) != i:
            bad("lookup-index", f"{what}: superindex_from_index of site {i}")
        if int(latt.alpha(i)) != int(ind[i, -1]) or latt.atom(i) is not latt.atoms[int(ind[i, -1])]:
            bad("atom", f"{what}: atom of site {i}")
        if not np.array_equal(np.asarray(latt.position(i)), pos[i]):
            bad("position", f"{what}: position of site {i}")
        if not np.allclose(latt.get_position(ind[i, :-1], alpha=int(ind[i, -1])), pos[i], atol=1e-8, rtol=1e-9):
            bad("position", f"{what}: position of site {i} does not belong to its lattice index")
    # pairs
    pairs, dist = latt.neighbor_pairs()
    got = sorted((int(a), int(b), int(d)) for (a, b), d in zip(np.asarray(pairs).reshape(-1, 2).tolist(), np.asarray(dist).tolist()))
    want = sorted((i, j, d) for (i, j), d in ref.items())
    if got != want:
        bad("pairs", f"{what}: neighbor_pairs: {len(got)} pairs, neighbor lists {len(want)}")
    pairs, dist = latt.neighbor_pairs(unique=True)
    got = sorted((int(a), int(b), int(d)) for (a, b), d in zip(np.asarray(pairs).reshape(-1, 2).tolist(), np.asarray(dist).tolist()))
    if got != [w for w in want if w[0] < w[1]]:
        bad("pairs-unique", f"{what}: neighbor_pairs(unique=True)")
    # matrices
    dense = np.zeros((n, n), dtype=int)
    for (i, j), d in ref.items():
        dense[i, j] = d + 1
    adj = latt.adjacency_matrix()
    if adj.shape != (n, n) or not np.array_equal(adj.toarray().astype(int), dense):
        bad("adjacency", f"{what}: adjacency matrix {adj.shape} differs from the neighbor lists")
    dm = latt.dmap()
    rows, cols = np.asarray(dm.indices).astype(int)
    if dm.size != n + len(ref):
        bad("dmap-size", f"{what}: data map has {dm.size} entries, lattice {n} sites and {len(ref)} links")
    ons = np.asarray(dm.onsite())
    hop = np.asarray(dm.hopping())
    if np.any(ons == hop):
        bad("dmap", f"{what}: onsite and hopping masks overlap")
    if sorted(rows[ons].tolist()) != list(range(n)) or not np.array_equal(rows[ons], cols[ons]):
        bad("dmap", f"{what}: onsite entries of the data map are not the sites")
    al = ind[:, -1].astype(int)
    for a in sorted(set(al.tolist())):
        if sorted(rows[np.asarray(dm.onsite(a))].tolist()) != np.where(al == a)[0].tolist():
            bad("dmap", f"{what}: data map entries of atom {a}")
    for d in used:
        m = np.asarray(dm.hopping(d))
        if sorted(zip(rows[m].tolist(), cols[m].tolist())) != sorted(k for k, v in ref.items() if v == d):
            bad("dmap", f"{what}: data map entries of distance {d}")
    x = dm.zeros()
    for a in sorted(set(al.tolist())):
        x[dm.onsite(a)] = 100 + a
    for d in used:
        x[dm.hopping(d)] = d + 1
    mat = dm.build_csr(x).toarray()
    full = dense.astype(float)
    full[np.arange(n), np.arange(n)] += 100 + al
    if mat.shape != full.shape or not np.array_equal(mat, full):
        bad("csr", f"{what}: CSR matrix of the data map differs from the neighbor lists")
    y = dm.zeros(norb=2)
    y[:, 0, 0] = x
    y[:, 1, 1] = -x
    bm = dm.build_bsr(y).toarray()
    if bm.shape != (2 * n, 2 * n) or not np.array_equal(bm[::2, ::2], full) or not np.array_equal(bm[1::2, 1::2], -full):
        bad("bsr", f"{what}: BSR matrix of the data map differs from the neighbor lists")
    # geometry
    lim = np.asarray(latt.limits())
    if not np.array_equal(lim, np.array([pos.min(0), pos.max(0)])):
        bad("limits", f"{what}: limits")
    if not np.array_equal(np.asarray(data.get_index_limits()), np.array([ind.min(0), ind.max(0)])):
        bad("limits", f"{what}: index limits")
    if latt.num_cells != len({tuple(r) for r in ind[:, :-1].tolist()}):
        bad("num-cells", f"{what}: num_cells")
    if shape_known:
        if latt.shape is None or not np.allclose(latt.shape, lim[1] - lim[0], atol=1e-9) or not np.allclose(latt.pos, lim[0], atol=1e-9):
            bad("shape", f"{what}: shape {latt.shape} at {latt.pos}, limits {lim.tolist()}")
    # periodic axes against periodic links
    axes = {int(a) for a in np.atleast_1d(latt.periodic_axes)}
    seen = set()
    npl = 0
    for i in range(n):
        m = np.asarray(data.neighbor_mask(i))
        pm = np.asarray(data.pmask[i])
        if np.any(pm & ~m):
            bad("periodic-slot", f"{what}: unused neighbor slot of site {i} is marked periodic")
        for s in np.where(m)[0]:
            j = int(data.neighbors[i][s])
            if pm[s]:
                npl += 1
                ax = {int(a) for a in np.atleast_1d(data.paxes[i][s]) if 0 <= int(a) < latt.dim}
                seen |= ax
                nv = np.asarray(data.pnvecs[i][s])
                if not np.any(nv):
                    bad("periodic-vector", f"{what}: periodic link {i}-{j} has no translation")
                img = pos[j] - latt.translate(nv)
            else:
                img = pos[j]
            if geometric and abs(np.linalg.norm(img - pos[i]) - dv[int(data.distances[i][s])]) > 1e-4:
                bad("distance", f"{what}: link {i}-{j} carries distance {dv[int(data.distances[i][s])]}, sites are {np.linalg.norm(img - pos[i])} apart")
    if npl and not axes:
        bad("periodic-axes", f"{what}: periodic links without periodic axes")
    if not seen <= axes:
        bad("periodic-axes", f"{what}: periodic links along {sorted(seen)}, periodic axes {sorted(axes)}")
    if axes and not npl and shape_known:
        bad("periodic-axes", f"{what}: periodic axes {sorted(axes)} without any periodic link")
    if min_image:
        for i in sub:
            md = np.asarray(latt.minimum_distances(i))
            for j, d in lists[i]:
                if i != j and abs(md[j] - dv[d]) > 1e-4:
                    bad("min-distance", f"{what}: minimum distance {i}-{j} is {md[j]}, linked at {dv[d]}")
    return len(ref), npl
