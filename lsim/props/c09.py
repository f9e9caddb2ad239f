"""C09: copies and derived lattices are isolated from each other."""
import numpy as np
from .. import canon, cells, core, ops, simio, views
from ..core import Violation
from . import common, files, hist

RUNS = {"quick": 11000, "thorough": 150000}
RULE = ("seeded programs: a family of lattices grows by copying, saving and loading, restoring from dictionaries, using one as basis, "
        "appending one to another and copying site data, while clients interleave successful, failing and interrupted operations on "
        "any member and change arrays they passed in; after every step all other members must be what they were. Non-trivial: a "
        "member changed while a relative of it existed.")
MEASURE = "distinct (derivations, operations) sequences"
PROBES = ("relative-changed", "failed-on-relative", "interrupted-on-relative", "array-poked", "appended-other", "data-copy", "array-arguments", "attribute-changed")
EXCS = {"int": core.InjectedInterrupt, "mem": core.InjectedMemoryError}
WATCH = ["dmap", "dmap_csr", "neighbor_pairs", "neighbors", "iter_neighbors", "adjacency", "s_neighbors", "limits", "from_pos", "shape"]


def gen(rng, tier):
    spec = ops.gen_atom_kw(rng, cells.gen_cell(rng, dims=(1, 2, 2, 3)))
    prim = rng.random() < 0.25
    steps = []
    if rng.random() < 0.95:
        steps.append({"do": "op", "i": 0, "op": hist.gen_build(rng, spec, prim)})
    n = 1
    for _ in range(rng.choice([3, 5, 8, 11])):
        r = rng.random()
        if r < 0.35 and n < 6:
            steps.append({"do": "derive", "i": rng.randrange(n), "how": rng.choice(["copy"] * 5 + ["load", "load", "fromdict", "basis", "data", "structcopy", "deepcopy"])})
            n += 1
        elif r < 0.42:
            steps.append({"do": "append", "i": rng.randrange(n), "j": rng.randrange(n), "ax": rng.randrange(len(spec["vectors"])), "side": rng.choice([1, -1])})
        elif r < 0.5:
            steps.append({"do": "poke", "i": rng.randrange(n)})
        elif r < 0.58:
            steps.append({"do": "op", "i": rng.randrange(n), "op": {"op": "set_attr", "i": rng.randrange(4), "key": rng.choice(["color", "radius", "mass", "tags"]), "val": rng.choice(["b", 0.77, [5]])}})
        elif r < 0.64:
            steps.append({"do": "config", "i": rng.randrange(n), "what": rng.choice(["add_atom", "add_connection", "add_connections", "analyze", "tag-in-place"]), "u": rng.u(3)})
        elif r < 0.68:
            steps.append({"do": "args", "i": rng.randrange(n), "u": rng.u(3)})
        elif r < 0.72:
            steps.append({"do": "query", "i": rng.randrange(n), "q": ops.gen_query(rng, heavy=0.1, lazy=0.4)})
        else:
            st = {"do": "op", "i": rng.randrange(n), "op": hist.gen_op(rng, spec, prim)}
            q = rng.random()
            if q < 0.15:
                st["op"]["fault"] = common.gen_coarse_fault(rng, st["op"]["op"])
            elif q < 0.3:
                st["stop"] = {"at": rng.u(7), "mode": rng.choice(core.MODES), "exc": rng.choice(["int", "mem"])}
            steps.append(st)
    return {"cell": spec, "env": common.gen_env(rng), "steps": steps, "u": [rng.u(3) for _ in range(3)], "watch": rng.random() < 0.5}


class Damaged(Exception):
    """The lattice data contradict themselves."""


class Member:
    def __init__(self, kind, obj, how):
        self.kind, self.obj, self.how = kind, obj, how
        self.arrays = []        # arrays the caller passed in and may change later

    def state(self):
        if self.kind == "data":
            return canon.data_state(self.obj)
        return files.describe(self.obj)

    def intact(self):
        """The state of a lattice that does not contradict itself."""
        st = self.state()
        parts = [st] if self.kind == "data" else [*st[1], *st[1][-1][:1]]
        if any(isinstance(x, tuple) and x[:1] == ("broken",) for x in parts):
            raise Damaged(self.how)
        return st

    def answers(self, u):
        if self.kind != "latt" or not self.obj.num_sites:
            return None
        return {q: ops.ask(self.obj, [q, *u]) for q in WATCH}


def make_root(spec):
    """The first lattice, configured from arrays the caller keeps."""
    lp = core.lp
    vec = np.array(spec["vectors"], dtype=float)
    latt = lp.Lattice(vec)
    arrays = [vec]
    for a in spec["atoms"]:
        pos = np.array(a[0], dtype=float)
        arrays.append(pos)
        latt.add_atom(pos, a[1], **(a[2] if len(a) > 2 else {}))
    ops.connect(latt, spec["cons"])
    m = Member("latt", latt, "root")
    m.arrays = arrays
    return m


def derive(m, how, spec, k):
    lp = core.lp
    l = m.obj
    if m.kind == "data":
        return Member("data", l.copy(), "data")
    if how == "copy":
        return Member(m.kind, l.copy(), how)
    if how == "deepcopy":
        import copy
        return Member(m.kind, copy.deepcopy(l), how)
    if how == "load":
        l.dump("m%d.latt" % k)
        return Member(m.kind, type(l).load("m%d.latt" % k), how)
    if how == "fromdict":
        return Member(m.kind, type(l).fromdict(l.todict()), how)
    if how == "structcopy":
        return Member("struct", lp.LatticeStructure.fromdict(l.todict()), how)
    if how == "basis":
        n = lp.Lattice(l)
        for a in spec["atoms"]:
            n.add_atom(list(a[0]), a[1])
        ops.connect(n, spec["cons"])
        return Member("latt", n, how)
    if how == "data" and m.kind == "latt" and l.num_sites:
        return Member("data", l.data.copy(), "data")
    return None


def as_arrays(op, m):
    """Passes shape, position and axis arguments as arrays the caller keeps."""
    op = dict(op)
    if op["op"] == "build":
        if isinstance(op["shape"], list) and len(op["shape"]) > 1 and not (op.get("fault") or {}).get("shape"):
            op["shape"] = np.array(op["shape"], dtype=float)
            m.arrays.append(op["shape"])
        if op.get("pos") is not None:
            op["pos"] = np.array(op["pos"], dtype=float)
            m.arrays.append(op["pos"])
    if op["op"] == "set_periodic" and isinstance(op["axis"], list):
        op["axis"] = np.array(op["axis"])
        m.arrays.append(op["axis"])
    return op


def do_op(m, st, spec, sim):
    """Runs an operation on a member; returns the exception."""
    l, op = m.obj, st["op"]
    if m.kind == "data":
        return data_op(m, op)
    if m.kind == "struct" and op["op"] not in ("set_attr",):
        return None
    if not hist.possible(l, op):
        return None
    n0 = len(m.arrays)
    op = as_arrays(op, m)
    before = [a.copy() for a in m.arrays[n0:]]
    exc = None
    if st.get("stop"):
        try:
            thunk = ops.prepare(l, op, spec)
        except core.Skip:
            return None

        def count():
            c = core.Stepper()
            try:
                with c:
                    thunk()
            except Exception:
                pass
            return core.pick_step(c, st["stop"])
        s = core.Stepper(files.fork_call(count), EXCS[st["stop"]["exc"]])
        try:
            with s:
                thunk()
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        if s.fired:
            sim.stats["fault:interrupt" if st["stop"]["exc"] == "int" else "fault:alloc"] += 1
            sim.probes["interrupted-on-relative"] += 1
            sim.ev("interrupt", op["op"], s.where)
    else:
        exc = ops.run_op(l, op, spec).exc
        if exc is not None:
            sim.probes["failed-on-relative"] += 1
    for a, b in zip(m.arrays[n0:], before):
        if not np.array_equal(a, b):
            raise Violation("argument-changed", "%s changed an array passed to it: %s -> %s" % (op["op"], b.tolist(), a.tolist()))
    if op["op"] == "set_attr":
        sim.probes["attribute-changed"] += 1
    return exc


def data_op(m, op):
    d = m.obj
    try:
        if op["op"] == "remove" and d.num_sites > 6:
            sites = np.array(sorted({int(u * d.num_sites) for u in op["sites"]}))
            s0 = sites.copy()
            d.remove(sites)
            if not np.array_equal(sites, s0):
                raise Violation("argument-changed", "remove changed the site list")
        elif op["op"] == "sort":
            d.sort(op["ax"], reverse=op.get("rev", False))
        elif op["op"] == "sort_neighbors":
            d.sort_neighbors()
        elif op["op"] == "remove_periodic":
            d.remove_periodic()
        elif d.num_sites > 3:
            d.map()
    except Violation:
        raise
    except Exception as e:
        return e
    return None


def args(m, u):
    """Queries with array arguments; the arrays stay the caller's."""
    l = m.obj
    if m.kind == "data":
        return
    d = l.dim
    k = int(u * l.num_base)
    pts = np.array([[0.1 + u] * d, [0.0] * d, [5.0] * d])
    ind = np.array([[i] * d + [k] for i in range(3)])
    box, vec, nv = np.array([2.1] * d), np.full(d, u), np.array([1] * d)
    arrs = {"points": pts, "indices": ind, "shape": box, "vector": vec, "nvec": nv}
    calls = [lambda: l.check_points(pts, box), lambda: l.get_positions(ind), lambda: l.fourier_weights(vec, alpha=k),
             lambda: l.translate(nv, vec), lambda: l.itranslate(vec), lambda: l.transform(pts), lambda: l.itransform(pts),
             lambda: l.get_position(nv, alpha=k), lambda: l.get_neighbors(nv, alpha=k), lambda: l.estimate_index(vec),
             lambda: l.get_neighbor_positions(nv, alpha=k), lambda: l.build_indices(box, pos=vec), lambda: l.build_translation_vectors(box, pos=vec),
             lambda: l.check_points(pts, box, True, vec), lambda: l.build_indices(nv + 1, primitive=True, pos=vec), lambda: l.get_cell_superindex(nv, nv + 3)]
    los, his = [None] * (d - 1) + [u], [u + 2.0] + [None] * (d - 1)
    lists = {"mins": los, "maxs": his}
    if l.dim > 1:
        bi, bp = l.build_indices(box, return_pos=True)
        arrs.update(bi=bi, bp=bp)
        calls.append(lambda: l.compute_neighbors(bi, bp, num_jobs=2))
    if m.kind == "latt" and l.num_sites:
        p0 = np.array(l.position(0))
        i0 = np.array(l.indices[0])
        lo, hi = np.array([u]), np.array([u + 2.0])
        ax, ols = np.array([d - 1]), np.array(los, dtype=object)
        arrs.update(p0=p0, i0=i0, lo=lo, hi=hi, ax=ax)
        lists["object array"] = ols
        calls += [lambda: l.superindex_from_pos(p0), lambda: l.superindex_from_index(i0), lambda: l.relative_position(vec),
                  lambda: l.data.find_sites(lo, hi), lambda: l.data.find_sites(los, his), lambda: l.data.site_mask(los, his, True),
                  lambda: l.kdtree(pts), lambda: l.periodic_translation_vectors(ax, l.primitive), lambda: l.data.find_sites(ols, his)]
        x = l.dmap().zeros()
        x[:] = 1.5
        arrs["x"] = x
        calls.append(lambda: l.dmap().build_csr(x))
    before = {n: a.copy() for n, a in arrs.items()}
    lists0 = {n: list(a) for n, a in lists.items()}
    for c in calls:
        try:
            c()
        except Exception:
            pass
    for n, a in arrs.items():
        if not np.array_equal(a, before[n]):
            raise Violation("argument-changed", "a query changed the caller's %s array: %s -> %s" % (n, before[n].tolist()[:4], a.tolist()[:4]))
    for n, a in lists.items():
        if list(a) != lists0[n]:
            raise Violation("argument-changed", "a query changed the caller's %s: %s -> %s" % (n, lists0[n], list(a)))
    for a in arrs.values():     # the caller uses them for something else
        a += 1 if a.dtype.kind in "iu" else 0.5


def config(m, st, spec):
    l, what = m.obj, st["what"]
    if m.kind == "data":
        return
    if what == "add_atom":
        pos = np.array(l.vectors).sum(axis=0) * (0.111 + 0.2 * st["u"])
        m.arrays.append(pos)
        l.add_atom(pos, "N%d" % len(l.atoms))
    elif what == "add_connection":
        l.add_connection(0, l.num_base - 1, 1)
    elif what == "add_connections":
        l.add_connections(1, analyze=st["u"] < 0.5)
    elif what == "analyze":
        l.analyze()
    elif what == "tag-in-place":
        for a in l.atoms:
            t = a.get("tags")
            if isinstance(t, list):
                t.append("changed")


def run(p):
    spec = p["cell"]
    common.set_env(p.get("env"))
    sim = core.SIM
    simio.DISK.mount()
    fam = [make_root(spec)]
    ref = [fam[0].state()]
    ans = [None]
    sig, hard = [], 0

    def check(changed, what, full=False):
        """All members except the changed ones are what they were."""
        for k, m in enumerate(fam):
            if k in changed:
                ref[k], ans[k] = m.state(), None
                if p.get("watch"):
                    ans[k] = m.answers(p["u"])
                continue
            s = m.state()
            if s != ref[k]:
                raise Violation("not-isolated", "%s changed member %d (%s): %s" % (what, k, m.how, canon.diff(ref[k], s)))
            if ans[k] is not None:
                a = m.answers(p["u"])
                for q in a:
                    if a[q] != ans[k][q]:
                        raise Violation("answer-changed", "%s changed the answer of %s of member %d (%s): %s" % (what, q, k, m.how, canon.diff(ans[k][q], a[q])))

    check({0}, "start")
    for n, st in enumerate(p["steps"]):
        i = st["i"] % len(fam)
        m = fam[i]
        what = "step %d (%s %s on member %d)" % (n, st["do"], st.get("how") or (st.get("op") or {}).get("op") or st.get("what") or "", i)
        changed = {i}
        if st["do"] == "derive":
            if len(fam) >= 7:
                continue
            try:
                d = derive(m, st["how"], spec, n)
            except Exception:
                # restoring a lattice without connections is refused
                if st["how"] in ("copy", "deepcopy", "load"):
                    raise
                d = None
            if d is None:
                continue
            if st["how"] in ("copy", "deepcopy", "load") and d.state()[1] != m.state()[1]:
                raise Violation("copy-differs", what + ": " + canon.diff(m.state()[1], d.state()[1]))
            if st["how"] in ("fromdict", "structcopy") and m.kind != "data" and canon.cell_state(d.obj) != canon.cell_state(m.obj):
                raise Violation("copy-differs", what + ": " + canon.diff(canon.cell_state(m.obj), canon.cell_state(d.obj)))
            fam.append(d)
            ref.append(d.state())
            ans.append(d.answers(p["u"]) if p.get("watch") else None)
            changed = set()
            if d.kind == "data":
                sim.probes["data-copy"] += 1
        elif st["do"] == "append":
            j = st["j"] % len(fam)
            if i == j or m.kind != "latt" or fam[j].kind != "latt" or not m.obj.num_sites or not fam[j].obj.num_sites or m.obj.num_sites + fam[j].obj.num_sites > 250:
                continue
            try:
                m.obj.append(fam[j].obj, ax=st["ax"], side=st["side"])
                sim.probes["appended-other"] += 1
            except Exception as e:
                sim.ev("append", type(e).__name__)
        elif st["do"] == "poke":
            if not m.arrays:
                continue
            for a in m.arrays:
                a += 3 if a.dtype.kind == "i" else 0.25
            m.arrays = []
            sim.probes["array-poked"] += 1
            changed = set()
        elif st["do"] == "config":
            try:
                config(m, st, spec)
            except Exception as e:
                sim.ev("config", type(e).__name__)
        elif st["do"] == "args":
            try:
                args(m, st["u"])
                sim.probes["array-arguments"] += 1
            except Violation:
                raise
            except Exception as e:
                if not any(s.get("stop") or (s.get("op") or {}).get("fault") for s in p["steps"][:n]):
                    raise
                sim.ev("args", type(e).__name__)    # a lattice that was interrupted and has to be rebuilt
            changed = set()
        elif st["do"] == "query":
            if m.kind == "latt" and m.obj.num_sites:
                ops.ask(m.obj, st["q"])
            changed = set()
        else:
            do_op(m, st, spec, sim)
        try:
            ref_i = m.intact() if changed else None
        except Exception:
            # an interrupted operation may leave its own lattice unusable; it has to be rebuilt
            if st.get("stop") or (st.get("op") or {}).get("fault"):
                fam.pop(i), ref.pop(i), ans.pop(i)
                changed = set()
                if not fam:
                    break
            elif any(s.get("stop") or (s.get("op") or {}).get("fault") for s in p["steps"][:n]):
                raise core.Skip("damaged by an earlier interruption")
            else:
                raise
        if changed and len(fam) > 1 and ref_i != ref[i]:
            hard += 1
            sim.probes["relative-changed"] += 1
        check(changed, what)
        sig.append((st["do"], st.get("how"), (st.get("op") or {}).get("op")))
        sim.ev(sig[-1])
    plain = not any(s.get("stop") or (s.get("op") or {}).get("fault") or s["do"] in ("append", "config") or
                    (s.get("op") or {}).get("op") in ("append", "append_self", "extend", "repeat") for s in p["steps"])
    for k, m in enumerate(fam):
        if m.kind == "latt" and m.obj.num_sites and ans[k] is None and plain:
            views.check(m.obj, "member %d (%s) at the end" % (k, m.how), shape_known=False)
    sim.ev(canon.digest(ref))
    return {"nontrivial": hard > 0, "sig": canon.digest(sig)}
