"""C01: saved lattices load back identical, however the I/O behaves."""
import os
from .. import canon, cells, core, ops, simio
from ..core import Violation
from . import common, files, hist

RUNS = {"quick": 7000, "thorough": 120000}
RULE = ("seeded programs: several lattices with histories of operations, failing builds and queries, saved in turn to the "
        "same and other files (name, bytes, path object, descriptor, default name) with random buffering and short transfers; every "
        "load, in this or a separate process, is compared with the state at the last save of that file, and its answers and "
        "later operations with a lattice that went through the same history. Non-trivial: a file was loaded after "
        "split transfers, after a re-save or in a separate process.")
MEASURE = "distinct (kind of save, kind of load, transfer splitting, history) programs"
PROBES = ("resaved", "separate-process", "short-io", "default-name", "descriptor", "saved-with-cache", "changed-after-save", "resaved-shorter", "structure", "unbuilt")


class TaggedLattice:
    """Placeholder replaced by a user subclass of Lattice (see _cls)."""


def _cls(name):
    lp = core.lp
    if name == "user":
        global TaggedLattice
        if not (isinstance(TaggedLattice, type) and issubclass(TaggedLattice, lp.Lattice)):
            TaggedLattice = type("TaggedLattice", (lp.Lattice,), {"__module__": __name__, "__qualname__": "TaggedLattice"})
        return TaggedLattice
    return getattr(lp, name)


def gen(rng, tier):
    slots = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        spec = ops.gen_atom_kw(rng, cells.gen_cell(rng, dims=(1, 2, 2, 3)))
        slots.append({"cell": spec, "prim": rng.random() < 0.25, "cls": rng.choice(["Lattice"] * 5 + ["LatticeStructure", "user"])})
    steps = []
    for i, s in enumerate(slots):
        if rng.random() < 0.9:
            steps.append({"do": "op", "i": i, "op": hist.gen_build(rng, s["cell"], s["prim"])})
    paths = ["a.latt", "b", "sub/c.latt"]
    for _ in range(rng.choice([3, 5, 7, 9])):
        i = rng.randrange(len(slots))
        s = slots[i]
        r = rng.random()
        if r < 0.3:
            op = hist.gen_op(rng, s["cell"], s["prim"])
            if rng.random() < 0.15:
                op = {"op": "set_attr", "i": rng.randrange(4), "key": rng.choice(["color", "radius", "mass", "site"]), "val": rng.choice(["b", 0.5, [1, [2, "x"]], None])}
            elif op["op"] == "build" and rng.random() < 0.3:
                op["fault"] = {"cb": "raise", "exc": rng.choice(ops.USER_ERRORS)}
            steps.append({"do": "op", "i": i, "op": op})
        elif r < 0.4:
            steps.append({"do": "query", "i": i, "q": ops.gen_query(rng, heavy=0.1, lazy=0.5)})
        elif r < 0.72:
            how = rng.choice(["str", "str", "bytes", "path", "fd-w", "none"])
            steps.append({"do": "save", "i": i, "path": rng.choice(paths[:2] if how != "none" else paths), "how": how, "plan": files.gen_plan(rng)})
        else:
            steps.append(gen_load(rng, slots, paths))
    steps.append({"do": "save", "i": rng.randrange(len(slots)), "path": "a.latt", "how": "str", "plan": files.gen_plan(rng)})
    steps.append(gen_load(rng, slots, ["a.latt"]))
    return {"slots": slots, "env": common.gen_env(rng), "steps": steps, "u": [rng.u(3) for _ in range(3)]}


FIXED = ("cell",)


def gen_load(rng, slots, paths):
    return {"do": "load", "path": rng.choice(paths[:2]), "how": rng.choice(["str", "str", "bytes", "path", "fd-r"]), "plan": files.gen_plan(rng),
            "separate": rng.random() < 0.45, "views": rng.random() < 0.6,
            "later": {str(i): [hist.gen_op(rng, s["cell"], s["prim"]) for _ in range(rng.choice([0, 1, 2]))] for i, s in enumerate(slots)}}


def make(slot):
    l = ops.make_lattice(slot["cell"], _cls(slot["cls"]))
    if slot["cls"] == "user":
        l.user_tag = {"run": [1, 2], "name": "\u00fc"}
    return l


def do_op(latt, op, spec):
    if not hasattr(latt, "periodic_axes") and op["op"] not in ("set_attr",):
        return None
    return hist.apply(latt, op, spec)


def run(p):
    common.set_env(p.get("env"))
    _cls("user")
    sim, disk = core.SIM, simio.DISK
    disk.mount()
    os.mkdir("sub")
    loader = files.Loader() if any(s.get("separate") for s in p["steps"]) else None
    latts = [make(s) for s in p["slots"]]
    log = [[] for _ in latts]           # history of each lattice, to make twins
    saved, sizes = {}, {}               # path -> (slot, history length, description)
    sig, loads, hard = [], 0, 0
    resaved = set()
    try:
        for n, st in enumerate(p["steps"]):
            what = "step %d" % n
            if st["do"] == "op":
                do_op(latts[st["i"]], st["op"], p["slots"][st["i"]]["cell"])
                log[st["i"]].append(st["op"])
                if any(v[0] == st["i"] for v in saved.values()):
                    sim.probes["changed-after-save"] += 1
            elif st["do"] == "query":
                if p["slots"][st["i"]]["cls"] != "LatticeStructure" and latts[st["i"]].num_sites:
                    ops.ask(latts[st["i"]], st["q"])
                    sim.probes["saved-with-cache"] += 1
            elif st["do"] == "save":
                latt = latts[st["i"]]
                d0 = files.describe(latt)
                disk.reset_plan(st["plan"])
                path, how = st["path"], st["how"]
                if how == "none":
                    before = {f: disk.snapshot(f) for f in os.listdir(".") if os.path.isfile(f)}
                    latt.dump(None)
                    now = [f for f in os.listdir(".") if os.path.isfile(f)]
                    new = [f for f in now if f not in before]
                    cand = new or ["%s.latt" % latt.__hash__()]
                    if len(cand) != 1 or not os.path.exists(cand[0]):
                        raise Violation("default-name", "%s: saving without a name created %s" % (what, new))
                    for f in before:
                        if f != cand[0] and disk.snapshot(f) != before[f]:
                            raise Violation("other-file", "%s: saving without a name changed %s" % (what, f))
                    path = cand[0]
                    sim.probes["default-name"] += 1
                    # load it right away below
                else:
                    latt.dump(files.target(path, how))
                sim.stats["fault:short-transfer"] += disk.ns if disk.short else 0
                if path in saved:
                    sim.probes["resaved"] += 1
                    resaved.add(path)
                    if os.path.getsize(path) < sizes.get(path, 0):
                        sim.probes["resaved-shorter"] += 1
                sizes[path] = os.path.getsize(path)
                if how == "fd-w":
                    sim.probes["descriptor"] += 1
                disk.reset_plan(None)
                if files.describe(latt) != d0:
                    raise Violation("save-changed", "%s: saving changed the lattice: %s" % (what, canon.diff(d0, files.describe(latt))))
                saved[path] = (st["i"], len(log[st["i"]]), d0)
                if how == "none":
                    files.compare([d0], [files.describe(core.lp.Lattice.load(path))], what + ": saved without a name")
                    loads += 1
                sig.append(("save", how))
            elif st["do"] == "load" and st["path"] in saved:
                i, k, d0 = saved[st["path"]]
                slot = p["slots"][i]
                twin = make(slot)
                for op in log[i][:k]:
                    do_op(twin, op, slot["cell"])
                later = st["later"].get(str(i), [])
                views = p["u"] if st["views"] else None
                ref = files.after(twin, views, later, slot["cell"])
                ref[0] = d0     # with the atom indices of the original
                if st.get("separate") and st["how"] != "fd-r":
                    r = loader.load(files.target(st["path"], st["how"]), st["plan"], views, later, slot["cell"])
                    if r[0] == "E":
                        raise Violation("load-failed", "%s: loading in a new process raised %s" % (what, r[1]))
                    got = r[1]
                    sim.probes["separate-process"] += 1
                else:
                    disk.reset_plan(st["plan"])
                    l2 = type(latts[i]).load(files.target(st["path"], st["how"]))
                    disk.reset_plan(None)
                    if not (l2 == twin_eq(l2, latts[i], d0)):
                        raise Violation("loaded-equal", what + ": the loaded lattice does not compare equal to the unchanged original")
                    got = files.after(l2, views, later, slot["cell"])
                files.compare(ref, got, what + " (saved by lattice %d)" % i)
                loads += 1
                hard += bool(st["plan"].get("short") or st.get("separate") or st["path"] in resaved)
                if slot["cls"] == "LatticeStructure":
                    sim.probes["structure"] += 1
                elif d0[1][2][0] == ("unbuilt",):
                    sim.probes["unbuilt"] += 1
                if st["plan"].get("short"):
                    sim.probes["short-io"] += 1
                sig.append(("load", st["how"], bool(st.get("separate")), bool(st["plan"].get("short")), [o["op"] for o in log[i][:k]]))
            sim.ev(st["do"])
    finally:
        if loader:
            loader.close()
    sim.ev(canon.digest(sorted((k, v[2]) for k, v in saved.items())))
    return {"nontrivial": hard > 0, "sig": canon.digest(sig)}


def twin_eq(loaded, orig, d0):
    """The original if it is still what was saved, else the loaded lattice itself."""
    return orig if files.describe(orig) == d0 else loaded
