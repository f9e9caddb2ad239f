"""C13: results depend only on the calls made, not on the environment."""
import io
import logging
import os
import random
import shutil
import socket
import subprocess
import sys
import tempfile
import numpy as np
from .. import canon, cells, core, ops, simio, zygote
from ..core import Violation
from . import common, files, hist, threads

RUNS = {"quick": 2900, "thorough": 100000}
RULE = ("seeded programs run several times in processes of their own: reference environment, then other string-hash seeds, random "
        "generator states, clock values and speeds, log levels, processor counts, worker orders, working directories, and after or beside "
        "unrelated lattices that were built or failed; all records must be bit-identical and the global settings untouched. "
        "Non-trivial: every run (at least two environments each).")
MEASURE = "distinct (program, environment) pairs"
PROBES = ("other-hash-seed", "other-random-state", "other-clock", "debug-logging", "prior-lattices", "prior-failures", "noise-thread", "other-cwd", "prior-atoms", "by-name", "factory")
HASHSEEDS = ["1", "31337"]
_dir, _procs = None, []
FIXED = ("cell",)


def setup():
    """Starts one server per hash seed."""
    global _dir
    _dir = tempfile.mkdtemp(prefix="lsim_zyg_", dir=os.environ["LSIM_SCRATCH"])
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    for i, h in enumerate(HASHSEEDS):
        env = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.Popen([sys.executable, "-B", "-m", "lsim.zygote", os.path.join(_dir, "s%d" % i)], cwd=root, env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _procs.append(p)
    for p in _procs:
        if p.stdout.readline() != b"ready\n":
            raise core.HarnessError("zygote did not start")


def teardown():
    for p in _procs:
        p.stdin.close()
        p.kill()
        p.wait()
    del _procs[:]
    shutil.rmtree(_dir, ignore_errors=True)


def gen(rng, tier):
    spec = ops.gen_atom_kw(rng, cells.gen_cell(rng, dims=(1, 2, 2, 3)))
    prim = rng.random() < 0.25
    steps = []
    if rng.random() < 0.6 and len(spec["atoms"]) > 1:
        # several atoms of the same name, connections by name
        for a in spec["atoms"]:
            a[1] = rng.choice(["A", "B", "Cu", "O2"])
    steps.append({"do": "op", "op": hist.gen_build(rng, spec, prim)})
    for _ in range(rng.choice([2, 3, 4, 6])):
        r = rng.random()
        if r < 0.5:
            op = hist.gen_op(rng, spec, prim)
            if op["op"] == "build" and rng.random() < 0.2:
                op["fault"] = {"cb": "raise", "exc": rng.choice(ops.USER_ERRORS)} if rng.random() < 0.6 else {"shape": {"where": rng.choice(["limits", "contains"]), "at": 1}}
            steps.append({"do": "op", "op": op})
        elif r < 0.8:
            steps.append({"do": "query", "q": ops.gen_query(rng, heavy=0.2)})
        elif r < 0.9:
            steps.append({"do": "save", "dir": rng.choice(["", "", "sub/", "sub/deeper/"]), "bad": rng.choice([None, None, "missing", "garbage", "nodir"])})
        else:
            steps.append({"do": "views"})
    envs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        e = {}
        if rng.random() < 0.6:
            e["hash"] = rng.randrange(len(HASHSEEDS))
        if rng.random() < 0.5:
            e["seed"] = rng.randrange(1 << 20)
        if rng.random() < 0.5:
            e["clock"] = [rng.choice([0.0, 1.0, 1e9, 2.5e9]), rng.choice([0.0, 1e-9, 1e-3, 7.5, -1.0])]
        if rng.random() < 0.5:
            e["log"] = rng.choice([10, 20, 50])
        if rng.random() < 0.6:
            e["cpus"], e["order"] = rng.choice([1, 2, 3, 7, 32]), rng.randrange(1, 1 << 20)
        if rng.random() < 0.4:
            e["cwd"] = rng.choice(["x", "a b/\u00e9", "deep/er"])
        if rng.random() < 0.4:
            e["heap"] = rng.randrange(1, 1 << 20)
        if rng.random() < 0.4:
            e["natoms"] = rng.choice([1, 3, 6, 7, 8, 9, 97, 98, 99, 254, 255, 260, 998, 1200])
        if rng.random() < 0.6:
            other = cells.gen_cell(rng, dims=(1, 2)) if rng.random() < 0.6 else spec
            op = prim if other is spec else not cells.is_orth(other["vectors"])
            e["prior"] = {"cell": other, "ops": [hist.gen_build(rng, other, op)] + [hist.gen_op(rng, other, op) for _ in range(rng.choice([0, 1, 2]))],
                          "n": rng.choice([1, 1, 2, 5]), "keep": rng.random() < 0.5}
            if rng.random() < 0.2:
                # the same thing done many times before
                e["prior"].update(again=rng.choice([12, 25, 60]), ops=[hist.gen_build(rng, other, op), hist.gen_op(rng, other, op)], n=1,
                                  ask=[ops.gen_query(rng, heavy=0.1) for _ in range(2)])
            if rng.random() < 0.5:
                e["prior"]["fail"] = common.gen_coarse_fault(rng, "build")
            if rng.random() < 0.3:
                e["noise"] = threads.gen_schedule(rng, 60, styles=("fine", "mixed", "coarse", "burst", "step"))
        envs.append(e)
    p = {"cell": spec, "names": None}
    if rng.random() < 0.4:
        # connections by name, a pair may be given twice
        seen = sorted({a[1] for a in spec["atoms"]})
        pairs = [[a, b, rng.choice([1, 1, 2])] for a in seen for b in seen if a <= b or rng.random() < 0.6]
        rng.shuffle(pairs)
        p["names"], p["ctor"] = pairs, rng.random() < 0.5
        if not p["ctor"] and rng.random() < 0.5:
            p["atoms"] = True
    if rng.random() < 0.15:
        p["factory"] = gen_factory(rng)
    return {**p, "steps": steps, "envs": envs, "u": [rng.u(3) for _ in range(3)]}


FACTORIES = {
    # name: (dim, kwargs)
    "simple_chain": (1, {"a": [1.0, 2.0], "neighbors": [1, 2]}),
    "alternating_chain": (1, {"a": [1.0, 1.5], "x0": [0.0, 0.1], "neighbors": [1, 2], "atom1": ["A", "Q"], "atom2": ["A", "B"]}),
    "simple_square": (2, {"a": [1.0, 0.5], "neighbors": [1, 2]}),
    "simple_rectangular": (2, {"a1": [1.5, 2.0], "neighbors": [1, 2]}),
    "simple_hexagonal": (2, {"neighbors": [1, 2]}),
    "honeycomb": (2, {"a": [1.0, 2.0], "atom": ["A", "C"]}),
    "graphene": (2, {"a": [1.0, 1.42]}),
    "simple_cubic": (3, {"neighbors": [1, 2]}),
    "nacl_structure": (3, {"neighbors": [1], "a": [1.0, 2.0]}),
    "finite_hypercubic": (2, {"s": [[4, 4], [3, 4], [5, 2]], "periodic": [None, 0, [0, 1]], "primitive": [True, False]}),
}


def gen_factory(rng):
    name = rng.choice(sorted(FACTORIES))
    dim, kws = FACTORIES[name]
    return [name, dim, {k: rng.choice(v) for k, v in sorted(kws.items()) if k == "s" or rng.random() < 0.6}]


def factory(f):
    name, dim, kw = f
    l = getattr(core.lp, name)(**kw)
    if not l.num_sites:
        l.build([{1: 9.0, 2: 4.0, 3: 2.0}[dim]] * dim, periodic=0)
    return l


KEEP = []


def prior(e):
    """Unrelated lattices, some failing."""
    pr = e["prior"]
    for k in range(pr["n"]):
        l = ops.make_lattice(pr["cell"])
        for op in pr["ops"]:
            try:
                if hist.possible(l, op, 80):
                    ops.prepare(l, op, pr["cell"])()
            except Exception:
                pass
        for _ in range(pr.get("again", 0)):
            try:
                if hist.possible(l, pr["ops"][-1], 40):
                    ops.prepare(l, pr["ops"][-1], pr["cell"])()
                for q in pr["ask"]:
                    ops.raw_query(l, q)
            except Exception:
                pass
        if pr.get("fail"):
            op = dict(pr["ops"][0], fault=pr["fail"])
            f = pr["fail"]
            if "kd" in f or "worker" in f:
                if e.get("noise"):
                    continue        # would hit the other thread
                core.SIM.kd.arm(f.get("kd"), f.get("worker"))
            try:
                ops.prepare(l, op, pr["cell"])()
            except (Exception, KeyboardInterrupt):
                pass
            finally:
                core.SIM.kd.disarm()
        if pr["keep"]:
            KEEP.append(l)


def globals_state():
    st = np.random.get_state()
    return (random.getstate(), st[0], st[1].tobytes(), st[2:], tuple(sorted(np.geterr().items())),
            repr(sorted((k, v) for k, v in np.get_printoptions().items())), os.getcwd())


def play(p, e):
    """One execution of the program in an environment; the record of everything seen."""
    sim = core.SIM
    random.seed(e.get("seed", 12345))
    np.random.seed(e.get("seed", 54321) % (1 << 31))
    common.set_env({"cpus": e.get("cpus", 4), "order": e.get("order")})
    if e.get("clock"):
        sim.clock, sim.clock_step = e["clock"]
    if e.get("log"):
        lg = logging.getLogger("lattpy")
        for g in (lg, getattr(core.lp, "logger", lg)):
            g.setLevel(e["log"])
        h = logging.StreamHandler(io.StringIO())
        lg.addHandler(h)
        logging.getLogger().addHandler(h)
    simio.DISK.mount()
    if e.get("cwd"):
        os.makedirs(e["cwd"])
        os.chdir(e["cwd"])
    if e.get("heap"):
        shuffle_heap(e["heap"])
    g0 = globals_state()
    KEEP.append([core.lp.Atom() for _ in range(e.get("natoms") or 0)])
    if e.get("prior") and not e.get("noise"):
        prior(e)
    box = {}

    def main():
        try:
            box["r"] = record(p)
        except BaseException as x:  # noqa
            box["e"] = x

    def noise():
        try:
            prior(e)
        except BaseException as x:  # noqa
            box["n"] = x
    if e.get("noise"):
        sched = core.Scheduler(sim, e["noise"])
        sched.spawn(main)
        sched.spawn(noise)
        sched.run()
        if "n" in box:
            raise box["n"]
    else:
        main()
    if "e" in box:
        raise box["e"]
    g1 = globals_state()
    names = ("random generator", "numpy random generator", "numpy random generator", "numpy random generator", "numpy error settings", "numpy print settings", "working directory")
    for n, a, b in zip(names, g0, g1):
        if a != b:
            raise Violation("global", "the calls changed the global state: " + n)
    return box["r"]


def record(p):
    spec = p["cell"]
    out = []
    if p.get("factory"):
        out.append(("factory", None, canon.digest(ops.full_views(factory(p["factory"]), p["u"]))))
    if not p.get("names"):
        latt = ops.make_lattice(spec)
    elif p.get("ctor"):
        latt = core.lp.Lattice(np.array(spec["vectors"], dtype=float), atoms={tuple(a[0]): a[1] for a in spec["atoms"]},
                               cons={(a, b): k for a, b, k in p["names"]})
    else:
        latt = ops.make_lattice(spec, configure=False)
        for a, b, k in p["names"]:
            if p.get("atoms"):
                # by the atoms themselves
                a, b = (next(x for x in latt.atoms if x.name == y) for y in (a, b))
            latt.add_connection(a, b, k)
        latt.analyze()
    out.append(("cell", None, rec(latt, lambda l: (canon.cell_state(l), canon.analysis_state(l)))))
    out.append(("alpha", None, rec(latt, lambda l: [l.get_alpha(a.name) for a in l.atoms])))
    for n, st in enumerate(p["steps"]):
        exc = None
        if st["do"] == "op":
            op = st["op"]
            if not hist.possible(latt, op, 100):
                continue
            try:
                thunk = ops.prepare(latt, op, spec)
            except core.Skip:
                continue
            try:
                thunk()
            except Exception as e:
                if isinstance(e, core.HarnessError):
                    raise
                exc = type(e).__name__
            out.append((op["op"], exc, rec(latt, canon.state)))
        elif not latt.num_sites:
            continue
        elif st["do"] == "query":
            out.append((st["q"][0], None, rec(latt, lambda l: ops.ask(l, st["q"]))))
        elif st["do"] == "views":
            v = ops.full_views(latt, p["u"])
            for q in v:
                out.append((q, None, canon.digest(v[q])))
        elif st["do"] == "save":
            name = "%ss%d.latt" % (st.get("dir", ""), n)
            os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
            if st.get("bad"):
                out.append(("bad file", None, bad_file(latt, name, st["bad"])))
            try:
                latt.dump(name)
                l2 = core.lp.Lattice.load(name)
            except Exception as e:
                out.append(("save", type(e).__name__, None))
                continue
            out.append(("save", None, rec(l2, canon.state)))
    v = {q: rec(latt, lambda l: ops.ask(l, [q, *p["u"]])) for q in ("dmap", "dmap_csr", "neighbor_pairs", "adjacency", "dumps")} if latt.num_sites else {}
    out += [(q, "at the end", v[q]) for q in v]
    return out


def bad_file(latt, name, how):
    """A save or load that fails."""
    try:
        if how == "nodir":
            latt.dump(os.path.join(name, "x", "y.latt"))
            return "saved"
        if how == "garbage":
            with open(name, "wb") as f:
                f.write(b"no lattice")
        core.lp.Lattice.load(name)
        return "loaded"
    except Exception as e:
        return type(e).__name__


def shuffle_heap(n):
    """Other addresses for everything allocated later."""
    r = random.Random(n)
    junk = [[bytearray(r.randrange(1, 600)), bytes(r.randrange(0, 480)), np.empty(r.randrange(40)), object(), {i: i for i in range(r.randrange(8))}, [0] * r.randrange(9)]
            for _ in range(r.randrange(20, 300))]
    for j in junk:
        r.shuffle(j)
        del j[: r.randrange(len(j))]
    KEEP.append(junk)


def rec(latt, f):
    try:
        return canon.digest(f(latt))
    except Exception as e:
        return ("broken", type(e).__name__)


def run_env(p, e):
    if e.get("hash") is None:
        return files.fork_call(lambda: play(p, e))
    s = socket.socket(socket.AF_UNIX)
    s.connect(os.path.join(_dir, "s%d" % e["hash"]))
    zygote.send(s, (p, e))
    r = zygote.recv(s)
    s.close()
    if r is None:
        raise core.HarnessError("zygote child died")
    return files.unwrap(r)


def run(p):
    sim = core.SIM
    ref = run_env(p, {})
    for k, e in enumerate(p["envs"]):
        got = run_env(p, e)
        d = None
        for n, (a, b) in enumerate(zip(ref, got)):
            if a != b:
                d = "record %d (%s %s): %s in the reference environment, %s here" % (n, a[0], a[1] or "", a[1:], b)
                break
        if d is None and len(ref) != len(got):
            d = "%d records in the reference environment, %d here" % (len(ref), len(got))
        if d:
            show = {x: y for x, y in e.items() if x not in ("prior", "noise")}
            raise Violation("environment", "in environment %d %s%s: %s" % (k, show, " with unrelated lattices" if e.get("prior") else "", d))
        for key, name in (("hash", "other-hash-seed"), ("seed", "other-random-state"), ("clock", "other-clock"), ("prior", "prior-lattices"), ("noise", "noise-thread"), ("cwd", "other-cwd")):
            sim.probes[name] += e.get(key) is not None
        sim.probes["prior-atoms"] += bool(e.get("natoms"))
        sim.probes["debug-logging"] += e.get("log") == 10
        sim.probes["prior-failures"] += bool((e.get("prior") or {}).get("fail"))
        sim.stats["fault:environment-change"] += len(e)
    sim.probes["by-name"] += bool(p.get("names"))
    sim.probes["factory"] += bool(p.get("factory"))
    sim.ev(canon.digest(ref))
    return {"nontrivial": bool(p["envs"]), "sig": canon.digest(ref) + str(len(p["envs"]))}
