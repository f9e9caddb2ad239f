"""Seeded search: many simulated runs, each in its own forked process; minimiser, replay,
evidence.

usage: check CXX [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
       check --replay FILE
       check CXX --digests N     (determinism: prints the event digest of N runs)
"""
import argparse
import contextlib
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import traceback
from collections import Counter

from . import core, simio

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
now = core.REAL_TIME
_os_write, _os_read = os.write, os.read
DEADLINE = {"quick": 140.0, "thorough": 3000.0}
RUN_LIMIT = 100.0


def prop_module(pid):
    return importlib.import_module("lsim.props." + pid.lower())


class Rng(random.Random):
    """Seeded source of all choices."""

    def u(self, digits):
        """Number in [0, 1) with few digits."""
        return self.randrange(10 ** digits) / 10 ** digits


def program_for(mod, pid, seed, i, tier):
    h = hashlib.sha256(("%s:%d:%d" % (pid, seed, i)).encode()).digest()
    return mod.gen(Rng(int.from_bytes(h[:16], "big")), tier)


def sha(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]


# ------------------------------------------------------------------------- one execution
def child_main(mod, program, fd):
    sim = core.new_sim()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

    def report(v, extra=None):
        out = {"stats": dict(sim.stats), "probes": dict(sim.probes), "digest": sim.digest(), "sim_time": sim.clock - 1.6e9}
        if isinstance(v, core.Violation):
            out["viol"] = [v.kind, str(v.msg)[:2000]]
        out.update(extra or {})
        data = json.dumps(out).encode()
        while data:
            data = data[_os_write(fd, data):]
    sim.report = lambda v: (simio.DISK.unmount() if core._in_sched() is None else _rm(), report(v))
    gc.disable()
    random.seed(12345)
    core.np.random.seed(54321)
    v, extra = None, {}
    try:
        r = mod.run(program) or {}
        extra["nontrivial"] = bool(r.get("nontrivial", True))
        extra["sig"] = str(r.get("sig", ""))
    except core.Violation as e:
        v = e
    except core.Skip as e:
        extra["skip"] = str(e)
    except BaseException as e:  # noqa
        sys.settrace(None)
        v = core.leaked(e)
        tbs = traceback.format_exc()
        if v is None:
            extra["harness"] = tbs[-3000:]
        else:
            extra["tb"] = tbs[-2500:]
    finally:
        sys.settrace(None)
        try:
            simio.DISK.unmount()
        except BaseException:
            pass
    report(v, extra)


def _rm():
    import shutil
    if simio.DISK.root:
        shutil.rmtree(simio.DISK.root, ignore_errors=True)


def execute(mod, program, limit=RUN_LIMIT):
    """Runs a program in a forked child; returns its result dictionary."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open("/dev/null", os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            child_main(mod, program, w)
        except BaseException:
            code = 77
        os._exit(code)
    os.close(w)
    chunks, end, timed_out = [], now() + limit, False
    while True:
        left = end - now()
        if left <= 0:
            timed_out = True
            break
        if select.select([r], [], [], left)[0]:
            b = _os_read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {"timeout": True, "stats": {}, "probes": {}}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGSEGV:
            # CPython 3.12 itself can crash when exceptions are raised from bytecode trace functions
            return {"skip": "interpreter crash", "stats": {"interpreter-crash": 1}, "probes": {}}
        return {"harness": "child died (status %d)" % st, "stats": {}, "probes": {}}


# ----------------------------------------------------------------------------- minimiser
def _paths(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        yield path
        for i, y in enumerate(x):
            if isinstance(y, (dict, list)):
                yield from _paths(y, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def minimise(mod, program, kind, budget=25.0, tries=500):
    """Drops list elements and optional keys, then shrinks numbers, keeping `kind`."""
    t0, n = now(), [0]
    fixed = set(getattr(mod, "FIXED", ())) | {"vectors", "atoms"}
    best = program

    def ok(p):
        if n[0] >= tries or now() - t0 > budget:
            return False
        n[0] += 1
        r = execute(mod, p, 20.0)
        return bool(r.get("viol")) and r["viol"][0] == kind

    changed = True
    while changed and n[0] < tries and now() - t0 < budget:
        changed = False
        for path in sorted(_paths(best), key=len):
            if any(p in fixed for p in path):
                continue
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                i = 0
                while True:
                    try:
                        lst = _get(best, path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if not isinstance(lst, list) or i >= len(lst):
                        break
                    cand = copy.deepcopy(best)
                    del _get(cand, path)[i:i + size]
                    if ok(cand):
                        best, changed = cand, True
                    else:
                        i += size
                size //= 2
        # optional keys of operations
        for path in list(_paths(best)):
            if any(p in fixed for p in path):
                continue
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            for i, e in enumerate(lst if isinstance(lst, list) else []):
                if isinstance(e, dict):
                    for k in list(e):
                        if k in ("op", "kind", "on", "at", "shape") or k in fixed:
                            continue
                        cand = copy.deepcopy(best)
                        del _get(cand, path)[i][k]
                        if ok(cand):
                            best, changed = cand, True
    # numbers
    def nums(x, path=()):
        it = x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()
        for k, v in it:
            if k in fixed:
                continue
            if isinstance(v, int) and not isinstance(v, bool) and v > 2:
                yield path + (k,)
            elif isinstance(v, (dict, list)):
                yield from nums(v, path + (k,))
    for path in list(nums(best)):
        while n[0] < tries and now() - t0 < budget:
            v = _get(best, path)
            done = False
            for c in (1, v // 2, v - 1):
                if 0 < c < v:
                    cand = copy.deepcopy(best)
                    _get(cand, path[:-1])[path[-1]] = c
                    if ok(cand):
                        best, done = cand, True
                        break
            if not done:
                break
    return best, n[0]


# ------------------------------------------------------------------------------- workers
def worker(mod, pid, seed, tier, runs, w, nw, deadline, fd):
    agg = Counter()
    probes = Counter()
    digests, sigs, sig_total = set(), set(), 0
    res = {"evals": 0, "skips": 0, "samples": [], "harness": [], "viol": None, "nontrivial": 0, "sim_time": 0.0}
    nt_digests = set()
    for i in range(w, runs, nw):
        if now() > deadline:
            res["cut"] = True
            break
        try:
            program = program_for(mod, pid, seed, i, tier)
        except Exception:
            res["harness"].append([i, "gen: " + traceback.format_exc()[-1500:]])
            break
        r = execute(mod, program)
        if r.get("timeout"):
            r = execute(mod, program, 2 * RUN_LIMIT)
            if r.get("timeout"):
                r = {"viol": ["no-progress", "the run did not end within %ds of real time" % (2 * RUN_LIMIT)], "stats": {}, "probes": {}, "digest": ""}
        res["evals"] += 1
        agg.update(r["stats"])
        probes.update(r["probes"])
        if r.get("harness"):
            res["harness"].append([i, r["harness"]])
            if len(res["harness"]) > 3:
                break
            continue
        if r.get("skip") is not None:
            res["skips"] += 1
            continue
        res["sim_time"] += r.get("sim_time", 0.0)
        digests.add(r["digest"])
        if r.get("sig"):
            sigs.add(r["sig"])
        if r.get("nontrivial"):
            res["nontrivial"] += 1
            nt_digests.add(r["digest"])
        if len(res["samples"]) < 1 and r.get("nontrivial"):
            res["samples"].append({"run": i, "program": program, "event_digest": r["digest"]})
        if r.get("viol"):
            res["viol"] = {"run": i, "program": program, "viol": r["viol"], "digest": r["digest"], "tb": r.get("tb")}
            break
    res.update(stats=dict(agg), probes=dict(probes), digests=sorted(digests), nt=sorted(nt_digests), sigs=sorted(sigs))
    data = json.dumps(res).encode()
    while data:
        data = data[_os_write(fd, data):]


def search(mod, pid, seed, tier, runs, nw, deadline):
    procs = {}
    for w in range(nw):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                worker(mod, pid, seed, tier, runs, w, nw, deadline, wr)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(wr)
        procs[r] = [p, []]
    out = []
    grace = None
    while procs:
        t = 5.0 if grace is None else max(0.0, grace - now())
        if grace is not None and now() >= grace:
            break
        for r in select.select(list(procs), [], [], t)[0]:
            b = _os_read(r, 1 << 20)
            if b:
                procs[r][1].append(b)
                continue
            p, chunks = procs.pop(r)
            os.close(r)
            os.waitpid(p, 0)
            try:
                res = json.loads(b"".join(chunks))
            except ValueError:
                res = {"harness": [[-1, "worker died"]], "evals": 0, "skips": 0, "samples": [], "viol": None, "nontrivial": 0, "stats": {}, "probes": {}, "digests": [], "nt": [], "sigs": [], "sim_time": 0}
            out.append(res)
            if res["viol"] and grace is None:
                grace = now() + 5.0  # let the others end, then stop them
    for r, (p, _) in procs.items():
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            os.kill(p, signal.SIGKILL)
        os.waitpid(p, 0)
        os.close(r)
    return out


# ------------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    for line in open(p, encoding="utf-8") if os.path.exists(p) else ():
        if line.startswith("known:") and ("property=%s " % pid) in line:
            f = dict(x.split("=", 1) for x in line.split("|", 1)[0].split()[1:] if "=" in x)
            out.append((f.get("kind"), f.get("program"), line.split("|", 1)[-1].strip()))
    return out


# ---------------------------------------------------------------------------------- main
@contextlib.contextmanager
def services(mod):
    """Helper processes a property needs (started before the workers are forked)."""
    if not hasattr(mod, "setup"):
        yield
        return
    mod.setup()
    try:
        yield
    finally:
        mod.teardown()


def replay(path, quiet=False):
    rec = json.load(open(path))
    mod = prop_module(rec["property"])
    r = execute(mod, rec["program"], 2 * RUN_LIMIT)
    if r.get("timeout"):
        r["viol"] = ["no-progress", "the run did not end"]
    if not quiet:
        print(json.dumps({k: r.get(k) for k in ("viol", "digest", "harness", "skip")}, indent=1))
        if r.get("tb"):
            print(r["tb"])
    if r.get("viol"):
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        print("REPLAYED kind=%s digest=%s" % (r["viol"][0], r.get("digest")))
        return 1
    return 2 if r.get("harness") else 0


def report_violation(mod, pid, seed, tier, v):
    kind = v["viol"][0]
    small, tries = minimise(mod, v["program"], kind)
    os.makedirs(EVID, exist_ok=True)
    note = None
    for attempt, prog in enumerate((small, v["program"])):
        r = execute(mod, prog, 2 * RUN_LIMIT)
        path = os.path.join(EVID, "replay-%s-%d-%d.json" % (pid, seed, v["run"]))
        rec = {"property": pid, "seed": seed, "run": v["run"], "tier": tier, "kind": kind,
               "message": (r.get("viol") or v["viol"])[1], "digest": r.get("digest"),
               "minimised": attempt == 0, "minimiser_runs": tries, "program": prog, "original_program": v["program"]}
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        p = subprocess.run([os.path.join(ROOT, "check"), "--replay", path], capture_output=True, text=True)
        if p.returncode == 1 and ("kind=%s digest=%s" % (kind, r.get("digest"))) in p.stdout:
            note = "replayed in a fresh process: same violation, same event digest"
            break
        note = "replay differs: exit %d %s" % (p.returncode, p.stdout[-300:])
    print("violation kind: %s (run %d of seed %d)" % (kind, v["run"], seed))
    print(rec["message"])
    if v.get("tb"):
        print(v["tb"])
    print(note)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return rec


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--digests", type=int)
    ap.add_argument("--show", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    t0 = now()
    core.boot()
    simio.install()
    gc.freeze()
    if a.replay:
        mod = prop_module(json.load(open(a.replay))["property"])
        with services(mod):
            return replay(os.path.abspath(a.replay))
    pid = a.property.upper()
    mod = prop_module(pid)
    with services(mod):
        return run_main(a, pid, mod, t0)


def run_main(a, pid, mod, t0):
    if a.show is not None:
        prog = program_for(mod, pid, a.seed, a.show, a.tier)
        print(json.dumps(prog))
        r = execute(mod, prog)
        print(json.dumps(r, indent=1))
        return 0
    nw = a.workers or max(1, min(8, len(REAL_AFFINITY)))
    runs = a.runs or mod.RUNS[a.tier]
    if a.digests:
        for i in range(a.digests):
            r = execute(mod, program_for(mod, pid, a.seed, i, a.tier))
            print(i, r.get("digest"), r.get("sig"), r.get("viol"), r.get("skip"), (r.get("harness") or "")[-200:])
        return 0
    print("%s tier=%s seed=%d runs=%d workers=%d" % (pid, a.tier, a.seed, runs, nw), flush=True)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    out = search(mod, pid, a.seed, a.tier, runs, nw, t0 + DEADLINE[a.tier])
    viols = sorted((o["viol"] for o in out if o["viol"]), key=lambda v: v["run"])
    harness = [h for o in out for h in o["harness"]]
    known = known_findings(pid)
    viols = [v for v in viols if not any(k[0] == v["viol"][0] and k[1] == sha(v["program"]) for k in known)]
    rc, rec = 0, None
    if viols:
        rec = report_violation(mod, pid, a.seed, a.tier, viols[0])
        rc = 1
    elif harness:
        for i, h in harness[:3]:
            print("HARNESS ERROR in run %d: %s" % (i, h))
        rc = 2
    wall = now() - t0
    stats, probes = Counter(), Counter()
    for o in out:
        stats.update(o["stats"])
        probes.update(o["probes"])
    evals = sum(o["evals"] for o in out)
    nt = set().union(*[o["nt"] for o in out]) if out else set()
    dg = set().union(*[o["digests"] for o in out]) if out else set()
    sg = set().union(*[o["sigs"] for o in out]) if out else set()
    if rc == 0 and stats.get("interpreter-crash", 0) > 0.01 * evals:
        print("HARNESS ERROR: the interpreter crashed in %d runs" % stats["interpreter-crash"])
        rc = 2
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    for k in getattr(mod, "PROBES", ()):
        probes.setdefault(k, 0)
    cov = {
        "evaluations": evals, "distinct_nontrivial": len(nt), "rule": mod.RULE,
        "samples": [o["samples"][0] for o in out if o["samples"]][:2],
        "simulated_runs_per_hour": int(evals / max(wall, 1e-3) * 3600),
        "seeds": {"base": a.seed, "runs": [0, evals], "derivation": "sha256(property:seed:run)"},
        "simulated_time_s": round(sum(o["sim_time"] for o in out), 3),
        "scheduler_steps": stats.get("steps", 0), "context_switches": stats.get("switches", 0),
        "faults_injected": faults, "operations": {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op:")},
        "failed_operations": stats.get("op-failed", 0), "queries": stats.get("queries", 0),
        "io": {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("io:")},
        "probes": dict(sorted(probes.items())),
        "distinct_event_histories": len(dg), "distinct_by_measure": {"measure": getattr(mod, "MEASURE", "event history"), "count": len(sg) or len(dg)},
        "interpreter_crashes": stats.get("interpreter-crash", 0), "outside_domain": sum(o["skips"] for o in out), "cut_by_deadline": any(o.get("cut") for o in out),
        "real_components": getattr(mod, "REAL", "all of lattpy, numpy, scipy, pickle, Python's buffered I/O"),
        "stub_components": getattr(mod, "STUB", "thread scheduler, locks, clock, raw file transfers, KD-tree worker split, user callbacks"),
    }
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
    if not a.no_evidence:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%d runs, %d nontrivial distinct, %d skipped, %.1f s, faults: %s" % (evals, len(nt), cov["outside_domain"], wall, faults))
    print("probes:", dict(sorted(probes.items())))
    return rc


REAL_AFFINITY = os.sched_getaffinity(0)

if __name__ == "__main__":
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix="lsim_run_", dir="/tmp")  # every file any simulated process makes
    os.environ["LSIM_SCRATCH"] = scratch
    try:
        code = main()
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
