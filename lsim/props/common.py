"""Pieces shared by several properties."""
import numpy as np
from .. import cells, canon, core, model, ops
from ..core import SIM, Skip, Violation  # noqa: F401


def wide_enough(cell, trans):
    """No pair of sites is linked by two different ways (documented domain)."""
    reach = max((x for r in cell.allowed for c in r for x in (c or [0])), default=0)
    t = [np.linalg.norm(np.array(x) @ cell.v) for x in trans]
    return not t or min(t) > 2 * reach * 1.0001 + 1e-3


def keys_of(latt):
    return [tuple(int(x) for x in r) for r in np.asarray(latt.indices)]


def gen_axes(rng, dim):
    r = rng.random()
    if r < 0.25:
        return True
    n = rng.randint(1, dim)
    ax = rng.sample(range(dim), n)
    if n == 1 and rng.random() < 0.6:
        return ax[0]
    if rng.random() < 0.7:
        ax.sort()
    return ax


def gen_coarse_fault(rng, kind):
    """A fault that strikes inside the operation at a library/user-code boundary."""
    c = ["kd", "kd", "worker"]
    if kind == "build":
        c += ["cb", "shape", "cb"]
    c = rng.choice(c)
    if c == "kd":
        return {"kd": rng.randint(1, 4)}
    if c == "worker":
        return {"worker": [rng.randint(1, 2), rng.randrange(4)]}
    if c == "cb":
        return {"cb": rng.choice(["raise", "raise", "interrupt", "garbage"]), "exc": rng.choice(ops.USER_ERRORS)}
    return {"shape": {"where": rng.choice(["limits", "contains"]), "at": rng.randint(1, 2), "exc": rng.choice(ops.USER_ERRORS)}}


def set_env(env):
    sim = core.SIM
    sim.cpus = int(env.get("cpus", 4)) if env else 4
    sim.kd.order = env.get("order") if env else None


def gen_env(rng):
    return {"cpus": rng.choice([1, 2, 3, 4, 8, 16]), "order": rng.randrange(1 << 20)}
