import itertools

import numpy as np

from .. import families as F
from .. import opt as O
from ..core import check
from ..runner import Harness

from pyswarms.backend.operators import compute_pbest
from pyswarms.backend.swarms import Swarm

INF = float("inf")
ALPHABET = [0.0, -1.0, 1e-300, 2.0, INF]


def configs(tier):
    shapes = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 5), (3, 2)] + ([(3, 3), (3, 1)] if tier == "thorough" else [])
    out = [dict(n=n, d=d, alpha=0) for n, d in shapes]
    out += [dict(n=4, d=4, alpha=1), dict(n=4, d=2, alpha=1)]
    out += [dict(n=m, d=3, alpha=2) for m in (16, 65, 130)]
    return out


def run(cfg, ctx):
    """Every pair (personal best cost, current cost) for every particle."""
    n, d = cfg["n"], cfg["d"]
    if cfg["alpha"] == 0:
        cur = np.array([ctx.pick(ALPHABET, "cur") for _ in range(n)])
        old = np.array([ctx.pick(ALPHABET, "old") for _ in range(n)])
    elif cfg["alpha"] == 1:
        cur = np.array([ctx.pick([1, 2], "cur") for _ in range(n)])
        old = np.array([ctx.pick([1, 2], "old") for _ in range(n)])
    else:       # exactly one particle improves
        w = ctx.choose(n, "who")
        cur = np.arange(n) * 1.0 + ctx.choose(2, "tie") * 0.5
        old = cur - 0.25 * ctx.choose(2, "eq")
        cur[w] = old[w] - 1e-9
    x = np.arange(n * d, dtype=float).reshape(n, d)
    p = -1.0 - np.arange(n * d, dtype=float).reshape(n, d)
    if ctx.choose(2, "dtype"):
        x, p = x.astype(int), p.astype(int)
    s = Swarm(position=x, velocity=np.zeros((n, d)), pbest_pos=p, pbest_cost=old, current_cost=cur)
    keep = [a.copy() for a in (x, p, old, cur)]
    pos, cost = compute_pbest(s)
    for i in range(n):
        better = keep[3][i] < keep[2][i]
        check(cost[i] == (keep[3][i] if better else keep[2][i]) and np.array_equal(pos[i], keep[0][i] if better else keep[1][i]),
              lambda: "current costs %s, personal best costs %s: particle %d gets cost %r position %s" % (keep[3], keep[2], i, cost[i], pos[i]))
    check(np.shape(pos) == (n, d) and np.shape(cost) == (n,), "wrong shapes")
    for a, b in zip((x, p, old, cur), keep):
        check(np.array_equal(a, b), "compute_pbest modified its input")
    check(np.array_equal(s.pbest_cost, keep[2]) and np.array_equal(s.pbest_pos, keep[1]), "compute_pbest modified the swarm")
    # the result must not alias the live position matrix
    x += 1000
    for i in range(n):
        better = keep[3][i] < keep[2][i]
        check(np.array_equal(pos[i], keep[0][i] if better else keep[1][i]), "personal best positions alias the current positions")
    ctx.state(n, d, keep[2], keep[3])
    ctx.step()
    ctx.validated()
    ctx.sample(lambda: "compute_pbest cur=%s old=%s -> %s" % (keep[3].tolist(), keep[2].tolist(), np.asarray(cost).tolist()))


BOUNDS = ("compute_pbest: all (current, personal best) cost pairs from 5 letters for up to 3 particles, 2 letters for 4, one improving particle among 130; "
          "runs: all cost assignments of the orders family, every single deviating evaluation of the needle family (130 iterations, 64 particles), configurations within 2 changes, call sequences")
BOUNDS += F.SCALE_NOTE
BOUNDS += F.KINDS_NOTE
ASSUMPTIONS = ["no NaN costs"]
HARNESSES = [
    Harness("compute_pbest", run, configs),
    F.orders([O.mon_pbest], shapes=lambda t: [(2, 3, "std", None), (2, 2, "inf", None), (3, 2, "two", "same"), (2, 2, "close", None)]
             + ([(3, 3, "two", None), (3, 2, "std", None), (2, 4, "std", None)] if t == "thorough" else [])),
    F.needle([O.mon_pbest], keep_state=True, modes=("down", "up")),
    F.configs_family([O.mon_pbest], O.DEFAULT, rbound=0),
    F.calls_family([O.mon_pbest]),
    F.scale_family([O.mon_pbest]),
    F.extreme_family([O.mon_pbest]),
    F.kinds_family([O.mon_pbest], snapshots=False),
]
