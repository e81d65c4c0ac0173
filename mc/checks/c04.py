"""Every sequence of best costs over a dyadic alphabet x every ftol / ftol_iter."""
import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import check
from ..runner import Harness

INF = float("inf")
# |3 - 2| = 1 = 0.25 * (1 + 3): differences exactly on the threshold occur
VALUES = [INF, 3.0, 2.0, 1.75, 0.0, -1.0]
KINDS = ["global", "local", "general:star", "binary"]


def seq_configs(tier):
    out = []
    T = 5 if tier == "quick" else 7
    for o in (KINDS if tier == "quick" else O.ALL_OPTS):
        for ftol in (0.25, 0.5, 0.0, None, 1.0):
            for fi in (1, 2, 3, T + 1) if tier == "quick" else (1, 2, 3, 4, 6, 7, 9):
                out.append(dict(opt=o, n=2, d=2, k=1, r=0, iters=T, ftol=ftol, ftol_iter=fi, noise=0))
    for o in O.ALL_OPTS:
        out.append(dict(opt=o, n=2, d=2, k=1, r=0, iters=4, ftol=0.25, ftol_iter=2, noise=1))
    return out


def seq_run(cfg, ctx):
    cur = [0]
    seq = []

    def cost(t, X, **kw):
        cur[0] += ctx.choose(len(VALUES) - cur[0], "best", free=True)
        seq.append(VALUES[cur[0]])
        c = np.full(len(X), 1e6 if not cfg["noise"] else 3.5 + t)
        c[t % len(X)] = VALUES[cur[0]]
        return c
    with rng.controlled(rng.FixedSource(4)):
        tr = O.Trace(cfg, cost, snapshots=False, keep_state=False)
        tr.optimize()
    O.mon_stop(tr, tr.calls[0])
    check(len(tr.opt.cost_history) == len(tr.X), "cost_history and the evaluations differ in number")
    ctx.state(cfg["opt"], cfg["ftol"], cfg["ftol_iter"], tuple(seq))
    ctx.step(len(seq))
    ctx.validated()
    ctx.outcome(len(seq), tuple(seq))
    ctx.sample(lambda: "%s ftol=%s ftol_iter=%s best costs %s -> %d iterations" % (cfg["opt"], cfg["ftol"], cfg["ftol_iter"], seq, len(tr.X)))


def win_configs(tier):
    out = []
    for o in (KINDS if tier == "quick" else O.ALL_OPTS):
        for fi in (1, 5, 12) if tier == "quick" else (1, 2, 5, 10, 12, 25, 39, 40, 41, 100):
            for ftol in (1e-9, 0.01) if tier == "thorough" else (1e-9,):
                out.append(dict(opt=o, n=3, d=2, k=2, r=0, iters=40, ftol=ftol, ftol_iter=fi))
    return out


def win_run(cfg, ctx):
    """Plateau with improvements at two chosen iterations."""
    a = ctx.choose(10, "a") * 2 + 1
    b = ctx.choose(9, "b") * 2
    size = ctx.pick([1.0, 1e-12], "size", free=True)

    def cost(t, X, **kw):
        c = np.full(len(X), 7.0)
        if t >= a:
            c -= size
        if t >= a + b:
            c -= 2 * size
        return c
    with rng.controlled(rng.FixedSource(4)):
        tr = O.Trace(cfg, cost, snapshots=False, keep_state=False)
        tr.optimize()
    O.mon_stop(tr, tr.calls[0])
    ctx.state(cfg["opt"], cfg["ftol_iter"], a, b, size)
    ctx.step(len(tr.X))
    ctx.validated()
    ctx.outcome(len(tr.X))


def full_configs(tier):
    """Without ftol: every iteration is executed, however flat the costs."""
    out = []
    for o in O.ALL_OPTS:
        for it in (1, 2, 3, 7, 50) if tier == "quick" else (1, 2, 3, 7, 50, 333, 1001):
            for fi in (1, 3, 100):
                out.append(dict(opt=o, n=4, d=2, k=2, r=0, iters=it, ftol_iter=fi))
    return out


def full_run(cfg, ctx):
    kind = ctx.choose(4, "kind")

    def cost(t, X, **kw):
        return [np.zeros(len(X)), np.full(len(X), -5.0 - t), np.full(len(X), 1e300), np.full(len(X), 3.0 + t)][kind]
    with rng.controlled(rng.FixedSource(4)):
        tr = O.Trace(cfg, cost, snapshots=False, keep_state=False)
        tr.optimize()
    check(len(tr.X) == cfg["iters"], lambda: "%d instead of %d iterations without ftol" % (len(tr.X), cfg["iters"]))
    ctx.state(cfg["opt"], cfg["iters"], cfg["ftol_iter"], kind)
    ctx.step(len(tr.X))
    ctx.validated()


def call_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for fi in (1, 2, 3):
            out.append(dict(opt=o, n=3, d=2, k=2, r=0, ftol=0.25, ftol_iter=fi, calls=2 if tier == "quick" else 3))
    return out


def call_run(cfg, ctx):
    """Repeated calls: the window of one call does not see the previous call."""
    val = [0]

    def cost(t, X, **kw):
        return np.full(len(X), val[0])
    plan = []
    with rng.controlled(rng.FixedSource(4)):
        tr = O.Trace(cfg, lambda t, X: cost(t, X), snapshots=False, keep_state=False)
        for c in range(cfg["calls"]):
            steps = ctx.pick([(0, 0, 0, 0, 0), (2, 2, 0, 0, 0), (0, 2, 2, 2, 2), (0, 0, 0, 4, 0)], "plan", free=True)
            it = ctx.pick([5, 2], "iters", free=True)
            plan.append((steps, it))
            base = [8.0]
            t0 = len(tr.X)

            def cost2(t, X, steps=steps, t0=t0, base=base):
                base[0] -= steps[(t - t0) % 5]
                return np.full(len(X), base[0])
            tr.costfn = cost2
            if c and ctx.choose(2, "reset", free=True):
                tr.reset()
            tr.optimize(iters=it)
            O.mon_stop(tr, tr.calls[-1])
    ctx.state(cfg["opt"], cfg["ftol_iter"], tuple(plan))
    ctx.step(len(tr.X))
    ctx.validated()


BOUNDS = ("all non-increasing best-cost sequences of length 5 (thorough 7) over 6 values incl. inf with exact threshold hits x 5 ftol x 4 (7) ftol_iter; "
          "two improvements at every place of a 40-iteration plateau; runs without ftol up to 50 (1001) iterations; sequences of 2 (3) calls with optional reset")
BOUNDS += F.SCALE_NOTE
BOUNDS += F.KINDS_NOTE
ASSUMPTIONS = ["no NaN costs"]
HARNESSES = [
    Harness("sequences", seq_run, seq_configs),
    Harness("windows", win_run, win_configs),
    Harness("no_ftol", full_run, full_configs),
    Harness("calls", call_run, call_configs),
    F.scale_family([O.mon_stop], variants=[dict(ftol=0.02, ftol_iter=3), dict(ftol=1e-9, ftol_iter=30)], keep_state=False),
    F.extreme_family([O.mon_stop], variants=[dict(ftol=1e-300, ftol_iter=9001), dict(ftol=1e9, ftol_iter=11999), dict()]),
    F.kinds_family([O.mon_stop], snapshots=False, variants=[dict(ftol=1e-13, ftol_iter=1), dict(ftol=0.5, ftol_iter=2), dict()], iters=8),
]
