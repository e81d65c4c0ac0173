"""Star: one global best that only ever improves."""
import itertools

import numpy as np

from .. import env, families as F, opt as O, rng, topo
from ..core import check
from ..runner import Harness
from pyswarms.backend.topology import Star

INF = float("inf")
ALPHAS = {"std": [1.0, 0.0, 2.0, INF], "neg": [-1.0, -2.0, 0.0, -INF], "close": [1.0, np.nextafter(1.0, 0), np.nextafter(1.0, 2), 1e300]}


def check_one(top, costs, bc, bp, d, labels=None):
    n = len(costs)
    pts = [(i,) * d for i in range(n)]
    L = topo.label_matrix(n, d) if labels is None else labels
    s = topo.swarm(pts, costs, labels=L, best_cost=bc, best_pos=bp)
    pos, cost = top.compute_gbest(s)
    low = min(costs)
    what = "personal best costs %s, current best cost %r at %s" % (costs, bc, None if bp is None else bp.tolist())
    pos = np.asarray(pos)
    check(pos.shape == (d,), lambda: "%s: best position %r" % (what, pos))
    if low < bc or bp is None:
        check(float(cost) == low, lambda: "%s: new best cost %r" % (what, cost))
        check(any(costs[i] == low and np.array_equal(pos, L[i]) for i in range(n)), lambda: "%s: best position %s is not a personal best position of cost %r" % (what, pos.tolist(), low))
    else:
        check(float(cost) == bc, lambda: "%s: best cost became %r" % (what, cost))
        check(np.array_equal(pos, bp), lambda: "%s: best position became %s" % (what, pos.tolist()))
    check(np.array_equal(s.pbest_pos, L) and np.array_equal(s.pbest_cost, np.array(costs)), lambda: "%s: inputs modified" % what)
    return pos, cost


def one_configs(tier):
    return [dict(n=n, d=d, alpha=a, first=f) for n in (1, 2, 3, 4) + ((5, 6) if tier == "thorough" else (5,)) for d in (1, 2, 3) for a in ALPHAS for f in range(4)]


def one_run(cfg, ctx):
    n, d, al = cfg["n"], cfg["d"], ALPHAS[cfg["alpha"]]
    bc = (al + [INF])[ctx.choose(len(al) + 1, "best")]
    old = ctx.choose(2 if np.isfinite(bc) is False or bc == INF else 1, "nopos")
    has = bc < INF or not old
    bp = np.full(d, -77.0) if has else None
    top = Star()
    for rest in itertools.product(al, repeat=n - 1):
        costs = [al[cfg["first"]]] + list(rest)
        pos, cost = check_one(top, costs, bc, bp, d)
        ctx.state(costs, bc, has, d)
        ctx.step()
        ctx.validated()
    ctx.outcome(pos, cost)
    ctx.sample(lambda: "costs %s current best %r -> %r at %s" % (costs, bc, cost, pos))


def seq_configs(tier):
    return [dict(n=2, d=1, depth=3), dict(n=1, d=2, depth=4), dict(n=3, d=2, depth=2)] + ([dict(n=2, d=2, depth=4), dict(n=3, d=1, depth=3)] if tier == "thorough" else [])


def seq_run(cfg, ctx):
    """Sequences of calls, feeding back the best: it never gets worse."""
    n, d = cfg["n"], cfg["d"]
    top = Star()
    bc, bp = INF, None
    for t in range(cfg["depth"]):
        costs = [ctx.pick(ALPHAS["std"], "c") for _ in range(n)]
        L = topo.label_matrix(n, d, base=1000.0 + 100 * t)
        pos, cost = check_one(top, costs, bc, bp, d, labels=L)
        check(cost <= bc, lambda: "best cost went from %r to %r" % (bc, cost))
        bc, bp = cost, np.array(pos)
        ctx.state(t, costs, bc)
        ctx.step()
    ctx.validated()
    ctx.outcome(bc, bp)


def large_configs(tier):
    return [dict(n=n, d=d) for n in (7, 30, 100) for d in (1, 6)]


def large_run(cfg, ctx):
    n, d = cfg["n"], cfg["d"]
    w = ctx.choose(n, "winner")
    top = Star()
    for base in (5.0, -5.0, 1e-3):
        costs = [base + ((i * 13 + w) % n) for i in range(n)]
        costs[w] = base - 1.0
        for bc in (INF, base, base - 1.0, base - 2.0):
            check_one(top, costs, bc, np.full(d, -7.0), d)
            ctx.step()
            ctx.state(n, d, w, base, bc)
    ctx.validated()


def mon(tr):
    """In a run the position all particles follow is the best evaluated so far."""
    for c in tr.calls:
        for t in range(c.start, c.end):
            st = tr.S[t + 1] if t + 1 < c.end else c.final
            cost, pos = O.model_pbest(tr, c, t + 1)
            low = min(cost)
            check(float(st["best_cost"]) == low, lambda: "after evaluation %d the best cost is %r, lowest so far %r" % (t, st["best_cost"], low))
            if low < INF:
                seen = [(u, i) for u in range(c.start, t + 1) for i in range(tr.cfg["n"]) if float(tr.C[u][i]) == low]
                check(any(np.array_equal(st["best_pos"], tr.X[u][i]) for u, i in seen), lambda: "after evaluation %d the best position %s was never given cost %r" % (t, st["best_pos"], low))
                # it only changes with a strictly lower cost
                if t > c.start and t + 1 < c.end and min(O.model_pbest(tr, c, t)[0]) == low:
                    check(np.array_equal(st["best_pos"], tr.S[t]["best_pos"]), lambda: "best position changed in evaluation %d without a lower cost" % t)


STARS = ["global", "general:star"]
BOUNDS = ("all personal best cost vectors of up to 5 (thorough 6) particles over three 4-letter alphabets with infinities x every current best; sequences of up to 4 calls; swarms of up to 100 with every winner; "
          "in optimizers: all cost orders, configurations, call sequences")
ASSUMPTIONS = ["costs are not NaN"]
HARNESSES = [
    Harness("onestep", one_run, one_configs),
    Harness("sequence", seq_run, seq_configs),
    Harness("large", large_run, large_configs),
    F.orders([], finish_mons=[mon], opts=STARS, shapes=F.default_shapes),
    F.needle([], opts=STARS, finish_mons=[mon], keep_state=True),
    F.configs_family([], dict(O.DEFAULT, opt="global"), finish_mons=[mon], keys=["opt", "n", "d", "iters", "bounds", "bh", "vh", "clamp", "opts", "oh", "init", "ftol"],
                     alternatives={"opt": STARS[1:]}),
    F.calls_family([], opts=STARS, finish_mons=[mon]),
]
