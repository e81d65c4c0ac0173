"""Von Neumann: Delannoy number of neighbours, kept from the first call."""
import itertools

import numpy as np

from .. import env, families as F, opt as O, rng, topo
from ..core import check
from ..runner import Harness
from . import c16
from pyswarms.backend.topology import VonNeumann


# VonNeumann is a static topology however it is made
MAKE = [lambda: VonNeumann(), lambda: VonNeumann(static=False), lambda: VonNeumann(static=True), lambda: VonNeumann(static=None), lambda: VonNeumann(False)]


def del_configs(tier):
    m = 6 if tier == "quick" else 9
    return [dict(d=d, r=r) for d in range(m + 1) for r in range(m + 1)] + [dict(d=1, r=60), dict(d=60, r=1), dict(d=2, r=25), dict(d=25, r=2), dict(d=0, r=40), dict(d=40, r=0)]


def del_run(cfg, ctx):
    d, r = cfg["d"], cfg["r"]
    how = ctx.choose(2, "how")
    got = VonNeumann.delannoy(d, r) if how == 0 else VonNeumann().delannoy(d, r)
    check(got == topo.delannoy(d, r), lambda: "delannoy(%d, %d) = %r, should be %d" % (d, r, got, topo.delannoy(d, r)))
    ctx.state(d, r)
    ctx.step()
    ctx.validated()
    ctx.outcome(got)


def one_configs(tier):
    shapes = [(1, 4, 3, 1), (1, 5, 4, 1), (1, 3, 5, 2), (1, 3, 5, 1), (2, 2, 5, 1), (2, 2, 6, 1), (1, 3, 6, 2), (1, 4, 3, 0), (2, 2, 3, 0), (3, 2, 3, 0)]
    if tier == "thorough":
        shapes += [(2, 3, 6, 1), (1, 5, 6, 2), (2, 2, 7, 1), (1, 5, 5, 1), (3, 2, 8, 1)]
    else:
        shapes += [(2, 3, 6, 1)]
    out = []
    for d, side, n, r in shapes:
        pts = list(itertools.combinations_with_replacement(range(side ** d), n))
        if tier == "quick" and len(pts) > 1000:
            pts = pts[::7]
        for ch in c16.chunks(pts, 40):
            out.append(dict(d=d, side=side, n=n, r=r, points=ch))
    return out


def one_run(cfg, ctx):
    n, d, r = cfg["n"], cfg["d"], cfg["r"]
    lat = c16.lattice(d, cfg["side"])
    pts = [lat[i] for i in ctx.pick(cfg["points"], "points")]
    p = 1 + ctx.choose(2, "p")
    k = topo.delannoy(d, r)
    groups = topo.knn_groups(pts, k, p)
    moved = [pts[(3 * i + 1) % n] for i in range(n)]
    make = ctx.choose(3 if n <= 5 else 1, "make")
    top = MAKE[make]()
    for t, costs in enumerate(topo.cost_orders(n)):
        # the neighbourhoods of the first call are kept when particles move
        s = topo.swarm(pts if t % 3 == 0 else moved, costs)
        bp, bc = top.compute_gbest(s, p=p, r=r)
        g = topo.guides(bp, n, d)
        for i in range(n):
            ok = topo.feasible_guides(groups[i], costs)
            check(g[i] in ok, lambda: "points %s (call %d), costs %s, r=%d p=%d: particle %d is guided by %d; its D(%d,%d)=%d nearest allow %s" % (pts, t, costs, r, p, i, g[i], d, r, k, sorted(ok)))
        check(bc == min(costs), lambda: "best cost %r of %s" % (bc, costs))
        ctx.step()
        ctx.validated()
        ctx.state(pts, costs, p, r)
    ctx.outcome(tuple(g))
    ctx.sample(lambda: "points %s r=%d p=%d last costs %s guides %s" % (pts, r, p, costs, g))


def big_configs(tier):
    return [dict(shape=s, n=n, d=d, r=r, p=p) for s in ["grid", "line", "same", "two", "diag", "spread", "pairs"]
            for (n, d, r) in ((25, 2, 2), (30, 2, 3), (30, 3, 2), (40, 1, 7), (24, 4, 1), (64, 3, 3)) for p in (1, 2)]


def big_run(cfg, ctx):
    n, d, r, p = cfg["n"], cfg["d"], cfg["r"], cfg["p"]
    pts = c16.big_points(cfg["shape"], n, d)
    k = topo.delannoy(d, r)
    groups = topo.knn_groups(pts, k, p)
    top = MAKE[ctx.choose(len(MAKE), "make")]()
    moved = [pts[(3 * i + 1) % n] for i in range(n)]
    for w in range(n):
        costs = [5.0 + ((i * 11 + w) % n) for i in range(n)]
        costs[w] = -1.0
        bp, bc = top.compute_gbest(topo.swarm(moved if w % 3 else pts, costs), p=p, r=r)
        g = topo.guides(bp, n, d)
        for i in range(n):
            ok = topo.feasible_guides(groups[i], costs)
            check(g[i] in ok, lambda: "%s points, best particle %d, r=%d p=%d: particle %d is guided by %d, allowed %s" % (cfg["shape"], w, r, p, i, g[i], sorted(ok)))
        check(bc == -1.0, "best cost")
        ctx.step()
        ctx.validated()
        ctx.state(cfg["shape"], n, d, r, p, w)


def mon(tr):
    c16.guide_monitor(tr, k_of=lambda c: topo.delannoy(c["d"], c["r"]), dynamic=False)


BOUNDS = ("delannoy(d, r) for d, r <= 6 (thorough 9) and some long strips; all multisets of 3-6 (8) points on 1-3 dimensional lattices x cost orders x both norms "
          "with moving particles; structured sets of 24-64 points with every winner; in the optimizer: cost orders, configurations, call sequences")
ASSUMPTIONS = ["D(d, r) <= n_particles"]
HARNESSES = [
    Harness("delannoy", del_run, del_configs),
    Harness("onestep", one_run, one_configs),
    Harness("large", big_run, big_configs),
    F.orders([], finish_mons=[mon], opts=["general:vn"], shapes=lambda t: [(3, 2, "std", None), (5, 1, "std", "lat"), (3, 3, "two", None), (5, 2, "two", "same")], extra=dict(d=1, r=1)),
    F.configs_family([], dict(O.DEFAULT, opt="general:vn", n=6, d=2, r=1), finish_mons=[mon], keys=["n", "d", "r", "p", "iters", "bounds", "bh", "opts", "init", "clamp", "ftol"],
                     alternatives={"n": [5, 7, 30], "r": [0, 2], "p": [1], "d": [1, 3], "bounds": ["asym"], "bh": ["nearest", "random"], "opts": ["big"], "init": ["lat", "same", "coll"], "clamp": ["s"]}),
    F.calls_family([], opts=["general:vn"], finish_mons=[mon], variants=[dict(n=6, d=2, r=1), dict(n=4, d=1, r=1, p=1)]),
]
