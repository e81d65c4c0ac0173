"""Pyramid: neighbours are the Delaunay-adjacent particles."""
import itertools

import numpy as np

from .. import env, families as F, opt as O, rng, topo
from ..core import check
from ..runner import Harness
from . import c16
from pyswarms.backend.topology import Pyramid

# lattices without too many special positions: jittered integer points
GRID2 = [(0, 0), (97, 5), (211, 3), (7, 103), (101, 109), (205, 97), (3, 199), (103, 207), (199, 217)]
GRID3 = [(0, 0, 0), (101, 7, 3), (5, 97, 11), (13, 3, 103), (109, 105, 2), (2, 113, 107), (98, 6, 119), (111, 108, 117), (53, 59, 47)]


def pts_of(cfg):
    if cfg["grid"] == "g2":
        return GRID2
    if cfg["grid"] == "g3":
        return GRID3
    if cfg["grid"] == "sq":
        return c16.lattice(2, cfg["side"])
    return c16.lattice(3, cfg["side"])


_cache = {}


def adjacency(points):
    key = tuple(points)
    if key not in _cache:
        if len(_cache) > 5000:
            _cache.clear()
        _cache[key] = topo.delaunay(points)
    return _cache[key]


SCALES = [(1.0, 0.0), (1e-6, 0.0), (1e9, 0.0), (1.0, -50.0), (0.01, 3.0)]


def one_configs(tier):
    out = []
    sizes = [("g2", 0, 4), ("g2", 0, 5), ("g2", 0, 6), ("g2", 0, 7), ("g3", 0, 5), ("g3", 0, 6), ("sq", 4, 4), ("sq", 4, 5)]
    if tier == "thorough":
        sizes += [("g2", 0, 8), ("g2", 0, 9), ("g3", 0, 7), ("g3", 0, 8), ("g3", 0, 9), ("sq", 5, 4), ("sq", 5, 5), ("sq", 4, 6), ("cu", 3, 5)]
    for grid, side, n in sizes:
        c = dict(grid=grid, side=side, n=n)
        sets = list(itertools.combinations(range(len(pts_of(c))), n))
        if grid == "sq" and tier == "quick":
            sets = [s for i, s in enumerate(sets) if i % (1 if n == 4 else 5) == 0]
        for ch in c16.chunks(sets, 25 if tier == "quick" else 100):
            out.append(dict(c, sets=ch))
    return out


def one_run(cfg, ctx):
    lat = pts_of(cfg)
    pts = [lat[i] for i in ctx.pick(cfg["sets"], "set")]
    adj = adjacency(pts)
    ctx.step()
    if adj is None:
        # special position: only the general guarantees
        return general(ctx, pts)
    n, d = len(pts), len(pts[0])
    sc = ctx.choose(len(SCALES) if cfg["grid"] != "sq" else 1, "scale")
    scale, shift = SCALES[sc]
    P = np.array(pts, dtype=float) * scale + shift
    top = Pyramid(static=bool(ctx.choose(2, "static")))
    orders = topo.cost_orders(n)
    inf = float("inf")
    orders = list(orders) + [[inf] * n, [inf] * (n - 1) + [2.0], [-1.0] + [inf] * (n - 1), [inf, 3.0] * (n // 2) + [inf] * (n % 2), [1e308] * n, [-inf] + [0.0] * (n - 1)]
    for costs in orders:
        bp, bc = top.compute_gbest(topo.swarm(P, costs))
        g = topo.guides(bp, n, d)
        want = topo.graph_guides(adj, costs)
        for i in range(n):
            check(g[i] in want[i], lambda: "points %s costs %s: particle %d is guided by %d, its Delaunay neighbours are %s" % (P.tolist(), costs, i, g[i], sorted(adj[i])))
        check(bc == min(costs), lambda: "points %s costs %s: reported best cost %r" % (P.tolist(), costs, bc))
        ctx.step()
        ctx.validated()
        ctx.state(pts, sc, costs)
    ctx.outcome([sorted(a) for a in adj])
    ctx.sample(lambda: "points %s neighbours %s" % (P.tolist(), [sorted(a) for a in adj]))


def general(ctx, pts):
    n, d = len(pts), len(pts[0])
    top = Pyramid(static=False)
    for costs in topo.cost_orders(n)[:: 3 if n < 5 else 1]:
        bp, bc = top.compute_gbest(topo.swarm(pts, costs))
        topo.guides(bp, n, d)
        check(bc == min(costs), lambda: "points %s costs %s: reported best cost %r" % (pts, costs, bc))
        ctx.step()
        ctx.state(pts, costs)
    ctx.validated()


def small_configs(tier):
    return [dict(n=n, d=d, static=st) for d in (2, 3, 4, 5) for n in range(1, d + 2) for st in (False, True)]


def small_run(cfg, ctx):
    """Fewer than d+2 particles: fully connected."""
    n, d = cfg["n"], cfg["d"]
    kind = ctx.choose(3, "points")
    pts = [[(tuple((i * 7 + j * j * 3) % 11 for j in range(d))), (1,) * d, (i,) * d][kind] for i in range(n)]
    top = Pyramid(static=cfg["static"])
    for costs in topo.cost_orders(n):
        bp, bc = top.compute_gbest(topo.swarm(pts, costs))
        g = topo.guides(bp, n, d)
        check(all(costs[x] == min(costs) for x in g), lambda: "%d particles in %d dimensions, costs %s: guides %s, all should follow the best" % (n, d, costs, g))
        check(bc == min(costs), lambda: "best cost %r of %s" % (bc, costs))
        ctx.step()
        ctx.state(n, d, kind, costs)
    ctx.validated()


def deg_configs(tier):
    out = []
    for d, side, n in [(2, 2, 4), (2, 3, 4), (2, 2, 5), (3, 2, 5)] + ([(2, 3, 5), (3, 2, 6), (2, 2, 6)] if tier == "thorough" else []):
        pts = list(itertools.combinations_with_replacement(range(side ** d), n))
        for ch in c16.chunks(pts, 60):
            out.append(dict(d=d, side=side, n=n, points=ch))
    return out


def deg_run(cfg, ctx):
    lat = c16.lattice(cfg["d"], cfg["side"])
    general(ctx, [lat[i] for i in ctx.pick(cfg["points"], "points")])


def wheel_configs(tier):
    ns = [6, 9, 17, 18, 20, 33, 40, 66, 100, 130]
    return [dict(n=n, d=d, static=st) for n in ns + ([200, 258] if tier == "thorough" else []) for d in (2, 3) for st in (False, True) if n >= 4 * d]


def wheel_run(cfg, ctx):
    """One particle in the middle of all the others, which surround it on a circle (or a
    sphere): the empty circles are those through the middle one, so it is adjacent to
    everybody, and on the circle everybody to the middle one and two more."""
    n, d = cfg["n"], cfg["d"]
    hub = [0, n // 2, n - 1][ctx.choose(3, "hub")]
    scale, shift = SCALES[ctx.choose(3, "scale")]
    m = n - 1
    i = np.arange(m)
    if d == 2:
        a = 2 * np.pi * (i * (1 if m % 5 == 0 else 5) % m) / m
        ring = np.c_[np.cos(a), np.sin(a)]
    else:
        z = 1 - (2 * i + 1) / m
        a = i * np.pi * (3 - 5 ** 0.5)
        ring = np.c_[np.sqrt(1 - z * z) * np.cos(a), np.sqrt(1 - z * z) * np.sin(a), z]
    P = np.insert(ring, hub, 0.0, axis=0) * scale + shift
    others = [j for j in range(n) if j != hub]
    adj = [{hub} for _ in range(n)]
    adj[hub] = set(others)
    if d == 2:
        by = [others[j] for j in np.argsort(a)]
        for u, v in zip(by, by[1:] + by[:1]):
            adj[u].add(v)
            adj[v].add(u)
    top = Pyramid(static=cfg["static"])
    step = max(1, n // 12)
    for w in sorted(set(range(0, n, step)) | {0, 1, n - 2, n - 1}):
        costs = 5.0 + (np.arange(n) * 7 % n)
        costs[w] = -1.0
        costs = costs.tolist()
        bp, bc = top.compute_gbest(topo.swarm(P, costs))
        g = topo.guides(bp, n, d)
        want = topo.graph_guides(adj, costs)
        check(g[hub] in want[hub], lambda: "%d particles around particle %d, costs %s: it is guided by %d, the best around it is in %s" % (m, hub, costs, g[hub], want[hub]))
        if d == 2:
            for i in range(n):
                check(g[i] in want[i], lambda: "%d particles around particle %d, costs %s: particle %d is guided by %d, its neighbours are %s" % (m, hub, costs, i, g[i], sorted(adj[i])))
        elif w == hub:
            check(all(g[i] == hub for i in others), lambda: "%d particles around the best one, %d: guides %s" % (m, hub, g))
        check(bc == -1.0, "best cost %r" % bc)
        ctx.step()
        ctx.validated()
        ctx.state(n, d, hub, scale, w)
    ctx.sample(lambda: "wheel of %d in %d dimensions around %d" % (m, d, hub))


def crowd_configs(tier):
    ns = list(range(4, 41)) + [50, 64, 80, 99, 128]
    if tier == "thorough":
        ns = list(range(4, 161)) + [200, 256, 300]
    return [dict(n=n, d=d) for n in ns for d in ((2, 3) if tier == "quick" else (2, 3, 4)) if n >= d + 2]


def crowd_run(cfg, ctx):
    """Many particles on few places (as boundary handling produces them)."""
    n, d = cfg["n"], cfg["d"]
    places = [d + 1, d + 2, 2 ** d, 3 * d, n][ctx.choose(5, "places")]
    m = ctx.choose(3, "who")
    lat = c16.lattice(d, 4)
    i = np.arange(n) % min(places, len(lat))
    pts = np.array([lat[(5 * j + 3 * (j // 4)) % len(lat)] for j in i], dtype=float)
    if ctx.choose(2, "lone"):         # all the others together
        pts[: n - places if n > places else 0] = pts[-1]
    top = Pyramid(static=bool(ctx.choose(2, "static")))
    for w in {0, n // 2, n - 1, (n * (m + 1)) // 4}:
        costs = 5.0 + (np.arange(n) * 7 % n)
        costs[w] = -1.0
        bp, bc = top.compute_gbest(topo.swarm([tuple(p) for p in pts], list(costs)))
        topo.guides(bp, n, d)
        check(bc == -1.0, lambda: "%d particles on %d places, the best of them %d: reported best cost %r" % (n, places, w, bc))
        ctx.step()
        ctx.state(n, d, places, w)
    ctx.validated()


def mon(tr):
    """In a run: the guides' personal bests exist, the lowest is reported; positions in general position follow the exact neighbours."""
    n, d = tr.cfg["n"], tr.cfg["d"]
    static = "static" in tr.cfg["opt"]
    for c in tr.calls:
        for t in range(c.start, c.end - 1):
            cost, pos = O.model_pbest(tr, c, t + 1)
            if any(q is None for q in pos):
                continue
            bp = np.asarray(tr.S[t + 1]["best_pos"])
            bp = np.tile(bp, (n, 1)) if bp.ndim == 1 else bp
            for i in range(n):
                check(any(np.array_equal(bp[i], q) for q in pos), lambda: "evaluation %d: particle %d is guided by %s, nobody's personal best" % (t, i, bp[i].tolist()))
            X = tr.X[0] if static else tr.X[t]
            if n < d + 2:
                adj = [set(range(n))] * n
            else:
                adj = robust_delaunay(X)
            if adj is None:
                continue
            for i in range(n):
                want = topo.graph_guides(adj, cost)[i]
                check(any(np.array_equal(bp[i], pos[j]) for j in want), lambda: "evaluation %d at %s: particle %d is guided by %s, its Delaunay neighbours are %s with personal best costs %s" % (
                    t, X.tolist(), i, bp[i].tolist(), sorted(adj[i]), [cost[j] for j in sorted(adj[i])]))
            tr.exact = getattr(tr, "exact", 0) + 1


def robust_delaunay(X):
    """Exact Delaunay adjacency of real points when every predicate is clear of the joggle, else None."""
    X = np.asarray(X, dtype=float)
    n, d = X.shape
    Y = X - X.min(axis=0)
    e = Y.max()
    if not e > 0 or n > 7:
        return None
    Y = (Y / e).tolist()
    adj = [set() for _ in range(n)]
    for S in itertools.combinations(range(n), d + 1):
        pts = [tuple(Y[i]) for i in S]
        if abs(topo.orient(pts)) < 1e-3:
            return None
        empty = True
        for q in range(n):
            if q not in S:
                v = topo.in_sphere(pts, tuple(Y[q]))
                if abs(v) < 1e-4:
                    return None
                empty = empty and v < 0
        if empty:
            for a, b in itertools.combinations(S, 2):
                adj[a].add(b)
                adj[b].add(a)
    return adj


PYR = ["general:pyramid", "general:pyramid_static"]
BOUNDS = ("all subsets of 4-7 (thorough 9) points of jittered 3x3 (2-D) and 3-D grids and of a 4x4 (5x5) lattice, decided by exact integer in-circle/in-sphere tests, all cost orders or winners, five scales/offsets; "
          "all multisets of 4-5 (6) lattice points for the best-cost part; fewer than d+2 particles; up to 128 (300) particles crowded on few places; one particle surrounded by up to 129 (257) others; in optimizers: cost orders, configurations, call sequences")
ASSUMPTIONS = ["at least two dimensions", "strict general position: no d+2 points on a sphere, no d+1 on a hyperplane"]
HARNESSES = [
    Harness("general position", one_run, one_configs),
    Harness("small", small_run, small_configs),
    Harness("degenerate", deg_run, deg_configs),
    Harness("wheels", wheel_run, wheel_configs),
    Harness("crowds", crowd_run, crowd_configs),
    F.orders([], finish_mons=[mon], opts=PYR, shapes=lambda t: [(2, 3, "std", None), (3, 2, "std", "same"), (4, 2, "two", "lat"), (5, 2, "two", None)]),
    F.configs_family([], dict(O.DEFAULT, opt="general:pyramid", n=5, d=2), finish_mons=[mon], keys=["opt", "n", "d", "iters", "bounds", "bh", "opts", "init", "clamp", "ftol"],
                     alternatives={"opt": PYR[1:], "n": [3, 4, 6, 24], "d": [3, 4], "bounds": ["asym", "wide"], "bh": ["nearest"], "opts": ["big"], "init": ["lat", "same", "coll"], "clamp": ["s"]}),
    F.calls_family([], opts=PYR, finish_mons=[mon], variants=[dict(n=5), dict(n=4), dict(n=3)]),
]
