"""Ring: every particle follows the best of its k nearest particles."""
import itertools

import numpy as np

from .. import env, families as F, opt as O, rng, topo
from ..core import check
from ..runner import Harness
from pyswarms.backend.topology import Ring, VonNeumann


def lattice(d, side):
    return list(itertools.product(range(side), repeat=d))


def chunks(seq, size):
    return [seq[i:i + size] for i in range(0, len(seq), size)]


def one_configs(tier):
    shapes = [(1, 5, 2), (2, 3, 2), (1, 4, 3), (2, 3, 3), (3, 2, 3), (1, 4, 4), (2, 2, 4), (1, 3, 5)]
    if tier == "thorough":
        shapes += [(2, 3, 4), (1, 4, 5), (2, 3, 5), (3, 2, 5), (1, 3, 6), (2, 2, 6)]
    else:
        shapes += [(2, 3, 4)]
    out = []
    for d, side, n in shapes:
        pts = list(itertools.combinations_with_replacement(range(side ** d), n))
        for ch in chunks(pts, 40):
            for static in (False, True):
                out.append(dict(d=d, side=side, n=n, points=ch, static=static, tier=tier))
    return out


SCALES = [(1.0, 0.0), (2.0 ** -20, 0.0), (2.0 ** 20, 2.0 ** 24)]


def one_run(cfg, ctx):
    n, d = cfg["n"], cfg["d"]
    lat = lattice(d, cfg["side"])
    pts = [lat[i] for i in ctx.pick(cfg["points"], "points")]
    k = 1 + ctx.choose(n, "k")
    p = 1 + ctx.choose(2, "p")
    scale, shift = SCALES[ctx.choose(3 if n == 3 else 1, "scale")]
    groups = topo.knn_groups(pts, k, p)
    top = Ring(static=cfg["static"])
    P = np.array(pts, dtype=float) * scale + shift
    orders = topo.cost_orders(n)
    if n == 4 and cfg["side"] ** d > 8 and cfg["tier"] == "quick":
        orders = orders[::3]
    for costs in orders:
        s = topo.swarm(P, costs)
        best_pos, best_cost = top.compute_gbest(s, p=p, k=k)
        g = topo.guides(best_pos, n, d)
        for i in range(n):
            ok = topo.feasible_guides(groups[i], costs)
            check(g[i] in ok, lambda: "points %s personal best costs %s k=%d p=%d static=%s: particle %d is guided by particle %d; its %d nearest allow only %s" % (
                P.tolist(), costs, k, p, cfg["static"], i, g[i], k, sorted(ok)))
        check(best_cost == min(costs), lambda: "points %s costs %s k=%d p=%d: reported best cost %r" % (P.tolist(), costs, k, p, best_cost))
        ctx.step()
        ctx.validated()
        ctx.state(pts, costs, k, p)
    ctx.outcome(tuple(g))
    ctx.sample(lambda: "points %s k=%d p=%d costs %s -> guides %s" % (pts, k, p, costs, g))


def big_configs(tier):
    out = []
    for shape in ["grid", "line", "same", "two", "diag", "spread", "pairs"]:
        for n, d in [(20, 2), (45, 2), (33, 1), (30, 4)] if tier == "quick" else [(20, 2), (45, 2), (90, 2), (33, 1), (100, 1), (30, 4), (60, 6), (64, 3)]:
            for k in (1, 2, 5, n - 1, n):
                for p in (1, 2):
                    out.append(dict(shape=shape, n=n, d=d, k=k, p=p))
    return out


def big_points(shape, n, d):
    if shape == "grid":
        side = int(np.ceil(n ** (1.0 / d)))
        return [tuple(x) for x in itertools.islice(itertools.product(range(side), repeat=d), n)]
    if shape == "line":
        return [(i,) + (0,) * (d - 1) for i in range(n)]
    if shape == "same":
        return [(3,) * d] * n
    if shape == "two":
        return [((i % 2) * 4,) * d for i in range(n)]
    if shape == "diag":
        return [(i,) * d for i in range(n)]
    if shape == "pairs":
        return [((i // 2) * 3,) + (1,) * (d - 1) for i in range(n)]
    return [tuple((i * (7 + 2 * j) + j * i * i) % 101 for j in range(d)) for i in range(n)]


def big_run(cfg, ctx):
    n, d, k, p = cfg["n"], cfg["d"], cfg["k"], cfg["p"]
    pts = big_points(cfg["shape"], n, d)
    groups = topo.knn_groups(pts, k, p)
    top = [Ring(static=False), Ring(static=True)][ctx.choose(2, "static")]
    P = np.array(pts, dtype=float)
    for w in range(n):
        costs = [5.0 + ((i * 11 + w) % n) for i in range(n)]
        costs[w] = -1.0
        best_pos, best_cost = top.compute_gbest(topo.swarm(P, costs), p=p, k=k)
        g = topo.guides(best_pos, n, d)
        for i in range(n):
            ok = topo.feasible_guides(groups[i], costs)
            check(g[i] in ok, lambda: "%s points %s best particle %d k=%d p=%d: particle %d is guided by %d, allowed %s" % (cfg["shape"], pts, w, k, p, i, g[i], sorted(ok)))
        check(best_cost == -1.0, lambda: "best cost %r" % best_cost)
        ctx.step()
        ctx.validated()
        ctx.state(cfg["shape"], n, d, k, p, w)


def huge_configs(tier):
    out = []
    for n, d in ((120, 2), (130, 3), (260, 2), (300, 5), (520, 3), (1030, 2)) + (((2050, 3), (700, 20)) if tier == "thorough" else ()):
        for kind in ("near", "far", "clusters", "lattice"):
            for k in sorted({1, 2, 3, 10, 40, n // 2, n}):
                for p in (1, 2):
                    out.append(dict(kind=kind, n=n, d=d, k=k, p=p, tier=tier))
    return out


def huge_points(kind, n, d):
    """Well spread integer points (a fixed linear congruence), so that distances are exact."""
    v, out = 12345, []
    m = 4096 if kind == "far" else 61 if kind == "lattice" else 997
    for i in range(n):
        row = []
        for j in range(d):
            v = (v * 1103515245 + 12345) % (1 << 31)
            row.append((v >> 8) % m)
        out.append(row)
    P = np.array(out)
    if kind == "clusters":
        P = P % 23 + 5000 * (np.arange(n) % 7)[:, None]
    return P


def huge_run(cfg, ctx):
    """Many particles: every neighbourhood decided exactly from integer distances."""
    n, d, k, p = cfg["n"], cfg["d"], cfg["k"], cfg["p"]
    P = huge_points(cfg["kind"], n, d)
    static = bool(ctx.choose(2, "static"))
    scale = (1.0, 2.0 ** -30, 2.0 ** 30)[ctx.choose(3, "scale")] if n <= 300 else 1.0
    top = Ring(static=static)
    D = np.zeros((n, n), dtype=np.int64)
    for j in range(d):
        x = P[:, j][:, None] - P[:, j][None, :]
        D += np.abs(x) if p == 1 else x * x
    np.fill_diagonal(D, -1)
    kth = np.sort(D, axis=1)[:, k - 1]
    for w in range(3 if n > 600 else 6):
        # all different costs, in unrelated orders; the last ones with many equal costs
        mul = (7919, 104729, 1, 15485863, 31, 611953)[w]
        costs = ((np.arange(n, dtype=np.int64) * mul + w) % (n + 1 if w < 4 else 5)).astype(float)
        bp, bc = top.compute_gbest(topo.swarm(P * scale, costs), p=p, k=k)
        g = np.array(topo.guides(bp, n, d))
        got = D[np.arange(n), g]
        for i in np.nonzero(got > kth)[0]:
            check(False, lambda: "%d points (%s), scale %g, k=%d p=%d static=%s: particle %d is guided by particle %d, which is not among its %d nearest" % (n, cfg["kind"], scale, k, p, static, i, g[i], k))
        low = np.where(D < kth[:, None], costs[None, :], np.inf).min(axis=1)
        for i in np.nonzero(costs[g] > low)[0]:
            check(False, lambda: "%d points (%s), scale %g, k=%d p=%d static=%s: particle %d is guided by particle %d of cost %r, a nearer one has cost %r" % (n, cfg["kind"], scale, k, p, static, i, g[i], costs[g[i]], low[i]))
        # equally distant neighbours: exactly as many of them as there are places
        tied = (D == kth[:, None])
        places = k - (D < kth[:, None]).sum(axis=1)
        for i in np.nonzero(got == kth)[0]:
            check((costs[tied[i]] >= costs[g[i]]).sum() >= places[i], "tie")
        for i in np.nonzero(tied.sum(axis=1) == places)[0]:
            want = min(low[i], costs[tied[i]].min())
            check(costs[g[i]] == want, lambda: "%d points (%s), scale %g, k=%d p=%d static=%s: particle %d is guided by a personal best of %r, its %d nearest have %r" % (n, cfg["kind"], scale, k, p, static, i, costs[g[i]], k, want))
        check(bc == costs.min(), lambda: "best cost %r of %r" % (bc, costs.min()))
        ctx.step()
        ctx.validated()
        ctx.state(sorted(cfg.items()), static, scale, w)
    ctx.outcome(g.tolist())


def seq_configs(tier):
    return [dict(n=n, d=d, k=k, p=p, static=st, calls=80 if tier == "quick" else 400) for n, d in ((3, 1), (4, 2), (5, 3)) for k in range(1, n + 1) for p in (1, 2) for st in (False, True)]


def seq_run(cfg, ctx):
    """Many calls on one topology object while particles move and costs change."""
    n, d, k, p = cfg["n"], cfg["d"], cfg["k"], cfg["p"]
    top = Ring(static=cfg["static"])
    speed = 1 + ctx.choose(3, "speed")
    for t in range(cfg["calls"]):
        pts = [tuple((i * (3 + j) + t * speed * (i + 1) + j) % 7 for j in range(d)) for i in range(n)]
        if t == 0 or not cfg["static"]:
            groups = topo.knn_groups(pts, k, p)
        costs = [float((i * 5 + t * 3) % 7) for i in range(n)]
        bp, bc = top.compute_gbest(topo.swarm(pts, costs), p=p, k=k)
        g = topo.guides(bp, n, d)
        if k == 1:
            check(g == list(range(n)), lambda: "call %d with k=1: guides %s" % (t, g))
        if not cfg["static"] or k == n:
            for i in range(n):
                ok = topo.feasible_guides(groups[i], costs)
                check(g[i] in ok, lambda: "call %d, points %s, costs %s, k=%d, p=%d: particle %d is guided by %d, allowed %s" % (t, pts, costs, k, p, i, g[i], sorted(ok)))
        check(bc == min(costs), lambda: "call %d: best cost %r of %s" % (t, bc, costs))
        ctx.step()
        ctx.state(cfg, speed, t)
    ctx.validated()


def guide_monitor(tr, k_of=lambda c: c["k"], dynamic=True, p_of=lambda c: c["p"]):
    """In a run, the best position used after evaluation t is that of a feasible guide."""
    k, p = k_of(tr.cfg), p_of(tr.cfg)
    n = tr.cfg["n"]
    for c in tr.calls:
        for t in range(c.start, c.end):
            st = tr.S[t + 1] if t + 1 < c.end else c.final
            cost, pos = O.model_pbest(tr, c, t + 1)
            X = tr.X[t] if dynamic else tr.X[0]
            groups = topo.knn_groups([tuple(map(float, x)) for x in X], k, p, tol=1e-9)
            bp = np.asarray(st["best_pos"])
            if t + 1 == c.end:
                # the final best position may have been condensed to the overall best one
                if bp.shape != X.shape:
                    continue
            for i in range(n):
                ok = topo.feasible_guides(groups[i], cost)
                check(any(np.array_equal(bp[i] if bp.ndim == 2 else bp, pos[w]) for w in ok if pos[w] is not None) or any(pos[w] is None for w in ok),
                      lambda: "evaluation %d: particle %d is guided by %s; allowed are the personal bests of %s: %s (positions %s, personal best costs %s, k=%d p=%d)" % (
                          t, i, bp[i].tolist(), sorted(ok), [pos[w] for w in ok], X.tolist(), cost, k, p))
        ctx_len = c.end - c.start
        for j in range(ctx_len):
            m = min(O.run_min(tr, c, c.start + j + 1) for _ in (0,))
            check(float(np.min(tr.opt.cost_history[c.hist0 + j])) == m, lambda: "cost_history entry %d is %r, lowest cost so far %r" % (c.hist0 + j, tr.opt.cost_history[c.hist0 + j], m))


def dyn(tr):
    guide_monitor(tr, dynamic="static" not in tr.cfg["opt"])


RINGS = ["local", "local_static", "general:ring", "general:ring_static", "binary"]
BOUNDS = ("all multisets of 2-5 (thorough 6) points on lattices in 1-3 dimensions x all k x both norms x all cost orders (winner/tie orders for 5 and more); "
          "structured sets of 20-45 (thorough 100) points with every winner; spread, clustered and lattice sets of 120-1030 (thorough 2050) points, also scaled by 2^-30 and 2^30; 80 (400) calls on one topology; in optimizers: all cost orders, "
          "configurations within 2 changes, call sequences")
ASSUMPTIONS = ["k <= n_particles", "distances of points not on the dyadic lattice are compared with a relative tolerance of 1e-9"]
HARNESSES = [
    Harness("onestep", one_run, one_configs),
    Harness("large", big_run, big_configs),
    Harness("huge", huge_run, huge_configs),
    Harness("sequence", seq_run, seq_configs),
    F.orders([], finish_mons=[dyn], opts=RINGS, shapes=lambda t: [(2, 3, "std", None), (3, 2, "std", "same"), (3, 2, "inf", "lat"), (3, 3, "two", None)]),
    F.configs_family([], dict(O.DEFAULT, opt="local", n=5, d=2, k=2), finish_mons=[dyn], keys=["opt", "n", "d", "iters", "bounds", "bh", "clamp", "opts", "init", "k", "p", "ftol"],
                     alternatives={"opt": RINGS[1:], "k": [1, 3, 5], "p": [1], "n": [6, 9, 24], "bounds": ["asym", "unit"], "bh": ["nearest", "random"], "clamp": ["s"], "opts": ["big", "zero"], "init": ["lat", "same", "coll"]}),
    F.calls_family([], opts=RINGS, finish_mons=[dyn], variants=[dict(k=3), dict(k=1), dict(k=2, p=1, init="same")]),
]
