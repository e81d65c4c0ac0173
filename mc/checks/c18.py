"""Random topology: every outcome of the neighbour draws."""
import itertools

import numpy as np

from .. import env, families as F, opt as O, rng, topo
from ..core import check
from ..runner import Harness
from pyswarms.backend.topology import Random


def graph_configs(tier):
    sizes = [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 1), (5, 3), (5, 4)]
    if tier == "thorough":
        sizes += [(5, 2), (6, 1), (6, 5), (6, 4)]
    return [dict(n=n, k=k, first=f) for n, k in sizes for f in range(_first(n, k))]


def _first(n, k):
    from math import comb
    return comb(n - 1, k)


class Draws(rng.ElementSource):
    """The first draw is fixed by the configuration (to split the work)."""

    def __init__(self, ctx, first):
        rng.ElementSource.__init__(self, ctx, [0.0, 0.25, 0.5, 0.75], combos=True)
        self.first = first

    def subset(self, n, k, kind):
        if self.first is not None:
            f, self.first = self.first, None
            self.begin(kind, (k,))
            cs = list(itertools.combinations(range(n), k))
            return list(cs[f % len(cs)])
        return rng.ElementSource.subset(self, n, k, kind)


def adjacency(top, n, d, k):
    """Neighbourhoods of a static topology, observed from the guides it returns."""
    adj = [set() for _ in range(n)]
    pts = [(i,) * d for i in range(n)]
    for w in range(n):
        costs = np.full(n, 5.0)
        costs[w] = -1.0
        bp, bc = top.compute_gbest(topo.swarm(pts, costs), k=k)
        g = topo.guides(bp, n, d)
        for i in range(n):
            if g[i] == w:
                adj[i].add(w)
        check(bc == -1.0, lambda: "particle %d has the lowest personal best cost -1.0, reported best cost %r" % (w, bc))
    return adj


def check_graph(adj, n, k, what):
    for i in range(n):
        check(i in adj[i], lambda: "%s: particle %d is not its own neighbour: %s" % (what, i, adj))
        check(len(adj[i] - {i}) >= k, lambda: "%s: particle %d has %d neighbours besides itself, k=%d: %s" % (what, i, len(adj[i]) - 1, k, adj))
        for j in adj[i]:
            check(i in adj[j], lambda: "%s: %d is a neighbour of %d but not conversely: %s" % (what, j, i, adj))
    seen, todo = {0}, [0]
    while todo:
        for j in adj[todo.pop()]:
            if j not in seen:
                seen.add(j)
                todo.append(j)
    check(len(seen) == n, lambda: "%s: the neighbourhood graph is not connected: %s" % (what, adj))


def graph_run(cfg, ctx):
    n, k = cfg["n"], cfg["k"]
    top = Random(static=True)
    src = Draws(ctx, cfg["first"])
    with rng.controlled(src):
        pts = [(float(i),) for i in range(n)]
        first = [float((3 * i + 1) % n) for i in range(n)]
        bp, bc = top.compute_gbest(topo.swarm(pts, first), k=k)
        calls = src.calls
        adj = adjacency(top, n, 1, k)
        check(src.calls == calls, "a static random topology drew new neighbours")
    what = "n=%d k=%d draws %s" % (n, k, ctx.choices())
    check_graph(adj, n, k, what)
    # guides under many cost vectors are the neighbourhood's best
    vecs = [first] + topo.cost_orders(n)[:: 5 if n < 5 else 3][:6]
    for v, costs in enumerate(vecs):
        if v:
            bp, bc = top.compute_gbest(topo.swarm(pts, costs), k=k)
        g = topo.guides(bp, n, 1)
        want = topo.graph_guides(adj, costs)
        for i in range(n):
            check(g[i] in want[i], lambda: "%s neighbours %s costs %s: particle %d is guided by %d" % (what, adj, costs, i, g[i]))
        check(bc == min(costs), lambda: "%s: best cost %r of %s" % (what, bc, costs))
    pairs = ctx.acc.setdefault("pairs", set())
    pairs |= {(i, j) for i in range(n) for j in adj[i]}
    ctx.acc["draws"] = len(ctx.trace)
    ctx.state(n, k, [sorted(a) for a in adj])
    ctx.step(len(vecs) + n)
    ctx.validated()
    ctx.outcome([sorted(a) for a in adj])
    ctx.sample(lambda: "n=%d k=%d draws %s -> neighbours %s" % (n, k, ctx.choices(), [sorted(a) for a in adj]))


def graph_finish(cfg, acc, stats):
    n = cfg["n"]
    if acc["draws"] and n > 2:
        missing = [(i, j) for i in range(1, n) for j in range(n) if (i, j) not in acc["pairs"]]
        check(not missing, "n=%d k=%d: over all draws these pairs are never neighbours: %s" % (n, cfg["k"], missing))


def big_configs(tier):
    return [dict(n=n, k=k, salt=s) for n in (8, 13, 24, 40) for k in sorted({1, 2, 3, n // 2, n - 1}) for s in range(4 if tier == "quick" else 40)]


class Lopsided(rng.Source):
    """Few distinct draws: provokes unconnected components."""

    def __init__(self, salt):
        self.salt = salt
        self.i = 0

    def unit(self, kind):
        self.i += 1
        return rng.lattice_unit(self.i * (self.salt + 1) + self.salt)

    def index(self, n, kind):
        self.i += 1
        s = self.salt
        return [0, n - 1, self.i % n, (self.i // 3) % n, (self.i * self.i + s) % n][s % 5]


def big_run(cfg, ctx):
    n, k = cfg["n"], cfg["k"]
    static = not ctx.choose(2, "dynamic")
    top = Random(static=static)
    with rng.controlled(Lopsided(cfg["salt"])):
        if static:
            top.compute_gbest(topo.swarm([(i,) for i in range(n)], [1.0] * n), k=k)
            adj = adjacency(top, n, 1, k)
            check_graph(adj, n, k, "n=%d k=%d draw pattern %d" % (n, k, cfg["salt"]))
            ctx.state(n, k, [sorted(a) for a in adj])
        else:
            # dynamic: each particle's guide is no worse than itself; the lowest cost is reported;
            # particles guided by the best one are at least k besides itself
            for w in range(n):
                costs = [5.0 + (i * 7) % n for i in range(n)]
                costs[w] = -1.0
                bp, bc = top.compute_gbest(topo.swarm([(i,) for i in range(n)], costs), k=k)
                g = topo.guides(bp, n, 1)
                check(bc == -1.0 and g[w] == w, lambda: "best cost %r" % bc)
                check(sum(1 for i in range(n) if g[i] == w) >= k + 1, lambda: "only %d particles are guided by the best one, k=%d" % (sum(1 for i in range(n) if g[i] == w), k))
                for i in range(n):
                    check(costs[g[i]] <= costs[i], lambda: "particle %d with cost %r is guided by %d with cost %r" % (i, costs[i], g[i], costs[g[i]]))
                ctx.step()
    ctx.validated()


def huge_configs(tier):
    return [dict(n=n, k=k, salts=s, block=b) for n, k, s, b in ((60, 30, 14, 1), (270, 135, 2, 18), (300, 150, 2, 20), (300, 299, 1, 1), (520, 40, 2, 26), (300, 1, 3, 0), (1030, 2, 1, 0)) + (
        ((270, 135, 14, 1), (520, 260, 14, 1), (1030, 200, 2, 10), (2060, 1, 1, 0), (600, 599, 1, 1)) if tier == "thorough" else ())]


class Spread(rng.Source):
    """A fixed linear congruence: every draw has its own value."""

    def __init__(self, salt):
        self.v = salt * 7919 + 17

    def unit(self, kind):
        self.v = (self.v * 1103515245 + 12345) % (1 << 31)
        return (self.v >> 7) / float(1 << 24)


def huge_run(cfg, ctx):
    n, k = cfg["n"], cfg["k"]
    seen = np.zeros((n, n), dtype=bool)
    for salt in range(cfg["salts"]):
        top = Random(static=True)
        with rng.controlled(Spread(salt)):
            top.compute_gbest(topo.swarm([(i,) for i in range(n)], [1.0] * n), k=k)
            adj = adjacency(top, n, 1, k)
        check_graph(adj, n, k, "n=%d k=%d draw sequence %d" % (n, k, salt))
        for i in range(n):
            seen[i, list(adj[i])] = True
        ctx.state(n, k, salt)
        ctx.step(n)
        ctx.validated()
    if cfg["block"]:
        b = cfg["block"]
        met = seen.reshape(n // b, b, n // b, b).any(axis=(1, 3))
        miss = np.argwhere(~met) * b
        check(len(miss) == 0, lambda: "n=%d k=%d: over %d draw sequences %d pairs of blocks of %d particles are never neighbours, such as those from %s" % (
            n, k, cfg["salts"], len(miss), b, miss[:3].tolist()))


def dynamic_configs(tier):
    return [dict(n=n, k=k, static=st) for n, k in ((3, 1), (3, 2), (4, 3)) + (((4, 1),) if tier == "thorough" else ()) for st in (False, True)]


def dynamic_run(cfg, ctx):
    """Two calls with every draw: a dynamic topology draws again, a static one does not."""
    n, k = cfg["n"], cfg["k"]
    pts = [(float(i),) for i in range(n)]
    top = Random(static=cfg["static"])
    costs = [float(i) for i in range(n)]
    src = rng.ElementSource(ctx, [0.0, 0.5], combos=True)
    with rng.controlled(src):
        g = []
        used = []
        for t in range(2):
            a = len(ctx.trace)
            bp, bc = top.compute_gbest(topo.swarm(pts, costs), k=k)
            used.append(tuple(ctx.choices()[a:]))
            g.append(tuple(topo.guides(bp, n, 1)))
            check(bc == 0.0, "best cost %r" % bc)
            ctx.step()
    ctx.acc.setdefault("g", set()).add(tuple(g))
    ctx.state(cfg, g, used)
    ctx.validated()
    if cfg["static"]:
        check(g[0] == g[1], lambda: "static random topology changed its neighbourhoods: guides %s" % (g,))


def dynamic_finish(cfg, acc, stats):
    if not cfg["static"]:
        one = {a for a, b in acc["g"]}
        two = {b for a, b in acc["g"]}
        check(one == two and acc["g"] == {(a, b) for a in one for b in two},
              "dynamic random topology: the second call's neighbourhoods depend on the first's (%d of %d combinations reachable)" % (len(acc["g"]), len(one) * len(two)))


def in_run(tr):
    """In a run: each particle's guide has a personal best no worse than its own; the best guides itself and at least k others."""
    n, k = tr.cfg["n"], tr.cfg["k"]
    for c in tr.calls:
        for t in range(c.start, c.end - 1):
            cost, pos = O.model_pbest(tr, c, t + 1)
            bp = np.asarray(tr.S[t + 1]["best_pos"])
            low = min(cost)
            for i in range(n):
                js = [j for j in range(n) if pos[j] is not None and np.array_equal(pos[j], bp[i])]
                if any(q is None for q in pos):
                    continue
                check(any(cost[j] <= cost[i] for j in js), lambda: "iteration %d: particle %d (personal best cost %r) is guided by %s" % (t, i, cost[i], bp[i].tolist()))
            if all(q is not None for q in pos):
                cnt = sum(1 for i in range(n) if any(np.array_equal(pos[j], bp[i]) for j in range(n) if cost[j] == low))
                check(cnt >= min(n, k + 1), lambda: "iteration %d: %d particles are guided by a best particle, expected at least %d" % (t, cnt, k + 1))


RND = ["general:random", "general:random_static"]
BOUNDS = ("every outcome of all neighbour draws for n=2..4 with every k and n=5 with k=1,3,4 (thorough also k=2, n=6 with k=1,4,5), neighbourhoods observed from the guides of all winners; "
          "lopsided draw patterns for n up to 40; fixed draw sequences for 270-1030 (thorough 2060) particles, over which every pair must be neighbours; every outcome of two successive calls for n=3 (thorough 4); in optimizers: cost orders, configurations, call sequences")
ASSUMPTIONS = ["k < n_particles"]
HARNESSES = [
    Harness("graphs", graph_run, graph_configs, finish=graph_finish),
    Harness("large", big_run, big_configs),
    Harness("huge", huge_run, huge_configs),
    Harness("twocalls", dynamic_run, dynamic_configs, finish=dynamic_finish),
    F.orders([], finish_mons=[in_run], opts=RND, shapes=lambda t: [(3, 2, "std", None), (2, 3, "std", None), (3, 3, "two", None)]),
    F.configs_family([], dict(O.DEFAULT, opt="general:random", n=5, d=2, k=2), finish_mons=[in_run], keys=["opt", "n", "d", "iters", "bounds", "opts", "init", "k"],
                     alternatives={"opt": RND[1:], "k": [1, 3, 4], "n": [6, 16], "bounds": ["asym"], "opts": ["big"], "init": ["lat"]}),
    F.calls_family([], opts=RND, finish_mons=[in_run], variants=[dict(k=2), dict(k=3, n=5)]),
]
