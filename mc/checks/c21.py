"""Static topologies keep their neighbourhoods, dynamic ones follow the swarm."""
import numpy as np

from .. import env, families as F, opt as O, rng, topo
from ..core import check
from ..runner import Harness
from pyswarms.backend import topology as T


class Epoch(rng.Source):
    """The n-th draw of epoch e is the same in every execution."""

    def __init__(self, e):
        self.e, self.i = e, 0

    def unit(self, kind):
        self.i += 1
        return rng.lattice_unit(97 * self.e + 7 * self.i * (self.e + 1))

    def index(self, n, kind):
        self.i += 1
        return (self.e * 5 + self.i * (3 + self.e) + self.i * self.i) % n


KINDS = ["ring", "ring_static", "vn", "pyramid", "pyramid_static", "random", "random_static"]

# point sets of 5 particles in the plane, pairwise with different neighbourhoods
SETS = [
    [(0, 0), (10, 1), (21, 3), (33, 7), (46, 15)],
    [(46, 15), (21, 3), (0, 0), (10, 1), (33, 7)],
    [(0, 0), (2, 41), (43, 3), (38, 44), (20, 19)],
    [(20, 19), (38, 44), (2, 41), (0, 0), (43, 3)],
    [(5, 5), (5, 5), (5, 5), (40, 2), (41, 30)],
    [(33, 1), (0, 40), (12, 12), (13, 37), (44, 40)],
]
COSTS = [[3.0, 1.0, 4.0, 0.0, 5.0], [0.0, 4.0, 3.0, 2.0, 1.0], [5.0, 5.0, 0.5, 1.5, 2.5], [2.0, 2.0, 2.0, 2.0, -1.0], [-3.0, 7.0, 7.0, 8.0, 9.0]]


# the same point sets, as (factor, offset): neighbourhoods do not depend on the unit of length
SCALES = [(1.0, 0.0), (2.0 ** -44, 0.0), (2.0 ** -30, 1.0), (2.0 ** 40, 0.0), (1.0, 2.0 ** 30), (2.0 ** -9, 0.0)]


def kwargs_of(kind, cfg):
    if kind.startswith("ring"):
        return dict(k=cfg["k"], p=cfg["p"])
    if kind == "vn":
        return dict(r=cfg.get("r", 1), p=cfg["p"])
    if kind.startswith("random"):
        return dict(k=cfg["k"])
    return {}


def reference(kind, kw, first, now, epoch):
    """What a fresh topology answers: neighbourhoods from `first`, personal bests of `now`."""
    top = O.make_topology(kind)
    with rng.controlled(Epoch(epoch)):
        r = top.compute_gbest(first, **kw)
    if now is not first:
        with rng.controlled(Epoch(99)):
            r = top.compute_gbest(now, **kw)
    return r


def same(a, b):
    return np.array_equal(np.asarray(a[0]), np.asarray(b[0])) and float(np.min(a[1])) == float(np.min(b[1]))


def seq_configs(tier):
    out = []
    for kind in KINDS:
        for k in (1, 2, 3, 4, 5) if kind.startswith("ring") else (1, 2, 3, 4) if kind.startswith("random") else (1,):
            for p in (1, 2) if kind.startswith("ring") or kind == "vn" else (2,):
                for first in range(len(SETS)):
                    out.append(dict(kind=kind, k=k, p=p, first=first, depth=3 if tier == "quick" else 4, tier=tier))
    return out


def is_static(kind):
    return kind.endswith("_static") or kind == "vn"


def seq_run(cfg, ctx):
    kind, kw = cfg["kind"], kwargs_of(cfg["kind"], cfg)
    top = O.make_topology(kind)
    cur = cfg["first"]
    f, o = SCALES[cfg.get("scale", 0)]
    first = None
    path = []
    for t in range(cfg["depth"]):
        if t:
            cur = ctx.choose(len(SETS), "points")
        ci = ctx.choose(len(COSTS), "costs") if t + 1 == cfg["depth"] or t == 0 and cfg["tier"] == "thorough" else (cur + 2 * t) % len(COSTS)
        path.append((cur, ci))
        s = topo.swarm(np.array(SETS[cur]) * f + o, COSTS[ci], labels=topo.label_matrix(5, 2, base=1000.0 + 100 * t))
        first = first if first is not None else s
        with rng.controlled(Epoch(t)):
            got = top.compute_gbest(s, **kw)
        if t + 1 < cfg["depth"]:
            continue                       # the prefixes are executions of their own in shorter runs
        if is_static(kind):
            want = reference(kind, kw, first, s, 0)
        else:
            want = reference(kind, kw, s, s, t)
        check(same(got, want), lambda: "%s %s, swarms %s: call %d is guided by particles %s, a fresh topology %s would use %s" % (
            kind, kw, [SETS[a] for a, _ in path], t, topo.guides(got[0], 5, 2, s.pbest_pos),
            "that saw the first swarm" if is_static(kind) else "on the same swarm", topo.guides(want[0], 5, 2, s.pbest_pos)))
        ctx.step()
        ctx.state(cfg["kind"], kw, path)
    ctx.validated()
    ctx.outcome(cfg["kind"], np.asarray(got[0]))
    ctx.sample(lambda: "%s %s calls (point set, costs) %s guides %s" % (kind, kw, path, topo.guides(got[0], 5, 2, s.pbest_pos)))


def short_configs(tier):
    out = [dict(c, depth=2, tier="thorough") for c in seq_configs("quick")]
    return out + [dict(c, depth=2, tier="quick", scale=s) for c in seq_configs("quick") for s in range(1, len(SCALES))]


def vary_configs(tier):
    return [dict(kind=kind, first=f, depth=3) for kind in KINDS if "pyramid" not in kind for f in range(len(SETS))]


ARGS = {"ring": [(k, p) for k in (1, 2, 3, 5) for p in (1, 2)], "random": [(1, 2), (2, 2), (3, 2), (4, 2)], "vn": [(r, p) for r in (0, 1) for p in (1, 2)]}


def vary_run(cfg, ctx):
    """The number of neighbours and the norm change between the calls: a static
    topology stays with its neighbours, a dynamic one takes the new numbers."""
    kind = cfg["kind"]
    args = ARGS[kind.split("_")[0]]
    top = O.make_topology(kind)
    first, path = None, []
    for t in range(cfg["depth"]):
        a, p = args[ctx.choose(len(args), "args")]
        kw = kwargs_of(kind, dict(k=a, p=p, r=a))
        cur = cfg["first"] if t == 0 else (cfg["first"] + 2 * t + 1) % len(SETS)
        s = topo.swarm(np.array(SETS[cur], dtype=float), COSTS[(cur + t) % len(COSTS)], labels=topo.label_matrix(5, 2, base=1000.0 + 100 * t))
        path.append((cur, kw))
        first = first or (s, kw)
        with rng.controlled(Epoch(t)):
            got = top.compute_gbest(s, **kw)
        # a static ring asked for its nearest neighbour only is the particle itself (documented)
        static = is_static(kind)
        if static and (kind != "random_static") and any((q.get("k", 2) == 1 or q.get("r", 1) == 0) for _, q in path) and len({q.get("k", q.get("r")) for _, q in path}) > 1:
            return
        want = reference(kind, first[1], first[0], s, 0) if static else reference(kind, kw, s, s, t)
        check(same(got, want), lambda: "%s, calls %s: call %d is guided by particles %s, should be %s" % (
            kind, [(SETS[c], q) for c, q in path], t, topo.guides(got[0], 5, 2, s.pbest_pos), topo.guides(want[0], 5, 2, s.pbest_pos)))
        ctx.step()
        ctx.state(kind, path)
    ctx.validated()


class Spy:
    """Records the calls an optimizer makes on its topology (a user-supplied one)."""

    def __init__(self, kind):
        base = type(O.make_topology(kind))
        outer = self
        self.calls = []

        class Spied(base):
            def compute_gbest(self, swarm, *a, **kw):
                s = topo.swarm(swarm.position, np.array(swarm.pbest_cost), labels=np.array(swarm.pbest_pos),
                               best_cost=swarm.best_cost, best_pos=np.array(swarm.best_pos))
                with rng.controlled(Epoch(len(outer.calls) + outer.base)):
                    r = base.compute_gbest(self, swarm, *a, **kw)
                outer.calls.append((s, a, dict(kw), (np.array(r[0]), np.array(r[1]))))
                return r
        self.base = 0
        self.top = Spied() if kind in ("star", "vn") else Spied(static=kind.endswith("_static"))


SETTINGS = [dict(n=7, d=3), dict(bounds="asym", bh="nearest"), dict(bounds="wide", bh="shrink"), dict(clamp="s"), dict(clamp="dim"), dict(vh="adjust"), dict(init="lat"), dict(init="same"), dict(ftol=0.5, ftol_iter=2),
            dict(oh={"w": "lin_variation", "c1": "exp_decay"}), dict(k=1), dict(p=1), dict(opts="far"), dict(opts="int"), dict(iters=9)]


def two_settings():
    """Every pair of settings that name different things."""
    return [dict(a, **b) for i, a in enumerate(SETTINGS) for b in SETTINGS[i + 1:] if not set(a) & set(b)]


def run_configs(tier):
    out = []
    for kind in KINDS:
        for v in [dict(), dict(n=7, d=3), dict(bounds="asym", opts="big"), dict(init="lat"), dict(ftol=0.5, ftol_iter=2), dict(n=12, iters=10), dict(k=1), dict(k=4, p=1)] + two_settings():
            c = dict(O.DEFAULT, opt="general:" + kind, n=5, d=2, k=2, r=1, iters=5)
            c.update(v)
            if kind == "vn" and c["d"] == 3:
                c["n"] = 8
            if F.valid(c):
                out.append(c)
    return out


def run_run(cfg, ctx):
    kind = cfg["opt"].split(":")[1]
    plan = ctx.pick([["o"], ["o", "o"], ["o", "r", "o"], ["o", "o", "r", "o"]], "plan")
    cost = [O.bumpy, O.sphere, lambda t, X: np.array([float((t * 7 + i * 5) % 11) for i in range(len(X))])][ctx.choose(3, "cost")]
    spy = Spy(kind)
    with rng.controlled(rng.FixedSource(4)):
        tr = O.Trace(cfg, cost, snapshots=False, top=spy.top)
        first, seen = None, 0
        for op in plan:
            if op == "r":
                tr.reset()
                first = None
                continue
            tr.optimize()
            call = tr.calls[-1]
            check(len(spy.calls) - seen == call.end - call.start, "compute_gbest called %d times in %d iterations" % (len(spy.calls) - seen, call.end - call.start))
            for j in range(seen, len(spy.calls)):
                s, a, kw, got = spy.calls[j]
                t = call.start + j - seen
                check(np.array_equal(s.position, tr.X[t]), lambda: "neighbourhoods of evaluation %d computed from %s, evaluated positions %s" % (t, s.position.tolist(), tr.X[t].tolist()))
                cost_, pos = O.model_pbest(tr, call, t + 1)
                check([float(c) for c in s.pbest_cost] == cost_, lambda: "evaluation %d: topology sees personal best costs %s, should be %s" % (t, s.pbest_cost.tolist(), cost_))
                if first is None:
                    first = (s, j)
                want = reference(kind, kw, first[0], s, first[1]) if is_static(kind) else reference(kind, kw, s, s, j)
                check(same(got, want), lambda: "%s, calls %s: iteration %d guided by %s, should be %s" % (cfg["opt"], plan, t, got[0].tolist(), np.asarray(want[0]).tolist()))
                if t + 1 < call.end:
                    check(np.array_equal(tr.S[t + 1]["best_pos"], got[0]), lambda: "iteration %d does not use the best positions of its topology" % t)
                ctx.step()
            seen = len(spy.calls)
    O.record(ctx, tr)
    ctx.sample(lambda: "%s %s -> %s" % (cfg["opt"], plan, tr.calls[-1].result))


def ring_configs(tier):
    out = []
    for o in ("local", "local_static", "binary"):
        for v in [dict(), dict(n=7, d=3), dict(bounds="asym", opts="big"), dict(init="lat"), dict(n=12, iters=10), dict(k=1), dict(k=4, p=1), dict(k=5)] + two_settings():
            c = dict(O.DEFAULT, opt=o, n=5, d=2, k=2, iters=5)
            c.update(v)
            if F.valid(c):
                out.append(c)
    return out


def ring_run(cfg, ctx):
    """LocalBestPSO and BinaryPSO build their ring themselves."""
    plan = ctx.pick([["o"], ["o", "o"], ["o", "r", "o"]], "plan")
    cost = [O.bumpy, O.sphere, lambda t, X: np.array([float((t * 7 + i * 5) % 11) for i in range(len(X))])][ctx.choose(3, "cost")]
    static = cfg["opt"] == "local_static"
    with rng.controlled(rng.FixedSource(4)):
        tr = O.Trace(cfg, cost, snapshots=False)
        first = None
        for op in plan:
            if op == "r":
                tr.reset()
                first = None
                continue
            tr.optimize()
            call = tr.calls[-1]
            for t in range(call.start, call.end - 1):
                first = t if first is None else first
                cost_, pos = O.model_pbest(tr, call, t + 1)
                X = tr.X[first] if static else tr.X[t]
                groups = topo.knn_groups([tuple(map(float, x)) for x in X], cfg["k"], cfg["p"], tol=1e-9)
                bp = np.asarray(tr.S[t + 1]["best_pos"])
                for i in range(cfg["n"]):
                    ok = topo.feasible_guides(groups[i], cost_)
                    check(any(np.array_equal(bp[i], pos[w]) for w in ok), lambda: "%s, calls %s, evaluation %d: particle %d guided by %s, not the best personal best of the %s neighbourhoods (%s)" % (
                        cfg["opt"], plan, t, i, bp[i].tolist(), "first" if static else "current", sorted(ok)))
                ctx.step()
    O.record(ctx, tr)


BOUNDS = ("all sequences of 2 and 3 (thorough 4) calls over six configurations of five particles (two calls also at five other scales and offsets) and five cost vectors, every topology, k and norm, compared with fresh topologies under the same scripted draws; all sequences of three calls with different k, p and r; "
          "inside the optimizers: every topology x configurations (every pair of 15 settings) x cost functions x call/reset plans")
ASSUMPTIONS = ["a static ring does not change between k = 1 (every particle on its own) and larger k"]
HARNESSES = [
    Harness("sequences", seq_run, seq_configs),
    Harness("two calls", seq_run, short_configs),
    Harness("varying arguments", vary_run, vary_configs),
    Harness("in optimizer", run_run, run_configs),
    Harness("own ring", ring_run, ring_configs),
]
