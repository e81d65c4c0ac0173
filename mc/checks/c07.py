"""The update law: the set of all steps reachable over all draws from an alphabet
must be exactly the product, over particles and dimensions, of the values the
formula gives for separate draws r1, r2.  All numbers are dyadic, so the
comparison is exact whatever the order of the operations."""
import itertools
import random

import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import Violation, check
from ..runner import Harness

from pyswarms.backend import operators as ops
from pyswarms.backend.handlers import BoundaryHandler, VelocityHandler
from pyswarms.backend.swarms import Swarm

A2 = [0.25, 0.75]
A3 = [0.0, 0.5, 0.9375]
COEF = ["dy", "dy2", "cog", "soc", "zero", "int", "w1", "eq", "eq1"]


def law(x, v, p, b, o, alphabet, clamp=None):
    """Allowed values of every element of the new velocity."""
    n, d = x.shape
    b = np.broadcast_to(b, x.shape)
    sets = {}
    for i in range(n):
        for j in range(d):
            vals = set()
            for r1 in alphabet:
                for r2 in alphabet:
                    y = o["w"] * v[i, j] + o["c1"] * r1 * (p[i, j] - x[i, j]) + o["c2"] * r2 * (b[i, j] - x[i, j])
                    if clamp is not None:
                        y = min(max(y, clamp[0]), clamp[1])
                    vals.add(float(y))
            sets[i, j] = vals
    return sets


def product_size(sets):
    r = 1
    for v in sets.values():
        r *= len(v)
    return r


def check_member(new, sets, what):
    for (i, j), vals in sets.items():
        check(float(new[i, j]) in vals,
              lambda: "%s: particle %d dimension %d gets velocity %r, the update law allows %s" % (what, i, j, float(new[i, j]), sorted(vals)))


def finish_product(cfg, acc, stats):
    size = product_size(acc["sets"])
    check(len(acc["seen"]) == size,
          "only %d of the %d combinations of random factors are reachable: the draws are not independent (%s)" % (len(acc["seen"]), size, cfg))


def swarms(shape, guide, kind):
    """Dyadic swarms; pbest != position in every element unless kind says so."""
    n, d = shape
    ij = np.arange(n * d).reshape(n, d)
    x = (ij % 5) * 0.5 - 1.0
    v = 0.75 - (ij % 3) * 0.5
    p = x + 1.0 + 0.25 * ij
    b = np.array([[-2.0 + 0.5 * j - (i if guide == "per" else 0) for j in range(d)] for i in range(n)])
    if kind == "same":
        p = x.copy()
    if kind == "neg":
        x, v, p, b = -x * 4, -v * 2, p - 8, b + 16
    if kind == "intpos":
        x, p, b = np.round(x * 4).astype(int), np.round(p * 4).astype(int), np.round(b * 4).astype(int)
    if guide == "one":
        b = b[0]
    return x, v, p, b


def f_configs(tier):
    out = []
    shapes = [(1, 1), (2, 1), (1, 2), (1, 3), (3, 1)]
    tops = ["ops", "star", "ring", "vn", "pyramid", "random"]
    for s in shapes:
        for top in tops:
            for g in ("one", "per"):
                for kind in ("plain", "neg", "same", "intpos"):
                    for co in COEF if tier == "thorough" or top == "ops" else ["dy", "dy2", "eq"]:
                        for cl in (None, (-0.5, 1.0)):
                            if top != "ops" and (cl is None) != (kind == "plain"):
                                continue
                            out.append(dict(shape=s, top=top, guide=g, kind=kind, opts=co, clamp=cl, alphabet="2"))
    for co in ("dy", "dy2"):
        out.append(dict(shape=(2, 2), top="ops", guide="per", kind="plain", opts=co, clamp=None, alphabet="2"))
        out.append(dict(shape=(2, 2), top="star", guide="one", kind="neg", opts=co, clamp=None, alphabet="2"))
        out.append(dict(shape=(2, 1), top="ops", guide="one", kind="plain", opts=co, clamp=None, alphabet="3"))
        out.append(dict(shape=(1, 2), top="ring", guide="per", kind="plain", opts=co, clamp=(-1.0, 1.5), alphabet="3"))
    if tier == "thorough":
        out.append(dict(shape=(3, 2), top="ops", guide="per", kind="plain", opts="dy2", clamp=None, alphabet="2"))
        out.append(dict(shape=(2, 2), top="ops", guide="per", kind="plain", opts="dy2", clamp=None, alphabet="3"))
    return out


def f_run(cfg, ctx):
    x, v, p, b = swarms(tuple(cfg["shape"]), cfg["guide"], cfg["kind"])
    n, d = x.shape
    o = dict(O.OPTS[cfg["opts"]])
    s = Swarm(position=x.copy(), velocity=v.copy(), pbest_pos=p.copy(), best_pos=b.copy(), options=dict(o),
              pbest_cost=np.zeros(n), current_cost=np.zeros(n))
    keep = {k: getattr(s, k) for k in ("position", "velocity", "pbest_pos", "best_pos", "options")}
    vals = {k: (dict(u) if isinstance(u, dict) else u.copy()) for k, u in keep.items()}
    clamp = tuple(cfg["clamp"]) if cfg["clamp"] else None
    alphabet = A2 if cfg["alphabet"] == "2" else A3
    top = ops if cfg["top"] == "ops" else O.make_topology(cfg["top"])
    vh, bh = VelocityHandler(strategy="unmodified"), BoundaryHandler(strategy="periodic")
    with rng.controlled(rng.ElementSource(ctx, alphabet)):
        new = top.compute_velocity(s, clamp, vh, None)
    if "sets" not in ctx.acc:
        ctx.acc["sets"] = law(x, v, p, b, o, alphabet, clamp)
        ctx.acc["seen"] = set()
    check(np.shape(new) == (n, d), "velocity has shape %s" % (np.shape(new),))
    check_member(new, ctx.acc["sets"], "compute_velocity")
    ctx.acc["seen"].add(np.asarray(new, dtype=float).tobytes())

    def unchanged(what):
        for k in keep:
            same = vals[k] == keep[k] if k == "options" else np.array_equal(vals[k], keep[k])
            check(getattr(s, k) is keep[k] and same, "%s modified swarm.%s" % (what, k))
    unchanged("compute_velocity")
    s.velocity = np.asarray(new)
    keep["velocity"], vals["velocity"] = s.velocity, s.velocity.copy()
    with rng.controlled(rng.FixedSource(0)):
        pos = top.compute_position(s, None, bh)
    check(np.array_equal(pos, x + new), lambda: "compute_position: %s + %s gives %s" % (x.tolist(), np.asarray(new).tolist(), np.asarray(pos).tolist()))
    unchanged("compute_position")
    if cfg["kind"] == "plain":
        s.position, keep["position"] = pos, pos
        vals["position"] = np.array(pos)
        check(not np.shares_memory(pos, x), "new positions share memory with the old")
    ctx.state(repr(cfg), new, pos)
    ctx.step()
    ctx.validated()
    ctx.sample(lambda: "%s -> v'=%s" % (cfg, np.asarray(new).tolist()))


def o_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for (n, d) in [(2, 1), (2, 2)] + ([(1, 2)] if ":random" not in o and "pyramid" not in o else []):
            if "pyramid" in o and d < 2:
                continue
            for t in ((0, 1, 2) if (n, d) != (2, 2) else (1,) if tier == "quick" else (0, 1, 2)):
                for co in (("dy", "dy2", "eq") if tier == "thorough" or (n, d) != (2, 2) else ("dy2",)):
                    for cl in (None, "dy"):
                        if cl and (n, d) == (2, 2) and tier == "quick":
                            continue
                        out.append(dict(O.DEFAULT, opt=o, n=n, d=d, k=1, r=0, p=2, iters=t + 2, at=t, opts=co, clamp=cl))
    return out


def dyadic_cost(t, X, **kw):
    """Improves for some particles only, so that personal bests lag behind."""
    n = len(X)
    return np.array([10.0 + i - (t * 4.0 if (t + i) % 2 == 0 else -t) for i in range(n)])


def o_run(cfg, ctx):
    """Inside the optimizers: enumerate all draws of iteration `at`."""
    alphabet = A2
    src = rng.PhaseSource(rng.ElementSource(ctx, alphabet, combos=True), rng.FixedSource(5, bits=4))
    with rng.controlled(src):
        tr = O.Trace(cfg, dyadic_cost, snapshots=False)
        orig = tr.opt.top.compute_gbest if hasattr(tr.opt, "top") else None

        def on_eval(t, X):
            src.enumerating = False
        tr.on_eval = on_eval
        base = tr.costfn

        def cost(t, X, **kw):
            c = base(t, X)
            src.enumerating = (t == cfg["at"])
            return c
        tr.costfn = cost
        tr.optimize()
    t = cfg["at"]
    call = tr.calls[0]
    st, nx = tr.S[t], tr.S[t + 1]
    _, p = O.model_pbest(tr, call, t + 1)
    p = np.array(p)
    x, v = tr.X[t], st["velocity"]
    b = nx["best_pos"]
    costs = O.model_pbest(tr, call, t + 1)[0]
    if cfg["opt"] in ("global", "general:star") or ":star" in cfg["opt"]:
        first = min((tr.C[s][i], s, i) for s in range(t + 1) for i in range(cfg["n"]))
        b = tr.X[first[1]][first[2]]
    elif cfg["n"] == 1 or cfg["k"] == 1 and ("local" in cfg["opt"] or "ring" in cfg["opt"] or cfg["opt"] == "binary") or ":vn" in cfg["opt"]:
        b = p                 # neighbourhood of one
    else:
        b = np.array(p[int(np.argmin(costs))])   # two particles that see each other
    clamp = O.CLAMPS[cfg["clamp"]](cfg["d"]) if cfg["clamp"] else None
    o = O.OPTS[cfg["opts"]]
    if "sets" not in ctx.acc:
        ctx.acc["sets"] = law(x, v, p, b, o, alphabet, clamp)
        ctx.acc["seen"] = set()
        ctx.acc["ref"] = (x.tobytes(), v.tobytes())
    check(ctx.acc["ref"] == (x.tobytes(), v.tobytes()), "the same draws gave another prefix")
    check_member(nx["velocity"], ctx.acc["sets"], "%s iteration %d" % (cfg["opt"], t))
    ctx.acc["seen"].add(nx["velocity"].tobytes())
    if cfg["opt"] != "binary":
        check(np.array_equal(tr.X[t + 1], x + nx["velocity"]),
              lambda: "positions %s + velocities %s became %s" % (x.tolist(), nx["velocity"].tolist(), tr.X[t + 1].tolist()))
    ctx.state(repr(cfg), nx["velocity"], tr.X[t + 1])
    ctx.step(len(tr.X))
    ctx.validated()


def b_configs(tier):
    return [dict(O.DEFAULT, opt=o, bounds="wide", bh=bh, vh=vh, n=3, d=2, r=0, k=2, iters=4, opts=co, init="lat", clamp=cl)
            for o in O.CONT_OPTS for bh in O.BH for vh in ("unmodified", "invert", "zero") for co, cl in (("std", None), ("dy", "s"))]


def b_run(cfg, ctx):
    """Bounded runs: as long as no bound interferes, the law holds with factors in [0,1)."""
    with rng.controlled(rng.PatternSource(ctx, patterns=3)):
        tr = O.Trace(cfg, O.bumpy, snapshots=False)
        tr.optimize()
    o = O.OPTS[cfg["opts"]]
    clamp = O.CLAMPS[cfg["clamp"]](cfg["d"]) if cfg["clamp"] else (-np.inf, np.inf)
    call = tr.calls[0]
    for t in range(len(tr.X) - 1):
        x, v, nv = tr.X[t], tr.S[t]["velocity"], tr.S[t + 1]["velocity"]
        p, b = tr.S[t + 1]["pbest_pos"], np.broadcast_to(tr.S[t + 1]["best_pos"], x.shape)
        a1, a2 = o["c1"] * (p - x), o["c2"] * (b - x)
        lo = np.clip(o["w"] * v + np.minimum(a1, 0) + np.minimum(a2, 0), *clamp)
        hi = np.clip(o["w"] * v + np.maximum(a1, 0) + np.maximum(a2, 0), *clamp)
        eps = 1e-9 * (1 + np.abs(v) + np.abs(x))
        ok = (nv >= lo - eps) & (nv <= hi + eps)
        # velocities of particles out of bounds may be replaced by the strategy
        if cfg["vh"] == "unmodified":
            check(ok.all(), lambda: "iteration %d: velocity %s outside [%s, %s]" % (t, nv.tolist(), lo.tolist(), hi.tolist()))
        step = x + nv
        inb = O.in_bounds(cfg, step)
        check(np.array_equal(tr.X[t + 1][inb], step[inb]),
              lambda: "iteration %d: in-bounds particles moved from %s by %s to %s" % (t, x.tolist(), nv.tolist(), tr.X[t + 1].tolist()))
        ctx.state(x, nv)
    ctx.step(len(tr.X))
    ctx.validated()


def a_configs(tier):
    return [dict(O.DEFAULT, opt=o, n=4, d=2, r=0, k=2, iters=4, vh="adjust", bounds=b) for o in O.ALL_OPTS for b in (None, "wide")
            if not (o == "binary" and b)]


def a_run(cfg, ctx):
    """The velocity strategy "adjust" inside the optimizers (known finding)."""
    with rng.controlled(rng.PatternSource(ctx, patterns=3)):
        tr = O.Trace(cfg, O.bumpy, snapshots=False)
        tr.optimize()
    ctx.step(len(tr.X))
    ctx.validated()
    if cfg["opt"] == "binary":
        return
    X0 = tr.X[0]
    if all(np.array_equal(X, X0) for X in tr.X) and not all(np.array_equal(X0[0], r) for r in X0):
        raise Violation("with vh_strategy='adjust' no particle ever moves: all velocities are zero from the first step on", "adjust-frozen")
    for t in range(1, len(tr.X)):
        step = tr.X[t - 1] + tr.S[t]["velocity"]
        inb = O.in_bounds(cfg, step)
        check(np.array_equal(step[inb], tr.X[t][inb]), "adjusted velocity is not the step taken")


def w_configs(tier):
    out = []
    tops = ["ops", "star", "ring", "vn", "pyramid", "random"]
    sizes = [(5, 1), (33, 2), (65, 3), (101, 2), (129, 1), (257, 2), (1025, 2), (3, 65), (2, 257), (4, 1025), (20011, 1)]
    for n, d in sizes if tier == "quick" else sizes + [(n, 2) for n in range(6, 70)] + [(2, d) for d in range(3, 70)] + [(100003, 3)]:
        for top in tops if n <= 33 and d <= 2 else tops[:2]:
            out.append(dict(shape=(n, d), top=top))
    return out


def w_run(cfg, ctx):
    """Swarms of every size: no random factor is used twice, by another particle, dimension, term or iteration."""
    n, d = cfg["shape"]
    clamp = ctx.pick([None, (-1e9, 1e9)], "clamp", free=True)
    parts = []
    np.random.seed(11)          # numpy's own stream: 53 bits per draw
    random.seed(11)
    for c1, c2, g in ((1.0, 0.0, 0.0), (0.0, 1.0, 1.0), (1.0, 1.0, -1.0), (1.0, 1.0, -1.0)):
        x = np.zeros((n, d))
        s = Swarm(position=x, velocity=np.zeros((n, d)), pbest_pos=x + 1.0, best_pos=np.full(d, g), options=dict(c1=c1, c2=c2, w=0.5),
                  pbest_cost=np.zeros(n), current_cost=np.zeros(n))
        vh = VelocityHandler(strategy="unmodified")
        parts.append(np.array(ops.compute_velocity(s, clamp, vh) if cfg["top"] == "ops" else O.make_topology(cfg["top"]).compute_velocity(s, clamp, vh)))
    for i, (what, lo) in enumerate((("cognitive factors", 0.0), ("social factors", 0.0), ("differences of factors", -1.0), ("differences of factors", -1.0))):
        check(parts[i].shape == (n, d), lambda: "velocities of shape %s for %s particles" % (parts[i].shape, (n, d)))
        check(((parts[i] >= lo) & (parts[i] <= 1)).all(), lambda: "%s outside [%s, 1]" % (what, lo))
        check(len(np.unique(parts[i])) == n * d, lambda: "only %d distinct %s for %d particles in %d dimensions" % (len(np.unique(parts[i])), what, n, d))
    check(len(np.unique(np.concatenate([q.ravel() for q in parts]))) == 4 * n * d, "two iterations share random factors")
    for q in parts[2:]:
        check(abs(q.sum()) > 1e-9, "cognitive and social term use the same factors in another order")
    ctx.state(cfg["top"], n, d, clamp is None)
    ctx.step(4)
    ctx.validated()


AWKWARD = [0.0, 0.1, 1.0 / 3, 1.0 + 2.0 ** -40, 1e-9, 12345678.9, -0.7]


class Same(rng.Source):
    """Every draw is the same number, so that it does not matter which draw belongs to which term."""

    def __init__(self, u):
        self.u = u

    def unit(self, kind):
        return self.u


def awkward_configs(tier):
    return [dict(top=t, scale=s, offset=o, u=u) for t in ("ops", "star", "ring", "vn", "pyramid", "random") for s in (1.0, 1e-9, 1e9) for o in (0.0, 1.0 / 3) for u in (0.1, 0.7, 1 - 2.0 ** -53)
            if tier == "thorough" or t == "ops" or (s, u) == (1.0, 0.7)]


def awkward_run(cfg, ctx):
    """Coefficients and coordinates that are no short binary fractions: the step is the formula up to rounding of doubles."""
    c1, c2, w = (ctx.pick(AWKWARD, x, free=True) for x in ("c1", "c2", "w"))
    n, d, u = 4, 2, cfg["u"]
    e = np.array([[0.1 * (i + 1) + 0.37 * j for j in range(d)] for i in range(n)])
    s_ = cfg["scale"]
    x, v, pb, g = s_ * (e + cfg["offset"]), s_ * (e[::-1] * 0.3 - 0.2), s_ * (e[:, ::-1] * 1.7 + cfg["offset"]), s_ * np.array([0.123456789, -0.987654321])
    s = Swarm(position=x.copy(), velocity=v.copy(), pbest_pos=pb.copy(), best_pos=g.copy(), options=dict(c1=c1, c2=c2, w=w), pbest_cost=np.zeros(n), current_cost=np.zeros(n))
    top = ops if cfg["top"] == "ops" else O.make_topology(cfg["top"])
    with rng.controlled(Same(u)):
        got = np.array(top.compute_velocity(s, None, VelocityHandler(strategy="unmodified")))
        s.velocity = got
        at = np.array(top.compute_position(s, None, BoundaryHandler(strategy="nearest")))
    terms = [w * v, c1 * u * (pb - x), c2 * u * (g - x)]
    tol = 1e-14 * sum(np.abs(t) for t in terms) + 1e-15 * (abs(c1) * (abs(pb) + abs(x)) + abs(c2) * (abs(g) + abs(x)))
    want = sum(terms)
    check((np.abs(got - want) <= tol).all(), lambda: "c1=%r, c2=%r, w=%r, all random factors %r: velocities %s, should be %s" % (c1, c2, w, u, got.tolist(), want.tolist()))
    check((np.abs(at - (x + got)) <= 1e-15 * (abs(x) + abs(got))).all(), lambda: "positions %s, should be %s" % (at.tolist(), (x + got).tolist()))
    ctx.state(cfg, c1, c2, w)
    ctx.step()
    ctx.validated()
    ctx.outcome(cfg["top"])


BOUNDS = ("one step: all draws from a 2- or 3-letter alphabet for every matrix element (up to 2x2, thorough 3x2), 9 coefficient sets, swarm-wide and per-particle guides, all topologies' operators; "
          "all draws of one iteration (0..2) inside each of the 12 optimizers; bounded runs with <=1 deviating draw; 7^3 awkward coefficients x scales x offsets x 3 constant draws up to rounding; swarms up to 20011 particles and 1025 dimensions: all factors of 4 iterations distinct")
ASSUMPTIONS = ["random factors come from numpy.random or random", "coefficients, positions and units are dyadic so that the formula is exact in floating point (except in the harness coefficients, which allows for rounding)"]
HARNESSES = [
    Harness("step", f_run, f_configs, finish=finish_product),
    Harness("iteration", o_run, o_configs, finish=finish_product),
    Harness("bounded", b_run, b_configs, bound=lambda t: 1 if t == "quick" else 2),
    Harness("adjust", a_run, a_configs, bound=1),
    Harness("wide", w_run, w_configs),
    Harness("coefficients", awkward_run, awkward_configs),
]
