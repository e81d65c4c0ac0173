"""Velocity strategies against their documented rules, then the clamp."""
import itertools

import numpy as np

from .. import env, opt as O, rng
from ..core import check
from ..runner import Harness
import pyswarms.backend as P
from pyswarms.backend.handlers import VelocityHandler
from pyswarms.backend.swarms import Swarm

BOXES = {"unit": (0.0, 1.0), "sym": (-1.0, 1.0), "neg": (-5.5, -2.25), "wide": (-100.0, 28.0)}
CLAMPS = {None: None, "s": (-0.5, 0.5), "asym": (-0.25, 1.5), "lo0": (0, 0.5), "hi0": (-0.75, 0.0), "big": (-1e3, 1e3), "dim": "dim", "zero": (0.0, 0.0), "list": "list"}


def clamp_of(name, d):
    if name == "dim":
        return (np.array([-0.25 * (j + 1) for j in range(d)]), np.array([0.5 + 0.25 * j for j in range(d)]))
    if name == "list":
        return ([-0.5] * d, [0.25] * d)
    return CLAMPS[name]


def apply_clamp(V, c):
    if c is None:
        return V
    return np.minimum(np.maximum(V, np.asarray(c[0], dtype=float)), np.asarray(c[1], dtype=float))


def out_rows(X, lb, ub):
    return [any(not l <= a <= u for a, l, u in zip(x, lb, ub)) for x in X]


def reference(st, V, X, prev, lb, ub, z, c):
    V = np.array(V, dtype=float)
    if st == "adjust":
        V = V if prev is None else np.asarray(X) - prev
    elif st in ("invert", "zero"):
        for i, o in enumerate(out_rows(X, lb, ub)):
            if o:
                V[i] = -z * V[i] if st == "invert" else 0.0
    return apply_clamp(V, c)


def compare(st, got, want, what, X, V):
    got = np.asarray(got)
    check(got.shape == want.shape and bool(np.array_equal(got, want)), lambda: "%s: velocities %s at positions %s became %s, should be %s" % (what, np.asarray(V).tolist(), np.asarray(X).tolist(), got.tolist(), want.tolist()))


def positions(lb, ub):
    w = ub - lb
    return [lb - 2.0 * w, lb - 2.0 ** -20, lb, lb + 0.5 * w, ub, ub + 2.0 ** -20, ub + 3.0 * w]


def few(lb, ub):
    w = ub - lb
    return [lb - 0.5 * w, lb, lb + 0.5 * w, ub, ub + 0.5 * w]


VELS = [0.0, 0.375, -1.0, 8.0]


def one_configs(tier):
    out = []
    for st in O.VH:
        for c in CLAMPS:
            out.append(dict(st=st, boxes=["sym"], n=1, clamp=c))
            out.append(dict(st=st, boxes=["unit", "neg"], n=1, clamp=c))
            if tier == "quick" and c not in (None, "dim", "lo0", "list"):
                continue
            out.append(dict(st=st, boxes=["wide"], n=2, clamp=c))
            out.append(dict(st=st, boxes=["unit", "wide"], n=2, clamp=c))
            out.append(dict(st=st, boxes=["sym"], n=3, clamp=c))
            out.append(dict(st=st, boxes=["neg", "unit", "wide"], n=1, clamp=c))
            if tier == "thorough":
                out.append(dict(st=st, boxes=["neg", "unit", "wide"], n=2, clamp=c))
                out.append(dict(st=st, boxes=["neg", "unit"], n=3, clamp=c))
    return out


def one_run(cfg, ctx):
    st, n = cfg["st"], cfg["n"]
    lb = [BOXES[b][0] for b in cfg["boxes"]]
    ub = [BOXES[b][1] for b in cfg["boxes"]]
    d = len(lb)
    c = clamp_of(cfg["clamp"], d)
    z = ctx.pick([None, 0.25, 0.0, 1.0, -1.5] if st == "invert" else [None], "z")
    form = ctx.pick([np.array, list, tuple], "bounds form")
    vi = ctx.choose(2, "velocities")
    bounds = (form(lb), form(ub))
    alph = [positions(l, u) if n * d <= 2 else few(l, u) if n * d <= 4 else few(l, u)[::2] for l, u in zip(lb, ub)]
    vrows = list(itertools.product(VELS, repeat=n * d)) if n * d <= 2 else [tuple(VELS[(a + b * (i + 1) + i) % 4] for i in range(n * d)) for a in range(4) for b in (1, 3)]
    rows = list(itertools.product(*[alph[j] for _ in range(n) for j in range(d)]))
    for r, flat in enumerate(rows):
        X = np.array(flat, dtype=float).reshape(n, d)
        for v in (vrows[vi::2] if n * d <= 2 else [vrows[(r + vi * 3) % len(vrows)]]):
            V = np.array(v, dtype=float).reshape(n, d)
            h = VelocityHandler(strategy=st)
            kw = {} if z is None else {"z": z}
            if st != "unmodified" or vi:
                kw.update(position=X.copy(), bounds=bounds)
            got = h(V.copy(), c, **kw)
            compare(st, got, reference(st, V, X, None, lb, ub, 0.5 if z is None else z, c), "%s z=%s clamp=%s bounds %s %s" % (st, z, c, lb, ub), X, V)
            ctx.step()
            ctx.validated()
            ctx.state(st, cfg["boxes"], cfg["clamp"], X, V, z)
    ctx.outcome(got)
    ctx.sample(lambda: "%s z=%s clamp %s bounds %s %s: velocity %s at %s -> %s" % (st, z, c, lb, ub, V.tolist(), X.tolist(), np.asarray(got).tolist()))


def seq_configs(tier):
    return [dict(st=st, n=n, d=d, clamp=c, depth=(4 if n * d == 1 else 3) if tier == "quick" else (5 if n * d == 1 else 4)) for st in O.VH for c in (None, "s", "dim") for n, d in ((1, 1), (1, 2), (2, 1))] \
        + [dict(st=st, n=n, d=1, clamp=c, depth=4, mags=1) for st in O.VH for c in (None, "asym") for n in (1, 2)]


MAGS = [1e16, 0.1, -3e-9, 1e300]


def seq_run(cfg, ctx):
    """One handler over several calls: only adjust remembers, and only the previous positions."""
    st, n, d = cfg["st"], cfg["n"], cfg["d"]
    lb, ub = [-1.0] * d, [1.0] * d
    c = clamp_of(cfg["clamp"], d)
    h = VelocityHandler(st)
    prev = None
    path = []
    letters = MAGS[:4 if n == 1 else 2] if cfg.get("mags") else [-1.5, -0.25, 0.5, 2.0] if n * d == 1 else [-1.5, 0.25, 2.0]
    for t in range(cfg["depth"]):
        X = np.array([[ctx.pick(letters, "x") for _ in range(d)] for _ in range(n)])
        V = np.array([[VELS[(t + i + 2 * j) % 4] for j in range(d)] for i in range(n)])
        path.append(X.tolist())
        got = h(V.copy(), c, position=X.copy(), bounds=(np.array(lb), np.array(ub)))
        compare(st, got, reference(st, V, X, prev, lb, ub, 0.5, c), "%s clamp=%s, call %d with positions %s" % (st, c, t + 1, path), X, V)
        prev = X
        ctx.step()
        ctx.state(st, cfg["clamp"], t, path)
    ctx.validated()
    ctx.outcome(got)


def cv_configs(tier):
    return [dict(st=st, via=via, clamp=c, n=n, d=d) for st in O.VH for via in ("operators", "Star", "Ring", "VonNeumann", "Pyramid", "Random") for c in (None, "s", "dim") for n, d in ((1, 1), (1, 2), (2, 1), (2, 2))]


def cv_run(cfg, ctx):
    """compute_velocity of the operators and of every topology passes positions, bounds and clamp on."""
    st, n, d = cfg["st"], cfg["n"], cfg["d"]
    lb, ub = [-1.0] * d, [1.0 + j for j in range(d)]
    c = clamp_of(cfg["clamp"], d)
    w = ctx.pick([1.0, -0.5, 2.0], "w")
    X = np.array([[ctx.pick([-1.5, 0.25, 3.5], "x") for _ in range(d)] for _ in range(n)])
    V = np.array([[VELS[(1 + i + 2 * j) % 4] for j in range(d)] for i in range(n)])
    s = Swarm(position=X.copy(), velocity=V.copy(), options=dict(c1=0.0, c2=0.0, w=w))
    s.pbest_pos, s.best_pos = X.copy(), X[0].copy()
    h = VelocityHandler(st)
    prev = None
    if ctx.choose(2, "memory"):
        prev = X - 0.125
        h.memory = prev.copy()
    f = P.compute_velocity if cfg["via"] == "operators" else getattr(O.T, cfg["via"])().compute_velocity
    with rng.controlled(rng.FixedSource(2)):
        got = f(s, c, h, (np.array(lb), np.array(ub)))
    compare(st, got, reference(st, w * V, X, prev, lb, ub, 0.5, c), "%s via %s w=%s clamp=%s" % (st, cfg["via"], w, c), X, w * V)
    check(np.array_equal(s.position, X) and np.array_equal(s.velocity, V), "compute_velocity modified the swarm")
    ctx.state(cfg, X, w, prev)
    ctx.step()
    ctx.validated()
    ctx.outcome(got)


def err_configs(tier):
    return ([dict(name=x, kw=["position", "bounds"]) for x in ("unknown", "", "Invert", "zero ", "__call__", "strategies", "memory", None, 3, "nearest", "periodic", "exp_decay")]
            + [dict(name=x, kw=k) for x in ("invert", "zero") for k in ([], ["position"], ["bounds"])] + [dict(name="adjust", kw=k) for k in ([], ["bounds"])])


def err_run(cfg, ctx):
    c = ctx.pick([None, (-0.5, 0.5)], "clamp")
    inside = ctx.choose(2, "inside")
    kw = {}
    if "position" in cfg["kw"]:
        kw["position"] = np.array([[0.5 if inside else 3.0]])
    if "bounds" in cfg["kw"]:
        kw["bounds"] = (np.array([0.0]), np.array([1.0]))
    h = VelocityHandler(cfg["name"])
    try:
        r = h(np.array([[0.25]]), c, **kw)
    except KeyError:
        r = "KeyError"
    check(isinstance(r, str), lambda: "strategy %r with %s: no KeyError but %r" % (cfg["name"], sorted(kw), r))
    ctx.state(cfg, c, inside)
    ctx.step()
    ctx.validated()


BOUNDS = ("all combinations of 7 position classes and 4 velocities (1-2 coordinates), 5 or 3 position classes (up to 2x2, 3x1, 1x3; thorough 2x3, 3x2) x 9 clamps x 5 z values x three forms of bounds; "
          "all call sequences of length 3-4 (5) on one handler, also with positions of magnitudes from 3e-9 to 1e300; through the operators and all topologies; unknown names and missing arguments")
ASSUMPTIONS = ["clamps contain values with min <= max"]
HARNESSES = [
    Harness("onestep", one_run, one_configs),
    Harness("sequence", seq_run, seq_configs),
    Harness("compute_velocity", cv_run, cv_configs),
    Harness("errors", err_run, err_configs),
]
