"""Boundary strategies against their documented formulas."""
import itertools
import math

import numpy as np

from .. import env, families as F, opt as O, rng
from ..core import Violation, check
from ..runner import Harness
import pyswarms.backend as P
from pyswarms.backend.handlers import BoundaryHandler
from pyswarms.backend.swarms import Swarm

MEMORY = ("intermediate", "shrink")

# ---------------------------------------------------------------- reference


def ref_coord(strategy, x, lb, ub, prev):
    if lb <= x <= ub:
        return x
    if strategy == "nearest":
        return min(max(x, lb), ub)
    if strategy == "reflective":
        while not lb <= x <= ub:
            x = 2 * lb - x if x < lb else 2 * ub - x
        return x
    if strategy == "periodic":
        s = abs(ub - lb)
        return ub - np.mod(lb - x, s) if x < lb else lb + np.mod(x - ub, s)
    if strategy == "intermediate":
        return 0.5 * (prev + (lb if x < lb else ub))
    raise KeyError(strategy)


def ref_row(strategy, x, lb, ub, prev):
    if strategy == "shrink":
        v = [a - b for a, b in zip(x, prev)]
        sig = [(l - p) / w if a < l else (u - p) / w if a > u else 1.0 for a, l, u, p, w in zip(x, lb, ub, prev, v)]
        s = min(sig)
        return [a if s == 1.0 and l <= a <= u else p + s * w for a, p, w, l, u in zip(x, prev, v, lb, ub)]
    return [ref_coord(strategy, a, l, u, p) for a, l, u, p in zip(x, lb, ub, prev if prev is not None else x)]


def is_out(x, lb, ub):
    return any(not l <= a <= u for a, l, u in zip(x, lb, ub))


def check_rows(strategy, X, Y, lb, ub, prev, what, tol=0.0, wrap=False):
    """Y is the repaired X; prev the previous positions."""
    Y = np.asarray(Y)
    check(Y.shape == np.shape(X), lambda: "%s: shape %s became %s" % (what, np.shape(X), Y.shape))
    for i in range(len(X)):
        x, y = [float(a) for a in X[i]], [float(a) for a in Y[i]]
        check(all(l <= b <= u for b, l, u in zip(y, lb, ub)), lambda: "%s: particle %s became %s, out of bounds [%s, %s]" % (what, x, y, lb, ub))
        if not is_out(x, lb, ub):
            check(y == x, lambda: "%s: in-bounds particle %s became %s" % (what, x, y))
            continue
        if strategy == "random":
            continue
        want = ref_row(strategy, x, lb, ub, None if prev is None else [float(a) for a in prev[i]])
        for j in range(len(x)):
            scale = max(abs(x[j]), abs(lb[j]), abs(ub[j]), 1e-300)
            eps = (1e-9 if strategy == "shrink" else tol) * scale
            ok = abs(y[j] - want[j]) <= eps
            if not ok and wrap and strategy == "periodic":
                ok = abs(abs(y[j] - want[j]) - (ub[j] - lb[j])) <= eps
            check(ok, lambda: "%s: particle %s (previously %s) became %s, should be %s (bounds %s %s)" % (
                what, x, None if prev is None else np.asarray(prev[i]).tolist(), y, [float(a) for a in want], lb, ub))


# ---------------------------------------------------------------- one step

BOXES = {"unit": (0.0, 1.0), "sym": (-1.0, 1.0), "neg": (-5.5, -2.25), "pos": (2.0, 2.5), "wide": (-100.0, 28.0), "tiny": (-2.0 ** -12, 2.0 ** -13)}


def lattice(lb, ub, m, reach):
    """Dyadic lattice from reach widths below to reach widths above."""
    w = ub - lb
    k = int(round(reach * m))
    return [lb + w * i / m for i in range(-k, m + k + 1)]


def classes(lb, ub, fine=False):
    w = ub - lb
    c = [lb - 2.25 * w, lb - 0.25 * w, lb, lb + 0.375 * w, ub, ub + 0.5 * w, ub + 3.125 * w]
    return c if fine else [c[0], c[1], c[3], c[4], c[5]]


def prevs(lb, ub):
    w = ub - lb
    return [lb + 0.25 * w, lb, ub]


def make(strategy, prev, bounds):
    h = BoundaryHandler(strategy=strategy)
    if strategy in MEMORY:
        r = h(np.array(prev, dtype=float), bounds)
        check(np.array_equal(r, prev), lambda: "first call with in-bounds positions returned %s" % r)
    return h


def one_configs(tier):
    out = []
    for st in O.BH:
        for b in BOXES:
            out.append(dict(st=st, boxes=[b], n=1, mode="lattice"))
        for bs in (["unit", "neg"], ["sym", "wide"], ["tiny", "pos"]):
            out.append(dict(st=st, boxes=bs, n=1, mode="lattice2"))
            out.append(dict(st=st, boxes=bs, n=2, mode="classes", half=0))
            out.append(dict(st=st, boxes=bs, n=2, mode="classes", half=1))
        for b in ("sym", "neg"):
            out.append(dict(st=st, boxes=[b], n=3, mode="classes", half=0))
        out.append(dict(st=st, boxes=["unit", "neg", "wide"], n=1, mode="classes", half=0))
        if tier == "thorough":
            for bs in (["unit", "neg", "wide", "sym"], ["tiny", "pos", "pos", "unit"]):
                out.append(dict(st=st, boxes=bs, n=1, mode="classes", half=0))
            for bs in (["unit", "wide"], ["neg", "tiny"]):
                for h in range(2):
                    out.append(dict(st=st, boxes=bs, n=2, mode="fine", half=h))
            for bs in (["unit", "neg", "wide"], ["sym", "sym", "pos"]):
                out.append(dict(st=st, boxes=bs, n=2, mode="classes", half=0))
    return out


def one_run(cfg, ctx):
    st, n = cfg["st"], cfg["n"]
    lb = np.array([BOXES[b][0] for b in cfg["boxes"]])
    ub = np.array([BOXES[b][1] for b in cfg["boxes"]])
    d = len(lb)
    form = ctx.pick([lambda a: a, list, lambda a: tuple(a.tolist())], "bounds form")
    bounds = (form(lb), form(ub))
    if cfg["mode"] == "lattice":
        alph = [lattice(lb[0], ub[0], 8, 3.25)]
    elif cfg["mode"] == "lattice2":
        alph = [lattice(lb[j], ub[j], 4, 2.25) for j in range(d)]
    else:
        alph = [classes(lb[j], ub[j], cfg["mode"] == "fine") for j in range(d)]
    L, U = lb.tolist(), ub.tolist()
    # the previous positions of memory strategies
    pi = ctx.choose(len(prevs(0, 1)) if st in MEMORY else 1, "previous")
    prev = np.array([[prevs(lb[j], ub[j])[(pi + i + 2 * j) % 3] for j in range(d)] for i in range(n)])
    rows = list(itertools.product(*alph))
    if cfg["mode"].startswith("lattice"):
        cases = [[r] for r in rows]
    else:
        firsts = rows[cfg["half"]::2] if n == 2 and "half" in cfg else rows
        cases = itertools.product(firsts, *[rows] * (n - 1)) if n > 1 else [[r] for r in rows]
    with rng.controlled(rng.FixedSource(6)):
        for case in cases:
            X = np.array(case, dtype=float)
            h = make(st, prev, bounds)
            Y = h(X.copy(), bounds)
            check_rows(st, X, Y, L, U, prev, "%s on %s" % (st, X.tolist()))
            ctx.step()
            ctx.validated()
            ctx.state(st, cfg["boxes"], X, pi)
    ctx.outcome(Y)
    ctx.sample(lambda: "%s bounds %s %s: %s -> %s" % (st, L, U, X.tolist(), np.asarray(Y).tolist()))


# ---------------------------------------------------------------- sequences on one handler

def seq_configs(tier):
    out = []
    for st in O.BH:
        out.append(dict(st=st, boxes=["sym"], n=1, depth=4 if tier == "quick" else 5, fine=True))
        deep = 3 if tier == "thorough" else 2
        out.append(dict(st=st, boxes=["unit", "neg"], n=1, depth=deep, fine=False))
        out.append(dict(st=st, boxes=["wide"], n=2, depth=3 if st in MEMORY else deep, fine=False))
    return out


def seq_run(cfg, ctx):
    st, n = cfg["st"], cfg["n"]
    lb = np.array([BOXES[b][0] for b in cfg["boxes"]])
    ub = np.array([BOXES[b][1] for b in cfg["boxes"]])
    d = len(lb)
    start = np.array([[lb[j] + (ub[j] - lb[j]) * (0.25 + 0.25 * ((i + j) % 3)) for j in range(d)] for i in range(n)])
    h = make(st, start, (lb, ub))
    alph = [classes(lb[j], ub[j], cfg["fine"]) for j in range(d)]
    rows = list(itertools.product(*alph))
    prev = start
    path = []
    with rng.controlled(rng.FixedSource(6)):
        for t in range(cfg["depth"]):
            X = np.array([rows[ctx.choose(len(rows), "row")] for _ in range(n)])
            path.append(X.tolist())
            Y = np.array(h(X.copy(), (lb, ub)))
            check_rows(st, X, Y, lb.tolist(), ub.tolist(), prev, "%s, call %d of positions %s" % (st, t + 2, path))
            prev = Y
            ctx.step()
            ctx.state(st, t, X, prev)
    ctx.validated()
    ctx.outcome(Y)


# ---------------------------------------------------------------- random redraw

def rnd_configs(tier):
    out = []
    for n, d in ((1, 1), (2, 1), (1, 2), (3, 1), (2, 2)) + (((1, 3), (3, 2)) if tier == "thorough" else ((1, 3),)):
        for pat in itertools.product((0, 1, 2), repeat=n * d):
            if n * d >= 6 and sum(1 for p in pat if p != 1) > 3:
                continue
            out.append(dict(n=n, d=d, pat=pat))
    return out


LETTERS = [0.0, 0.5]


def rnd_run(cfg, ctx):
    n, d = cfg["n"], cfg["d"]
    lb = np.array([-1.0 - j for j in range(d)])
    ub = np.array([1.0 + 2 * j for j in range(d)])
    X = np.array([[[lb[j] - 0.5, lb[j] + 0.25, ub[j] + 3.0][cfg["pat"][i * d + j]] for j in range(d)] for i in range(n)])
    with rng.controlled(rng.ElementSource(ctx, LETTERS)):
        Y = np.array(BoundaryHandler("random")(X.copy(), (lb, ub)))
    check_rows("random", X, Y, lb.tolist(), ub.tolist(), None, "random on %s" % X.tolist())
    a = ctx.acc.setdefault("seen", {})
    key = tuple(Y.ravel().tolist())
    a[key] = a.get(key, 0) + 1
    ctx.acc["total"] = ctx.acc.get("total", 0) + 1
    ctx.state(X, Y)
    ctx.step()
    ctx.validated()
    ctx.outcome(Y)


def rnd_finish(cfg, acc, stats):
    """Every particle that was out gets every combination of coordinates, equally often, independent of the others."""
    n, d = cfg["n"], cfg["d"]
    lb = [-1.0 - j for j in range(d)]
    ub = [1.0 + 2 * j for j in range(d)]
    opts = []
    for i in range(n):
        out = any(p != 1 for p in cfg["pat"][i * d:(i + 1) * d])
        for j in range(d):
            opts.append([lb[j] + u * (ub[j] - lb[j]) for u in LETTERS] if out else [lb[j] + 0.25])
    want = set(itertools.product(*opts))
    got = set(acc["seen"])
    check(got == want, "positions pattern %s (0 below, 1 in, 2 above; %d particles): over all draws %d of %d redraws reached%s" % (
        cfg["pat"], n, len(got & want), len(want), ", unexpected %s" % sorted(got - want)[:3] if got - want else ""))
    check(len(set(acc["seen"].values())) == 1, "positions pattern %s: the redraws are not equally frequent: %s" % (cfg["pat"], acc["seen"]))


# ---------------------------------------------------------------- awkward floats, compute_position, unknown names

def nasty_configs(tier):
    return [dict(st=st, lb=lb, ub=ub) for st in O.BH for lb, ub in ((0.1, 0.7), (-0.3, 0.1), (1e-3, 77.7), (-1e8 - 0.1, 1e8 + 0.7), (0.1, 0.1 + 2.0 ** -50), (-3.3, -1.1), (1 / 3.0, 2 / 3.0), (-1e-9, 3e-9), (5, 6))]


def nasty_run(cfg, ctx):
    st, lb, ub = cfg["st"], cfg["lb"], cfg["ub"]
    w = ub - lb
    base = ctx.pick([lb + k * w for k in (-5, -2, -1, 0, 1, 2, 5)] + [ub + k * w for k in (-2, -1, 0, 1, 3)] + [lb + 0.3 * w, lb - 0.1 * w, ub + 0.7 * w, lb - 3.7 * w], "x")
    step = ctx.choose(5, "ulp") - 2
    x = float(base)
    for _ in range(abs(step)):
        x = float(np.nextafter(x, math.copysign(1e300, step)))
    prev = np.array([[ctx.pick([lb, ub, lb + 0.3 * w, float(np.nextafter(lb, ub))], "prev")]]) if st in MEMORY else np.array([[lb + 0.5 * w]])
    prev = np.clip(prev, lb, ub).astype(float)
    bounds = (np.array([lb]), np.array([ub]))
    with rng.controlled(rng.ElementSource(ctx, [0.0, 1 - 2.0 ** -53, 0.3])):
        h = make(st, prev, bounds)
        Y = np.array(h(np.array([[x]]), bounds))
    y = float(Y[0, 0])
    check(lb <= y <= ub, lambda: "%s: %r became %r, out of bounds [%r, %r]" % (st, x, y, lb, ub))
    if lb <= x <= ub:
        check(y == x, lambda: "%s: %r is in bounds [%r, %r] and became %r" % (st, x, lb, ub, y))
    elif st == "nearest":
        check(y == (lb if x < lb else ub), lambda: "nearest: %r became %r" % (x, y))
    elif st == "intermediate":
        want = 0.5 * (prev[0, 0] + (lb if x < lb else ub))
        check(abs(y - want) <= 4e-16 * max(abs(lb), abs(ub)), lambda: "intermediate: %r (previously %r) became %r, should be %r" % (x, prev[0, 0], y, want))
    elif st == "shrink":
        want = lb if x < lb else ub
        check(abs(y - want) <= 1e-9 * max(abs(lb), abs(ub), abs(x)), lambda: "shrink: %r (previously %r) became %r, should be %r" % (x, prev[0, 0], y, want))
    ctx.state(st, lb, ub, x, prev, y)
    ctx.step()
    ctx.validated()


def cp_configs(tier):
    return [dict(st=st, via=via, boxes=bs, n=n) for st in O.BH for via in ("operators", "Star", "Ring", "VonNeumann", "Pyramid", "Random") for bs, n in ((["sym"], 1), (["unit", "neg"], 1), (["wide"], 2))]


def cp_run(cfg, ctx):
    """compute_position of the operators and of every topology: position + velocity, then the strategy."""
    st, n = cfg["st"], cfg["n"]
    lb = np.array([BOXES[b][0] for b in cfg["boxes"]])
    ub = np.array([BOXES[b][1] for b in cfg["boxes"]])
    d = len(lb)
    bounded = not ctx.choose(2, "no bounds")
    X = np.array([[prevs(lb[j], ub[j])[(i + 2 * j + 1) % 3] for j in range(d)] for i in range(n)])
    V = np.array([[(ub[j] - lb[j]) * ctx.pick([0.0, 0.125, -0.125, 1.75, -2.5], "v") for j in range(d)] for i in range(n)])
    s = Swarm(position=X.copy(), velocity=V.copy())
    h = BoundaryHandler(st)
    h.memory = X.copy()
    f = P.compute_position if cfg["via"] == "operators" else getattr(O.T, cfg["via"])().compute_position
    with rng.controlled(rng.FixedSource(6)):
        Y = np.array(f(s, (lb, ub) if bounded else None, h))
    T = X + V
    if bounded:
        check_rows(st, T, Y, lb.tolist(), ub.tolist(), X, "%s via %s: position %s velocity %s" % (st, cfg["via"], X.tolist(), V.tolist()))
    else:
        check(np.array_equal(Y, T), lambda: "without bounds %s + %s became %s" % (X.tolist(), V.tolist(), Y.tolist()))
    check(np.array_equal(s.position, X) and np.array_equal(s.velocity, V), "compute_position modified the swarm")
    ctx.state(cfg, V, bounded)
    ctx.step()
    ctx.validated()
    ctx.outcome(Y)


def name_configs(tier):
    return [dict(name=x) for x in ("unknown", "", "Periodic", "nearest ", "__call__", "_out_of_bounds", "strategies", "memory", None, 0, "invert", "zero", "exp_decay")]


def name_run(cfg, ctx):
    inb = ctx.choose(2, "in bounds")
    h = BoundaryHandler(cfg["name"])
    X = np.array([[0.5 if inb else 7.0]])
    try:
        r = h(X, (np.array([0.0]), np.array([1.0])))
    except KeyError:
        r = "KeyError"
    check(isinstance(r, str) and r == "KeyError", lambda: "strategy %r: no KeyError but %r" % (cfg["name"], r))
    ctx.state(cfg["name"], inb)
    ctx.step()
    ctx.validated()


def mon(tr):
    """In a run: the evaluated positions are the documented repair of position + velocity."""
    cfg = tr.cfg
    lb, ub = [np.array(b, dtype=float).tolist() for b in O.BOUNDS[cfg["bounds"]](cfg["d"])]
    for c in tr.calls:
        for t in range(c.start, c.end - 1):
            T = tr.X[t] + tr.S[t + 1]["velocity"]
            check_rows(cfg["bh"], T, tr.X[t + 1], lb, ub, tr.X[t], "%s in iteration %d" % (cfg["bh"], t), tol=1e-9, wrap=True)


def run_configs(tier):
    out = []
    opts = ["global", "local", "local_static", "general:star", "general:random", "general:pyramid", "general:vn"]
    for b in ("unit", "asym", "neg", "wide", "mixed", "int", "iflo", "ifhi"):
        for bh in O.BH:
            for o in opts if tier == "thorough" else [opts[(len(b) + len(bh) + len(out)) % 7], opts[0]]:
                for v in [dict(opts="big"), dict(opts="std", init="corner"), dict(opts="far", clamp="one")] + ([dict(opts="big", vh="invert"), dict(opts="big", vh="zero", clamp="dim"), dict(opts="big", oh={"w": "exp_decay"})] if tier == "thorough" else []):
                    c = dict(O.DEFAULT, opt=o, n=5, d=2, k=2, r=1, iters=4, bounds=b, bh=bh)
                    c.update(v)
                    if bh == "reflective" and not c.get("clamp"):     # one mirroring per box width
                        c["opts"] = dict(c1=3.0, c2=4.0, w=0.5)
                    if F.valid(c):
                        out.append(dict(c, plan="o", bound=1 if tier == "quick" else 2))
                        out += [dict(c, plan=p, bound=0 if tier == "quick" else 1) for p in ("oo", "oro")]
    return out


def run_run(cfg, ctx):
    plan = cfg["plan"]
    with rng.controlled(rng.PatternSource(ctx, patterns=3)):
        tr = O.Trace(cfg, O.bumpy, snapshots=False)
        for op in plan:
            tr.reset() if op == "r" else tr.optimize()
    mon(tr)
    O.record(ctx, tr)
    ctx.sample(lambda: "%s %s -> %s" % ({k: v for k, v in cfg.items() if O.DEFAULT.get(k) != v}, plan, tr.calls[-1].result))


BOUNDS = ("all positions on dyadic lattices up to 3.25 widths outside (1-D), 2.25 widths (2-D) and all combinations of 5-7 position classes for up to 2 particles x 2 (thorough 3) dimensions, three previous positions, six boxes, three forms of bounds; "
          "all call sequences of length 3-4 (5) on one handler; all redraws over a 2-letter alphabet for up to 2x2 (3x2) particles; positions within 2 ulp of multiples of nine awkward boxes; runs of every strategy with <=1 deviating draw")
ASSUMPTIONS = ["lower < upper in every dimension", "previous positions are in bounds", "shrink is compared with a relative tolerance of 1e-9, runs of other strategies likewise; lattices exactly"]
HARNESSES = [
    Harness("onestep", one_run, one_configs),
    Harness("sequence", seq_run, seq_configs),
    Harness("redraw", rnd_run, rnd_configs, finish=rnd_finish),
    Harness("ulps", nasty_run, nasty_configs),
    Harness("compute_position", cp_run, cp_configs),
    Harness("names", name_run, name_configs),
    Harness("runs", run_run, run_configs),
]
