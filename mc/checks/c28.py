"""Benchmark functions against closed forms, row by row, and their domains."""
import itertools
from math import cos, exp, fabs, inf, pi, sin, sqrt

import numpy as np

from .. import env  # noqa: F401
from ..core import check
from ..runner import Harness
from pyswarms.utils.functions import single_obj as fx


def _levi(x, y):
    u, v = 1 + (x - 1) / 4, 1 + (y - 1) / 4
    return sin(pi * u) ** 2 + (x - 1) ** 2 * (1 + 10 * sin(pi * u + 1) ** 2) + (v - 1) ** 2 * (1 + sin(2 * pi * v) ** 2)


REF = {
    "ackley": lambda *x: -20 * exp(-0.2 * sqrt(sum(a * a for a in x) / len(x))) - exp(sum(cos(2 * pi * a) for a in x) / len(x)) + 20 + exp(1),
    "beale": lambda x, y: (1.5 - x + x * y) ** 2 + (2.25 - x + x * y * y) ** 2 + (2.625 - x + x * y ** 3) ** 2,
    "booth": lambda x, y: (x + 2 * y - 7) ** 2 + (2 * x + y - 5) ** 2,
    "bukin6": lambda x, y: 100 * sqrt(fabs(y - 0.01 * x * x)) + 0.01 * fabs(x + 10),
    "crossintray": lambda x, y: -0.0001 * (fabs(sin(x) * sin(y) * exp(fabs(100 - sqrt(x * x + y * y) / pi))) + 1) ** 0.1,
    "easom": lambda x, y: -cos(x) * cos(y) * exp(-((x - pi) ** 2 + (y - pi) ** 2)),
    "eggholder": lambda x, y: -(y + 47) * sin(sqrt(fabs(x / 2 + y + 47))) - x * sin(sqrt(fabs(x - (y + 47)))),
    "goldstein": lambda x, y: (1 + (x + y + 1) ** 2 * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y))
    * (30 + (2 * x - 3 * y) ** 2 * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y)),
    "himmelblau": lambda x, y: (x * x + y - 11) ** 2 + (x + y * y - 7) ** 2,
    "holdertable": lambda x, y: -fabs(sin(x) * cos(y) * exp(fabs(1 - sqrt(x * x + y * y) / pi))),
    "levi": _levi,
    "matyas": lambda x, y: 0.26 * (x * x + y * y) - 0.48 * x * y,
    "rastrigin": lambda *x: sum(10 + a * a - 10 * cos(2 * pi * a) for a in x),
    "rosenbrock": lambda *x: sum(100 * (b - a * a) ** 2 + (1 - a) ** 2 for a, b in zip(x, x[1:])),
    "schaffer2": lambda x, y: 0.5 + (sin(x * x - y * y) ** 2 - 0.5) / (1 + 0.001 * (x * x + y * y)) ** 2,
    "sphere": lambda *x: sum(a * a for a in x),
    "threehump": lambda x, y: 2 * x * x - 1.05 * x ** 4 + x ** 6 / 6 + x * y + y * y,
}
ANY_DIM = ("ackley", "rastrigin", "rosenbrock", "sphere")
DOMAIN = {"ackley": 32, "beale": 4.5, "booth": 10, "crossintray": 10, "easom": 100, "eggholder": 512, "goldstein": 2,
          "himmelblau": 5, "holdertable": 10, "levi": 10, "matyas": 10, "rastrigin": 5.12, "schaffer2": 100, "threehump": 5,
          "rosenbrock": inf, "sphere": inf}
# documented minimum value, minimisers
_S = lambda a, b: [(s * a, t * b) for s in (1, -1) for t in (1, -1)]
MIN = {"ackley": (0, None), "rastrigin": (0, None), "sphere": (0, None), "rosenbrock": (0, None),
       "beale": (0, [(3, 0.5)]), "booth": (0, [(1, 3)]), "bukin6": (0, [(-10, 1)]),
       "crossintray": (-2.06261, _S(1.34941, 1.34941)), "easom": (-1, [(pi, pi)]), "eggholder": (-959.6407, [(512, 404.2319)]),
       "goldstein": (3, [(0, -1)]), "himmelblau": (0, [(3, 2), (-2.805118, 3.131312), (-3.779310, -3.283186), (3.584428, -1.848126)]),
       "holdertable": (-19.2085, _S(8.05502, 9.66459)), "levi": (0, [(1, 1)]), "matyas": (0, [(0, 0)]),
       "schaffer2": (0, [(0, 0)]), "threehump": (0, [(0, 0)])}


def domain(name, d):
    """[(low, high)] per coordinate."""
    if name == "bukin6":
        return [(-15.0, -5.0), (-3.0, 3.0)]
    b = float(DOMAIN[name])
    return [(-b, b)] * d


def axis(lo, hi, m):
    """m values from lo to hi inclusive, and the neighbours of the ends."""
    if lo == -inf:
        lo, hi = -20.0, 20.0
    vals = [lo + (hi - lo) * i / (m - 1) for i in range(m)]
    vals[-1] = hi
    return sorted(set(vals + [float(np.nextafter(lo, hi)), float(np.nextafter(hi, lo))]))


def near(a, b, scale=0.0):
    return a == b or abs(a - b) <= 1e-8 * max(1.0, abs(a), abs(b), scale)


def evaluate(name, X):
    f = getattr(fx, name)
    before = np.array(X)
    out = f(X)
    check(np.array_equal(before, X) and before.dtype == X.dtype, lambda: "%s changed its input" % name)
    check(isinstance(out, np.ndarray) and out.shape == (len(X),), lambda: "%s of %d rows has shape %s" % (name, len(X), np.shape(out)))
    check(not np.any(np.ma.getmaskarray(out)), lambda: "%s: entries are masked" % name)
    return np.asarray(out)


def compare(name, X, ctx=None):
    out = evaluate(name, X)
    for i, row in enumerate(X):
        r = REF[name](*[float(v) for v in row])
        check(near(float(out[i]), r), lambda: "%s(%s) = %r in row %d of %d, formula gives %r" % (name, list(row), float(out[i]), i, len(X), r))
        if ctx is not None:
            ctx.state(name, row)
            ctx.step()
    return out


def lattice_configs(tier):
    out = []
    for name in REF:
        m = 101 if tier == "quick" else 201
        out.append(dict(f=name, d=2, m=m))
        if name in ANY_DIM:
            out += [dict(f=name, d=1, m=m), dict(f=name, d=3, m=11 if tier == "quick" else 31), dict(f=name, d=4, m=5 if tier == "quick" else 9)]
    return out


def lattice_run(cfg, ctx):
    name, d, m = cfg["f"], cfg["d"], cfg["m"]
    axes = [axis(lo, hi, m) for lo, hi in domain(name, d)]
    first = ctx.pick(axes[0], "x0")
    # the whole slice in one batch; the batch is turned round for the second one
    rows = np.array([(first,) + p for p in itertools.product(*axes[1:])])
    out = compare(name, rows, ctx)
    back = evaluate(name, rows[::-1].copy())
    for a, b in zip(out, back[::-1]):
        check(near(float(a), float(b)), lambda: "%s depends on the order of the rows" % name)
    lo = float(out.min())
    check(lo >= MIN[name][0] - 1e-4, lambda: "%s has the value %r, below its documented minimum" % (name, lo))
    ctx.validated()
    ctx.outcome(round(lo, 6))
    ctx.sample(lambda: "%s on %d points with x0=%r: minimum %r" % (name, len(rows), first, lo))


def batch_configs(tier):
    return [dict(f=f, d=d, rows=r) for f in REF for d in ((2,) if f not in ANY_DIM else (1, 2, 3)) for r in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5))]


def points(name, d):
    dom = domain(name, d)
    fr = [(0.0,), (1.0,), (0.28125, 0.6875), (0.5, 0.75, 0.125), (0.9375, 0.0, 1.0)]
    P = []
    for f in fr:
        p = []
        for j in range(d):
            lo, hi = dom[j]
            if lo == -inf:
                lo, hi = -7.0, 9.0
            u = f[j % len(f)]
            p.append(hi if u == 1 else lo + (hi - lo) * u)
        P.append(tuple(p))
    return P


FORMS = ["plain", "fortran", "view", "readonly"]


def batch_run(cfg, ctx):
    name, d = cfg["f"], cfg["d"]
    P = points(name, d)
    if cfg["rows"] > 3:
        P = P[1:4] if cfg["rows"] == 4 else P[2:4]
    rows = [ctx.pick(P, "row") for _ in range(cfg["rows"])]
    form = ctx.pick(FORMS, "form") if cfg["rows"] in (1, 2) else "plain"
    X = np.array(rows)
    if form == "fortran":
        X = np.asfortranarray(X)
    elif form == "view":
        big = np.full((2 * len(rows), 2 * d), 1e9)
        big[::2, 1::2] = rows
        X = big[::2, 1::2]
    elif form == "readonly":
        X.setflags(write=False)
    out = compare(name, X, ctx)
    ctx.validated()
    ctx.outcome(out.round(9))


def int_configs(tier):
    return [dict(f=f) for f in REF]


def int_run(cfg, ctx):
    name = cfg["f"]
    dom = domain(name, 2)
    axs = []
    for lo, hi in dom:
        lo, hi = (int(np.ceil(lo)), int(np.floor(hi))) if lo > -inf else (-10, 10)
        axs.append(sorted(set(list(range(lo, hi + 1, max(1, (hi - lo) // 12))) + [hi])))
    x = ctx.pick(axs[0], "x")
    compare(name, np.array([(x, y) for y in axs[1]], dtype=int), ctx)
    ctx.validated()


def edge_configs(tier):
    out = []
    for f in REF:
        for d in ((2,) if f not in ANY_DIM else (1, 2, 3, 4)):
            for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 8)):
                out.append(dict(f=f, d=d, n=n))
    return out


def edge_run(cfg, ctx):
    """One coordinate of one row outside (or another one on the other side as well)."""
    name, d, n = cfg["f"], cfg["d"], cfg["n"]
    dom = domain(name, d)
    X = np.array([[(lo + hi) / 2 if lo > -inf else 1.0 for lo, hi in dom] for _ in range(n)])
    r, c = ctx.choose(n, "row"), ctx.choose(d, "column")
    side = ctx.choose(2, "side")
    how = ctx.pick(["on", "just", "tenth", "far", "huge", "both"], "how")
    lo, hi = dom[c]
    if lo == -inf:
        X[r, c] = {"on": 1e3, "just": -1e3, "tenth": 0.1, "far": 1e6, "huge": 1e100, "both": -1e6}[how] * (1 if side else -1)
        want = "ok"
    else:
        e, s = (hi, 1) if side else (lo, -1)
        if how == "both":
            X[:, :] = [[h if (i + j) % 2 else l for j, (l, h) in enumerate(dom)] for i in range(n)]
        X[r, c] = {"on": e, "just": np.nextafter(e, s * inf), "tenth": e + s * 0.1, "far": e + s * (hi - lo) * 3, "huge": s * 1e100, "both": e + s * 0.25}[how]
        want = "ok" if how == "on" else "ValueError"
    try:
        out = evaluate(name, X)
        got = "ok"
    except ValueError:
        got = "ValueError"
    check(got == want, lambda: "%s with row %d = %s (of %d rows, domain %s): %s instead of %s" % (name, r, list(X[r]), n, dom, got, want))
    if got == "ok" and name in DOMAIN and DOMAIN[name] < inf:
        compare(name, X)
    ctx.state(name, X)
    ctx.step()
    ctx.validated()
    ctx.outcome(name, got)


def dim_configs(tier):
    return [dict(f=f) for f in REF if f not in ANY_DIM]


def dim_run(cfg, ctx):
    name = cfg["f"]
    d = ctx.pick([1, 3, 4, 5, 10], "dimensions")
    n = ctx.pick([1, 2, 3, 5], "rows")
    val = ctx.pick([0.0, 1.0], "value")
    X = np.full((n, d), val)
    if name == "bukin6":
        X[:, 0] = -10
    try:
        getattr(fx, name)(X)
        got = "ok"
    except IndexError:
        got = "IndexError"
    check(got == "IndexError", lambda: "%s accepts %d dimensions" % (name, d))
    ctx.state(name, X)
    ctx.step()
    ctx.validated()


def min_configs(tier):
    return [dict(f=f) for f in REF]


def min_run(cfg, ctx):
    name = cfg["f"]
    value, pts = MIN[name]
    if pts is None:
        d = ctx.pick([1, 2, 3, 5, 10, 30], "dimensions")
        pts = [tuple([1.0 if name == "rosenbrock" else 0.0] * d)]
    p = ctx.pick(pts, "minimiser")
    n = ctx.pick([1, 3, 4], "rows")
    out = evaluate(name, np.array([p] * n, dtype=float))
    tol = 1e-3 if name in ("eggholder", "holdertable", "crossintray") else 1e-8
    for v in out:
        check(abs(float(v) - value) <= tol, lambda: "%s(%s) = %r, documented minimum %r" % (name, p, float(v), value))
    # a box around the minimiser: nothing lower
    dom = domain(name, len(p))
    steps = [k / 64.0 * s for s in (1.0, 2.0 ** -12) for k in (-8, -3, -1, 0, 1, 3, 8)]
    if len(p) <= 2:
        rows = [tuple(min(max(a + e, lo), hi) for a, e, (lo, hi) in zip(p, es, dom)) for es in itertools.product(steps, repeat=len(p))]
        out = compare(name, np.array(rows), ctx)
        check(float(out.min()) >= value - tol, lambda: "%s falls to %r near %s" % (name, float(out.min()), p))
    ctx.validated()
    ctx.state(name, p, n)
    ctx.step()


def size_configs(tier):
    out = []
    ds = list(range(1, 66)) + [80, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 1000]
    ns = list(range(1, 66)) + [80, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1024, 1025]
    if tier == "thorough":
        ds += list(range(66, 260)) + [511, 512, 513, 2000]
        ns += list(range(66, 260)) + [511, 512, 513, 2000, 4096, 4097, 10000, 10001]
    for f in REF:
        if f in ANY_DIM:
            out += [dict(f=f, n=n, d=d) for d in sorted(set(ds)) for n in ((1, 3) if tier == "quick" else (1, 2, 3, 7))]
            out += [dict(f=f, n=n, d=3) for n in sorted(set(ns))]
        out += [dict(f=f, n=n, d=2) for n in sorted(set(ns))]
    return out


def size_run(cfg, ctx):
    """Every number of rows and dimensions, generic points."""
    name, n, d = cfg["f"], cfg["n"], cfg["d"]
    kind = ctx.pick(["spread", "small", "edge", "integer", "zero"], "points")
    dom = domain(name, d)
    X = np.empty((n, d))
    for i in range(n):
        for j in range(d):
            lo, hi = dom[j] if dom[j][0] > -inf else (-8.0, 12.0)
            u = ((0.5 + (i * 0.6180339887498949 + j * 0.7548776662466927) * (1 + 0.01 * i)) % 1.0)
            X[i, j] = {"spread": lo + (hi - lo) * u, "small": (lo + hi) / 2 + (u - 0.5) * 1e-3 * (hi - lo), "edge": hi if u > 0.5 else lo,
                       "integer": np.floor(lo + (hi - lo) * u) if np.floor(lo + (hi - lo) * u) >= lo else np.ceil(lo), "zero": 0.0 if lo <= 0 <= hi else lo}[kind]
    compare(name, X)
    ctx.state(name, n, d, kind)
    ctx.step(n)
    ctx.validated()


BOUNDS = ("78 dimensions up to 1000 and 80 row counts up to 1025 (thorough 270 up to 10001) with five kinds of points; every point of a 103x103 (thorough 203x203) lattice over the domain of each of the 17 functions including the ends and their floating point neighbours, 1, 3 and 4 dimensions where allowed; every ordered batch of 1-4 rows from 5 points in four memory layouts; "
          "every (row, column, side, distance) violation in batches up to 4 (8) rows; all documented minimisers with a box around each")
ASSUMPTIONS = ["values are compared with a relative tolerance of 1e-8", "levi as implemented (its documentation gives no formula)", "coordinates are not NaN"]
HARNESSES = [
    Harness("lattice", lattice_run, lattice_configs),
    Harness("sizes", size_run, size_configs),
    Harness("batches", batch_run, batch_configs),
    Harness("integers", int_run, int_configs),
    Harness("domain", edge_run, edge_configs),
    Harness("dimensions", dim_run, dim_configs),
    Harness("minima", min_run, min_configs),
]
