"""No scale, direction, origin, coordinate number or particle number is special."""
import numpy as np

from .. import families as F, opt as O, rng
from ..core import check
from ..runner import Harness
from .c33 import Rec


class Inconclusive(Exception):
    """The two searches cannot be compared (ties, or draws that belong to no particle)."""


# ---------------------------------------------------------------- draws, array by array

class ArrayLog(rng.Source):
    def __init__(self, inner):
        self.inner, self.log = inner, []

    def units(self, size, kind):
        r = self.inner.units(size, kind)
        self.log.append(("units", r))
        return np.array(r) if size is not None else r

    def ints(self, n, size, kind):
        r = self.inner.ints(n, size, kind)
        self.log.append(("ints", r))
        return np.array(r) if size is not None else r

    def perm(self, n, kind):
        r = list(self.inner.perm(n, kind))
        self.log.append(("perm", r))
        return list(r)

    def subset(self, n, k, kind):
        r = list(self.inner.subset(n, k, kind))
        self.log.append(("subset", r))
        return list(r)

    def unit(self, kind):
        r = self.inner.unit(kind)
        self.log.append(("unit", r))
        return r

    def index(self, n, kind):
        r = self.inner.index(n, kind)
        self.log.append(("index", r))
        return r


class ArrayReplay(rng.Source):
    def __init__(self, log, change):
        self.log, self.change, self.i = log, change, 0

    def next(self, name):
        check(self.i < len(self.log), "the second search makes more random draws than the first one")
        m, r = self.log[self.i]
        self.i += 1
        check(m == name, lambda: "the second search draws %s where the first one draws %s" % (name, m))
        return r

    def units(self, size, kind):
        r = self.next("units")
        check(size is None or np.prod(size, dtype=int) == np.size(r), "the two searches draw different numbers of values")
        r = self.change(np.asarray(r))
        return float(r) if size is None else np.array(r)

    def ints(self, n, size, kind):
        r = self.next("ints")
        r = self.change(np.asarray(r))
        return int(r) if size is None else np.array(r)

    def perm(self, n, kind):
        return list(self.change(np.asarray(self.next("perm")), True))

    def subset(self, n, k, kind):
        return list(self.change(np.asarray(self.next("subset")), True))

    def unit(self, kind):
        return float(self.change(np.asarray(self.next("unit"))))

    def index(self, n, kind):
        return int(self.change(np.asarray(self.next("index"))))


# ---------------------------------------------------------------- transformations

class Same:
    """Base of the transformations: how positions, velocities, boxes, draws and rows of values change."""
    ties = False        # True: a tie between particles makes the comparison meaningless

    def __init__(self, n, d):
        self.n, self.d = n, d

    def pos(self, x):
        return np.array(x, dtype=float)

    def back(self, x):
        return np.array(x, dtype=float)

    def vel(self, v):
        return np.array(v, dtype=float)

    def rows(self, c):
        return c

    def rowsback(self, c):
        return c

    def point(self, x):
        """One point of the search space."""
        return self.pos(x)

    def draws(self, a, whole=False):
        return a

    def box(self, b, f):
        return (f(b[0]), f(b[1]))

    def bounds(self, b):
        return self.box([np.asarray(x, dtype=float) for x in b], self.point)

    def clamp(self, c):
        if np.ndim(c[0]):
            return self.box([np.asarray(x, dtype=float) for x in c], lambda v: self.vel(np.asarray(v)[None])[0])
        return self.box([float(c[0]), float(c[1])], self.vscalar)

    def vscalar(self, v):
        return v


class Scale(Same):
    def __init__(self, n, d, e):
        Same.__init__(self, n, d)
        self.e = e
        self.name = "scaled by 2^%d" % e

    def pos(self, x):
        return np.ldexp(np.asarray(x, dtype=float), self.e)

    def back(self, x):
        return np.ldexp(np.asarray(x, dtype=float), -self.e)

    vel = pos

    def vscalar(self, v):
        return float(np.ldexp(v, self.e))


class Mirror(Same):
    ties = True

    def __init__(self, n, d, axes):
        Same.__init__(self, n, d)
        self.s = np.array([-1.0 if a else 1.0 for a in axes])
        self.all = all(axes)
        self.name = "mirrored by %s" % self.s.tolist()

    def pos(self, x):
        return np.asarray(x, dtype=float) * self.s

    back = vel = pos

    def box(self, b, f):
        lo, hi = f(b[0]), f(b[1])
        return (np.minimum(lo, hi), np.maximum(lo, hi)) if np.ndim(lo) else (min(lo, hi), max(lo, hi))

    def vscalar(self, v):
        return -v if self.all else v


def reorder(a, n, d, what, order):
    """Draws of reordered particles (what=0) or coordinates (what=1), where it is plain which draw belongs to whom."""
    if a.shape[-2:] == (n, d):
        return np.take(a, order, axis=what - 2)
    if a.shape == (n * d,):
        return np.take(a.reshape(n, d), order, axis=what).ravel()
    axes = [i for i, s in enumerate(a.shape) if s == (n, d)[what]]
    if len(axes) != 1:
        raise Inconclusive("draws of shape %s" % (a.shape,))
    return np.take(a, order, axis=axes[0])


class Coordinates(Same):
    ties = True

    def __init__(self, n, d, order):
        Same.__init__(self, n, d)
        self.o, self.inv = np.array(order), np.argsort(order)
        self.name = "coordinates reordered %s" % list(order)

    def pos(self, x):
        return np.ascontiguousarray(np.asarray(x, dtype=float)[..., self.o])

    def back(self, x):
        return np.ascontiguousarray(np.asarray(x, dtype=float)[..., self.inv])

    vel = pos

    def draws(self, a, whole=False):
        return a if whole else reorder(a, self.n, self.d, 1, self.o)


class Particles(Same):
    ties = True

    def __init__(self, n, d, order):
        Same.__init__(self, n, d)
        self.o, self.inv = np.array(order), np.argsort(order)
        self.name = "particles reordered %s" % list(order)

    def pos(self, x):
        return np.asarray(x, dtype=float)[self.o]

    def back(self, x):
        return np.asarray(x, dtype=float)[self.inv]

    vel = pos

    def rows(self, c):
        return np.asarray(c)[self.o]

    def rowsback(self, c):
        return np.asarray(c)[self.inv]

    def point(self, x):
        return np.array(x, dtype=float)

    def draws(self, a, whole=False):
        if whole:
            raise Inconclusive("one draw for all")
        return reorder(a, self.n, self.d, 0, self.o)

    def clamp(self, c):
        return c


class Shift(Same):
    def __init__(self, n, d, by):
        Same.__init__(self, n, d)
        self.by = np.array([by[j % len(by)] for j in range(d)], dtype=float)
        self.name = "shifted by %s" % self.by.tolist()

    def pos(self, x):
        y = np.asarray(x, dtype=float) + self.by
        if not np.array_equal(y - self.by, x):
            raise Inconclusive("the shift is not exact")
        return y

    def back(self, x):
        return np.asarray(x, dtype=float) - self.by


# ---------------------------------------------------------------- the two searches

def tied(X, p, binary):
    """Particles at (nearly) equal distances: the order of neighbours is then up to the numbers of the particles."""
    for x in X:
        dist = np.sort((np.abs(X - x) ** p).sum(axis=1))
        gap = np.diff(dist)
        if len(gap) and gap.min() <= 1e-9 * max(dist[-1], 1e-300):
            return True
    return False


def search(cfg, inp, src, fun, start=None, velocity=None):
    rec = Rec(fun)
    with rng.controlled(rng.FixedSource(3, bits=cfg["bits"])):
        opt = O.build(cfg, inp)
    if start is not None:
        check(np.array_equal(opt.swarm.position, start), lambda: "%s: the search starts at %s, not at %s" % (cfg["opt"], opt.swarm.position.tolist(), start.tolist()))
    if velocity is not None:
        opt.swarm.velocity = velocity
    rec.start, rec.velocity = np.array(opt.swarm.position), np.array(opt.swarm.velocity)
    with rng.controlled(src):
        for iters in cfg.get("calls") or [cfg["iters"]]:
            rec.R.append(opt.optimize(rec.objective, iters, verbose=False))
    s = opt.swarm
    rec.state = dict(position=np.array(s.position), velocity=np.array(s.velocity), pbest_cost=np.array(s.pbest_cost), pbest_pos=np.array(s.pbest_pos))
    rec.hist = [float(np.min(c)) for c in opt.cost_history]
    return rec


def second(cfg, inp, tr, a, keep_init):
    out = dict(inp)
    if inp["bounds"] is not None:
        out["bounds"] = tr.bounds(inp["bounds"])
    if inp["clamp"] is not None:
        out["clamp"] = tr.clamp(inp["clamp"])
    if keep_init:
        out["init_pos"] = tr.pos(a.start) if cfg["opt"] != "binary" else tr.pos(a.start).astype(int)
    return out


def compare(cfg, a, b, tr, ctx):
    what = "%s %s, %s" % (cfg["opt"], {k: v for k, v in cfg.items() if O.DEFAULT.get(k) != v and k not in ("opt", "tr")}, tr.name)
    check(len(a.X) == len(b.X), lambda: "%s: %d and %d evaluations" % (what, len(a.X), len(b.X)))
    for t, (X, Y) in enumerate(zip(a.X, b.X)):
        check(np.array_equal(tr.pos(X), Y), lambda: "%s: evaluation %d at\n%s\nwhich corresponds to\n%s\nbut the second search is at\n%s" % (what, t, X.tolist(), tr.pos(X).tolist(), Y.tolist()))
        ctx.state(t, X)
    check(a.hist == b.hist, lambda: "%s: best costs %s and %s" % (what, a.hist, b.hist))
    for j, (r, s) in enumerate(zip(a.R, b.R)):
        check(np.min(r[0]) == np.min(s[0]) and np.array_equal(tr.point(r[1]), s[1]), lambda: "%s: call %d returns %s at %s, which corresponds to %s, and %s at %s" % (what, j, r[0], r[1], tr.point(r[1]), s[0], s[1]))
    for k, f in [("position", tr.pos), ("velocity", tr.vel), ("pbest_pos", tr.pos), ("pbest_cost", tr.rows)]:
        check(np.array_equal(f(a.state[k]), b.state[k]), lambda: "%s: %s ends as %s, which corresponds to %s, and %s" % (what, k, a.state[k].tolist(), f(a.state[k]).tolist(), b.state[k].tolist()))
    ctx.step(len(a.X) + len(b.X))
    ctx.validated()
    ctx.outcome(tr.name, len(a.X))


FUNCS = {
    "bumpy": lambda t, X: O.bumpy(0, X),
    "slope": lambda t, X: np.asarray(X, dtype=float) @ (0.75 ** np.arange(X.shape[1])) + 0.001 * t,
    "moving": lambda t, X: O.bumpy(t, X) - 0.3 * t,
}


def run(cfg, ctx):
    inp = O.inputs(cfg)
    name = ctx.pick(list(FUNCS), "function")
    salt = ctx.choose(2, "salt")
    f = FUNCS[name]
    log = ArrayLog(rng.FixedSource(11 + salt, bits=cfg["bits"]))
    a = search(cfg, inp, log, f)
    near = cfg["opt"].startswith("local") or cfg["opt"] == "binary" or ":ring" in cfg["opt"] or ":vn" in cfg["opt"]
    ties = any(len({tuple(r) for r in X.tolist()}) < len(X) or len(set(np.ravel(C).tolist())) < len(X) or near and cfg["opt"] != "binary" and tied(X, inp["options"].get("p", 2), False) for X, C in zip(a.X, a.C))
    for tr in transformations(cfg):
        if tr.ties and ties and cfg["opt"] != "binary":
            continue
        keep = not isinstance(tr, Scale)
        try:
            over = second(cfg, inp, tr, a, keep or cfg["init"] is not None)
            c2 = dict(cfg)
            if not keep and cfg["init"] is None and cfg["bounds"] is None:
                c2["center"] = tr.vscalar(1.0 if cfg["center"] is None else cfg["center"])
            b = search(c2, over, ArrayReplay(log.log, tr.draws), lambda t, Y: tr.rows(f(t, tr.back(Y))), start=tr.pos(a.start), velocity=tr.vel(a.velocity))
            compare(cfg, a, b, tr, ctx)
        except Inconclusive:
            ctx.step(1)
    ctx.sample(lambda: "%s %s -> %s" % (cfg["opt"], name, a.R))


ORDERS = {2: [(1, 0)], 3: [(2, 0, 1), (1, 0, 2), (2, 1, 0)], 4: [(3, 2, 1, 0), (1, 2, 3, 0)], 6: [(5, 0, 4, 1, 3, 2)], 5: [(4, 2, 0, 3, 1), (1, 0, 2, 3, 4)], 7: [(6, 4, 2, 0, 5, 3, 1), (0, 1, 2, 3, 4, 6, 5)], 12: [tuple((5 * i + 3) % 12 for i in range(12))]}
SHIFTS = [[0.5], [-0.5, 0.25], [2.0, -3.0], [1.0], [-1.5], [1024.0, -64.0], [-2.0 ** 20], [2.0 ** 20 + 0.5, 0.0]]


def transformations(cfg):
    n, d, o = cfg["n"], cfg["d"], cfg["opt"]
    out = []
    for kind, args in cfg["tr"]:
        if kind == "scale":
            out += [Scale(n, d, e) for e in args]
        elif kind == "mirror":
            out += [Mirror(n, d, [(m >> j) & 1 for j in range(d)]) for m in args]
        elif kind == "coordinates":
            out += [Coordinates(n, d, p) for p in ORDERS.get(d, [])]
        elif kind == "particles":
            out += [Particles(n, d, p) for p in ORDERS.get(n, [])]
        else:
            out += [Shift(n, d, s) for s in args]
    return out


VARIANTS = [dict(), dict(n=7, d=3, iters=15, k=3), dict(n=5, iters=40), dict(calls=[3, 2, 4], k=3), dict(clamp="asym"), dict(clamp="dim", opts="big"), dict(init="f32"), dict(oh={"w": "exp_decay", "c1": "lin_variation", "c2": "nonlin_mod"}),
            dict(opts="neg"), dict(opts="eq1"), dict(opts="soc", clamp="s"), dict(n=12, d=5, iters=8, k=4), dict(n=1, k=1)]
BOXES = [dict(bounds=b, bh=h, vh=v, opts=o, clamp=c) for h, v, b, o, c in [
    ("periodic", "unmodified", "asym", "far", None), ("nearest", "zero", "unit", "std", "big"), ("reflective", "invert", "neg", "far", None), ("shrink", "adjust", "mixed", "std", None), ("intermediate", "unmodified", "wide", "far", "asym"),
    ("random", "invert", "asym", "far", None), ("shrink", "invert", "asym", "far", None), ("intermediate", "zero", "tiny", "std", "s"), ("periodic", "adjust", "wide", "std", "dim"), ("reflective", "zero", "tiny", "std", None),
    ("nearest", "adjust", "mixed", "big", None), ("random", "unmodified", "neg", "std", "one")]]
BOXES += [dict(b, n=6, d=4, opts="far", clamp=None, iters=8) for b in BOXES if b["bounds"] in ("asym", "neg", "wide", "mixed")]
DYADIC = [dict(bounds="dy", bh=h, vh=v, opts=o, clamp=c, init=i) for h, v, o, c, i in [
    ("periodic", "unmodified", "dy2", "dy", "lat"), ("nearest", "invert", "dy", None, "lat"), ("reflective", "zero", "dy2", None, "corner"), ("intermediate", "adjust", "dy", "big", "lat"), ("random", "zero", "dy2", None, "lat"),
    ("periodic", "invert", "eq1", "one", "corner"), ("nearest", "unmodified", "dy2", "pos", "lo"), ("reflective", "adjust", "dy", "lo0", "hi"), ("intermediate", "zero", "dy2", "hi0", "corner"), ("random", "adjust", "cog", "dy", "hi")]]


def configs(tier):
    deep = tier == "thorough"
    out = []
    for o in O.ALL_OPTS:
        for i, v in enumerate(VARIANTS + BOXES):
            c = dict(O.DEFAULT, opt=o, n=5, d=2, k=2, r=0, iters=12, bits=30)
            c.update(v)
            if deep:
                c["iters"] *= 4
            if ":random" in o and c["n"] == 1 or "pyramid" in o and (c["n"] < 4 or c["d"] > 3):
                continue
            if "vn" in o:
                c["d"] = min(c["d"], 3)
                c["r"] = 1 if c["n"] >= 7 and c["d"] < 4 else 0
            if o == "binary":
                if c["bounds"] or c["oh"] or c["init"] == "f32":
                    continue
                c["k"] = c["n"]
                c["tr"] = [("coordinates", 0)]
            elif "pyramid" in o:
                c["tr"] = [("scale", [-300, -52, -10, -1, 1, 3, 30, 100, 300])]
            else:
                c["tr"] = [("scale", [-300, -52, -10, -1, 1, 3, 30, 100, 300]), ("mirror", [1, 2, (1 << c["d"]) - 1]), ("coordinates", 0), ("particles", 0)]
            if o != "binary" and c["clamp"] not in (None, "dim", "s", "one", "big"):
                c["tr"] = [(k, [a[-1]]) if k == "mirror" else (k, a) for k, a in c["tr"]]      # one asymmetric clamp for all axes: mirror all of them
            if c["bh"] == "random" and c["bounds"]:
                c["tr"] = [t for t in c["tr"] if t[0] in ("scale", "shift")]
            if ":random" in o:
                c["tr"] = [t for t in c["tr"] if t[0] != "particles"]
            if F.valid(c):
                out.append(c)
        for v in [dict(init="lat"), dict(init="corner", opts="dy2"), dict(init="lat", clamp="dy", opts="dy2")] + DYADIC:
            if o == "binary":
                continue
            c = dict(O.DEFAULT, opt=o, n=5, d=2, k=2, r=0, iters=3, bits=4, opts="dy")
            c.update(v)
            c["tr"] = [("shift", SHIFTS)]
            if "pyramid" in o and c["init"] != "lat":
                continue
            if F.valid(c):
                out.append(c)
    return out


BOUNDS = ("every optimizer in 13 unbounded and 21 bounded settings (each boundary and velocity strategy, scalar and per-dimension clamps, schedules, several calls, 1-12 particles, 2-5 dimensions, 3-40 (thorough 160) iterations) on three functions and two sequences of draws, against the same search scaled by "
          "2^-300...2^300, mirrored in one and in all axes, with reordered coordinates and with reordered particles; thirteen dyadic settings against eight exact shifts of the origin")
ASSUMPTIONS = ["the other search is given the corresponding draws and initial velocities; comparisons in which particles or costs are tied, or a draw belongs to no particle or coordinate, are left out (reordering and mirroring only)",
               "mirroring and reordering leave out the random boundary strategy; reordering of particles leaves out the random topology; the joggled triangulation is compared under scaling and shifts only"]
HARNESSES = [Harness("transformed searches", run, configs)]
