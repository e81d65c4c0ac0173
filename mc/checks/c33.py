"""Equivalent ways to set up and to run a swarm give the same run."""
import collections

import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import Violation, check, dev_product
from ..runner import Harness

import pyswarms as ps
import pyswarms.backend as P
from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
from pyswarms.backend import topology as T

PAIRS = {"global": "general:star", "local": "general:ring", "local_static": "general:ring_static"}


# ---------------------------------------------------------------- draws

class Log(rng.Source):
    """Passes draws to another source and remembers the answers."""

    def __init__(self, inner):
        self.inner, self.log = inner, []

    def begin(self, kind, shape):
        rng.Source.begin(self, kind, shape)
        self.inner.begin(kind, shape)

    def unit(self, kind):
        u = self.inner.unit(kind)
        self.log.append(u)
        return u

    def index(self, n, kind):
        i = self.inner.index(n, kind)
        self.log.append((n, i))
        return i

    def subset(self, n, k, kind):
        s = list(self.inner.subset(n, k, kind))
        self.log.append((n, k, tuple(s)))
        return s


class Replay(rng.Source):
    """Gives the answers of a log again."""

    def __init__(self, log):
        self.log, self.i = log, 0

    def next(self, what):
        check(self.i < len(self.log), "the second way makes more random draws than the first one")
        r = self.log[self.i]
        self.i += 1
        return r

    def unit(self, kind):
        r = self.next(kind)
        check(not isinstance(r, tuple), "the two ways draw differently")
        return r

    def index(self, n, kind):
        r = self.next(kind)
        check(isinstance(r, tuple) and len(r) == 2 and r[0] == n, "the two ways draw differently")
        return r[1]

    def subset(self, n, k, kind):
        r = self.next(kind)
        check(isinstance(r, tuple) and len(r) == 3 and r[:2] == (n, k), "the two ways draw differently")
        return list(r[2])


# ---------------------------------------------------------------- the ways

class Rec:
    """What one way of running did."""

    def __init__(self, costfn):
        self.X, self.C, self.R, self.costfn, self.state = [], [], [], costfn, None

    def objective(self, X):
        self.X.append(np.array(X))
        c = self.costfn(len(self.X) - 1, X)
        self.C.append(np.array(c))
        return c


def by_optimizer(cfg, rec, src, inp=None, build=O.build):
    """Through an optimizer class."""
    with rng.controlled(rng.ShapeSource(3)):
        opt = build(cfg, inp)
    with rng.controlled(src):
        for iters in cfg.get("calls") or [O.full(cfg)["iters"]]:
            rec.R.append(opt.optimize(rec.objective, iters, verbose=False))
    s = opt.swarm
    rec.state = dict(position=np.array(s.position), velocity=np.array(s.velocity), pbest_cost=np.array(s.pbest_cost), pbest_pos=np.array(s.pbest_pos))
    rec.hist = [float(np.min(c)) for c in opt.cost_history]
    return rec


def by_loop(cfg, rec, src, inp=None):
    """A loop written with the backend, as the tutorials do."""
    c = O.full(cfg)
    inp = inp or O.inputs(c)
    name = {"global": "star", "local": "ring", "local_static": "ring_static"}.get(c["opt"], c["opt"].partition(":")[2])
    top = O.make_topology(name)
    args = {k: inp["options"][k] for k in ("k", "p", "r") if k in inp["options"]}
    with rng.controlled(rng.ShapeSource(3)):
        kw = dict(bounds=inp["bounds"], init_pos=inp["init_pos"], clamp=inp["clamp"], options=inp["options"])
        if c["center"] is not None:
            kw["center"] = O.make_center(c)
        swarm = P.create_swarm(c["n"], c["d"], **kw)
    bh, vh, oh = BoundaryHandler(strategy=c["bh"]), VelocityHandler(strategy=c["vh"]), OptionsHandler(strategy=inp["oh"])
    options = dict(inp["options"])
    rec.hist = []
    with rng.controlled(src):
        for iters in cfg.get("calls") or [c["iters"]]:
            bh.memory = vh.memory = swarm.position
            swarm.pbest_cost = np.full(c["n"], np.inf)
            swarm.best_cost = np.inf
            for i in range(iters):
                swarm.current_cost = P.compute_objective_function(swarm, rec.objective)
                swarm.pbest_pos, swarm.pbest_cost = P.compute_pbest(swarm)
                swarm.best_pos, swarm.best_cost = top.compute_gbest(swarm, **args)
                rec.hist.append(float(np.min(swarm.best_cost)))
                swarm.options = oh(options, iternow=i, itermax=iters)
                swarm.velocity = top.compute_velocity(swarm, inp["clamp"], vh, inp["bounds"])
                swarm.position = top.compute_position(swarm, inp["bounds"], bh)
            rec.R.append((swarm.best_cost, swarm.pbest_pos[np.argmin(swarm.pbest_cost)].copy()))
    rec.state = dict(position=np.array(swarm.position), velocity=np.array(swarm.velocity), pbest_cost=np.array(swarm.pbest_cost), pbest_pos=np.array(swarm.pbest_pos))
    return rec


def by_plain_loop(cfg, rec, src, inp=None):
    """The loop of the tutorial, with the default handlers."""
    c = O.full(cfg)
    inp = inp or O.inputs(c)
    top = T.Star()
    with rng.controlled(rng.ShapeSource(3)):
        swarm = P.create_swarm(n_particles=c["n"], dimensions=c["d"], options=inp["options"], init_pos=inp["init_pos"])
    rec.hist = []
    with rng.controlled(src):
        for i in range(c["iters"]):
            swarm.current_cost = rec.objective(swarm.position)
            swarm.pbest_cost = rec.costfn(0, swarm.pbest_pos)
            swarm.pbest_pos, swarm.pbest_cost = P.compute_pbest(swarm)
            if np.min(swarm.pbest_cost) < swarm.best_cost:
                swarm.best_pos, swarm.best_cost = top.compute_gbest(swarm)
            rec.hist.append(float(np.min(swarm.best_cost)))
            swarm.velocity = top.compute_velocity(swarm)
            swarm.position = top.compute_position(swarm)
    rec.R.append((swarm.best_cost, swarm.best_pos))
    rec.state = dict(position=np.array(swarm.position), velocity=np.array(swarm.velocity), pbest_cost=np.array(swarm.pbest_cost), pbest_pos=np.array(swarm.pbest_pos))
    return rec


def same(a, b, what, state=True, ctx=None):
    for t in range(max(len(a.X), len(b.X))):
        check(t < len(a.X) and t < len(b.X), lambda: "%s: %d and %d evaluations" % (what, len(a.X), len(b.X)))
        check(a.X[t].shape == b.X[t].shape and np.array_equal(a.X[t], b.X[t]), lambda: "%s: evaluation %d at\n%s\nand\n%s" % (what, t, a.X[t].tolist(), b.X[t].tolist()))
    for j, (r, s) in enumerate(zip(a.R, b.R)):
        check(np.min(r[0]) == np.min(s[0]) and np.array_equal(r[1], s[1]), lambda: "%s: call %d returns %r and %r" % (what, j, r, s))
    check(a.hist == b.hist, lambda: "%s: best costs %s and %s" % (what, a.hist, b.hist))
    if state:
        for k in a.state:
            check(np.array_equal(a.state[k], b.state[k], equal_nan=True), lambda: "%s: %s ends as %s and %s" % (what, k, a.state[k].tolist(), b.state[k].tolist()))
    if ctx is not None:
        for t, X in enumerate(a.X):
            ctx.state(t, X)
        ctx.step(len(a.X) + len(b.X))
        ctx.validated()
        ctx.outcome(np.asarray(a.R[-1][0]), np.asarray(a.R[-1][1]), len(a.X))


def other_way(cfg):
    if cfg["way"] == "class":
        c2 = dict(cfg, opt=PAIRS[cfg["opt"]])
        return lambda rec, src: by_optimizer(c2, rec, src), "%s and %s" % (cfg["opt"], c2["opt"])
    if cfg["way"] == "plain":
        return lambda rec, src: by_plain_loop(cfg, rec, src), "%s and the tutorial's loop" % cfg["opt"]
    return lambda rec, src: by_loop(cfg, rec, src), "%s and a backend loop" % cfg["opt"]


def compare(cfg, ctx, source, cost):
    log = Log(source)
    a = by_optimizer(cfg, Rec(cost), log)
    go, what = other_way(cfg)
    b = go(Rec(cost), Replay(log.log))
    same(a, b, what, state=cfg["way"] != "plain", ctx=ctx)
    return a


def ways(opt):
    return (["class"] if opt in PAIRS else []) + ["loop"]


# every element of every draw
def draws_configs(tier):
    out = []
    for o in O.CONT_OPTS:
        for w in ways(o):
            if "pyramid" in o:
                continue
            for n, d, iters, extra in [(2, 1, 2 + (tier == "thorough"), {}), (2, 1, 2, dict(bounds="asym", bh="nearest", opts="far")), (2, 1, 2, dict(clamp="dim", vh="unmodified")), (3, 1, 2, dict(init="int"))]:
                c = dict(opt=o, n=n, d=d, iters=iters, k=1, p=2, r=0, way=w)
                c.update(extra)
                if tier == "quick" and (n == 3 and (o != "global" or w == "loop") or extra.get("bounds") and ":" in o):
                    continue
                if F.valid(c):
                    out.append(c)
                    if tier == "thorough" and iters == 2 and n == 2:
                        out.append(dict(c, iters=3))
    for n, d, iters in [(2, 1, 2), (1, 2, 2), (3, 1, 2)] + ([(2, 2, 2)] if tier == "thorough" else []):
        out.append(dict(opt="global", n=n, d=d, iters=iters, way="plain"))
    return out


def draws_run(cfg, ctx):
    units = [0.0, 0.4375, 1 - 2.0 ** -10] if cfg["n"] * cfg["d"] * cfg["iters"] <= 4 and cfg["way"] == "plain" else [0.125, 1 - 2.0 ** -10]
    a = compare(cfg, ctx, rng.ElementSource(ctx, units), O.bumpy)
    ctx.sample(lambda: "%s with %s -> %s" % (cfg["opt"], [x.tolist() for x in a.X], a.R))


# every order of costs
def orders_configs(tier):
    out = []
    for o in O.CONT_OPTS:
        for w in ways(o):
            for n, iters, al in [(2, 3, "std"), (2, 2, "inf"), (3, 2, "two")] + ([(3, 2, "std"), (3, 3, "two"), (2, 3, "inf")] if tier == "thorough" else []):
                c = dict(opt=o, n=n, d=2, iters=iters, k=1 if ":random" in o else 2, p=2, r=0, way=w, alpha=al)
                if "pyramid" in o and n < 4:
                    c["n"] = 4
                    c["iters"] = min(iters, 2)
                    c["alpha"] = "two"
                if F.valid(c) and c not in out:
                    out.append(c)
    return out


def orders_run(cfg, ctx):
    vals, dt = F.alpha_values(cfg["alpha"])
    memo = {}

    def cost(t, X, **kw):
        if t not in memo:
            memo[t] = np.array([ctx.pick(vals, "c") for _ in range(len(X))], dtype=dt)
        return memo[t].copy()
    a = compare(cfg, ctx, rng.FixedSource(11), cost)
    ctx.sample(lambda: "%s n=%d costs %s -> %s" % (cfg["opt"], cfg["n"], [c.tolist() for c in a.C], a.R))


# every configuration
ALT = dict(F.ALTERNATIVES, opt=O.CONT_OPTS[1:], clamp=["s", "dim", "lo0", "np"], opts=["big", "zero", "int", "w1", "far", "eq", "neg"], ftol=[None], center=[4.0, -2.0, "list", "int"])
KEYS = ["opt", "n", "d", "iters", "bounds", "bform", "bh", "vh", "clamp", "opts", "oh", "init", "k", "p", "center"]


def configs_configs(tier):
    out = []
    alts = {k: ALT[k] for k in KEYS}
    for bi, base in enumerate((dict(O.DEFAULT, n=5, iters=4), dict(O.DEFAULT, n=5, iters=5, bounds="asym", opts="far", opt="local"))):
        b = 2 if tier == "quick" else 3
        for c in dev_product(base, alts, b):
            if "pyramid" in c["opt"] and c["n"] < c["d"] + 2:
                continue
            if not F.valid(c):
                continue
            for w in ways(c["opt"]):
                out.append(dict(c, way=w, bound=(1 if sum(c[k] != base[k] for k in KEYS) < 2 else 0) if tier == "quick" else (1 if bi else 2)))
    return out


def configs_run(cfg, ctx):
    a = compare(cfg, ctx, rng.PatternSource(ctx, patterns=2), O.bumpy)
    ctx.sample(lambda: "%s -> %s" % ({k: v for k, v in cfg.items() if O.DEFAULT.get(k) != v}, a.R))


# stopping rule and repeated calls (classes only: a plain loop has no stopping rule)
def calls_configs(tier):
    out = []
    for o in PAIRS:
        for v in [dict(), dict(ftol=0.5), dict(ftol=0.2, ftol_iter=2), dict(bounds="asym", opts="far", bh="shrink"), dict(bounds="unit", bh="intermediate", vh="invert", opts="far"),
                  dict(bounds="asym", bh="random", opts="far"), dict(oh={"w": "exp_decay", "c1": "lin_variation", "c2": "nonlin_mod"}), dict(init="int"), dict(clamp="asym")]:
            c = dict(O.DEFAULT, opt=o, n=4, d=2, k=2)
            c.update(v)
            for w in ("class",) + (("loop",) if "ftol" not in v else ()):
                for calls in ([3], [3, 2], [1, 4, 2], [2, 2, 2, 2]):
                    out.append(dict(c, way=w, calls=calls))
    return out


def calls_run(cfg, ctx):
    lv = [ctx.pick(["bumpy", "quant", "sphere"], "cost")]
    cost = {"bumpy": O.bumpy, "quant": lambda t, X, **kw: np.floor(2 * O.bumpy(t, X)) / 2, "sphere": O.sphere}[lv[0]]
    a = compare(cfg, ctx, rng.FixedSource(ctx.choose(6, "salt")), cost)
    ctx.sample(lambda: "%s calls %s %s -> %s" % (cfg["opt"], cfg["calls"], lv, a.R))


def scale_configs(tier):
    out = []
    for o in O.CONT_OPTS:
        for n, d, iters in [(1, 1, 4), (1, 3, 4), (2, 5, 4), (7, 3, 20), (30, 2, 10), (50, 6, 5), (150, 2, 3), (258, 3, 3), (3, 40, 4), (5, 2, 150)] + ([(600, 2, 3), (1030, 2, 3), (4, 300, 4), (4, 2, 1100)] if tier == "thorough" else []):
            if "pyramid" in o and (n < d + 2 or d > 3 or d < 2 or n > 160):
                continue
            for v in [dict(), dict(bounds="asym", bh="reflective", clamp="s"), dict(bounds="wide", bh="random", opts="far", vh="zero")]:
                c = dict(O.DEFAULT, opt=o, n=n, d=d, iters=iters, k=max(1, min(3, n - 1)), r=1 if 2 * d + 1 <= n else 0)
                c.update(v)
                if not F.valid(c) or (":random" in o and n < 2):
                    continue
                for w in ways(o):
                    out.append(dict(c, way=w))
    return out


def scale_run(cfg, ctx):
    a = compare(cfg, ctx, rng.FixedSource(13), O.bumpy)
    ctx.sample(lambda: "%s n=%d d=%d iters=%d -> %r" % (cfg["opt"], cfg["n"], cfg["d"], cfg["iters"], a.R[0][0]))


# ---------------------------------------------------------------- spellings

def frozen(v):
    """Read-only arrays."""
    if isinstance(v, np.ndarray):
        v = v.copy()
        v.setflags(write=False)
        return v
    return tuple(frozen(np.asarray(x)) for x in v)


def strided(v):
    """The same values with gaps in memory."""
    v = np.asarray(v)
    big = np.full([2 * m for m in v.shape], 77, dtype=v.dtype)
    view = big[tuple(slice(None, None, 2) for _ in v.shape)]
    view[...] = v
    return view


def pair(v, d):
    return tuple(np.full(d, float(x)) for x in v)


def spell(cfg, which):
    """The same configuration written differently: keyword arguments."""
    c = O.full(cfg)
    inp = O.inputs(c)
    d = c["d"]
    kw = dict(n_particles=c["n"], dimensions=d, options=inp["options"])
    if inp["clamp"] is not None:
        kw["velocity_clamp"] = inp["clamp"]
    if c["vh"] != "unmodified":
        kw["vh_strategy"] = c["vh"]
    if inp["init_pos"] is not None:
        kw["init_pos"] = inp["init_pos"]
    if c["ftol"] is not None:
        kw.update(ftol=c["ftol"], ftol_iter=c["ftol_iter"])
    binary = c["opt"] == "binary"
    if not binary:
        if inp["bounds"] is not None:
            kw["bounds"] = inp["bounds"]
        if c["bh"] != "periodic":
            kw["bh_strategy"] = c["bh"]
        if inp["oh"] is not None:
            kw["oh_strategy"] = inp["oh"]
    for w in which:
        if w == "defaults":
            for k, v in dict(velocity_clamp=None, vh_strategy="unmodified", init_pos=None, ftol=-np.inf, ftol_iter=1).items():
                kw.setdefault(k, v)
            if not binary:
                for k, v in dict(bounds=None, bh_strategy="periodic", oh_strategy=None, center=1.00).items():
                    kw.setdefault(k, v)
        elif w == "emptyoh" and not binary:
            kw.setdefault("oh_strategy", {})
        elif w == "bounds-list" and kw.get("bounds") is not None:
            kw["bounds"] = tuple(np.asarray(b).tolist() for b in kw["bounds"])
        elif w == "bounds-pairlist" and kw.get("bounds") is not None:
            kw["bounds"] = [np.asarray(b).tolist() for b in kw["bounds"]]
        elif w == "bounds-2d" and kw.get("bounds") is not None:
            kw["bounds"] = np.array([np.asarray(b, dtype=float) for b in kw["bounds"]])
        elif w == "bounds-float" and kw.get("bounds") is not None:
            kw["bounds"] = tuple(np.asarray(b, dtype=float) for b in kw["bounds"])
        elif w == "clamp-list" and kw.get("velocity_clamp") is not None:
            kw["velocity_clamp"] = list(kw["velocity_clamp"])
        elif w == "clamp-arrays" and kw.get("velocity_clamp") is not None and np.ndim(kw["velocity_clamp"][0]) == 0:
            kw["velocity_clamp"] = pair(kw["velocity_clamp"], d)
        elif w == "clamp-array" and kw.get("velocity_clamp") is not None and np.ndim(kw["velocity_clamp"][0]) == 0:
            kw["velocity_clamp"] = np.array(kw["velocity_clamp"], dtype=float)
        elif w == "float-options":
            kw["options"] = {k: (float(v) if k in ("c1", "c2", "w") else v) for k, v in kw["options"].items()}
        elif w == "np-options":
            kw["options"] = {k: (np.float64(v) if k in ("c1", "c2", "w") else v) for k, v in kw["options"].items()}
        elif w == "options-order":
            kw["options"] = dict(reversed(list(kw["options"].items())))
        elif w == "init-float" and kw.get("init_pos") is not None and not binary:
            kw["init_pos"] = np.array(kw["init_pos"], dtype=float)
        elif w == "init-fortran" and kw.get("init_pos") is not None:
            kw["init_pos"] = np.asfortranarray(kw["init_pos"])
        elif w == "np-counts":
            kw["n_particles"], kw["dimensions"] = np.int64(kw["n_particles"]), np.int32(kw["dimensions"])
            kw["options"] = {k: (np.int64(v) if k in "kpr" else v) for k, v in kw["options"].items()}
        elif w == "options-mapping":
            kw["options"] = collections.OrderedDict(kw["options"])
        elif w == "options-more":
            kw["options"] = dict({"note": "mine", "z": None}, **kw["options"])
        elif w == "frozen":
            for k in ("bounds", "init_pos"):
                if kw.get(k) is not None:
                    kw[k] = frozen(kw[k])
        elif w == "strided":
            for k in ("bounds", "init_pos"):
                if kw.get(k) is not None:
                    kw[k] = tuple(strided(b) for b in kw[k]) if k == "bounds" else strided(kw[k])
        elif w == "clamp-np" and kw.get("velocity_clamp") is not None and np.ndim(kw["velocity_clamp"][0]) == 0:
            kw["velocity_clamp"] = tuple(np.float64(v) for v in kw["velocity_clamp"])
        elif w == "ftol-np" and "ftol" in kw:
            kw["ftol"] = np.float64(kw["ftol"])
        elif w == "oh-order" and kw.get("oh_strategy"):
            kw["oh_strategy"] = dict(reversed(list(kw["oh_strategy"].items())))
    pos = "positional" in which
    order = "kw-order" in which

    def make(cls, *first, **more):
        k = dict(kw, **more)
        if order:
            k = dict(reversed(list(k.items())))
        if pos:
            a = [k.pop("n_particles"), k.pop("dimensions"), k.pop("options")]
            return cls(*a, *first, **k)
        if first:
            k["topology"] = first[0]
        return cls(**k)
    o = c["opt"]
    if o == "binary":
        return make(ps.discrete.BinaryPSO)
    if o == "global":
        return make(ps.single.GlobalBestPSO)
    if o.startswith("local"):
        more = dict(static=True) if o == "local_static" else (dict(static=False) if "defaults" in which else {})
        return make(ps.single.LocalBestPSO, **more)
    name = o.split(":")[1]
    if "defaults" in which:
        top = O.make_topology(name)
    else:
        t, _, s = name.partition("_")
        cls = dict(star=T.Star, vn=T.VonNeumann, ring=T.Ring, pyramid=T.Pyramid, random=T.Random)[t]
        top = cls(static=True) if s else cls()      # dynamic is the default
    return make(ps.single.GeneralOptimizerPSO, top)


SPELLINGS = ["defaults", "emptyoh", "bounds-list", "bounds-pairlist", "bounds-2d", "bounds-float", "clamp-list", "clamp-arrays", "clamp-array", "float-options", "np-options",
             "options-order", "init-float", "init-fortran", "oh-order", "positional", "kw-order",
             "np-counts", "options-mapping", "options-more", "frozen", "strided", "clamp-np", "ftol-np"]


def spell_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for v in [dict(), dict(bounds="int", bh="nearest", clamp="one", opts="int", init="int", vh="unmodified"), dict(bounds="asym", bh="reflective", clamp="s", oh={"w": "exp_decay", "c1": "lin_variation", "c2": "nonlin_mod"}, vh="invert"),
                  dict(bounds="mixed", bh="periodic", opts="far"), dict(bounds="neg", bh="shrink", opts="far", clamp="big", init="lat", ftol=0.3), dict(bounds="unit", bh="random", opts="far", vh="zero", oh={"c2": "random", "w": "lin_variation"}),
                  dict(clamp="asym", init="same", opts="dy"), dict(bounds="asym", bh="intermediate", clamp="one", vh="adjust", opts="far")]:
            c = dict(O.DEFAULT, opt=o, n=5, d=3 if "vn" not in o else 2, k=2, r=0, iters=5)
            c.update(v)
            if o == "binary":
                c.update(bounds=None, bh="periodic", oh=None, vh="unmodified")
                if c["init"] == "lat":
                    c["init"] = "int"
            if "pyramid" in o:
                c["d"] = 2
            if F.valid(c):
                out.append(c)
    return out


def spell_run(cfg, ctx):
    i = ctx.choose(len(SPELLINGS) + 1, "spelling")
    which = []
    if i:
        which.append(SPELLINGS[i - 1])
        j = ctx.choose(len(SPELLINGS) - i + 1, "second")
        if j:
            which.append(SPELLINGS[i - 1 + j])
    log = Log(rng.FixedSource(9))
    a = by_optimizer(cfg, Rec(O.bumpy), log)
    b = by_optimizer(cfg, Rec(O.bumpy), Replay(log.log), build=lambda c, inp: spell(c, which))
    same(a, b, "%s written as usual and with %s" % (cfg["opt"], which or "only the arguments needed"), ctx=ctx)
    ctx.sample(lambda: "%s %s -> %s" % (cfg["opt"], which, a.R))


BOUNDS = ("global/local optimizer classes against the general one with the same topology, and each continuous optimizer against a loop written with the backend's create_swarm/compute_*/handlers: all draw sequences over 2-3 values per element for 1-3 particles and 2-3 iterations, "
          "all cost orders, all configurations within 2 (thorough 3) changes of two defaults with deviating draws, sequences of up to 4 calls with every stopping setting, sizes up to 258 (thorough 1030); "
          "every optimizer with every single and pair of 24 equivalent spellings of its arguments")
ASSUMPTIONS = ["both ways are given the same random draws, in the order they ask for them"]
HARNESSES = [
    Harness("draws", draws_run, draws_configs),
    Harness("orders", orders_run, orders_configs),
    Harness("configs", configs_run, configs_configs, bound=lambda tier: 1 if tier == "quick" else 2),
    Harness("calls", calls_run, calls_configs),
    Harness("scale", scale_run, scale_configs),
    Harness("spellings", spell_run, spell_configs),
]
