"""Malformed requests fail with an exception, well-formed neighbours do not."""
import importlib
import itertools
import pkgutil

import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import check
from ..runner import Harness

import pyswarms
import pyswarms as ps
import pyswarms.backend as P
from pyswarms.backend import topology as T
from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
from pyswarms.backend.swarms import Swarm
from pyswarms.backend.topology.base import Topology
from pyswarms.base import DiscreteSwarmOptimizer, SwarmOptimizer
from pyswarms.utils.functions import single_obj as fx
from pyswarms.utils.plotters.formatters import Animator, Designer, Mesher
from pyswarms.utils.search import GridSearch, RandomSearch

OPT = dict(c1=0.5, c2=0.25, w=0.5)


def rejects(what, kinds, fn):
    """fn() must raise one of kinds."""
    try:
        np.random.seed(2)      # the real generator, with its own checks of arguments
        r = fn()
    except kinds:
        return
    except Exception as e:
        check(False, lambda: "%s: raised %s (%s), expected %s" % (what, type(e).__name__, e, [k.__name__ for k in (kinds if isinstance(kinds, tuple) else (kinds,))]))
    check(False, lambda: "%s: accepted (%r)" % (what, type(r)))


def accepts(what, fn):
    try:
        with rng.controlled(rng.FixedSource(2)):
            return fn()
    except Exception as e:
        check(False, lambda: "%s: raised %s: %s" % (what, type(e).__name__, e))


def evals():
    n = []

    def f(X):
        n.append(1)
        return np.sum(np.asarray(X, dtype=float) ** 2, axis=1)
    f.calls = n
    return f


def build(cfg, **over):
    """The optimizer of a configuration with some arguments replaced."""
    c = O.full(cfg)
    inp = O.inputs(c)
    kw = dict(n_particles=c["n"], dimensions=c["d"], options=inp["options"], velocity_clamp=inp["clamp"], vh_strategy=c["vh"], init_pos=inp["init_pos"], ftol_iter=c["ftol_iter"])
    o = c["opt"]
    if o != "binary":
        kw.update(bounds=inp["bounds"], bh_strategy=c["bh"])
    kw.update(over)
    if o == "binary":
        return ps.discrete.BinaryPSO(**kw)
    if o == "global":
        return ps.single.GlobalBestPSO(**kw)
    if o.startswith("local"):
        return ps.single.LocalBestPSO(static=o == "local_static", **kw)
    kw.setdefault("topology", O.make_topology(o.split(":")[1]))
    return ps.single.GeneralOptimizerPSO(**kw)


def run(opt, iters=3):
    return opt.optimize(evals(), iters, verbose=False)


def done(ctx, *what):
    ctx.state(*[repr(w) for w in what])
    ctx.step()
    ctx.validated()
    ctx.sample(lambda: " ".join(str(w) for w in what))


SURROUND = [dict(), dict(bounds="asym"), dict(bounds="asym", bform="list", clamp="s"), dict(bounds="mixed", bform="tuple", opts="int"), dict(clamp="dim", ftol=0.1), dict(init="lat", bounds="int"), dict(init="same")]


def base_configs(tier, surround=SURROUND, opts=None, sizes=((4, 2), (3, 3), (1, 1))):
    out = []
    for o in opts or O.ALL_OPTS:
        for n, d in sizes:
            for v in surround:
                c = dict(opt=o, n=n, d=d, k=1, p=2, r=0)
                c.update(v)
                if "pyramid" in o and (n < d + 2 or d < 2) or not F.valid(c) and not (o == "binary" and not v):
                    continue
                out.append(c)
    return out


# ------------------------------------------------------------ starting positions

def inside(cfg):
    lb, ub = [np.array(b, dtype=float) for b in O.BOUNDS[cfg["bounds"]](cfg["d"])]
    return lb, ub


def init_configs(tier):
    out = []
    for o in O.CONT_OPTS + ["create_swarm", "generate_swarm"]:
        for n, d in ((4, 2), (1, 1), (2, 3), (3, 2), (5, 4)) + (((9, 5), (40, 2)) if tier == "thorough" else ((20, 3),)):
            for b in (None, "asym", "unit", "neg", "wide", "int", "tiny"):
                for bf in ("array", "list") if b in ("asym", "int") else ("array",):
                    c = dict(opt=o, n=n, d=d, k=1, p=2, r=0, bounds=b, bform=bf)
                    if o in O.ALL_OPTS and not F.valid(c) or "pyramid" in o and (d < 2 or n < d + 2 or d > 3):
                        continue
                    out.append(c)
    return out


def with_init(cfg, x, **kw):
    c = O.full(dict(cfg, opt="global") if cfg["opt"] not in O.ALL_OPTS else cfg)
    if cfg["opt"] == "create_swarm":
        return P.create_swarm(c["n"], c["d"], options=dict(OPT), bounds=O.make_bounds(c), init_pos=x)
    if cfg["opt"] == "generate_swarm":
        return P.generate_swarm(c["n"], c["d"], bounds=O.make_bounds(c), init_pos=x)
    return build(c, init_pos=x)


def init_run(cfg, ctx):
    n, d = cfg["n"], cfg["d"]
    if cfg["bounds"]:
        lb, ub = inside(cfg)
    else:
        lb, ub = np.full(d, -1.0), np.full(d, 1.0)
    good = np.array([[lb[j] + (ub[j] - lb[j]) * ((3 * i + 2 * j + 1) % 8) / 8.0 for j in range(d)] for i in range(n)])
    kind = ctx.choose(4, "kind")
    if kind == 0:      # shapes
        shapes = [(n + 1, d), (n, d + 1), (n - 1, d), (n, d - 1), (d, n), (n * d,), (n, d, 1), (1, n, d), (n,), (d,), (n * d, 1), (1, d), (n, 1), (1, n * d), (2 * n, d), ()]
        shapes = [s for s in dict.fromkeys(shapes) if s != (n, d)]
        s = ctx.pick(shapes, "shape")
        x = np.resize(good, s) if s else np.array(good.flat[0])
        rejects("%s with %d particles in %d dimensions, bounds %s, init_pos of shape %s" % (cfg["opt"], n, d, cfg["bounds"], s), (ValueError,), lambda: with_init(cfg, x))
    elif kind == 1:    # one coordinate outside
        if not cfg["bounds"]:
            ctx.choose(1)
            return
        i, j = divmod(ctx.choose(n * d, "where"), d)
        x = good.copy()
        v = ctx.pick(["ulp-", "ulp+", "-", "+", "-inf", "inf"], "side")
        x[i, j] = {"ulp-": np.nextafter(lb[j], -np.inf), "ulp+": np.nextafter(ub[j], np.inf), "-": lb[j] - 1.5, "+": ub[j] + 1.5, "-inf": -np.inf, "inf": np.inf}[v]
        rejects("%s, bounds %s, init_pos[%d, %d] = %r (%s)" % (cfg["opt"], cfg["bounds"], i, j, x[i, j], v), (ValueError,), lambda: with_init(cfg, x))
    elif kind == 2:    # corners and edges are inside
        i, j = divmod(ctx.choose(n * d, "where"), d)
        x = good.copy()
        x[i, j] = ctx.pick([lb[j], ub[j]], "edge")
        accepts("%s, bounds %s, init_pos[%d, %d] on the bound" % (cfg["opt"], cfg["bounds"], i, j), lambda: with_init(cfg, x))
    else:              # all on bounds; without bounds anything goes
        x = ctx.pick([np.tile(lb, (n, 1)), np.tile(ub, (n, 1)), good] + ([1e9 * good] if not cfg["bounds"] else []), "all")
        accepts("%s, bounds %s, init_pos %s" % (cfg["opt"], cfg["bounds"], x.tolist()), lambda: with_init(cfg, x))
    done(ctx, cfg["opt"], n, d, cfg["bounds"], kind, ctx.choices())


def binit_configs(tier):
    return [dict(n=n, d=d, where=w) for n, d in ((2, 2), (3, 1), (1, 3), (2, 1)) for w in ("binary", "generate", "create")]


def binit_run(cfg, ctx):
    """Every starting matrix over {0, 1, 2}: accepted iff it has at most two values."""
    n, d = cfg["n"], cfg["d"]
    x = np.array([ctx.pick([0, 1, 2], "v") for _ in range(n * d)], dtype=ctx.pick([int, float], "dtype")).reshape(n, d)
    fn = {"binary": lambda: ps.discrete.BinaryPSO(n, d, dict(OPT, k=1, p=1), init_pos=x), "generate": lambda: P.generate_discrete_swarm(n, d, binary=True, init_pos=x),
          "create": lambda: P.create_swarm(n, d, discrete=True, binary=True, init_pos=x)}[cfg["where"]]
    vals = set(x.ravel().tolist())
    two = len(vals) <= 2
    what = "binary swarm (%s) from %s" % (cfg["where"], x.tolist())
    if two and not vals <= {0, 1}:
        return
    if two:
        accepts(what, fn)
    else:
        rejects(what, (ValueError,), fn)
    done(ctx, what)


# ------------------------------------------------------------ arguments of optimizers

class Odd(object):
    pass


NOT_TOPOLOGIES = [T.Star, T.Ring, Topology, "star", "Star", None, 3, {}, Odd(), Swarm, lambda *a: None, []]
BAD_ITERS = [0, -1, -100, 1.0, 0.5, 2.5, -0.5, 0.0, float("inf"), np.float64(2.0), "1", None, [1], (2,)]
BAD_STRATEGY = ["", "x", "Periodic", "periodic ", "unmodified2", "None", "exp", "random_", "nearestt", "zeros"]
BAD_COUNT = [2.0, 3.5, "3", None, "x", (2,)]


def bad_bounds(d):
    r = [("too long", (np.zeros(d + 1), np.ones(d + 1)), (ValueError,)), ("too long lists", ([0.0] * (d + 2), [1.0] * (d + 2)), (ValueError,)),
         ("one array", (np.zeros(d),), (ValueError,)), ("three arrays", (np.zeros(d), np.ones(d), np.ones(d)), (ValueError,)), ("empty", (), (ValueError,)),
         ("lower too long", (np.zeros(d + 1), np.ones(d)), (ValueError,)), ("upper too long", (np.zeros(d), np.ones(d + 1)), (ValueError,)),
         ("a number", 3, (TypeError,)), ("a float", 0.5, (TypeError,)), ("True", True, (TypeError,))]
    if d > 2:
        r += [("too short", (np.zeros(d - 1), np.ones(d - 1)), (ValueError,)), ("lower too short", (np.zeros(d - 1), np.ones(d)), (ValueError,)), ("upper too short", (np.zeros(d), np.ones(d - 1)), (ValueError,))]
    if d == 1:
        # (a pair of arrays of another size broadcasts in one dimension as well)
        pass
    return r


BAD_CLAMP = [("one entry", (0.5,)), ("three entries", (-1, 0, 1)), ("a number", 3), ("empty", ()), ("strings", ("a", "b")), ("a float", 0.25)]

MUST = {"global": ["c1", "c2", "w"], "local": ["c1", "c2", "w", "k", "p"], "local_static": ["c1", "c2", "w", "k", "p"], "binary": ["c1", "c2", "w", "k", "p"]}


def needed(o):
    if o in MUST:
        return MUST[o]
    return ["c1", "c2", "w"] + (["k", "p"] if "ring" in o else ["p", "r"] if ":vn" in o else ["k"] if ":random" in o else [])


def args_run(cfg, ctx):
    o, n, d = cfg["opt"], cfg["n"], cfg["d"]
    binary = o == "binary"
    cases = []

    def add(what, kinds, fn):
        cases.append((what, kinds, fn))
    for v in BAD_ITERS:
        add("ftol_iter=%r" % (v,), (AssertionError,) if isinstance(v, (int, float)) else (AssertionError, TypeError, ValueError), lambda v=v: build(cfg, ftol_iter=v))
    for k in needed(o):
        opts = {a: b for a, b in O.make_options(O.full(cfg)).items() if a != k}
        if k in ("k", "p") and o in MUST:
            add("options without %s" % k, (KeyError,), lambda opts=opts: build(cfg, options=opts))
        else:
            add("a run with options without %s" % k, (KeyError, TypeError), lambda opts=opts: run(build(cfg, options=opts)))
    for s in BAD_STRATEGY:
        add("a run with vh_strategy=%r" % s, Exception, lambda s=s: run(build(cfg, vh_strategy=s)))
        if not binary:
            if cfg.get("bounds"):
                add("a run with bh_strategy=%r" % s, Exception, lambda s=s: run(build(cfg, bh_strategy=s)))
            for k in ("w", "c1", "c2"):
                add("a run with oh_strategy={%r: %r}" % (k, s), Exception, lambda s=s, k=k: run(build(cfg, oh_strategy={k: s})))
    if o.startswith("general"):
        for t in NOT_TOPOLOGIES:
            add("topology=%r" % (t,), (TypeError,), lambda t=t: build(cfg, topology=t))
    for v in BAD_COUNT:
        for k in ("n_particles", "dimensions"):
            if v in (2.0,) and cfg.get("init"):
                continue
            add("%s=%r" % (k, v), (TypeError, ValueError), lambda k=k, v=v: build(cfg, **{k: v}))
    for k in ("n_particles", "dimensions"):
        if not cfg.get("init"):
            add("%s=-2" % k, (TypeError, ValueError), lambda k=k: build(cfg, **{k: -2}))
    if not binary and not cfg.get("init"):
        for nm, b, kinds in bad_bounds(d):
            add("bounds: %s" % nm, kinds, lambda b=b: build(cfg, bounds=b))
    for nm, c in BAD_CLAMP:
        add("velocity_clamp: %s" % nm, (TypeError, ValueError, IndexError), lambda c=c: build(cfg, velocity_clamp=c))
    what, kinds, fn = cases[ctx.choose(len(cases), "case")]
    rejects("%s %s: %s" % (o, {k: v for k, v in cfg.items() if k != "opt"}, what), kinds, fn)
    # the configuration itself is fine, also after the rejected request
    accepts("%s %s after %s" % (o, cfg, what), lambda: run(build(cfg)))
    done(ctx, o, cfg, what)


def args_configs(tier):
    return base_configs(tier, sizes=((4, 2), (5, 3)) + (((1, 1), (7, 4)) if tier == "thorough" else ()))


# ------------------------------------------------------------ rejected requests leave nothing behind

def seq_configs(tier):
    return [dict(opt=o, n=4, d=2, k=1, p=2, r=0, bounds=b, depth=2 if tier == "quick" else 3) for o in (O.ALL_OPTS if tier == "thorough" else ["global", "local", "general:vn", "general:random", "binary"]) for b in (None, "asym") if not (o == "binary" and b)]


_REF = {}


def reference(cfg):
    key = repr(sorted((k, v) for k, v in cfg.items() if k != "depth"))
    if key not in _REF:
        _REF[key] = go(cfg)
    return _REF[key]


def go(cfg):
    with rng.controlled(rng.FixedSource(6)):
        tr = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
        tr.optimize()
    return [x.tolist() for x in tr.X], float(tr.calls[0].result[0]), np.asarray(tr.calls[0].result[1]).tolist()


def seq_run(cfg, ctx):
    """Rejected requests, then a run: the same as without them."""
    ref = reference(cfg)
    n, d = cfg["n"], cfg["d"]
    binary = cfg["opt"] == "binary"
    nok = {a: b for a, b in O.make_options(O.full(cfg)).items() if a != "c2"}
    bad = [("ftol_iter", lambda: build(cfg, ftol_iter=0)), ("options", lambda: run(build(cfg, options=nok))), ("vh", lambda: run(build(cfg, vh_strategy="x"))),
           ("clamp", lambda: build(cfg, velocity_clamp=(1,))), ("init", lambda: build(cfg, init_pos=np.arange(n * d).reshape(n, d) if binary else np.zeros((n + 1, d)))),
           ("objective", lambda: build(cfg).optimize(lambda X: 1 / 0, 3, verbose=False)), ("swarm", lambda: Swarm(position=np.zeros((n, d)), velocity=[[0]])),
           ("operator", lambda: P.compute_pbest(None)), ("domain", lambda: fx.rastrigin(np.full((n, d), 99.0)))]
    if not binary:
        bad += [("bounds", lambda: build(cfg, bounds=(np.zeros(d),))), ("topology", lambda: ps.single.GeneralOptimizerPSO(n, d, dict(OPT), topology="star")),
                ("oh", lambda: run(build(cfg, oh_strategy={"w": "x"})))]
    names = []
    for _ in range(cfg["depth"]):
        nm, fn = ctx.pick(bad, "bad")
        names.append(nm)
        rejects(nm, Exception, fn)
    r = go(cfg)
    check(r == ref, lambda: "%s: after the rejected requests %s the run evaluates %s and returns %s, otherwise %s and %s" % (cfg["opt"], names, r[0], r[1:], ref[0], ref[1:]))
    done(ctx, cfg["opt"], cfg["bounds"], names)


# ------------------------------------------------------------ backend

SWARM_FIELDS = {"velocity": np.ndarray, "n_particles": int, "dimensions": int, "options": dict, "pbest_pos": np.ndarray, "best_pos": np.ndarray, "pbest_cost": np.ndarray, "best_cost": (int, float), "current_cost": np.ndarray}
VALUES = [None, [1], (1, 2), "x", 3, 2.5, np.zeros(2), {}, [[0.0, 0.0]], np.zeros((3, 2)), {"w": 1}, -1, float("inf"), set(), object()]


def swarm_configs(tier):
    return [dict(field=f) for f in SWARM_FIELDS] + [dict(field="position")]


def swarm_run(cfg, ctx):
    f = cfg["field"]
    v = ctx.pick(VALUES, "value")
    n, d = ctx.pick([(3, 2), (1, 1), (5, 4)], "size")
    kw = dict(position=np.zeros((n, d)), velocity=np.zeros((n, d)))
    if ctx.choose(2, "full"):
        kw.update(options=dict(OPT), pbest_pos=np.zeros((n, d)), pbest_cost=np.zeros(n), best_pos=np.zeros(d), best_cost=1.0, current_cost=np.zeros(n), n_particles=n, dimensions=d)
    kw[f] = v
    what = "Swarm(%s=%r)" % (f, v)
    if f == "position":
        if not isinstance(v, np.ndarray):
            rejects(what, (TypeError, AttributeError), lambda: Swarm(**kw))
    elif isinstance(v, SWARM_FIELDS[f]):
        s = accepts(what, lambda: Swarm(**kw))
        check(getattr(s, f) is v or getattr(s, f) == v, lambda: "%s has %s = %r" % (what, f, getattr(s, f)))
    else:
        rejects(what, (TypeError,), lambda: Swarm(**kw))
    done(ctx, what, sorted(kw), n, d)


NOT_SWARMS = [None, [1], "x", 3, np.zeros((3, 2)), {}, dict(position=np.zeros((3, 2))), Swarm, (np.zeros((3, 2)), np.zeros((3, 2)))]
VH, BH = VelocityHandler, BoundaryHandler


def op_list():
    ops = [("compute_pbest", lambda s: P.compute_pbest(s)), ("compute_velocity", lambda s: P.compute_velocity(s, None, VH("unmodified"), None)),
           ("compute_velocity with clamp", lambda s: P.compute_velocity(s, (-1, 1), VH("adjust"), ([0, 0], [1, 1]))),
           ("compute_position", lambda s: P.compute_position(s, None, BH("periodic"))), ("compute_position with bounds", lambda s: P.compute_position(s, ([0, 0], [1, 1]), BH("nearest"))),
           ("compute_objective_function", lambda s: P.compute_objective_function(s, lambda X: np.zeros(len(X))))]
    for nm, t, args in (("Star", T.Star, {}), ("Ring", T.Ring, dict(p=2, k=1)), ("VonNeumann", T.VonNeumann, dict(p=2, r=0)), ("Pyramid", T.Pyramid, {}), ("Random", T.Random, dict(k=1))):
        ops += [(nm + ".compute_gbest", lambda s, t=t, args=args: t().compute_gbest(s, **args)), (nm + ".compute_velocity", lambda s, t=t: t().compute_velocity(s)), (nm + ".compute_position", lambda s, t=t: t().compute_position(s))]
    return ops


OPS = op_list()


def good_swarm(n, d, drop=None):
    o = dict(OPT)
    if drop:
        o.pop(drop)
    X = np.array([[((3 * i + 5 * j) % 7) / 8.0 + i * j / 64.0 for j in range(d)] for i in range(n)])
    return Swarm(position=X, velocity=np.full((n, d), 0.125), options=o, pbest_pos=X.copy(), pbest_cost=np.arange(n, dtype=float)[::-1].copy(), current_cost=np.arange(n, dtype=float), best_pos=X[n - 1].copy(), best_cost=0.0)


def op_configs(tier):
    return [dict(op=i) for i in range(len(OPS))]


def op_run(cfg, ctx):
    nm, fn = OPS[cfg["op"]]
    kind = ctx.choose(3, "kind")
    if kind == 0:
        s = ctx.pick(NOT_SWARMS, "s")
        rejects("%s(%r)" % (nm, s), (AttributeError, TypeError, KeyError), lambda: fn(s))
        done(ctx, nm, repr(s)[:40])
    elif kind == 1 and "velocity" in nm:
        k = ctx.pick(["c1", "c2", "w"], "drop")
        n = ctx.pick([4, 6, 1] if "Pyramid" not in nm else [6, 8], "n")
        rejects("%s for a swarm without option %s" % (nm, k), (KeyError,), lambda: fn(good_swarm(n, 2, k)))
        done(ctx, nm, k, n)
    else:
        n = ctx.pick([6, 9], "n")
        accepts("%s for a proper swarm" % nm, lambda: fn(good_swarm(n, 2)))
        done(ctx, nm, n)


def gen_configs(tier):
    return [dict(d=d) for d in (2, 3, 5)]


def gen_run(cfg, ctx):
    d = cfg["d"]
    n = 4
    cases = []
    for v in BAD_COUNT + [[3]]:
        for nm, a, b in (("n_particles", v, d), ("dimensions", n, v)):
            cases += [("generate_swarm(%s=%r)" % (nm, v), (TypeError,), lambda a=a, b=b: P.generate_swarm(a, b)),
                      ("generate_velocity(%s=%r)" % (nm, v), (TypeError,), lambda a=a, b=b: P.generate_velocity(a, b)),
                      ("generate_discrete_swarm(%s=%r)" % (nm, v), Exception, lambda a=a, b=b: P.generate_discrete_swarm(a, b)),
                      ("generate_discrete_swarm(%s=%r, binary)" % (nm, v), Exception, lambda a=a, b=b: P.generate_discrete_swarm(a, b, binary=True)),
                      ("create_swarm(%s=%r)" % (nm, v), (TypeError, ValueError), lambda a=a, b=b: P.create_swarm(a, b))]
            if v in (2.0, (2,), [3]):
                # (permutations may be drawn by functions that take these for something else)
                cases = [c for c in cases if c[0] != "generate_discrete_swarm(dimensions=%r)" % (v,)]
            if v is not None:
                cases.append(("generate_swarm(%s=%r) with bounds" % (nm, v), (TypeError, ValueError), lambda a=a, b=b: P.generate_swarm(a, b, bounds=(np.zeros(d), np.ones(d)))))
    for nm, b, kinds in bad_bounds(d):
        cases.append(("generate_swarm with bounds: %s" % nm, kinds, lambda b=b: P.generate_swarm(n, d, bounds=b)))
        cases.append(("create_swarm with bounds: %s" % nm, kinds, lambda b=b: P.create_swarm(n, d, bounds=b)))
    for nm, c in BAD_CLAMP:
        cases.append(("generate_velocity with clamp: %s" % nm, (TypeError, ValueError, IndexError), lambda c=c: P.generate_velocity(n, d, clamp=c)))
        cases.append(("create_swarm with clamp: %s" % nm, (TypeError, ValueError, IndexError), lambda c=c: P.create_swarm(n, d, clamp=c)))
    for s in BAD_STRATEGY:
        cases.append(("BoundaryHandler(%r)" % s, Exception, lambda s=s: BH(s)(np.zeros((n, d)), (np.zeros(d), np.ones(d)))))
        cases.append(("BoundaryHandler(%r), all outside" % s, Exception, lambda s=s: BH(s)(np.full((n, d), 7.5), (np.zeros(d), np.ones(d)))))
        cases.append(("VelocityHandler(%r)" % s, Exception, lambda s=s: VH(s)(np.zeros((n, d)), None)))
        cases.append(("VelocityHandler(%r) with a clamp" % s, Exception, lambda s=s: VH(s)(np.ones((n, d)), (-0.5, 0.5), position=np.zeros((n, d)), bounds=(np.zeros(d), np.ones(d)))))
        cases.append(("OptionsHandler(%r)" % s, Exception, lambda s=s: OptionsHandler({"w": s})(dict(OPT), iternow=1, itermax=3)))
    what, kinds, fn = cases[ctx.choose(len(cases), "case")]
    rejects(what, kinds, fn)
    done(ctx, what, d)


# ------------------------------------------------------------ abstract classes, searches, formatters, names

def partial(base, methods):
    return type("Partial", (base,), {m: (lambda self, *a, **k: None) for m in methods})


def abstract_configs(tier):
    return [dict(base=b) for b in ("Topology", "SwarmOptimizer", "DiscreteSwarmOptimizer")]


def abstract_run(cfg, ctx):
    """Subclasses are usable iff they implement every abstract method."""
    if cfg["base"] == "Topology":
        names = ["compute_gbest", "compute_position", "compute_velocity"]
        mk = lambda ms: partial(Topology, ms)(static=False)
    elif cfg["base"] == "SwarmOptimizer":
        names = ["optimize"]
        mk = lambda ms: partial(SwarmOptimizer, ms)(3, 2, dict(OPT))
    else:
        names = ["optimize"]
        mk = lambda ms: partial(DiscreteSwarmOptimizer, ms)(3, 2, True, dict(OPT))
    ms = [m for m in names if ctx.choose(2, m)]
    what = "subclass of %s implementing %s" % (cfg["base"], ms)
    if ms == names:
        accepts(what, lambda: mk(ms))
    else:
        rejects(what, (TypeError, NotImplementedError), lambda: mk(ms))
    done(ctx, what)


class NoOptimize(object):
    def __init__(self, *a, **k):
        pass


class HasOptimize(NoOptimize):
    def optimize(self, f, iters, **kw):
        return 1.0, np.zeros(2)


RANGES = dict(c1=[0.25, 0.5], c2=[0.25, 0.5], w=[0.25, 0.5], k=[1, 3], p=1)


def search_configs(tier):
    return [dict(cls=c) for c in ("grid", "random")]


def search_run(cfg, ctx):
    kw = dict(n_particles=3, dimensions=2, objective_func=fx.sphere, iters=2)
    b = ctx.pick([None, (np.zeros(2), np.ones(2))], "bounds")
    if b:
        kw["bounds"] = b
    if ctx.choose(2, "clamp"):
        kw["velocity_clamp"] = (-1, 1)
    mk = (lambda o, n=2, **k: GridSearch(optimizer=o, options=dict(RANGES), **kw)) if cfg["cls"] == "grid" else (lambda o, n=2: RandomSearch(optimizer=o, options=dict(RANGES), n_selection_iters=n, **kw))
    kind = ctx.choose(3, "kind")
    if kind == 0:
        o = ctx.pick([NoOptimize, NoOptimize(), None, 3, "GlobalBestPSO", {}, P, len], "optimizer")
        rejects("%s search with the optimizer %r" % (cfg["cls"], o), (TypeError,), lambda: mk(o))
        done(ctx, cfg, repr(o)[:30])
    elif kind == 1 and cfg["cls"] == "random":
        n = ctx.pick([1.0, 2.5, "3", None, [2], (3,), np.float64(2), {}], "n")
        rejects("random search with n_selection_iters=%r" % (n,), (TypeError,), lambda: mk(HasOptimize, n))
        done(ctx, cfg, n)
    else:
        o = ctx.pick([HasOptimize, ps.single.LocalBestPSO, ps.discrete.BinaryPSO], "optimizer")
        accepts("%s search over %s" % (cfg["cls"], o), lambda: mk(o))
        done(ctx, cfg, o.__name__)


FORMAT = {
    Designer: {"figsize": (tuple,), "title_fontsize": (str, int, float), "text_fontsize": (str, int, float), "legend": (str,), "label": (str, list, tuple), "limits": (list, tuple), "colormap": ()},
    Animator: {"interval": (int,), "repeat": (bool,)},
    Mesher: {"limits": (list, tuple), "alpha": (float,)},
}


def format_configs(tier):
    return [dict(cls=c.__name__, field=f) for c in FORMAT for f in FORMAT[c]]


def format_run(cfg, ctx):
    cls = {c.__name__: c for c in FORMAT}[cfg["cls"]]
    v = ctx.pick([None, "x", 3, 2.5, [1, 2], (1, 2), {}, [(1, 2), (3, 4)], object(), True, set()], "value")
    ok = FORMAT[cls][cfg["field"]]
    if isinstance(v, bool) and bool not in ok:
        return
    kw = {cfg["field"]: v}
    if cls is Mesher:
        kw["func"] = fx.sphere
    what = "%s(%s=%r)" % (cfg["cls"], cfg["field"], v)
    if isinstance(v, ok):
        r = accepts(what, lambda: cls(**kw))
        check(getattr(r, cfg["field"]) == v, lambda: "%s keeps %r" % (what, getattr(r, cfg["field"])))
    else:
        rejects(what, (TypeError,), lambda: cls(**kw))
    done(ctx, what)


def names_configs(tier):
    out = ["pyswarms"] + [m.name for m in pkgutil.walk_packages(pyswarms.__path__, "pyswarms.")]
    return [dict(module=m) for m in out]


def names_run(cfg, ctx):
    m = importlib.import_module(cfg["module"])
    for nm in getattr(m, "__all__", []):
        try:
            getattr(m, nm)
        except AttributeError:
            try:
                importlib.import_module(cfg["module"] + "." + nm)
            except ImportError:
                check(False, lambda: "%s offers %r, which does not exist" % (cfg["module"], nm))
    ns = {}
    try:
        exec("from %s import *" % cfg["module"], ns)
    except Exception as e:
        check(False, lambda: "from %s import * raises %s: %s" % (cfg["module"], type(e).__name__, e))
    done(ctx, cfg["module"], sorted(getattr(m, "__all__", [])))


BOUNDS = ("every optimizer and generator x sizes up to 20x5 x 7 kinds of bounds x (16 wrong shapes, every single coordinate one ulp / 1.5 / infinitely outside either bound, every coordinate on a bound); all binary starting matrices over {0,1,2} of up to 4 entries; "
          "every optimizer x 7 surrounding configurations x 2-4 sizes x each of about 80 malformed arguments, followed by the well-formed run; all sequences of 2 (thorough 3) of 12 rejected requests before a run; "
          "every Swarm field x 15 values, every operator and topology method x 9 non-swarms and missing options, all subsets of implemented abstract methods, search classes and formatters with ill-typed arguments; the names every module offers")
ASSUMPTIONS = ["where the documentation names no exception type, any exception counts as a rejection"]
HARNESSES = [
    Harness("init", init_run, init_configs),
    Harness("binary-init", binit_run, binit_configs),
    Harness("arguments", args_run, args_configs),
    Harness("after-rejection", seq_run, seq_configs),
    Harness("swarm-fields", swarm_run, swarm_configs),
    Harness("operators", op_run, op_configs),
    Harness("generators", gen_run, gen_configs),
    Harness("abstract", abstract_run, abstract_configs),
    Harness("search", search_run, search_configs),
    Harness("formatters", format_run, format_configs),
    Harness("names", names_run, names_configs),
]
