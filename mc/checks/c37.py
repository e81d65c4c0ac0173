"""An argument left out means its documented default; positional and keyword forms agree."""
import contextlib
import io

import numpy as np

from .. import env, opt as O, rng
from ..core import check
from ..runner import Harness
from .c30 import lines, real_logging
import matplotlib.pyplot as plt
from matplotlib import cm
import pyswarms as ps
from pyswarms.backend import generators as G, operators as OP, topology as T
from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
from pyswarms.backend.swarms import Swarm
from pyswarms.base import DiscreteSwarmOptimizer, SwarmOptimizer
from pyswarms.utils.plotters import plot_contour, plot_cost_history, plot_surface
from pyswarms.utils.plotters.formatters import Animator, Designer, Mesher
from pyswarms.utils.search import GridSearch, RandomSearch


def fact(v):
    """Comparable form of an observed value."""
    if isinstance(v, np.ndarray):
        return ("array", v.shape, v.dtype.kind, v.tolist())
    if isinstance(v, (list, tuple)):
        return [fact(e) for e in v]
    if isinstance(v, dict):
        return {str(k): fact(e) for k, e in v.items()}
    if isinstance(v, np.generic):
        return v.item()
    return v


def same(a, b, what):
    check(repr(a) == repr(b), lambda: "%s: %s" % (what() if callable(what) else what, first_difference(a, b)))


def first_difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            if repr(a[k]) != repr(b[k]):
                return first_difference(a[k], b[k], path + "[%r]" % k)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i in range(len(a)):
            if repr(a[i]) != repr(b[i]):
                return first_difference(a[i], b[i], path + "[%d]" % i)
    return "%s %s instead of %s" % (path, str(a)[:150], str(b)[:150])


# ------------------------------------------------------------ the documented parameters

INF = np.inf
OPT_TAIL = [("bounds", None), ("oh_strategy", None), ("bh_strategy", "periodic"), ("velocity_clamp", None), ("vh_strategy", "unmodified"),
            ("center", 1.0), ("ftol", -INF), ("ftol_iter", 1), ("init_pos", None)]
REQ = object()
PARAMS = {
    "global": [("n_particles", REQ), ("dimensions", REQ), ("options", REQ)] + OPT_TAIL,
    "local": [("n_particles", REQ), ("dimensions", REQ), ("options", REQ)] + OPT_TAIL + [("static", False)],
    "general": [("n_particles", REQ), ("dimensions", REQ), ("options", REQ), ("topology", REQ)] + OPT_TAIL,
    "binary": [("n_particles", REQ), ("dimensions", REQ), ("options", REQ), ("init_pos", None), ("velocity_clamp", None), ("vh_strategy", "unmodified"),
               ("ftol", -INF), ("ftol_iter", 1)],
    "base": [("n_particles", REQ), ("dimensions", REQ), ("options", REQ), ("bounds", None), ("velocity_clamp", None), ("center", 1.0),
             ("ftol", -INF), ("ftol_iter", 1), ("init_pos", None)],
    "discrete": [("n_particles", REQ), ("dimensions", REQ), ("binary", REQ), ("options", REQ), ("velocity_clamp", None), ("init_pos", None),
                 ("ftol", -INF), ("ftol_iter", 1)],
    "generate_swarm": [("n_particles", REQ), ("dimensions", REQ), ("bounds", None), ("center", 1.0), ("init_pos", None)],
    "generate_discrete_swarm": [("n_particles", REQ), ("dimensions", REQ), ("binary", False), ("init_pos", None)],
    "generate_velocity": [("n_particles", REQ), ("dimensions", REQ), ("clamp", None)],
    "create_swarm": [("n_particles", REQ), ("dimensions", REQ), ("discrete", False), ("binary", False), ("options", {}), ("bounds", None), ("center", 1.0),
                     ("init_pos", None), ("clamp", None)],
    "swarm": [("position", REQ), ("velocity", REQ), ("n_particles", 3), ("dimensions", 2), ("options", {}), ("pbest_pos", "position"),
              ("best_pos", np.array([])), ("pbest_cost", np.array([])), ("best_cost", INF), ("current_cost", np.array([]))],
}
VALUES = {  # settings other than the default
    "n_particles": 4, "dimensions": 2, "options": dict(c1=1.5, c2=1.25, w=0.75, k=2, p=2),
    "bounds": lambda: (np.array([-1.0, -0.5]), np.array([0.5, 1.25])), "oh_strategy": {"w": "lin_variation"}, "bh_strategy": "nearest",
    "velocity_clamp": (-0.75, 0.5), "vh_strategy": "invert", "center": 3.0, "ftol": 1e9, "ftol_iter": 2,
    "init_pos": lambda: np.array([[0.25, -0.25], [0.375, 0.5], [-0.75, 1.0], [0.125, 0.0]]), "static": True, "binary": True, "discrete": True,
    "topology": lambda: T.Ring(), "clamp": (-0.75, 0.5),
}


class Base(SwarmOptimizer):
    def optimize(self, objective_func, iters, n_processes=None, **kwargs):
        return None


class Discrete(DiscreteSwarmOptimizer):
    def optimize(self, objective_func, iters, n_processes=None, **kwargs):
        return None


CALL = {"global": ps.single.GlobalBestPSO, "local": ps.single.LocalBestPSO, "general": ps.single.GeneralOptimizerPSO, "binary": ps.discrete.BinaryPSO,
        "base": Base, "discrete": Discrete, "generate_swarm": G.generate_swarm, "generate_discrete_swarm": G.generate_discrete_swarm,
        "generate_velocity": G.generate_velocity, "create_swarm": G.create_swarm}
RUNS = ("global", "local", "general", "binary")


def value(target, name):
    v = VALUES[name]
    if name == "init_pos" and (target in ("binary", "discrete", "generate_discrete_swarm")):
        return np.array([[0, 1], [1, 1], [1, 0], [0, 0]])
    return v() if callable(v) else (dict(v) if isinstance(v, dict) else v)


def swarm_fact(s):
    return fact([s.position, s.velocity, s.n_particles, s.dimensions, s.options, s.pbest_pos, s.best_pos, s.pbest_cost, s.best_cost, s.current_cost])


def result(target, args, kwargs, bits):
    """Everything observable about one use of the target."""
    with rng.controlled(rng.FixedSource(bits)):
        obj = CALL[target](*args, **kwargs)
        if target in RUNS:
            seen = []

            def f(X):
                seen.append(np.array(X))
                t = len(seen)
                return np.array([((3 * i + 5 * t) % 7) / 4.0 + 0.0625 * (x ** 2).sum() for i, x in enumerate(X)])
            with contextlib.redirect_stderr(io.StringIO()):
                res = obj.optimize(f, 5, verbose=False)
            return fact([seen, list(res), obj.cost_history, obj.pos_history, obj.velocity_history, swarm_fact(obj.swarm)])
        if target in ("base", "discrete"):
            return fact([swarm_fact(obj.swarm), obj.ftol, obj.ftol_iter, obj.bounds if target == "base" else None, obj.velocity_clamp, obj.options])
        if target == "create_swarm":
            return swarm_fact(obj)
        return fact(obj)


def optional(target):
    return [(p, d) for p, d in PARAMS[target] if d is not REQ]


def scenarios(target):
    """Which optional parameters have another value than their default."""
    names = [p for p, _ in optional(target)]
    out = [()]
    out += [(p,) for p in names]
    if target in RUNS:
        out += [c for c in (("bounds", "velocity_clamp"), ("ftol", "velocity_clamp"), ("bounds", "init_pos"), ("bounds", "velocity_clamp", "vh_strategy"), ("velocity_clamp", "init_pos", "ftol"))
                if all(p in names for p in c)]
    # not documented: handlers that need bounds without them; a centre together with bounds
    ok = []
    for s in out:
        if "vh_strategy" in s and not ("bounds" in s and "velocity_clamp" in s) and target != "binary":
            continue
        if "vh_strategy" in s and target == "binary":
            continue
        if target in ("generate_discrete_swarm", "create_swarm") and "init_pos" in s and len(s) == 1 and target == "generate_discrete_swarm":
            continue
        ok.append(list(s))
    if target == "create_swarm":
        ok += [["discrete"], ["discrete", "binary"], ["discrete", "binary", "clamp"], ["bounds", "clamp", "options"]]
        ok = [s for s in ok if s != ["binary"]]
        ok = [s for i, s in enumerate(ok) if s not in ok[:i]]
    if target == "generate_discrete_swarm":
        ok += [["binary", "init_pos"]]
    return ok


def require(target):
    return [value(target, p) for p, d in PARAMS[target] if d is REQ]


def default_configs(tier):
    out = []
    for t in CALL:
        for s in scenarios(t):
            for b in (3, 11) if tier == "quick" else (3, 7, 11, 14, 19, 26):
                out.append(dict(target=t, given=s, bits=b))
    return out


_REF = {}


def default_run(cfg, ctx):
    """Every subset of the remaining parameters is left out, the others given their documented default."""
    t, given = cfg["target"], cfg["given"]
    kw = {p: value(t, p) for p, d in PARAMS[t] if d is REQ}
    if t == "general" or t == "global":
        kw["options"] = value(t, "options")
    kw.update({p: value(t, p) for p in given})
    rest = [(p, d) for p, d in optional(t) if p not in given]
    left = []
    for p, d in rest:
        if ctx.choose(2, "leave out") == 0:
            kw[p] = dict(d) if isinstance(d, dict) else d
        else:
            left.append(p)
    key = (t, tuple(given), cfg["bits"])
    if key not in _REF:
        full = {p: value(t, p) for p, d in PARAMS[t] if d is REQ}
        full.update({p: value(t, p) for p in given})
        full.update({p: d for p, d in rest})
        _REF[key] = result(t, [], full, cfg["bits"])
    same(result(t, [], kw, cfg["bits"]), _REF[key], lambda: "%s(%s) without %s is not the same as with the documented default" % (t, ", ".join("%s=..." % g for g in given), left))
    ctx.state(t, given, len(left))
    ctx.step(len(left))
    ctx.validated(len(left))
    ctx.outcome(t, given)
    ctx.sample(lambda: "%s with %s set, %s left out" % (t, given, left))


# ------------------------------------------------------------ positional arguments

def positional_configs(tier):
    return [dict(target=t, bits=b) for t in CALL for b in (3, 11)]


def positional_run(cfg, ctx):
    """The first m arguments positional, the others by keyword, in every split and with every number of them at all."""
    t = cfg["target"]
    ps_ = PARAMS[t]
    req = sum(d is REQ for _, d in ps_)
    total = req + ctx.choose(len(ps_) - req + 1, "arguments")
    m = ctx.choose(total + 1, "positional")
    pos_set = [p for p, _ in ps_[:total]]

    def given():
        out = []
        for p, d in ps_[:total]:
            v = value(t, p) if p in VALUES else d
            # settings that cannot be combined keep their default
            if p == "center" and "bounds" in pos_set and t in ("global", "local", "general", "base", "generate_swarm", "create_swarm"):
                v = d
            if p == "vh_strategy" and t == "binary":
                v = d
            if p == "bounds" and t == "create_swarm":
                v = d
            if p == "init_pos" and t == "create_swarm":
                v = np.array([[0, 1], [1, 1], [1, 0], [0, 0]])
            out.append((p, v))
        return out
    g = given()
    a = result(t, [v for _, v in g[:m]], dict(g[m:]), cfg["bits"])
    g = given()
    b = result(t, [], dict(g), cfg["bits"])
    same(a, b, lambda: "%s with %s given by position differs from all by keyword" % (t, [p for p, _ in g[:m]]))
    ctx.state(t, total, m)
    ctx.step(total)
    ctx.validated()
    ctx.outcome(t, total)


# ------------------------------------------------------------ swarms, topologies, operators

def swarm_obj(n=4, d=2, salt=0):
    P = np.array([[((5 * i + 3 * j + salt) % 9) / 4.0 - 1.0 for j in range(d)] for i in range(n)])
    V = np.array([[((7 * i + 2 * j + salt) % 11) / 4.0 - 1.25 for j in range(d)] for i in range(n)])
    s = Swarm(P, V, options=dict(c1=1.5, c2=1.25, w=0.75))
    s.pbest_pos = P[::-1].copy()
    s.pbest_cost = np.array([((3 * i + salt) % 5) / 2.0 for i in range(n)])
    s.current_cost = np.array([((2 * i + salt) % 5) / 2.0 for i in range(n)])
    s.best_pos = P[1].copy()
    s.best_cost = 0.25
    return s


TOPS = {"star": T.Star, "ring": T.Ring, "vn": T.VonNeumann, "pyramid": T.Pyramid, "random": T.Random}
B2 = lambda: (np.array([-0.5, -0.75]), np.array([0.75, 0.5]))
HANDLERS = {"bounds": None, "clamp": None, "vh": "unmodified", "bh": "periodic"}


def top_configs(tier):
    out = []
    for name in TOPS:
        for what in ("compute_position", "compute_velocity", "static"):
            for b in (3, 11):
                for salt in range(3 if tier == "quick" else 8):
                    for setting in (["none", "bounds"] if what == "compute_position" else ["none", "clamp", "bounds", "clamp+bounds"] if what == "compute_velocity" else ["none"]):
                        if what == "static" and name == "vn":
                            continue
                        out.append(dict(top=name, what=what, bits=b, salt=salt, setting=setting))
    return out


def top_run(cfg, ctx):
    name, what = cfg["top"], cfg["what"]
    if what == "static":
        k = ctx.choose(2, "leave out")
        static = {"star": None}.get(name, False)
        args = {"ring": dict(p=2, k=2), "random": dict(k=2)}.get(name, {})

        def use(top):
            out = []
            with rng.controlled(rng.FixedSource(cfg["bits"])):
                for r in range(3):
                    s = swarm_obj(5 if name != "pyramid" else 6, 2, cfg["salt"] + 2 * r)
                    if name == "pyramid":
                        s.position = s.position + np.array([[0.01 * i * i, 0.02 * i] for i in range(6)])
                    out.append(fact(list(top.compute_gbest(s, **args))))
            return out
        a = use(TOPS[name]() if k else TOPS[name](static=static))
        b = use(TOPS[name](static=static))
        c = use(TOPS[name](static))
        same(a, b, "%s() is not %s(static=%s)" % (name, name, static))
        same(c, b, "%s(%s) is not %s(static=%s)" % (name, static, name, static))
        if name not in ("vn", "star") and k:
            check(bool(TOPS[name]().static) is False, lambda: "%s() is static" % name)
    else:
        set_ = cfg["setting"].split("+")
        kw, ref = {}, {}
        names = (["bounds", "bh"] if what == "compute_position" else ["clamp", "vh", "bounds"])
        left = []
        for p in names:
            if p in set_:
                kw[p] = ref[p] = B2() if p == "bounds" else (-0.5, 0.75)
                continue
            d = {"bh": BoundaryHandler, "vh": VelocityHandler}.get(p)
            ref[p] = d(HANDLERS[p]) if d else None
            if ctx.choose(2, "leave out") == 0:
                kw[p] = d(HANDLERS[p]) if d else None
            else:
                left.append(p)
        positional = ctx.choose(2, "positional")

        def use(kw, pos):
            with rng.controlled(rng.FixedSource(cfg["bits"])):
                top = TOPS[name]()
                s = swarm_obj(4, 2, cfg["salt"])
                if pos:
                    return fact(getattr(top, what)(s, *[kw[p] for p in names]))
                return fact(getattr(top, what)(s, **kw))
        if positional and left:
            positional = 0
        same(use(kw, positional), use(ref, 0), lambda: "%s.%s without %s is not the same as with the defaults" % (name, what, left))
    ctx.state(cfg, ctx.choices())
    ctx.step()
    ctx.validated()
    ctx.outcome(name, what)


def swarm_configs(tier):
    return [dict(d=d, n=n) for n in (1, 3) for d in (1, 2)]


def swarm_run(cfg, ctx):
    """Every subset of a Swarm's attributes given, by keyword and by position."""
    n, d = cfg["n"], cfg["d"]
    P, V = np.arange(n * d, dtype=float).reshape(n, d), np.arange(n * d, dtype=float).reshape(n, d) + 100.0
    other = {"n_particles": n, "dimensions": d, "options": {"c1": 5}, "pbest_pos": P + 7.0, "best_pos": np.arange(d) + 0.5, "pbest_cost": np.arange(n) + 0.25,
             "best_cost": -3.5, "current_cost": np.arange(n) - 0.75}
    want = {"n_particles": n, "dimensions": d, "options": {}, "pbest_pos": P, "best_pos": np.array([]), "pbest_cost": np.array([]), "best_cost": INF, "current_cost": np.array([])}
    names = [p for p, _ in PARAMS["swarm"]][2:]
    kw = {}
    prefix = ctx.choose(len(names) + 1, "positional")
    if prefix == 0:
        for p in names:
            if ctx.choose(2, "given"):
                kw[p] = other[p]
        s = Swarm(P.copy(), V.copy(), **kw)
    else:
        kw = {p: other[p] for p in names[:prefix]}
        s = Swarm(P.copy(), V.copy(), *[other[p] for p in names[:prefix]])
    same(fact([s.position, s.velocity]), fact([P, V]), "position and velocity")
    for p in names:
        same(fact(getattr(s, p)), fact(kw.get(p, want[p])), lambda: "Swarm(..., %s).%s" % (sorted(kw), p))
    check(s.pbest_pos is not s.options, "")
    a, b = Swarm(P.copy(), V.copy()), Swarm(P.copy(), V.copy())
    a.options["c1"] = 1
    check(b.options == {}, "swarms share their default options")
    ctx.state(n, d, sorted(kw), prefix)
    ctx.step(len(names))
    ctx.validated(len(names))
    ctx.outcome(sorted(kw))


# ------------------------------------------------------------ operators and handlers

def op_configs(tier):
    return [dict(bits=b, salt=s) for b in (3, 11) for s in range(4 if tier == "quick" else 10)]


def op_run(cfg, ctx):
    what = ctx.pick(["velocity", "objective", "z", "d2", "n", "end", "max_iters"], "what")
    with rng.controlled(rng.FixedSource(cfg["bits"])):
        if what == "velocity":
            clamp = ctx.pick([None, (-0.5, 0.75)], "clamp")
            out = []
            for form in range(3):
                with rng.controlled(rng.FixedSource(cfg["bits"])):
                    s = swarm_obj(4, 2, cfg["salt"])
                    vh = VelocityHandler("unmodified")
                    out.append(fact(OP.compute_velocity(s, clamp, vh) if form == 0 else OP.compute_velocity(s, clamp, vh, bounds=None) if form == 1
                                    else OP.compute_velocity(s, clamp, vh, None)))
            same(out[0], out[1], "compute_velocity without bounds is not bounds=None")
            same(out[2], out[1], "compute_velocity with bounds given by position")
        elif what == "objective":
            s = swarm_obj(4, 2, cfg["salt"])
            f = lambda X, a=2.0: a * X.sum(axis=1)
            r = [fact(np.asarray(OP.compute_objective_function(s, f))), fact(np.asarray(OP.compute_objective_function(s, f, None))),
                 fact(np.asarray(OP.compute_objective_function(s, f, pool=None))), fact(np.asarray(OP.compute_objective_function(s, f, a=2.0)))]
            for x in r[1:]:
                same(x, r[0], "compute_objective_function without a pool")
        elif what == "z":
            out = []
            for kw in ({}, {"z": 0.5}):
                s = swarm_obj(4, 2, cfg["salt"])
                out.append(fact(VelocityHandler("invert")(s.velocity.copy(), None, position=s.position.copy(), bounds=B2(), **kw)))
            same(out[0], out[1], "invert without z is not z=0.5")
        else:
            start = ctx.pick([dict(c1=0.5, c2=0.3, w=0.9), dict(c1=2.5, c2=0.5, w=-0.5), dict(c1=1, c2=2, w=1)], "options")
            strat = {"d2": "exp_decay", "n": "nonlin_mod", "end": "lin_variation", "max_iters": "lin_variation"}[what]
            strats = [strat] if what != "end" else ["exp_decay", "nonlin_mod", "lin_variation"]
            for strat in strats:
                for opt in ("w", "c1", "c2"):
                    for it in range(0, 6):
                        base = dict(iternow=it, itermax=5)
                        ends = {"w": 0.4, "c1": 0.8 * start["c1"], "c2": 1 * start["c2"]}
                        more = {"d2": dict(d2=7), "n": dict(n=1.2), "end": dict(end_opts=ends), "max_iters": {}}[what]
                        a = OptionsHandler({opt: strat})(dict(start), **base)
                        b = OptionsHandler({opt: strat})(dict(start), **dict(base, **more))
                        same(fact(a), fact(b), "%s of %s without %s" % (strat, opt, more))
                        if what == "end":
                            # one end value given explicitly leaves the others at their default
                            c = OptionsHandler({opt: strat})(dict(start), **dict(base, end_opts={opt: ends[opt]}))
                            same(fact(c), fact(b), "%s of %s with only its own end value" % (strat, opt))
    ctx.state(cfg, what)
    ctx.step()
    ctx.validated()
    ctx.outcome(what)


# ------------------------------------------------------------ optimize()

def optimize_configs(tier):
    return [dict(opt=o, n=4, d=2, k=2, r=0) for o in O.CORE_OPTS]


def optimize_run(cfg, ctx):
    """optimize(f, iters[, n_processes[, verbose]]) in every form that means the same."""
    form = ctx.choose(6, "form")
    got = []
    for use in (form, "reference"):
        with real_logging() as (d, err, out), rng.controlled(rng.FixedSource(9)):
            opt = O.build(O.full(cfg))
            seen = []

            def f(X):
                seen.append(np.array(X))
                return (np.asarray(X, dtype=float) ** 2).sum(axis=1)
            if use == 0:
                r = opt.optimize(f, 3)
            elif use == 1:
                r = opt.optimize(f, 3, None)
            elif use == 2:
                r = opt.optimize(f, 3, n_processes=None)
            elif use == 3:
                r = opt.optimize(objective_func=f, iters=3)
            elif use == 4:
                r = opt.optimize(f, 3, None, True)
            elif use == 5:
                r = opt.optimize(f, iters=3, verbose=True)
            else:
                r = opt.optimize(objective_func=f, iters=3, n_processes=None, verbose=True)
            log = [l.split(" - ", 3)[-1] for l in lines(d + "/report.log")]
            got.append((fact([seen, list(r)]), ["Optimize for" in l for l in log], "3/3" in err.getvalue(), bool(out.getvalue())))
    same(got[0], got[1], lambda: "form %d of calling optimize()" % form)
    check(got[0][2], "no progress bar by default")
    ctx.state(cfg, form)
    ctx.step(3)
    ctx.validated()
    ctx.outcome(cfg["opt"])


# ------------------------------------------------------------ searches

SEARCH = [("optimizer", ps.single.LocalBestPSO), ("n_particles", 4), ("dimensions", 2), ("options", None), ("objective_func", None), ("iters", 3)]


def search_configs(tier):
    return [dict(kind=k, bounds=b, clamp=c) for k in ("grid", "random") for b in (False, True) for c in (False, True)]


def search_run(cfg, ctx):
    order = [p for p, _ in SEARCH] + (["n_selection_iters"] if cfg["kind"] == "random" else []) + ["bounds", "velocity_clamp"]
    m = ctx.choose(len(order) + 1, "positional")
    leave = ctx.choose(2, "leave out the bounds")
    maximum = ctx.choose(3, "maximum")

    def use(m, leave, maximum):
        vals = dict(SEARCH)
        vals["options"] = (dict(c1=[0.5, 1.5], c2=[0.25], w=[0.5, 0.75], k=[2], p=[1, 2]) if cfg["kind"] == "grid"
                           else dict(c1=[0.5, 1.5], c2=[0.25, 1.0], w=[0.5, 0.75], k=[1, 3], p=2))
        vals["n_selection_iters"] = 3
        seen = []

        def f(X):
            seen.append(np.array(X))
            return (X ** 2).sum(axis=1)
        vals["objective_func"] = f
        vals["bounds"] = B2() if cfg["bounds"] else None
        vals["velocity_clamp"] = (-0.25, 0.5)
        o = [p for p in order if not (leave and p == "bounds" and not cfg["bounds"])]
        k = min(m, o.index("velocity_clamp") if leave and not cfg["bounds"] else len(o))
        with rng.controlled(rng.FixedSource(7)), contextlib.redirect_stderr(io.StringIO()):
            s = (GridSearch if cfg["kind"] == "grid" else RandomSearch)(*[vals[p] for p in o[:k]], **{p: vals[p] for p in o[k:]})
            r = s.search() if maximum == 0 else s.search(maximum == 2) if m % 2 else s.search(maximum=maximum == 2)
        return fact([seen, list(r)])
    same(use(m, leave, maximum), use(0, 0, 1 if maximum == 0 else maximum), lambda: "%s search with %s positional arguments" % (cfg["kind"], m))
    ctx.state(cfg, m, leave, maximum)
    ctx.step()
    ctx.validated()
    ctx.outcome(cfg["kind"], maximum)


# ------------------------------------------------------------ plots

DESIGN = [("figsize", (10, 8)), ("title_fontsize", "large"), ("text_fontsize", "medium"), ("legend", "Cost"), ("label", ["x-axis", "y-axis", "z-axis"]),
          ("limits", [(-1, 1), (-1, 1), (-1, 1)]), ("colormap", cm.viridis)]
ANIM = [("interval", 80), ("repeat_delay", None), ("repeat", True)]
MESH = [("delta", 0.001), ("limits", [(-1, 1), (-1, 1)]), ("levels", np.arange(-2.0, 2.0, 0.070)), ("alpha", 0.3)]


def form_configs(tier):
    return [dict(cls=c) for c in ("Designer", "Animator", "Mesher")]


def form_run(cfg, ctx):
    """Formatters: every subset of the fields given (another value), the others at their documented default; by keyword or position."""
    other = {"figsize": (3, 2), "title_fontsize": "small", "text_fontsize": 7, "legend": "L", "label": ["a", "b", "c"], "limits": [(0, 2), (1, 3), (2, 4)],
             "colormap": cm.jet, "interval": 33, "repeat_delay": 5, "repeat": False, "delta": 0.5, "levels": [0.0, 1.0], "alpha": 0.75}
    fields = {"Designer": DESIGN, "Animator": ANIM, "Mesher": MESH}[cfg["cls"]]
    cls = {"Designer": Designer, "Animator": Animator, "Mesher": Mesher}[cfg["cls"]]
    pre = [len] if cfg["cls"] == "Mesher" else []
    kw = {}
    m = ctx.choose(len(fields) + 1, "positional")
    if m:
        kw = {p: other[p] for p, _ in fields[:m]}
        o = cls(*(pre + [other[p] for p, _ in fields[:m]]))
    else:
        for p, _ in fields:
            if ctx.choose(2, "given"):
                kw[p] = other[p]
        o = cls(*pre, **kw)
    # objects made before do not matter, even when they are changed in place
    if m == 0:
        old = cls(*pre, **{p: v for p, v in kw.items()})
        for p, d in fields:
            v = getattr(old, p)
            if p not in kw and isinstance(v, (list, np.ndarray)):
                v[0] = v[1]
        o = cls(*pre, **kw)
    for p, d in fields:
        a, b = getattr(o, p), kw.get(p, d)
        if isinstance(b, np.ndarray):
            check(len(a) == len(b) and np.allclose(a, b, rtol=1e-12, atol=1e-12), lambda: "%s.%s is %s" % (cfg["cls"], p, a))
        elif p == "colormap":
            check(getattr(a, "name", a) == b.name, lambda: "%s.%s is %s" % (cfg["cls"], p, a))
        else:
            check(repr([x for x in a] if isinstance(a, (list, tuple)) else a) == repr([x for x in b] if isinstance(b, (list, tuple)) else b), lambda: "%s(%s).%s is %s" % (cfg["cls"], kw, p, a))
    ctx.state(cfg, sorted(kw), m)
    ctx.step(len(fields))
    ctx.validated(len(fields))
    ctx.outcome(cfg["cls"], len(kw))


def size(text):
    return round(text.get_fontsize(), 6)


def drawn(fig, anim=None):
    """What a figure shows."""
    out = [list(np.round(fig.get_size_inches(), 6))]
    for ax in fig.axes:
        d = [ax.get_title(), size(ax.title), ax.get_xlabel(), size(ax.xaxis.label), ax.get_ylabel(), size(ax.yaxis.label), list(np.round(ax.get_xlim(), 9)), list(np.round(ax.get_ylim(), 9)),
             [size(t.label1) for t in ax.xaxis.get_major_ticks()[:1]], [size(t.label1) for t in ax.yaxis.get_major_ticks()[:1]]]
        if hasattr(ax, "get_zlim"):
            d += [ax.get_zlabel(), size(ax.zaxis.label), list(np.round(ax.get_zlim(), 9)), [size(t.label1) for t in ax.zaxis.get_major_ticks()[:1]]]
        lg = ax.get_legend()
        d += [[(t.get_text(), size(t)) for t in lg.get_texts()] if lg else None, [(l.get_label(), l.get_xydata().tolist()) for l in ax.lines], len(ax.collections)]
        for c in ax.collections:
            d += [type(c).__name__, None if c.get_alpha() is None else np.round(np.asarray(c.get_alpha(), dtype=float), 9).tolist(), c.get_cmap().name]
            if hasattr(c, "levels"):
                d.append(np.round(c.levels, 9).tolist())
        out.append(d)
    if anim is not None:
        out += [anim._interval if hasattr(anim, "_interval") else None, getattr(anim, "_repeat", getattr(anim, "repeat", None)), getattr(anim, "_repeat_delay", None),
                [int(x) for x in anim.new_frame_seq()]]
    return out


def plot_configs(tier):
    return [dict(plot=p, mesh=m) for p in ("cost", "contour", "surface") for m in ((False,) if p == "cost" else (False, True))]


_PLOT = {}


def plot_run(cfg, ctx):
    """Arguments of the plot functions left out, and given by keyword or position."""
    kind = cfg["plot"]
    H = np.array([[[0.25, 0.5, 0.125], [0.5, -0.25, 0.75]], [[-0.5, 0.0, 0.25], [0.75, 0.25, -0.5]]])
    order = {"cost": [("ax", None), ("title", "Cost History"), ("designer", None)],
             "contour": [("canvas", None), ("title", "Trajectory"), ("mark", None), ("designer", None), ("mesher", None), ("animator", None), ("n_processes", None)],
             "surface": [("canvas", None), ("title", "Trajectory"), ("designer", None), ("mesher", None), ("animator", None), ("mark", None), ("n_processes", None)]}[kind]
    mode = ctx.pick(["left out", "positional"], "mode")

    def default(p, d):
        if p == "designer":
            return Designer(legend="Cost", label=["Iterations", "Cost"]) if kind == "cost" else Designer(limits=[(-1, 1), (-1, 1)], label=["x-axis", "y-axis"]) if kind == "contour" else Designer(
                limits=[(-1, 1), (-1, 1), (-1, 1)], label=["x-axis", "y-axis", "z-axis"], colormap=cm.viridis)
        if p == "animator":
            return Animator()
        if p == "mesher" and cfg["mesh"]:
            return Mesher(func=lambda X: X.sum(axis=1), delta=0.25)
        return d
    kw, args, left = {}, [], []
    if mode == "left out":
        for p, d in order:
            if p == "mesher" and cfg["mesh"]:
                kw[p] = default(p, d)
            elif ctx.choose(2, "leave out") == 0:
                kw[p] = default(p, d)
            else:
                left.append(p)
    else:
        m = ctx.choose(len(order) + 1, "positional")
        args = [default(p, d) for p, d in order[:m]]
        kw = {p: default(p, d) for p, d in order[m:]}
    plot = {"cost": plot_cost_history, "contour": plot_contour, "surface": plot_surface}[kind]
    data = [5.0, 3.0, 2.0] if kind == "cost" else H if kind == "surface" else H[:, :, :2]

    def use(args, kw):
        plt.close("all")
        r = plot(data, *args, **kw)
        fig = plt.gcf()
        if kind != "cost":
            r._draw_frame(1)
            r._draw_was_started = True
        out = drawn(fig, None if kind == "cost" else r)
        plt.close("all")
        return out
    key = (kind, cfg["mesh"])
    if key not in _PLOT:
        _PLOT[key] = use([], {p: default(p, d) for p, d in order})
    same(use(args, kw), _PLOT[key], lambda: "plot_%s without %s, %d arguments by position" % (kind, left, len(args)))
    ctx.state(cfg, left, len(args))
    ctx.step()
    ctx.validated()
    ctx.outcome(kind, len(left), len(args))


BOUNDS = ("every subset of the optional arguments left out (the others given their documented default), for every optimizer, base class, generator, topology method, operator and formatter, "
          "with none, one or a few of the arguments set to another value, under two (thorough six) draw tables; every number of arguments and every split into positional and keyword arguments")
ASSUMPTIONS = ["the defaults are those of the docstrings; where these contradict the signature (center, local best velocity_clamp, velocity_clamp of the searches, d1 of exp_decay) the parameter is not judged by its docstring"]
HARNESSES = [
    Harness("defaults", default_run, default_configs),
    Harness("positional", positional_run, positional_configs),
    Harness("topologies", top_run, top_configs),
    Harness("swarm", swarm_run, swarm_configs),
    Harness("operators", op_run, op_configs),
    Harness("optimize", optimize_run, optimize_configs),
    Harness("searches", search_run, search_configs),
    Harness("formatters", form_run, form_configs),
    Harness("plots", plot_run, plot_configs),
]
