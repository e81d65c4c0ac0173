"""GridSearch: the whole grid, each point once, the best reported."""
import collections
import contextlib
import inspect
import io
import itertools

import numpy as np

from .. import env, opt as O, rng
from ..core import check
from ..runner import Harness
import pyswarms as ps
from pyswarms.utils.search import GridSearch

INF = float("inf")


class Stub:
    """An optimizer class whose score is chosen by the explorer."""

    log = []
    score = staticmethod(lambda options: 0.0)

    def __init__(self, n_particles, dimensions, options, bounds=None, oh_strategy=None, bh_strategy="periodic", velocity_clamp=None, **kw):
        self.args = dict(n_particles=n_particles, dimensions=dimensions, options=dict(options), bounds=bounds, velocity_clamp=velocity_clamp, extra=kw)
        self.runs = 0

    def optimize(self, objective_func, iters, **kw):
        self.runs += 1
        check(self.runs == 1, "optimize() called twice on one optimizer")
        Stub.log.append(dict(self.args, objective=objective_func, iters=iters, kw=kw))
        return Stub.score(self.args["options"]), np.zeros(self.args["dimensions"])


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def key(o):
    return tuple(sorted(o.items()))


GRIDS = {
    "one": dict(c1=[0.1], c2=[0.2], w=[0.3]),
    "scalars": dict(c1=0.1, c2=0.2, w=0.3),
    "two": dict(c1=[0.1, 0.7], c2=[0.2], w=[0.3]),
    "mixed": dict(c1=0.5, c2=[1, 2], w=[0.3, 0.9]),
    "three": dict(c1=[1, 2, 3], c2=0.2, w=0.1),
    "ring": dict(c1=[1, 5], c2=0.25, w=0.5, k=[2, 3], p=1),
    "order": dict(w=[0.9, 0.8], p=[1, 2], k=3, c2=1.0, c1=[2.0]),
    "cube": dict(c1=[1, 2], c2=[3, 4], w=[5, 6]),
    "six": dict(c1=[1, 2], c2=[6, 7, 8], w=0.5),
    "zeros": dict(c1=[0, 0.0001], c2=[0], w=0),
    "str": dict(c1=[0.5, 0.25], c2=0.3, w=0.9, extra="ab"),
    "big": dict(c1=[1, 2, 3], c2=[6, 7, 8], w=[2, 5], k=[11, 15], p=1),
    "wide": dict(c1=list(range(20)), c2=[1, 2], w=0.1),
}


def product(options):
    names = list(options)
    items = [v if isinstance(v, list) else [v] for v in options.values()]
    return [dict(zip(names, x)) for x in itertools.product(*items)]


def grid_configs(tier):
    """Every dictionary of 1-3 values per option, scalars and lists."""
    out = [dict(name=n) for n in GRIDS]
    for shape in itertools.product((0, 1, 2, 3), repeat=3):
        for extra in (None, 0, 2):
            out.append(dict(shape=shape, extra=extra))
    return out


def options_of(cfg):
    if "name" in cfg:
        return GRIDS[cfg["name"]]
    o = {}
    for nm, m, base in zip(("c1", "c2", "w"), cfg["shape"], (1.0, 10.0, 0.1)):
        o[nm] = base if m == 0 else [base * (i + 1) for i in range(m)]
    if cfg["extra"] is not None:
        o["k"] = 3 if cfg["extra"] == 0 else [3, 4]
        o["p"] = 2
    return o


def copyopt(o):
    return {k: list(v) if isinstance(v, list) else v for k, v in o.items()}


def grid_run(cfg, ctx):
    o = options_of(cfg)
    orders = [list(o), list(o)[::-1], list(o)[1:] + list(o)[:1]]
    names = ctx.pick(orders, "order")
    opts = {k: o[k] for k in names}
    before = copyopt(opts)
    g = GridSearch(Stub, n_particles=4, dimensions=2, options=opts, objective_func=len, iters=3)
    for _ in range(2):
        grid = g.generate_grid()
        want = collections.Counter(key(x) for x in product(opts))
        got = collections.Counter(key(x) for x in grid)
        check(got == want, lambda: "options %s: missing %s, unexpected or repeated %s" % (opts, list((want - got))[:3], list((got - want))[:3]))
        ctx.step()
    check(opts == before, lambda: "options modified: %s" % opts)
    ctx.state(cfg, names)
    ctx.validated()
    ctx.outcome(len(grid))
    ctx.sample(lambda: "options %s -> %d combinations" % (opts, len(grid)))


SETUPS = [dict(n_particles=4, dimensions=2, iters=3), dict(n_particles=7, dimensions=5, iters=11, bounds=(np.array([-1.0] * 5), np.array([2.0] * 5))),
          dict(n_particles=1, dimensions=1, iters=1, velocity_clamp=(-3.0, 2.0)), dict(n_particles=9, dimensions=3, iters=2, bounds=([0] * 3, [1] * 3), velocity_clamp=None)]


def check_runs(log, grid, setup, objective):
    check(collections.Counter(key(r["options"]) for r in log) == collections.Counter(key(x) for x in grid), lambda: "optimizer runs with options %s, grid %s" % ([r["options"] for r in log], grid))
    for r in log:
        check(r["n_particles"] == setup["n_particles"] and r["dimensions"] == setup["dimensions"] and r["iters"] == setup["iters"] and r["objective"] is objective, lambda: "optimizer run with %s" % r)
        check(r["bounds"] is setup.get("bounds") or (r["bounds"] is not None and all(np.array_equal(a, b) for a, b in zip(r["bounds"], setup["bounds"]))), lambda: "bounds passed on as %s" % (r["bounds"],))
        want = setup.get("velocity_clamp", (0, 1))
        check(r["velocity_clamp"] == want, lambda: "velocity clamp passed on as %s" % (r["velocity_clamp"],))


def score_configs(tier):
    out = []
    for name in GRIDS:
        m = len(product(GRIDS[name]))
        al = "std" if m <= 4 else "two" if m <= 8 else "needle"
        for mx in (False, True):
            for s in range(len(SETUPS)):
                if al == "two" and s > 1 and tier == "quick":
                    continue
                out.append(dict(name=name, alpha=al, maximum=mx, setup=s))
            if m <= 4 and tier == "thorough":
                out.append(dict(name=name, alpha="wide", maximum=mx, setup=0))
            if m <= 4:
                out.append(dict(name=name, alpha="inf", maximum=mx, setup=0))
    return out


ALPHAS = {"std": [1.0, 0.0, 2.0], "two": [1.0, 0.0], "inf": [INF, -1.0, 0.0], "wide": [1.0, 0.0, -1.0, 1e300, 5]}


def score_run(cfg, ctx):
    """Every assignment of scores to the grid points."""
    opts = GRIDS[cfg["name"]]
    grid = product(opts)
    setup = SETUPS[cfg["setup"]]
    if cfg["alpha"] == "needle":
        w = ctx.choose(len(grid), "winner")
        flip = -1.0 if cfg["maximum"] else 1.0
        scores = [flip * (5.0 + (i * 7) % 11) for i in range(len(grid))]
        scores[w] = flip * -1.0
    else:
        scores = [ctx.pick(ALPHAS[cfg["alpha"]], "score") for _ in grid]
    table = {key(g): s for g, s in zip(grid, scores)}
    Stub.log = []
    Stub.score = staticmethod(lambda o: table[key(o)])
    obj = lambda x: x
    how = cfg["maximum"]
    s = GridSearch(Stub, options=opts, objective_func=obj, **setup)
    r = s.search(maximum=True) if how else s.search() if ctx.choose(2, "default") == 0 else s.search(False)
    check_runs(Stub.log, grid, setup, obj)
    best = (max if how else min)(scores)
    judge(r, s, best, table, "%s of %s" % ("maximum" if how else "minimum", scores))
    ctx.state(cfg["name"], scores, how, cfg["setup"])
    ctx.step(len(grid))
    ctx.validated()
    ctx.outcome(r[0], key(r[1]))
    ctx.sample(lambda: "%s of scores %s -> %s" % ("maximum" if how else "minimum", scores, r))


def judge(r, s, best, table, what):
    check(len(r) == 2 and float(r[0]) == float(best), lambda: "%s: score %r reported, should be %r" % (what, r[0], best))
    check(table.get(key(r[1])) == best, lambda: "%s: options %s reported, their score is %r" % (what, r[1], table.get(key(r[1]))))
    check(float(s.best_score) == float(best) and key(s.best_options) == key(r[1]), lambda: "%s: best_score %r best_options %r" % (what, s.best_score, s.best_options))


def again_configs(tier):
    return [dict(name=n) for n in ("two", "ring", "cube", "three")]


def again_run(cfg, ctx):
    """Several searches with one object, minimum and maximum in any order, scores changing in between."""
    opts = GRIDS[cfg["name"]]
    grid = product(opts)
    s = GridSearch(Stub, options=opts, objective_func=len, **SETUPS[0])
    for t in range(3):
        mx = bool(ctx.choose(2, "maximum"))
        w = ctx.choose(len(grid), "winner")
        scores = [10.0 * t + 1.0 + i for i in range(len(grid))]
        scores[w] = 10.0 * t + (99.0 if mx else -99.0)
        table = {key(g): x for g, x in zip(grid, scores)}
        Stub.log, Stub.score = [], staticmethod(lambda o: table[key(o)])
        r = s.search(mx)
        check_runs(Stub.log, grid, SETUPS[0], len)
        judge(r, s, (max if mx else min)(scores), table, "search %d (%s) of %s" % (t, "maximum" if mx else "minimum", scores))
        ctx.step(len(grid))
        ctx.state(cfg["name"], t, mx, w)
    ctx.validated()


HUGE = {
    "257": dict(c1=[i / 8.0 for i in range(257)], c2=0.5, w=[0.25]),
    "1000": dict(c1=list(range(10)), c2=list(range(10, 20)), w=[i / 16.0 for i in range(10)]),
    "1001": dict(c1=list(range(13)), c2=[-i for i in range(11)], w=[0.125 * i for i in range(7)]),
    "1210": dict(c1=list(range(11)), c2=[i * 1e-9 for i in range(11)], w=[1e9 + i for i in range(10)], k=2, p=2),
    "4096": dict(c1=list(range(8)), c2=list(range(8)), w=list(range(8)), k=list(range(1, 9)), p=1),
    "6000": dict(c1=[10 ** i for i in range(-10, 10)], c2=[-0.0625 * i for i in range(20)], w=[i / 7 for i in range(5)], k=[1, 2, 3], p=2),
    "long": dict(c1=list(range(3000)), c2=1, w=[0]),
}


def huge_configs(tier):
    out = [dict(huge=n, maximum=mx) for n in HUGE for mx in (False, True)]
    return [dict(c, at=a) for c in out for a in range(6 if tier == "quick" else 40)]


def huge_run(cfg, ctx):
    """Grids of hundreds and thousands of points, the winner at several places."""
    opts, mx = HUGE[cfg["huge"]], cfg["maximum"]
    grid = product(opts)
    m = len(grid)
    at = [0, m - 1, m // 2, min(1000, m - 1), min(256, m - 1), m // 3][cfg["at"]] if cfg["at"] < 6 else (cfg["at"] * 7919) % m
    table = {key(g): (1.0 if mx else -1.0) * -float((i * 31 + 1) % m + 1) for i, g in enumerate(grid)}
    check(len(table) == m, "grid points differ")
    table[key(grid[at])] = 2.0 * m if mx else -2.0 * m
    Stub.log, Stub.score = [], staticmethod(lambda o: table[key(o)])
    s = GridSearch(Stub, options=copyopt(opts), objective_func=len, **SETUPS[0])
    r = s.search(mx)
    got = collections.Counter(key(x["options"]) for x in Stub.log)
    want = collections.Counter(table.keys())
    check(got == want, lambda: "grid of %d points: %d runs, missing %s, repeated or unexpected %s" % (m, len(Stub.log), list((want - got))[:2], list((got - want))[:2]))
    judge(r, s, (max if mx else min)(table.values()), table, "grid of %d points" % m)
    ctx.state(cfg)
    ctx.step(m)
    ctx.validated()
    ctx.outcome(m, at, mx)


class Recording:
    """Wraps a real optimizer class and records each run."""

    def __init__(self, cls):
        self.cls, self.runs = cls, []
        self.optimize = cls.optimize           # search checks for the attribute

    def __call__(self, *a, **k):
        b = inspect.signature(self.cls.__init__).bind(None, *a, **k)
        b.apply_defaults()
        o = self.cls(*a, **k)
        rec = dict(b.arguments, opt=o, options=dict(b.arguments["options"]))
        self.runs.append(rec)
        return o


def real_configs(tier):
    return [dict(cls=c, grid=g, maximum=m, bounds=b) for c, g in (("GlobalBestPSO", "cube"), ("GlobalBestPSO", "mixed"), ("LocalBestPSO", "ring"), ("LocalBestPSO", "order")) for m in (False, True) for b in (False, True)]


def real_run(cfg, ctx):
    """With the real optimizers: the reported score is that of a run with the reported options."""
    opts = GRIDS[cfg["grid"]]
    grid = product(opts)
    rec = Recording(getattr(ps.single, cfg["cls"]))
    salt = ctx.choose(3, "draws")
    results = {}
    shapes = []

    def obj(X):
        shapes.append(np.shape(X))
        return O.bumpy(0, X)
    bounds = (np.array([-1.0, 0.5]), np.array([2.0, 3.0])) if cfg["bounds"] else None
    with rng.controlled(rng.FixedSource(salt)):
        s = GridSearch(rec, n_particles=4, dimensions=2, options=opts, objective_func=obj, iters=5, bounds=bounds, velocity_clamp=(-0.5, 0.5))
        with silent():
            r = s.search(maximum=cfg["maximum"])
    check(len(shapes) == 5 * len(grid) and set(shapes) == {(4, 2)}, lambda: "%d evaluations of shapes %s" % (len(shapes), set(shapes)))
    check(collections.Counter(key(x["options"]) for x in rec.runs) == collections.Counter(key(x) for x in grid), "optimizer runs differ from the grid")
    for x in rec.runs:
        o = x["opt"]
        results[key(x["options"])] = min(map(float, o.cost_history))
        V = np.array(o.velocity_history)
        check(((V >= -0.5) & (V <= 0.5)).all(), "velocity clamp not applied")
        if bounds is not None:
            Xs = np.array(o.pos_history)
            check(((Xs >= bounds[0]) & (Xs <= bounds[1])).all(), "bounds not applied")
    judge(r, s, (max if cfg["maximum"] else min)(results.values()), results, "%s over %s" % (cfg["cls"], cfg["grid"]))
    ctx.state(cfg, salt)
    ctx.step(len(shapes))
    ctx.validated()
    ctx.outcome(r[0])


BOUNDS = ("every option dictionary with scalars or lists of 1-3 values for three options and optional k, p, in three key orders; every assignment of scores from 2-3 (thorough 5) letters with ties and infinities to grids of up to 8 points, every winner of larger grids, six (40) winners of grids of 257-6000 points; minimum, maximum and sequences of three searches; four set-ups; the real optimizers")
ASSUMPTIONS = ["scores are not NaN", "option values are scalars or lists"]
HARNESSES = [
    Harness("grid", grid_run, grid_configs),
    Harness("scores", score_run, score_configs),
    Harness("huge", huge_run, huge_configs),
    Harness("again", again_run, again_configs),
    Harness("real", real_run, real_configs),
]
