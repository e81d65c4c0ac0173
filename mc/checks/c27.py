"""RandomSearch: every draw of the options, every assignment of scores."""
import itertools

import numpy as np

from .. import env, opt as O, rng
from ..core import check
from ..runner import Harness
from . import c26
from .c26 import INF, Recording, SETUPS, Stub, judge, key
import pyswarms as ps
from pyswarms.utils.search import RandomSearch

OPTS = {
    "std": dict(c1=[1.0, 5.0], c2=[6.0, 10.0], w=[2.0, 5.0], k=[11, 13], p=1),
    "order": dict(p=2, k=[1, 4], w=(0.0, 0.5), c2=[-2.0, -1.0], c1=(0.25, 0.5)),
    "one": dict(c1=[1.0, 2.0], c2=[0.5, 0.75], w=[0.0, 1.0], k=[3, 4], p=2),
    "same": dict(c1=[0.5, 1.5], c2=[0.5, 1.5], w=[0.5, 1.5], k=[1, 3], p=1),
    "pair": dict(c1=[0.0, 4.0], c2=[0.0, 4.0], w=[0, 1], k=[0, 4], p=2),
    "wide": dict(c1=[1, 9], c2=[0, 4], w=[-1, 1], k=[2, 7], p=1),
}
LET = [0.0, 0.5]


def draw_configs(tier):
    out = []
    for name in OPTS:
        for m in (1, 2) + ((3,) if name in ("one",) or tier == "thorough" and name != "wide" else ()):
            if m == 3 and tier == "quick" and name != "one":
                continue
            if m == 2 and name in ("wide", "order") and tier == "quick":
                for sub in range(2):
                    out.append(dict(name=name, m=m, fix=sub))
                continue
            out.append(dict(name=name, m=m))
    return out


def check_entry(e, o):
    for v in ("c1", "c2", "w"):
        check(o[v][0] <= e[v] <= o[v][1], lambda: "%s=%r outside %s" % (v, e[v], o[v]))
    check(float(e["k"]) == int(e["k"]) and o["k"][0] <= e["k"] < o["k"][1] and isinstance(e["k"], (int, np.integer)), lambda: "k=%r outside %s" % (e["k"], o["k"]))
    check(e["p"] == o["p"], lambda: "p=%r instead of %r" % (e["p"], o["p"]))
    check(set(e) == {"c1", "c2", "w", "k", "p"}, lambda: "entry %s" % e)


def draw_run(cfg, ctx):
    o = OPTS[cfg["name"]]
    before = {k: list(v) if isinstance(v, (list, tuple)) else v for k, v in o.items()}
    s = RandomSearch(Stub, n_particles=4, dimensions=2, options=o, objective_func=len, iters=3, n_selection_iters=cfg["m"])
    with rng.controlled(rng.ElementSource(ctx, LET)):
        grid = s.generate_grid()
    check(len(grid) == cfg["m"], lambda: "%d entries for n_selection_iters=%d" % (len(grid), cfg["m"]))
    for e in grid:
        check_entry(e, o)
    check({k: list(v) if isinstance(v, (list, tuple)) else v for k, v in o.items()} == before, "options modified")
    k = tuple(tuple(float(e[x]) for x in ("c1", "c2", "w", "k")) for e in grid)
    s = ctx.acc.setdefault("seen", {})
    s[k] = s.get(k, 0) + 1
    ctx.state(cfg["name"], k)
    ctx.step()
    ctx.validated()
    ctx.outcome(k)
    ctx.sample(lambda: "n_selection_iters=%d -> %s" % (cfg["m"], grid))


def draw_finish(cfg, acc, stats):
    o = OPTS[cfg["name"]]
    one = [tuple(map(float, x)) for x in itertools.product(*[[o[v][0] + u * (o[v][1] - o[v][0]) for u in LET] for v in ("c1", "c2", "w")], range(*o["k"]))]
    want = set(itertools.product(one, repeat=cfg["m"]))
    got = set(acc["seen"])
    check(got <= want, "unexpected entries %s" % sorted(got - want)[:2])
    check(got == want, "n_selection_iters=%d: over all draws %d of %d grids reached: entries or options share draws" % (cfg["m"], len(got), len(want)))
    check(len(set(acc["seen"].values())) == 1, "grids are not equally frequent")


def score_configs(tier):
    return [dict(m=m, maximum=mx, alpha=a, setup=s) for m, a in ((1, "std"), (2, "std"), (3, "std"), (4, "two"), (3, "inf"), (6, "two"), (20, "needle")) + (((5, "std"), (8, "two"), (100, "needle")) if tier == "thorough" else ())
            for mx in (False, True) for s in ((0, 1, 2, 3) if m < 4 else (1,))]


def score_run(cfg, ctx):
    """Scores are assigned to entries in the order of the optimizer runs."""
    m, mx = cfg["m"], cfg["maximum"]
    setup = SETUPS[cfg["setup"]]
    if cfg["alpha"] == "needle":
        w = ctx.choose(m, "winner")
        f = -1.0 if mx else 1.0
        scores = [f * (5.0 + (i * 7) % 11) for i in range(m)]
        scores[w] = f * -1.0
    else:
        scores = [ctx.pick(c26.ALPHAS[cfg["alpha"]], "score") for _ in range(m)]
    table = {}
    Stub.log = []

    def score(o):
        x = scores[min(len(table), m - 1)]
        check(key(o) not in table, lambda: "two runs with the same options %s" % o)
        table[key(o)] = x
        return x
    Stub.score = staticmethod(score)
    obj = lambda x: x
    o = OPTS["std"]
    with rng.controlled(rng.FixedSource(3, bits=12)):
        s = RandomSearch(Stub, options=o, objective_func=obj, n_selection_iters=m, **setup)
        r = s.search(maximum=True) if mx else s.search()
    check(len(Stub.log) == m, lambda: "%d runs for n_selection_iters=%d" % (len(Stub.log), m))
    for run in Stub.log:
        check_entry(run["options"], o)
    c26.check_runs(Stub.log, [run["options"] for run in Stub.log], setup, obj)
    judge(r, s, (max if mx else min)(scores), table, "%s of %s" % ("maximum" if mx else "minimum", scores))
    ctx.state(scores, mx, cfg["setup"])
    ctx.step(m)
    ctx.validated()
    ctx.outcome(r[0])
    ctx.sample(lambda: "%s of %s -> %s" % ("maximum" if mx else "minimum", scores, r))


RANGES = [OPTS["std"], dict(c1=[0, 1e-12], c2=[1e9, 1e9 + 1], w=[-3, -2.5], k=[1, 1000], p=1), dict(c1=np.array([0.5, 0.75]), c2=(np.float64(1.0), 2), w=[0.25, 0.25], k=np.array([2, 3]), p=2),
          dict(c1=[0, 10], c2=[0, 10], w=[0, 1], k=(5, 300), p=2)]


def many_configs(tier):
    return [dict(m=m, ranges=r, maximum=mx) for m in (50, 99, 100, 101, 128, 256, 257, 999, 1000, 1001) + ((3000, 10000) if tier == "thorough" else ()) for r in range(len(RANGES)) for mx in (False, True)]


class Spread(rng.Source):
    def __init__(self, salt):
        self.v = salt * 7919 + 17

    def unit(self, kind):
        self.v = (self.v * 1103515245 + 12345) % (1 << 31)
        return (self.v >> 7) / float(1 << 24)


def many_run(cfg, ctx):
    """Many selections, unusual ranges: every entry within its ranges and run once, the best reported."""
    m, o, mx = cfg["m"], RANGES[cfg["ranges"]], cfg["maximum"]
    at = ctx.pick(sorted({0, m - 1, m // 2, min(100, m - 1)}), "winner")
    Stub.log = []
    scores = [float((i * 31) % m) for i in range(m)]
    scores[at] = 2.0 * m if mx else -2.0 * m
    Stub.score = staticmethod(lambda opts: scores[len(Stub.log) - 1])
    before = {k: [float(x) for x in v] if np.ndim(v) else v for k, v in o.items()}
    with rng.controlled(Spread(at)):
        s = RandomSearch(Stub, options=o, objective_func=len, n_selection_iters=m, **SETUPS[0])
        r = s.search(mx)
    check(len(Stub.log) == m, lambda: "%d runs for n_selection_iters=%d" % (len(Stub.log), m))
    for run in Stub.log:
        check_entry(run["options"], o)
    check({k: [float(x) for x in v] if np.ndim(v) else v for k, v in o.items()} == before, "options modified")
    check(float(r[0]) == scores[at], lambda: "%s of %d scores is %r, reported %r" % ("maximum" if mx else "minimum", m, scores[at], r[0]))
    check(key(r[1]) == key(Stub.log[at]["options"]), lambda: "options %s reported, the best score is that of %s" % (r[1], Stub.log[at]["options"]))
    if o["c1"][0] < o["c1"][1] and cfg["ranges"] != 1:
        check(len({run["options"]["c1"] for run in Stub.log}) > m // 2, "entries repeat each other")
    ctx.state(cfg, at)
    ctx.step(m)
    ctx.validated()
    ctx.outcome(m, at)


def type_configs(tier):
    return [dict(value=v) for v in ("2.0", "'3'", "None", "[1]", "1e3", "np.float64(3)", "(2,)")] + [dict(value=v, ok=True) for v in ("1", "7")]


def type_run(cfg, ctx):
    v = eval(cfg["value"], {"np": np})
    cls = ctx.pick([Stub, ps.single.GlobalBestPSO, ps.single.LocalBestPSO], "class")
    try:
        RandomSearch(cls, n_particles=4, dimensions=2, options=OPTS["std"], objective_func=len, iters=3, n_selection_iters=v)
        r = "ok"
    except TypeError:
        r = "TypeError"
    check(r == ("ok" if cfg.get("ok") else "TypeError"), lambda: "n_selection_iters=%r: %s" % (v, r))
    ctx.state(cfg, r)
    ctx.step()
    ctx.validated()


def real_configs(tier):
    return [dict(cls=c, m=m, maximum=mx) for c in ("GlobalBestPSO", "LocalBestPSO") for m in (1, 3, 6) for mx in (False, True)]


def real_run(cfg, ctx):
    o = dict(c1=[0.5, 1.5], c2=[0.25, 2.0], w=[0.1, 0.9], k=[1, 5], p=2)
    rec = Recording(getattr(ps.single, cfg["cls"]))
    salt = ctx.choose(4, "draws")
    results = {}
    with rng.controlled(rng.FixedSource(salt, bits=20)):
        s = RandomSearch(rec, n_particles=5, dimensions=2, options=o, objective_func=lambda X: O.bumpy(0, X), iters=4, n_selection_iters=cfg["m"], velocity_clamp=(-0.5, 0.5))
        with c26.silent():
            r = s.search(maximum=cfg["maximum"])
    check(len(rec.runs) == cfg["m"], lambda: "%d runs" % len(rec.runs))
    for x in rec.runs:
        check_entry(x["options"], o)
        results[key(x["options"])] = min(map(float, x["opt"].cost_history))
    judge(r, s, (max if cfg["maximum"] else min)(results.values()), results, cfg["cls"])
    ctx.state(cfg, salt)
    ctx.step(4 * cfg["m"])
    ctx.validated()
    ctx.outcome(r[0])


BOUNDS = ("every draw over two letters per real option and all values of k for 1-2 (one dictionary, thorough all: 3) entries and four range dictionaries; every score assignment with ties and infinities for up to 6 (8) entries, every winner of 20 (100), winners among 50-1001 (10000) selections over four range dictionaries; bad n_selection_iters; the real optimizers")
ASSUMPTIONS = ["scores are not NaN"]
HARNESSES = [
    Harness("draws", draw_run, [lambda t: draw_configs(t)][0], finish=draw_finish),
    Harness("scores", score_run, score_configs),
    Harness("many", many_run, many_configs),
    Harness("types", type_run, type_configs),
    Harness("real", real_run, real_configs),
]
