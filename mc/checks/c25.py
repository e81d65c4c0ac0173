"""The @cost decorator."""
import itertools

import numpy as np

from .. import env, families as F, opt as O, rng
from ..core import check
from ..runner import Harness
import pyswarms as ps

ALPHA = {"float": [0.5, -1.0, 2.25], "int": [3, -1, 0], "mixed": [1, 0.5, np.float64(-2.0)], "inf": [float("inf"), -1e300, float("-inf")], "np": [np.int64(4), np.float32(0.25), np.array(1.5)]}


def val_configs(tier):
    return [dict(n=n, d=d, alpha=a, kw=kw) for n in (1, 2, 3, 4) + ((5, 6) if tier == "thorough" else (5,)) for d in (1, 2, 3) for a in ALPHA for kw in (0, 1, 2)]


KW = [{}, {"a": 3}, {"a": 1.5, "b": None, "name": [1]}]


def particles(n, d, salt=0):
    return np.array([[i + 0.125 * j + salt for j in range(d)] for i in range(n)])


def val_run(cfg, ctx):
    """Every assignment of return values to particles."""
    n, d = cfg["n"], cfg["d"]
    kw = KW[cfg["kw"]]
    X = particles(n, d)
    before = X.copy()
    vals = [ctx.pick(ALPHA[cfg["alpha"]], "value", free=True) for _ in range(n)]
    calls = []

    def f(x, **k):
        check(isinstance(x, np.ndarray) and x.shape == (d,), lambda: "the function is given %r" % (x,))
        calls.append((x.tolist(), k))
        return vals[len(calls) - 1]
    g = ps.cost(f)
    check(g.__name__ == "f", "the decorated function has lost its name")
    r = g(X, **kw)
    check(isinstance(r, np.ndarray) and r.shape == (n,), lambda: "values %s: result %r" % (vals, r))
    check([c[0] for c in calls] == before.tolist(), lambda: "%d particles: called with %s" % (n, [c[0] for c in calls]))
    check(all(c[1] == kw for c in calls), lambda: "keyword arguments %s arrived as %s" % (kw, [c[1] for c in calls]))
    for i in range(n):
        check(float(r[i]) == float(vals[i]), lambda: "particle %d has value %r, result %s" % (i, vals[i], r.tolist()))
    check(np.array_equal(X, before), "positions modified")
    ctx.state(cfg["alpha"], vals, d, cfg["kw"])
    ctx.step(n)
    ctx.validated()
    ctx.outcome(r)
    ctx.sample(lambda: "values %s -> %s" % (vals, r.tolist()))


def partitions(n):
    """Which particles share a position: all restricted growth strings."""
    out = [[]]
    for _ in range(n):
        out = [p + [v] for p in out for v in range((max(p) + 1 if p else 0) + 1)]
    return out


def dup_configs(tier):
    return ([dict(n=n, d=d, dtype=dt) for n in (1, 2, 3, 4, 5) + ((6, 7) if tier == "thorough" else ()) for d in (1, 2) for dt in ("float", "int", "bool")]
            + [dict(n=n, d=2, dtype="float", size=1) for n in (list(range(6, 70)) + [99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1001])]
            + [dict(n=3, d=d, dtype="float", size=1) for d in list(range(3, 70)) + [100, 128, 257, 1000]])


def dup_run(cfg, ctx):
    """Particles on the same position, the same matrix again: every particle is evaluated every time."""
    n, d = cfg["n"], cfg["d"]
    if cfg.get("size"):
        p = [list(range(n)), [0] * n, [i // 2 for i in range(n)], [i % 3 for i in range(n)], [-i for i in range(n)]][ctx.choose(5, "who shares")]
    else:
        p = ctx.pick(partitions(n), "who shares")
    X = np.array([[q + 2.0 * j for j in range(d)] for q in p]).astype(cfg["dtype"])
    again = ctx.pick(["same matrix", "copy", "changed in place", "reversed"], "again")
    calls = []

    def f(x, **k):
        calls.append(np.array(x))
        return 1000.0 - len(calls) * 0.25
    g = ps.cost(f)
    Y = X
    for r in range(3):
        if r == 1:
            if again == "copy":
                Y = X.copy()
            elif again == "changed in place":
                Y[n // 2] = Y[0] + 1
            elif again == "reversed":
                Y = X[::-1]
        n0 = len(calls)
        res = g(Y)
        check(len(calls) - n0 == n, lambda: "call %d (%s), positions %s: the function was evaluated %d times for %d particles" % (r, again, Y.tolist(), len(calls) - n0, n))
        check(np.array_equal(np.array(calls[n0:]), Y), lambda: "call %d (%s): evaluated at %s instead of %s" % (r, again, [c.tolist() for c in calls[n0:]], Y.tolist()))
        want = 1000.0 - 0.25 * np.arange(n0 + 1, n0 + n + 1)
        check(np.shape(res) == (n,) and np.array_equal(res, want), lambda: "call %d (%s), positions %s: values %s, results %s" % (r, again, Y.tolist(), want.tolist(), np.asarray(res).tolist()))
        ctx.step(n)
    ctx.state(cfg, p, again)
    ctx.validated()


BAD = {"arr1": lambda: np.array([1.0]), "list1": lambda: [1.0], "arr2": lambda: np.array([1.0, 2.0]), "tuple": lambda: (1, 2), "empty": lambda: [], "arr11": lambda: np.array([[1.0]])}


def bad_configs(tier):
    return [dict(n=n, d=d, bad=b) for n in (1, 2, 3, 5) for d in (1, 2, 3) for b in BAD]


def bad_run(cfg, ctx):
    """A non-scalar value at any non-empty set of particles raises ValueError."""
    n, d = cfg["n"], cfg["d"]
    where = [ctx.choose(2, "bad") for _ in range(n)]
    if not any(where):
        return
    X = particles(n, d)
    g = ps.cost(lambda x: BAD[cfg["bad"]]() if where[int(x[0])] else 1.0)
    try:
        r = g(X)
    except ValueError:
        r = "ValueError"
    check(isinstance(r, str), lambda: "return values of type %s at particles %s: accepted with result %r" % (cfg["bad"], where, r))
    ctx.state(n, d, cfg["bad"], where)
    ctx.step()
    ctx.validated()


class Boom(Exception):
    pass


EXC = [Boom, ValueError, KeyError, TypeError, StopIteration, KeyboardInterrupt, IndexError]


def exc_configs(tier):
    return [dict(n=n, d=d) for n in (1, 2, 3, 5) for d in (1, 2)]


def exc_run(cfg, ctx):
    n, d = cfg["n"], cfg["d"]
    at = ctx.choose(n, "at")
    e = ctx.pick(EXC, "type")("boom")
    calls = []

    def f(x):
        calls.append(int(x[0]))
        if int(x[0]) == at:
            raise e
        return 1.0
    try:
        r = ps.cost(f)(particles(n, d))
        got = None
    except BaseException as x:
        if type(x).__name__ == "Hang":
            raise
        got = x
    if isinstance(e, StopIteration):
        check(got is not None, lambda: "StopIteration at particle %d was swallowed: %r" % (at, r))
    else:
        check(got is e, lambda: "the function raised %r for particle %d, the decorated one raised %r" % (e, at, got))
    check(calls[:at + 1] == list(range(at + 1)), lambda: "calls %s" % calls)
    ctx.state(n, d, at, type(e).__name__)
    ctx.step()
    ctx.validated()


def opt_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for v in [dict(), dict(n=1, k=1), dict(n=7, d=3), dict(bounds="asym", opts="big"), dict(nproc=2), dict(ftol=0.5)]:
            c = dict(O.DEFAULT, opt=o, n=4, d=2, k=2, r=0, iters=4)
            c.update(v)
            if F.valid(dict(c, nproc=None)) and not (c["nproc"] and o not in O.CORE_OPTS):
                out.append(c)
    return out


def scalar(x, a=1.0):
    return float(a * np.sum(np.floor(8 * x) / 8.0) + np.max(x))


def vector(X, a=1.0):
    return np.array([scalar(x, a) for x in X])


decorated = ps.cost(scalar)


def opt_run(cfg, ctx):
    """A run with the decorated function is the run with the vectorised one."""
    kw = ctx.pick([{}, {"a": -2.0}], "kwargs")
    salt = ctx.choose(2, "draws")
    traces = []
    for f in (vector, decorated):
        with rng.controlled(rng.FixedSource(5 + salt)):
            o = O.build(cfg)
            seen = []

            def obj(X, _f=f, **k):
                seen.append(np.array(X))
                return _f(X, **k)
            res = [o.optimize(obj, cfg["iters"], verbose=False, **kw)]
            o.reset()
            res.append(o.optimize(f, cfg["iters"], verbose=False, n_processes=None, **kw))
            traces.append((seen, res, o.cost_history, [np.array(p) for p in o.pos_history]))
    (a, ra, ha, pa), (b, rb, hb, pb) = traces
    check(len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)), lambda: "%s: different positions evaluated with the decorated function" % cfg["opt"])
    check(all(float(x[0]) == float(y[0]) and np.array_equal(x[1], y[1]) for x, y in zip(ra, rb)), lambda: "%s: results %s and %s" % (cfg["opt"], ra, rb))
    check(list(map(float, ha)) == list(map(float, hb)) and all(np.array_equal(x, y) for x, y in zip(pa, pb)), "histories differ")
    ctx.state(cfg, kw, salt)
    ctx.step(len(a) + len(pa))
    ctx.validated()
    ctx.outcome(ra[0][1])


BOUNDS = ("every assignment of three values from five alphabets to up to 5 (thorough 6) particles x 1-3 dimensions x three kwargs sets; every pattern of coinciding particles (up to 5, thorough 7) evaluated three times with same, copied, changed and reversed matrices, 69 further sizes up to 1001 particles or dimensions; every non-empty set of particles with one of six non-scalar values; seven exceptions at every particle; runs of all optimizers")
ASSUMPTIONS = ["scalars are numbers"]
HARNESSES = [
    Harness("values", val_run, val_configs),
    Harness("duplicates", dup_run, dup_configs),
    Harness("nonscalar", bad_run, bad_configs),
    Harness("exceptions", exc_run, exc_configs),
    Harness("runs", opt_run, opt_configs),
]
