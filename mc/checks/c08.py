"""Objective protocol and failures: an exception at every evaluation."""
import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import check
from ..runner import Harness


class Custom(Exception):
    def __init__(self, a, b):
        Exception.__init__(self, a, b)


def make_exc(name):
    return {"ValueError": lambda: ValueError("boom"), "KeyError": lambda: KeyError("boom"), "Custom": lambda: Custom(1, 2),
            "StopIteration": lambda: StopIteration("boom"), "KeyboardInterrupt": lambda: KeyboardInterrupt("boom"),
            "AssertionError": lambda: AssertionError(), "TypeError": lambda: TypeError("boom"), "AttributeError": lambda: AttributeError("x"),
            "IndexError": lambda: IndexError("x"), "ZeroDivisionError": lambda: ZeroDivisionError("x"), "OSError": lambda: OSError("x"),
            "GeneratorExit": lambda: GeneratorExit()}[name]()


EXCS = ["ValueError", "KeyError", "Custom", "StopIteration", "KeyboardInterrupt", "AssertionError", "TypeError", "AttributeError", "IndexError",
        "ZeroDivisionError", "OSError", "GeneratorExit"]


def fault_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for v in [dict(), dict(bounds="asym", bh="intermediate", vh="zero"), dict(bounds="asym", bh="shrink", clamp="s"), dict(verbose=True),
                  dict(oh={"w": "exp_decay"}), dict(init="lat"), dict(ftol=0.01, ftol_iter=2)]:
            c = dict(O.DEFAULT, opt=o, n=4, d=2, k=2, r=0, iters=4)
            c.update(v)
            if F.valid(c):
                out.append(c)
    return out


def fault_run(cfg, ctx):
    at = ctx.choose(cfg["iters"] if not cfg["ftol"] else 2, "at", free=True)
    exc = make_exc(ctx.pick(EXCS, "exc"))
    before = ctx.choose(2, "earlier call")
    then = ctx.pick(["reset", "continue", "fail again"], "then", free=True)
    with rng.controlled(rng.ShapeSource(3)):
        tr = O.Trace(cfg, O.bumpy, snapshots=True)
        init = O.swarm_state(tr.opt)
        if before:
            tr.optimize(iters=2)
        base = len(tr.X)

        def failing(t, X, **kw):
            if t - base == at:
                raise exc
            return O.bumpy(t, X)
        tr.costfn = failing
        raised = None
        hist = {h: len(getattr(tr.opt, h)) for h in O.HISTS}
        try:
            tr.optimize()
        except BaseException as e:
            if e.__class__.__name__ == "Hang":
                raise
            raised = e
        check(raised is exc, lambda: "the objective raised %r in evaluation %d, optimize() raised %r" % (exc, at, raised))
        check(len(tr.X) == base + at + 1, lambda: "%d evaluations, the failing one included; expected %d" % (len(tr.X) - base, at + 1))
        for h in O.HISTS:
            check(len(getattr(tr.opt, h)) - hist[h] == at,
                  lambda: "%s has %d new entries after %d completed iterations" % (h, len(getattr(tr.opt, h)) - hist[h], at))
        for c in tr.calls:
            c.end = min(c.end, len(tr.C))
        tr.calls[-1].end = base + at
        O.mon_history(tr)
        if then == "reset":
            tr2 = O.Trace(cfg, O.bumpy, inp=tr.inp)
        for again in range(2 if then == "fail again" else 1):
            if then == "reset":
                tr.reset()
                for h in O.HISTS:
                    check(len(getattr(tr.opt, h)) == 0, "history not empty after reset()")
            tr.X.pop() if again == 0 else None       # the failed evaluation has no costs
            tr.S.pop() if again == 0 else None
            tr.K.pop() if again == 0 else None
            tr.costfn = O.bumpy
            if then == "fail again" and again == 0:
                try:
                    def f2(X, **kw):
                        raise ValueError("second")
                    tr.opt.optimize(f2, 2, verbose=False)
                    check(False, "exception of the objective was swallowed")
                except ValueError as e:
                    check(str(e) == "second", "the exception of an earlier call came out: %r" % e)
            x0 = np.array(tr.opt.swarm.position)
            n0 = len(tr.X)
            tr.optimize()
            check(np.array_equal(tr.X[n0], x0), "the next optimize() does not start from the swarm's positions")
            O.mon_best(tr, tr.calls[-1]) if then != "reset" else None
            O.mon_stop(tr, tr.calls[-1])
            if then == "reset":
                tr2.optimize()
                same_run(tr.X[n0:], tr2.X, tr.calls[-1].result, tr2.calls[-1].result, "after a failure and reset()")
    record(ctx, tr, (cfg["opt"], at, then, before, type(exc).__name__))


def builtin_exceptions():
    import builtins
    out = {}
    for name, c in sorted(vars(builtins).items()):
        if isinstance(c, type) and issubclass(c, BaseException) and "Group" not in name:
            args = ("x",)
            if name == "UnicodeDecodeError":
                args = ("utf8", b"x", 0, 1, "r")
            if name == "UnicodeEncodeError":
                args = ("utf8", "x", 0, 1, "r")
            if name == "UnicodeTranslateError":
                args = ("x", 0, 1, "r")
            out[name] = (c, args)
    out["LinAlgError"] = (np.linalg.LinAlgError, ("x",))
    out["Custom"] = (Custom, (1, 2))
    return out


BUILTIN = builtin_exceptions()


def class_configs(tier):
    return [dict(O.DEFAULT, opt=o, n=3, d=2, k=2, r=0, iters=3, verbose=v) for o in O.ALL_OPTS for v in (False, True)]


def class_run(cfg, ctx):
    """Every builtin exception class comes out as the very same object."""
    name = ctx.pick(sorted(BUILTIN), "exception")
    at = ctx.choose(cfg["iters"], "at")
    cls, args = BUILTIN[name]
    exc = cls(*args)

    def cost(t, X, **kw):
        if t == at:
            raise exc
        return O.bumpy(t, X)
    raised = None
    with rng.controlled(rng.FixedSource(2)):
        tr = O.Trace(cfg, cost, snapshots=False)
        try:
            tr.optimize()
        except BaseException as e:
            if e.__class__.__name__ == "Hang":
                raise
            raised = e
    check(raised is exc, lambda: "the objective raised %r in evaluation %d, optimize() raised %r" % (exc, at, raised))
    check(len(tr.X) == at + 1, lambda: "%d evaluations, the failing one was number %d" % (len(tr.X), at))
    for h in O.HISTS:
        check(len(getattr(tr.opt, h)) == at, lambda: "%s has %d entries after %d completed iterations" % (h, len(getattr(tr.opt, h)), at))
    tr.X.pop()
    record(ctx, tr, (cfg["opt"], name, at))


def same_run(X1, X2, r1, r2, what):
    check(len(X1) == len(X2), lambda: "%s: %d instead of %d evaluations" % (what, len(X1), len(X2)))
    for t, (a, b) in enumerate(zip(X1, X2)):
        check(np.array_equal(a, b), lambda: "%s: evaluation %d is %s, expected %s" % (what, t, a.tolist(), b.tolist()))
    check(r1[0] == r2[0] and np.array_equal(r1[1], r2[1]), lambda: "%s: result %r, expected %r" % (what, r1, r2))


def record(ctx, tr, key):
    for t, X in enumerate(tr.X):
        ctx.state(t, X)
    ctx.state(key)
    ctx.step(len(tr.X))
    ctx.validated()
    ctx.outcome(key)
    ctx.sample(lambda: "%s: %s" % (key, [x.tolist() for x in tr.X[:2]]))


KWARGS = {
    "none": {}, "a": {"a": 1.5}, "ab": {"a": 1, "b": 2}, "none_val": {"a": None}, "falsy": {"a": 0, "b": "", "c": False, "d": ()},
    "arr": {"a": np.arange(3.0)}, "dict": {"opt": {"x": 1}}, "names": {"x": 1, "bounds": 2, "options": 3, "position": 4, "kwargs": 5, "i": 6, "args": 7},
}


def kw_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for kw in KWARGS:
            for (n, d) in [(1, 1), (4, 2), (3, 3), (2, 5)]:
                if (":random" in o and n < 2) or ("pyramid" in o and d < 2):
                    continue
                for verbose in (False, True) if tier == "thorough" else (kw == "ab",):
                    out.append(dict(O.DEFAULT, opt=o, n=n, d=d, k=1, r=0, iters=3, kw=kw, verbose=verbose))
    return out


def kw_run(cfg, ctx):
    kw = KWARGS[cfg["kw"]]
    vary = ctx.choose(2, "second call")
    with rng.controlled(rng.FixedSource(2)):
        tr = O.Trace(cfg, O.bumpy, snapshots=False)
        tr.optimize(**kw)
        if vary:
            tr.optimize(iters=2, other=7)
    n, d = cfg["n"], cfg["d"]
    c = tr.calls[0]
    check(c.end - c.start == cfg["iters"], lambda: "%d objective calls for %d iterations" % (c.end - c.start, cfg["iters"]))
    for t in range(c.start, c.end):
        check(tr.X[t].shape == (n, d), lambda: "objective got shape %s" % (tr.X[t].shape,))
        check(set(tr.K[t]) == set(kw) and all(tr.K[t][a] is kw[a] for a in kw), lambda: "objective got keyword arguments %r instead of %r" % (tr.K[t], kw))
        check(np.array_equal(tr.X[t], tr.S[t]["position"]), "the objective did not get the current positions")
        if t > c.start:
            check(np.array_equal(tr.X[t], tr.S[t]["position"]), "positions")
    if vary:
        for t in range(tr.calls[1].start, tr.calls[1].end):
            check(tr.K[t] == {"other": 7}, lambda: "second call got keyword arguments %r" % (tr.K[t],))
    record(ctx, tr, (cfg["opt"], cfg["kw"], n, d, vary))


def mut_configs(tier):
    return [dict(O.DEFAULT, opt=o, n=3, d=2, k=2, r=0, iters=3, ret=r) for o in O.ALL_OPTS for r in ("float", "int", "f32", "same", "view")]


def mut_run(cfg, ctx):
    """Kinds of cost arrays: integer, float32, the same array object every time."""
    bad = ctx.choose(3, "best")
    buf = np.zeros(cfg["n"])

    def cost(t, X, **kw):
        c = np.array([5.0, 4.0, 3.0]) - t * (np.arange(3) == bad)
        if cfg["ret"] == "int":
            return c.astype(int)
        if cfg["ret"] == "f32":
            return c.astype(np.float32)
        if cfg["ret"] == "same":
            buf[:] = c
            return buf
        if cfg["ret"] == "view":
            return np.repeat(c, 2)[::2]
        return c
    with rng.controlled(rng.FixedSource(2)):
        tr = O.Trace(cfg, cost, snapshots=True)
        tr.optimize()
    O.mon_best(tr, tr.calls[0])
    O.mon_pbest(tr, tr.calls[0])
    record(ctx, tr, (cfg["opt"], cfg["ret"], bad))


BOUNDS = ("every builtin exception class (and 2 others) at every evaluation of 3-iteration runs of 12 optimizers, silent and verbose; 12 exception types at every evaluation of 4-iteration runs of 12 optimizers x up to 7 configurations, with and without an earlier call, followed by reset / another call / another failure; "
          "8 keyword sets x 4 swarm shapes x all optimizers, second call with other keywords; 5 kinds of cost arrays")
BOUNDS += F.KINDS_NOTE
ASSUMPTIONS = ["keyword names do not collide with parameters of optimize() or compute_objective_function() (objective_func, swarm, pool, iters, n_processes, verbose)"]
HARNESSES = [
    Harness("faults", fault_run, fault_configs, bound=lambda t: 1 if t == "quick" else 2),
    Harness("classes", class_run, class_configs),
    Harness("kwargs", kw_run, kw_configs),
    Harness("costs", mut_run, mut_configs),
    F.kinds_family([O.mon_protocol], snapshots=False),
    F.scale_family([O.mon_protocol], keep_state=False, quick_step=2),
    F.extreme_family([O.mon_protocol]),
]
