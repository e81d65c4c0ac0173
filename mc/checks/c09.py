"""Parallel evaluation under a controlled scheduler for the worker pool."""
import itertools
import multiprocessing

import numpy as np

from .. import families as F
from .. import opt as O
from .. import pool as P
from .. import rng
from ..core import check
from ..runner import Harness
from .c08 import same_run

from pyswarms.utils.decorators import cost as cost_decorator
from pyswarms.utils.plotters.formatters import Designer, Mesher
import pyswarms.utils.plotters.plotters as plotters


class Log:
    calls = []
    fault = None          # call number that fails


class Boom(Exception):
    pass


def par_cost(X, **kw):
    """Row-wise function; module level so that it can be sent to a worker."""
    i = len(Log.calls)
    Log.calls.append((np.array(X), dict(kw)))
    if Log.fault is not None and i == Log.fault:
        raise Boom("worker %d" % i)
    return O.bumpy(0, X) + kw.get("a", 0.0)


@cost_decorator
def par_row(x, **kw):
    return float(np.sum(x * np.arange(1, len(x) + 1))) + kw.get("a", 0.0)


def serial_sum(X, **kw):
    return np.sum(X, axis=1)


def par_mixed(X, **kw):
    """Integers where they suffice."""
    v = np.floor(8 * O.bumpy(0, X)) / 4 + kw.get("a", 0.0)
    return v.astype(int) if (v == np.floor(v)).all() else v


def par_half(X, **kw):
    """Answers in the narrowest type that holds the values."""
    v = np.round(16 * O.bumpy(0, X)) / 16 + kw.get("a", 0.0)
    return v.astype(np.float16) if (v.astype(np.float16) == v).all() else v


def par_view(X, **kw):
    """A view of a larger array, not contiguous."""
    return np.stack([O.bumpy(0, X) + kw.get("a", 0.0), X[:, 0]], axis=1)[:, 0]


OBJ = {"vec": par_cost, "row": par_row, "mixed": par_mixed, "half": par_half, "view": par_view}


def objective(cfg):
    return OBJ[cfg.get("obj", "vec")]


KW = [{}, {"a": 2.5}, {"a": 1, "b": None}]


def order_fn(ctx, width=None):
    def f(n):
        if n > 4:      # too many permutations: rotations and reversals
            perms = [list(range(n)), list(range(n))[::-1]] + [list(range(k, n)) + list(range(k)) for k in range(1, n)]
        else:
            perms = [list(p) for p in itertools.permutations(range(n))]
        return perms[ctx.choose(len(perms), "order")]
    return f


def runs_equal(a, b, what):
    same_run(a.opt.pos_history, b.opt.pos_history, a.calls[-1].result, b.calls[-1].result, what)
    for h in O.HISTS:
        x, y = getattr(a.opt, h), getattr(b.opt, h)
        check(len(x) == len(y) and all(np.array_equal(u, v) for u, v in zip(x, y)), lambda: "%s: %s differs" % (what, h))
    for k, v in O.swarm_state(b.opt).items():
        w = O.swarm_state(a.opt)[k]
        check(w == v if isinstance(v, dict) else np.array_equal(w, v), lambda: "%s: swarm.%s differs" % (what, k))


def fake_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for n in ((1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 7)):
            for w in sorted({1, 2, 3, n, n + 2}):
                c = dict(O.DEFAULT, opt=o, n=n, d=2, k=1, r=0, iters=2 if tier == "quick" else 3, nproc=w)
                if F.valid(dict(c, nproc=None)):
                    out.append(c)
                    if w == 2 and o in O.CORE_OPTS:
                        out += [dict(c, obj=x) for x in OBJ if x != "vec"]
                        if o != "binary":
                            out.append(dict(c, bounds="asym", bh="random", opts="big"))
                        out.append(dict(c, ftol=0.5))
    return out


def fake_run(cfg, ctx):
    kw = ctx.pick(KW, "kw")
    obj = objective(cfg)
    Log.calls, Log.fault = [], None
    with rng.controlled(rng.FixedSource(6)):
        ser = O.Trace(cfg, None)
        ser.cfg["nproc"] = None
        ser.optimize(objective=obj, **kw)
    Log.calls = []
    with rng.controlled(rng.FixedSource(6)), P.PoolControl(order_fn(ctx)) as ctl:
        par = O.Trace(cfg, None)
        par.optimize(objective=obj, **kw)
    what = "n_processes=%d" % cfg["nproc"]
    runs_equal(par, ser, what)
    iters = len(par.opt.pos_history)
    if ctl.pools:
        for p in ctl.pools:
            check(p._state != "RUN", "the worker pool is not closed after optimize()")
        seen = [r for b in ctl.batches for _, X in b if isinstance(X, np.ndarray) and X.ndim == 2 for r in X.tolist()]
        check(all(isinstance(X, np.ndarray) and X.size for b in ctl.batches for _, X in b), "empty chunk sent to a worker")
        want = [r for X in ser.opt.pos_history for r in np.asarray(X).tolist()]
        check(sorted(map(repr, seen)) == sorted(map(repr, want)), lambda: "%s: particles evaluated %d times, expected %d" % (what, len(seen), len(want)))
        if obj is par_cost:
            check(all(k == kw for _, k in Log.calls), "a worker got other keyword arguments")
    ctx.state(repr(cfg), repr(ctx.choices()))
    ctx.step(sum(len(b) for b in ctl.batches))
    ctx.validated()
    ctx.outcome(np.asarray(par.calls[-1].result[0]), iters)
    ctx.sample(lambda: "%s n=%d workers=%d completion orders %s -> %s" % (cfg["opt"], cfg["n"], cfg["nproc"], [[t for t, _ in b] for b in ctl.batches], par.calls[-1].result))


def fault_configs(tier):
    return [dict(O.DEFAULT, opt=o, n=4, d=2, k=1, r=0, iters=2, nproc=w) for o in O.ALL_OPTS for w in (1, 2, 3, 6)]


def fault_run(cfg, ctx):
    """A worker fails at each task, in any completion order; then reset() and go on."""
    chunks = min(cfg["nproc"], cfg["n"])
    Log.calls, Log.fault = [], ctx.choose(2 * chunks, "at", free=True)
    with rng.controlled(rng.ShapeSource(6)), P.PoolControl(order_fn(ctx)) as ctl:
        tr = O.Trace(cfg, None)
        try:
            tr.optimize(objective=par_cost)
            check(not ctl.pools or len(Log.calls) <= Log.fault, "the failure of a worker was swallowed")
        except Boom:
            pass
        done = sum(len(X) for X, _ in Log.calls[:Log.fault]) // cfg["n"]
        ctl.order = None
        if ctl.pools:
            check(len(tr.opt.cost_history) == done, lambda: "cost_history has %d entries after %d completed iterations" % (len(tr.opt.cost_history), done))
        Log.fault = None
        tr.reset()
        tr.optimize(objective=par_cost)
        ser = O.Trace(cfg, None)
        ser.cfg["nproc"] = None
        ser.optimize(objective=par_cost)
    runs_equal(tr, ser, "after a worker failure and reset()")
    ctx.state(repr(cfg), repr(ctx.choices()))
    ctx.step(len(Log.calls))
    ctx.validated()


def mix_configs(tier):
    return [dict(O.DEFAULT, opt=o, n=3, d=2, k=1, r=0, iters=2, calls=2 if tier == "quick" else 3) for o in O.ALL_OPTS]


def mix_run(cfg, ctx):
    """Serial and parallel calls mixed on one optimizer equal the all-serial run."""
    plan = [ctx.pick([None, 2, 5], "workers", free=True) for _ in range(cfg["calls"])]
    res = []
    for par in (True, False):
        Log.calls, Log.fault = [], None
        with rng.controlled(rng.FixedSource(6)), P.PoolControl(order_fn(ctx) if par else None) as ctl:
            tr = O.Trace(cfg, None)
            for w in plan:
                tr.cfg["nproc"] = w if par else None
                tr.optimize(objective=par_cost, a=1.0)
            if ctl.pools:
                check(all(p._state != "RUN" for p in ctl.pools), "pool left open")
        res.append(tr)
    runs_equal(res[0], res[1], "calls with workers %s" % plan)
    ctx.state(repr(cfg), repr(plan), repr(ctx.choices()))
    ctx.step(len(plan) * cfg["iters"])
    ctx.validated()


def mesh_func(X):
    Log.calls.append((np.array(X), {}))
    return X[:, 0] * 10 + X[:, 1]


class Recorder:
    def __init__(self):
        self.args = []


def mesh_configs(tier):
    out = []
    for n in (1, 2, 3, 5):
        for it in (1, 2, 3):
            for w in (1, 2, 3, n + 2):
                out.append(dict(kind="hist", n=n, iters=it, nproc=w))
    for delta, limits in [(1.0, [(0, 2), (0, 3)]), (0.5, [(-1, 1), (0, 1)]), (1.0, [(0, 3), (2, 4)]), (0.25, [(-0.5, 0.5), (-1.0, 1.0)])]:
        for w in (1, 2, 3, 4, 9):
            out.append(dict(kind="mesh", delta=delta, limits=limits, nproc=w))
    return out


def mesh_run(cfg, ctx):
    Log.calls = []
    with P.PoolControl(order_fn(ctx)) as ctl:
        if cfg["kind"] == "hist":
            h = [np.array([[i + 10.0 * t, -i - t] for i in range(cfg["n"])]) for t in range(cfg["iters"])]
            m = Mesher(func=mesh_func)
            a = m.compute_history_3d(h)
            b = m.compute_history_3d(h, n_processes=cfg["nproc"])
            check(np.array_equal(a, b), lambda: "compute_history_3d: %s with %d workers, %s without" % (b.tolist(), cfg["nproc"], a.tolist()))
        else:
            m = Mesher(func=mesh_func, delta=cfg["delta"], limits=[tuple(x) for x in cfg["limits"]])
            mesh = getattr(plotters, "_mesh", None)
            if mesh is None:
                return
            a, b = mesh(m), mesh(m, n_processes=cfg["nproc"])
            check(all(np.array_equal(u, v) for u, v in zip(a, b)), "mesh with workers differs from the serial mesh")
        for p in ctl.pools:
            check(p._state != "RUN", "pool left open")
        check(all(np.size(X) for b in ctl.batches for _, X in b), "empty chunk sent to a worker")
    ctx.state(repr(cfg), repr(ctx.choices()))
    ctx.step(sum(len(b) for b in ctl.batches) + 1)
    ctx.validated()


def real_configs(tier):
    out = [dict(O.DEFAULT, opt=o, n=5, d=2, k=2, r=0, iters=3, nproc=w) for o in (["global", "local", "general:ring", "binary"] if tier == "quick" else O.ALL_OPTS)
           for w in ((2, 7) if tier == "quick" else (1, 2, 3, 5, 7))]
    return out + [dict(kind="hist", n=5, iters=3, nproc=2), dict(kind="hist", n=2, iters=2, nproc=3)]


def real_run(cfg, ctx):
    """Conformance of the controlled pool: the same with real worker processes."""
    if cfg.get("kind") == "hist":
        h = [np.array([[i + 10.0 * t, -i - t] for i in range(cfg["n"])]) for t in range(cfg["iters"])]
        m = Mesher(func=mesh_func)
        check(np.array_equal(m.compute_history_3d(h), m.compute_history_3d(h, n_processes=cfg["nproc"])), "real pool: 3d history differs")
    else:
        res = []
        Log.fault = None
        for w in (cfg["nproc"], None):
            with rng.controlled(rng.FixedSource(6)):
                tr = O.Trace(cfg, None)
                tr.cfg["nproc"] = w
                tr.optimize(objective=par_cost, a=0.5)
            res.append(tr)
        runs_equal(res[0], res[1], "real pool with %d workers" % cfg["nproc"])
    ctx.state(repr(cfg))
    ctx.step()
    ctx.validated()


BOUNDS = ("controlled pool: every completion order of up to 4 chunks (rotations and reversal beyond) with <=1 (thorough 2) deviating iterations, 1..n+2 workers, up to 5 (7) particles, all 12 optimizers; "
          "a worker failing at each task of 2 iterations; mixed serial/parallel calls; 3-D history and mesh; conformance runs with real worker processes")
ASSUMPTIONS = ["row-wise objective", "workers share nothing but pickled arguments and results; a pool map returns results in submission order"]
HARNESSES = [
    Harness("orders", fake_run, fake_configs, bound=lambda t: 1 if t == "quick" else 2),
    Harness("faults", fault_run, fault_configs, bound=lambda t: 1 if t == "quick" else 2),
    Harness("mixed", mix_run, mix_configs, bound=lambda t: 1 if t == "quick" else 2),
    Harness("mesh", mesh_run, mesh_configs, bound=lambda t: 1 if t == "quick" else 2),
    Harness("real", real_run, real_configs),
]
