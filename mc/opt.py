"""Builds optimizers from JSON configurations and records complete traces.

Everything a monitor looks at is observable through the public API: arguments
of the objective, the value optimize() returns, the history lists and the
documented attributes of optimizer.swarm.
"""
import contextlib
import io

import numpy as np

from . import env, rng
from .core import Violation, check

import pyswarms as ps
from pyswarms.backend import topology as T
from pyswarms.backend.swarms import Swarm

BOUNDS = {
    "unit": lambda d: ([0.0] * d, [1.0] * d),
    "sym": lambda d: ([-1.0] * d, [1.0] * d),
    "asym": lambda d: ([-0.1 * (j + 1) for j in range(d)], [0.3 + 0.7 * j for j in range(d)]),
    "neg": lambda d: ([-5.5 - j for j in range(d)], [-2.25 + 0.1 * j for j in range(d)]),
    "wide": lambda d: ([-100.0] * d, [1000.0 + j for j in range(d)]),
    "tiny": lambda d: ([0.1] * d, [0.101] * d),
    "mixed": lambda d: ([[-0.7, 3.3, -1000.0, 1e-3][j % 4] for j in range(d)],
                        [[0.1, 3.7, 1e-3, 77.7][j % 4] for j in range(d)]),
    "int": lambda d: ([-3] * d, [5] * d),
    "iflo": lambda d: ([-1] * d, [0.75 + 0.5 * j for j in range(d)]),
    "ifhi": lambda d: ([-2.75 + 0.5 * j for j in range(d)], [2] * d),
    "dy": lambda d: ([-1.0 + 0.25 * j for j in range(d)], [1.5 + 0.5 * j for j in range(d)]),
}

CLAMPS = {
    "s": lambda d: (-0.1, 0.1),
    "asym": lambda d: (-0.05, 0.3),
    "lo0": lambda d: (0, 0.5),
    "hi0": lambda d: (-0.25, 0),
    "big": lambda d: (-10.0, 10.0),
    "one": lambda d: (-1, 1),
    "dim": lambda d: (np.array([-0.1 * (j + 1) for j in range(d)]), np.array([0.2 + 0.3 * j for j in range(d)])),
    "dy": lambda d: (-0.25, 0.5),
    "pos": lambda d: (0.125, 0.5),
    "neg": lambda d: (-0.5, -0.125),
    "np": lambda d: np.array([-0.25, 0.5]),
    "list": lambda d: [-0.25, 0.5],
    "nano": lambda d: (-1e-12, 1e-12),
}

OPTS = {
    "std": dict(c1=0.5, c2=0.3, w=0.9),
    "dy": dict(c1=0.5, c2=0.25, w=0.5),
    "dy2": dict(c1=1.0, c2=2.0, w=1.0),
    "big": dict(c1=50.0, c2=80.0, w=4.0),
    "huge": dict(c1=1000.0, c2=3000.0, w=-7.0),
    "far": dict(c1=30.0, c2=80.0, w=-0.5),
    "zero": dict(c1=0.0, c2=0.0, w=0.0),
    "w1": dict(c1=0.0, c2=0.0, w=1.0),
    "int": dict(c1=2, c2=1, w=1),
    "cog": dict(c1=1.5, c2=0.0, w=0.25),
    "soc": dict(c1=0.0, c2=1.5, w=0.25),
    "eq": dict(c1=0.5, c2=0.5, w=0.5),
    "eq1": dict(c1=1, c2=1, w=1),
    "neg": dict(c1=-0.5, c2=0.25, w=-0.75),
    "np": dict(c1=np.float64(0.5), c2=np.float32(0.25), w=np.int64(1)),
    "small": dict(c1=1e-9, c2=1e-9, w=1e-3),
}

ALL_TOPS = [("star", True), ("ring", False), ("ring", True), ("vn", True), ("pyramid", False),
            ("pyramid", True), ("random", False), ("random", True)]

# every optimizer, and the general one with every topology
ALL_OPTS = (["global", "local", "local_static", "binary"]
            + ["general:%s%s" % (t, "_static" if s and t not in ("star", "vn") else "") for t, s in ALL_TOPS])
CONT_OPTS = [o for o in ALL_OPTS if o != "binary"]
CORE_OPTS = ["global", "local", "general:star", "general:ring", "general:random", "binary"]

BH = ["periodic", "nearest", "reflective", "shrink", "random", "intermediate"]
VH = ["unmodified", "adjust", "invert", "zero"]

DEFAULT = dict(opt="global", n=3, d=2, k=2, p=2, r=1, iters=3, bounds=None, bform="array",
               bh="periodic", vh="unmodified", clamp=None, opts="std", oh=None, ftol=None,
               ftol_iter=1, init=None, center=None, nproc=None, verbose=False)


def full(cfg):
    c = dict(DEFAULT)
    c.update(cfg)
    return c


def make_topology(name):
    t, _, s = name.partition("_")
    static = s == "static"
    if t == "star":
        return T.Star()
    if t == "vn":
        return T.VonNeumann()
    return {"ring": T.Ring, "pyramid": T.Pyramid, "random": T.Random}[t](static=static)


def make_bounds(cfg):
    if cfg["bounds"] is None:
        return None
    lb, ub = BOUNDS[cfg["bounds"]](cfg["d"])
    if cfg["bform"] == "list":
        return (list(lb), list(ub))
    if cfg["bform"] == "listpair":
        return [list(lb), list(ub)]
    if cfg["bform"] == "tuple":
        return (tuple(lb), tuple(ub))
    return (np.array(lb), np.array(ub))


def make_init(cfg):
    name, n, d = cfg["init"], cfg["n"], cfg["d"]
    if name is None:
        return None
    if cfg["opt"] == "binary":
        if name == "same":
            return np.ones((n, d), dtype=int)
        return np.array([[(i >> (j % 3)) & 1 for j in range(d)] for i in range(n)])
    if cfg["bounds"] is not None:
        lb, ub = [np.array(b, dtype=float) for b in BOUNDS[cfg["bounds"]](d)]
    else:
        lb, ub = np.full(d, -1.0), np.full(d, 1.0)
    if name == "lo":
        return np.tile(lb, (n, 1))
    if name == "hi":
        return np.tile(ub, (n, 1))
    if name == "same":
        return np.tile(lb + 0.5 * (ub - lb), (n, 1))
    if name == "corner":
        return np.array([[ub[j] if (i >> j) & 1 else lb[j] for j in range(d)] for i in range(n)])
    if name == "lat":
        return np.array([[lb[j] + (ub[j] - lb[j]) * ((3 * i + 2 * j * (i + 1) + 1) % 8) / 8.0
                          for j in range(d)] for i in range(n)])
    if name == "int":
        return np.array([[int(np.ceil(lb[j])) + (i + j) % max(1, int(np.floor(ub[j]) - np.ceil(lb[j])) + 1)
                          for j in range(d)] for i in range(n)], dtype=int)
    if name in ("f32", "fortran", "strided", "readonly", "list"):
        a = np.array([[lb[j] + (ub[j] - lb[j]) * ((5 * i + 3 * j * (i + 1) + 1) % 16) / 16.0
                       for j in range(d)] for i in range(n)])
        if name == "f32":
            return a.astype(np.float32)
        if name == "fortran":
            return np.asfortranarray(a)
        if name == "strided":
            return np.repeat(np.repeat(a, 2, axis=0), 2, axis=1)[::2, ::2]
        if name == "readonly":
            a.setflags(write=False)
        return a
    if name in ("nano", "far", "offset", "zeros"):
        a = np.array([[((3 * i + 2 * j * (i + 1) + 1) % 8) / 8.0 for j in range(d)] for i in range(n)])
        return {"nano": 1e-12 * a, "far": 1e8 * (a - 0.3), "offset": 1e6 + 1e-3 * a, "zeros": 0 * a}[name]
    if name == "coll":   # collinear
        return np.array([lb + (ub - lb) * i / 8.0 for i in range(n)])
    raise KeyError(name)


def make_options(cfg):
    o = dict(OPTS[cfg["opts"]]) if isinstance(cfg["opts"], str) else dict(cfg["opts"])
    opt = cfg["opt"]
    if opt.startswith("local") or opt == "binary" or ":ring" in opt:
        o.update(k=cfg["k"], p=cfg["p"])
    elif ":vn" in opt:
        o.update(p=cfg["p"], r=cfg["r"])
    elif ":random" in opt:
        o.update(k=cfg["k"])
    return o


def make_center(cfg):
    c = cfg["center"]
    if isinstance(c, str):
        c = [0.5 + 2.0 * j for j in range(cfg["d"])] if c != "int" else [1 - 3 * j for j in range(cfg["d"])]
        return c if cfg["center"] == "list" else np.array(c)
    return c


def inputs(cfg):
    cfg = full(cfg)
    return dict(options=make_options(cfg), bounds=make_bounds(cfg), init_pos=make_init(cfg),
                clamp=CLAMPS[cfg["clamp"]](cfg["d"]) if cfg["clamp"] else None,
                oh=dict(cfg["oh"]) if cfg["oh"] else None)


def build(cfg, inp=None, top=None):
    cfg = full(cfg)
    inp = inp or inputs(cfg)
    opt = cfg["opt"]
    kw = dict(n_particles=cfg["n"], dimensions=cfg["d"], options=inp["options"],
              velocity_clamp=inp["clamp"], vh_strategy=cfg["vh"], init_pos=inp["init_pos"],
              ftol_iter=cfg["ftol_iter"])
    if cfg["ftol"] is not None:
        kw["ftol"] = cfg["ftol"]
    if opt == "binary":
        return ps.discrete.BinaryPSO(**kw)
    kw.update(bounds=inp["bounds"], bh_strategy=cfg["bh"])
    if inp["oh"] is not None:
        kw["oh_strategy"] = inp["oh"]
    if cfg["center"] is not None:
        kw["center"] = make_center(cfg)
    if opt == "global":
        return ps.single.GlobalBestPSO(**kw)
    if opt.startswith("local"):
        return ps.single.LocalBestPSO(static=(opt == "local_static"), **kw)
    return ps.single.GeneralOptimizerPSO(topology=top or make_topology(opt.split(":")[1]), **kw)


class Call:
    """One optimize() call."""

    def __init__(self, start):
        self.start = start        # index of the first evaluation of the call
        self.end = None
        self.result = None
        self.exc = None
        self.hist0 = 0            # length of the histories before the call
        self.final = None         # swarm state after the call


def swarm_state(opt):
    s = opt.swarm
    return dict(position=np.array(s.position), velocity=np.array(s.velocity),
                pbest_cost=np.array(s.pbest_cost), pbest_pos=np.array(s.pbest_pos),
                best_cost=np.array(s.best_cost), best_pos=np.array(s.best_pos),
                options=dict(s.options))


HISTS = ("cost_history", "mean_pbest_history", "mean_neighbor_history", "pos_history", "velocity_history")


class Trace:
    """Drives one optimizer and records everything observable."""

    def __init__(self, cfg, costfn, snapshots=True, top=None, inp=None, keep_state=True, capture=True, logs=False):
        self.capture = capture
        self.logs = logs                      # also record what goes to the loggers
        self.cfg = full(cfg)
        self.costfn = costfn
        self.X, self.C, self.K, self.S = [], [], [], []
        self.H = {h: [] for h in HISTS}       # copies of the entries when first seen
        self.calls = []
        self.snapshots = snapshots
        self.keep_state = keep_state
        self.inp = inp or inputs(self.cfg)
        self.on_eval = None
        self.opt = build(self.cfg, self.inp, top)
        self.init = swarm_state(self.opt)
        self.out = None

    def snap(self):
        for h in HISTS:
            now, seen = getattr(self.opt, h), self.H[h]
            for e in now[len(seen):]:
                seen.append(np.array(e))

    def objective(self, X, **kw):
        t = len(self.X)
        self.X.append(np.array(X))
        self.K.append(kw)
        if self.keep_state:
            self.S.append(swarm_state(self.opt))
        if self.snapshots:
            self.snap()
        if self.on_eval:
            self.on_eval(t, X)
        c = self.costfn(t, X, **kw)
        self.C.append(np.array(c))
        return c

    def optimize(self, iters=None, nproc=None, verbose=None, objective=None, **kw):
        cfg = self.cfg
        call = Call(len(self.X))
        call.hist0 = len(self.opt.cost_history)
        call.before = swarm_state(self.opt)
        call.iters = iters if iters is not None else cfg["iters"]
        self.calls.append(call)
        verbose = cfg["verbose"] if verbose is None else verbose
        out, err = io.StringIO(), io.StringIO()
        try:
            with contextlib.ExitStack() as stack:
                if self.capture:
                    stack.enter_context(contextlib.redirect_stdout(out))
                    stack.enter_context(contextlib.redirect_stderr(err))
                if self.logs:
                    call.records = stack.enter_context(env.logs())
                call.result = self.opt.optimize(objective or self.objective, call.iters,
                                                n_processes=nproc if nproc is not None else cfg["nproc"],
                                                verbose=verbose, **kw)
        finally:
            call.end = len(self.X)
            call.output = out.getvalue() + err.getvalue()
            call.final = swarm_state(self.opt)
            if self.snapshots:
                self.snap()
        return call.result

    def reset(self):
        self.opt.reset()
        self.H = {h: [] for h in HISTS}


# ---------------------------------------------------------------- monitors

def key_eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


def mon_best(tr, call):
    """C01: the result is a best evaluation of the call."""
    C = [tr.C[t] for t in range(call.start, call.end)]
    X = [tr.X[t] for t in range(call.start, call.end)]
    best = min(float(c.min()) for c in C)
    cost, pos = call.result
    check(np.ndim(cost) == 0 and float(cost) == best,
          lambda: "returned cost %r, but the best of the %d evaluated costs is %r" % (cost, len(C), best))
    ok = any(float(C[t][i]) == best and key_eq(X[t][i], pos) for t in range(len(C)) for i in range(len(C[t])))
    check(ok, lambda: "returned position %r was never given the returned cost %r" % (pos, cost))
    check(float(np.min(call.final["best_cost"])) == best,
          lambda: "swarm.best_cost %r is not the best evaluated cost %r" % (call.final["best_cost"], best))
    check(float(np.min(tr.opt.cost_history[call.hist0 + (call.end - call.start) - 1])) == best,
          lambda: "cost_history ends with %r, best evaluated cost is %r" % (tr.opt.cost_history[-1], best))


def model_pbest(tr, call, upto):
    """Reference personal bests after the evaluations call.start .. upto-1."""
    n, d = tr.cfg["n"], tr.cfg["d"]
    cost = [float("inf")] * n
    pos = [None] * n
    for t in range(call.start, upto):
        for i in range(n):
            c = float(tr.C[t][i])
            if c < cost[i]:
                cost[i], pos[i] = c, tr.X[t][i]
    return cost, pos


def pbest_steps(tr, call):
    """Reference personal bests after each evaluation of a call, one by one."""
    n = tr.cfg["n"]
    cost = np.full(n, float("inf"))
    # (a particle that is only given inf reaches that cost first where it starts)
    pos = [tr.X[call.start][i] for i in range(n)]
    for t in range(call.start, call.end):
        c = np.asarray(tr.C[t], dtype=float)
        for i in np.flatnonzero(c < cost):
            pos[i] = tr.X[t][i]
        cost = np.where(c < cost, c, cost)
        yield t, cost, pos


def mon_pbest(tr, call):
    """C02 on every iteration of a call."""
    for t, cost, pos in pbest_steps(tr, call):
        t += 1
        if t < call.end and t >= len(tr.S):
            continue
        st = tr.S[t] if t < call.end else call.final
        check(np.shape(st["pbest_cost"]) == cost.shape and np.shape(st["pbest_pos"]) == tr.X[t - 1].shape,
              lambda: "personal bests have the shapes %s %s" % (np.shape(st["pbest_cost"]), np.shape(st["pbest_pos"])))
        for i in range(tr.cfg["n"]):
            check(float(st["pbest_cost"][i]) == cost[i],
                  lambda: "after iteration %d particle %d has personal best cost %r, should be %r" % (
                      t - call.start - 1, i, st["pbest_cost"][i], cost[i]))
            if pos[i] is not None:
                check(key_eq(st["pbest_pos"][i], pos[i]),
                      lambda: "after iteration %d particle %d has personal best position %r, first reached at %r" % (
                          t - call.start - 1, i, st["pbest_pos"][i], pos[i]))


def run_mins(tr, call):
    """Best cost of a call after each of its evaluations."""
    m, out = float("inf"), []
    for t in range(call.start, call.end):
        m = min(m, float(tr.C[t].min()))
        out.append(m)
    return out


def run_min(tr, call, upto):
    return min(float(tr.C[t].min()) for t in range(call.start, upto))


def mon_history(tr, calls=None):
    """C03 over all calls since construction / reset."""
    calls = calls or tr.calls
    opt = tr.opt
    total = sum(c.end - c.start for c in calls)
    for h in HISTS:
        check(len(getattr(opt, h)) == total, lambda: "%s has %d entries after %d iterations" % (h, len(getattr(opt, h)), total))
    j = 0
    for c in calls:
        mins = run_mins(tr, c)
        for t, pb, _ in pbest_steps(tr, c):
            it = t - c.start
            check(float(np.min(opt.cost_history[j])) == mins[it],
                  lambda: "cost_history[%d] = %r, best cost so far is %r" % (j, opt.cost_history[j], mins[it]))
            m = float(np.mean(pb))
            check(_close(opt.mean_pbest_history[j], m),
                  lambda: "mean_pbest_history[%d] = %r, mean of the personal bests is %r" % (j, opt.mean_pbest_history[j], m))
            check(key_eq(opt.pos_history[j], tr.X[t]),
                  lambda: "pos_history[%d] = %r but the evaluated positions were %r" % (j, opt.pos_history[j], tr.X[t]))
            check(_close(np.mean(opt.mean_neighbor_history[j]), mins[it]),
                  lambda: "mean_neighbor_history[%d] = %r, best cost the neighbourhoods reported is %r" % (j, opt.mean_neighbor_history[j], mins[it]))
            if t < len(tr.S):
                check(key_eq(opt.velocity_history[j], tr.S[t]["velocity"]),
                      lambda: "velocity_history[%d] = %r but the velocities were %r" % (j, opt.velocity_history[j], tr.S[t]["velocity"]))
            check(np.shape(opt.velocity_history[j]) == tr.X[t].shape, lambda: "velocity_history[%d] has the wrong shape" % j)
            if it > 0 and tr.cfg["opt"] != "binary":
                prev = tr.X[t - 1] + np.asarray(opt.velocity_history[j])
                inb = in_bounds(tr.cfg, prev)
                check(np.array_equal(prev[inb], tr.X[t][inb]),
                      lambda: "velocity_history[%d] is not the step that led to pos_history[%d]" % (j, j))
            j += 1
    # entries never change once recorded
    if tr.snapshots:
        for h in HISTS:
            now = getattr(opt, h)
            for off, a in enumerate(tr.H[h]):
                check(off < len(now) and np.array_equal(a, np.array(now[off]), equal_nan=True),
                      lambda: "%s[%d] changed after it was recorded" % (h, off))


def _close(a, b, rel=1e-12):
    a, b = float(a), float(b)
    if a == b or (np.isnan(a) and np.isnan(b)):
        return True
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-300) * 100


def in_bounds(cfg, P):
    """Rows (particles) of P lying in the bounds."""
    if cfg["bounds"] is None:
        return np.ones(len(P), dtype=bool)
    lb, ub = [np.array(b, dtype=float) for b in BOUNDS[cfg["bounds"]](cfg["d"])]
    return ((P >= lb) & (P <= ub)).all(axis=1)


def mon_bounds(tr, call):
    cfg = tr.cfg
    if cfg["bounds"] is None:
        return
    lb, ub = [np.array(b, dtype=float) for b in BOUNDS[cfg["bounds"]](cfg["d"])]

    def inside(P, what):
        P = np.asarray(P, dtype=float)
        ok = (P >= lb) & (P <= ub)
        check(ok.all(), lambda: "%s out of bounds: %s (lower %s upper %s)" % (
            what, [repr(float(v)) for v in P[~ok]], lb.tolist(), ub.tolist()))
    for t in range(call.start, call.end):
        inside(tr.X[t], "evaluated position (iteration %d)" % (t - call.start))
    for j in range(call.hist0, len(tr.opt.pos_history)):
        inside(tr.opt.pos_history[j], "pos_history[%d]" % j)
    if call.result is not None:
        inside(call.result[1], "returned position")
    inside(call.final["position"], "position after the run")


def mon_clamp(tr, call):
    cfg = tr.cfg
    if cfg["clamp"] is None:
        return
    lo, hi = CLAMPS[cfg["clamp"]](cfg["d"])

    def inside(V, what):
        V = np.asarray(V, dtype=float)
        check(((V >= lo) & (V <= hi)).all(), lambda: "%s outside the clamp [%s, %s]: %s" % (what, lo, hi, V.tolist()))
    inside(call.before["velocity"], "velocity before the run")
    for j in range(call.hist0, len(tr.opt.velocity_history)):
        inside(tr.opt.velocity_history[j], "velocity_history[%d]" % j)
    inside(call.final["velocity"], "velocity after the run")


def expected_iterations(best, ftol, ftol_iter, iters):
    """C04: number of iterations given the sequence of best costs."""
    if ftol is None:
        return iters
    prev = float("inf")
    deltas = []
    for i in range(iters):
        if i >= len(best):
            return None
        b = best[i]
        with np.errstate(all="ignore"):
            deltas.append(bool(np.abs(np.float64(b) - np.float64(prev)) < ftol * (1 + np.abs(np.float64(prev)))))
        prev = b
        if i >= ftol_iter and all(deltas[-ftol_iter:]):
            return i + 1
    return iters


def mon_stop(tr, call):
    cfg = tr.cfg
    best = run_mins(tr, call)
    exp = expected_iterations(best, cfg["ftol"], cfg["ftol_iter"], call.iters)
    got = call.end - call.start
    check(exp == got, lambda: "best costs %s with ftol=%r ftol_iter=%r iters=%d: stopped after %d iterations, expected %s" % (
        best[:12], cfg["ftol"], cfg["ftol_iter"], call.iters, got, exp if exp else "more"))


def mon_protocol(tr, call):
    """C08: one whole-swarm evaluation per executed iteration."""
    got = call.end - call.start
    if tr.cfg["ftol"] is None:
        check(got == call.iters, lambda: "%d objective calls for %d iterations" % (got, call.iters))
    for t in range(call.start, call.end):
        check(tr.X[t].shape == (tr.cfg["n"], tr.cfg["d"]), lambda: "evaluation %d got an array of shape %s" % (t, tr.X[t].shape))
    for h in HISTS:
        check(len(getattr(tr.opt, h)) == call.hist0 + got, lambda: "%s has %d entries after %d evaluations" % (h, len(getattr(tr.opt, h)), call.hist0 + got))


def mon_continue(tr, call):
    """C12: the call starts where the one before left the swarm."""
    i = tr.calls.index(call)
    if not i:
        return
    prev = tr.calls[i - 1].final
    check(np.array_equal(tr.X[call.start], prev["position"]), lambda: "call %d starts at %s, the swarm was left at %s" % (i + 1, tr.X[call.start].tolist(), prev["position"].tolist()))
    v = tr.S[call.start]["velocity"] if call.start < len(tr.S) else tr.opt.velocity_history[call.hist0]
    check(np.array_equal(v, prev["velocity"]), lambda: "call %d starts with the velocities %s, the swarm was left with %s" % (i + 1, np.asarray(v).tolist(), prev["velocity"].tolist()))


def mon_silent(tr, call):
    """C13: a silent run writes nothing."""
    check(call.output == "", lambda: "verbose=False wrote %r" % call.output[:300])
    check(not call.records, lambda: "verbose=False reported %s" % call.records[:3])


def mon_given(tr, call):
    """C11: the arrays the objective answered with still hold the answers."""
    for t, (a, b) in enumerate(getattr(tr.costfn, "given", ())):
        check(np.array_equal(a, b), lambda: "the cost array returned in evaluation %d was modified: %s, returned %s" % (t, a.tolist(), b.tolist()))


def record(ctx, tr):
    """Count states and transitions of a recorded trace."""
    for t in range(len(tr.X)):
        ctx.state(t, tr.X[t], tr.C[t], tr.S[t]["pbest_cost"] if t < len(tr.S) else 0,
                  tr.S[t]["velocity"] if t < len(tr.S) else 0)
    ctx.step(len(tr.X))
    ctx.validated()
    if tr.calls and tr.calls[-1].result is not None:
        ctx.outcome(np.asarray(tr.calls[-1].result[0]), np.asarray(tr.calls[-1].result[1]), len(tr.X))


# ---------------------------------------------------------------- objectives

def scripted(ctx, alphabet, free=True, dtype=float):
    """Costs chosen by the explorer for each particle and evaluation."""
    def f(t, X, **kw):
        return np.array([ctx.pick(alphabet, "c", free) for _ in range(len(X))], dtype=dtype)
    return f


def bumpy(t, X, **kw):
    """A fixed position dependent function with many distinct values."""
    X = np.asarray(X, dtype=float)
    w = np.arange(1, X.shape[1] + 1)
    return np.sum(np.floor(64 * np.sin(12.9898 * X * w)) / 64.0 + 0.03125 * np.abs(np.clip(X, -1e6, 1e6)), axis=1)


def sphere(t, X, **kw):
    return np.sum(np.clip(np.asarray(X, dtype=float), -1e9, 1e9) ** 2, axis=1)
