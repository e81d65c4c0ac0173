"""Repeated optimize() calls continue the swarm; results belong to their call."""
import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import check
from ..runner import Harness

LEVELS = [5.0, 1.0, 20.0, "other", "inf"]


def stopped(tr, call):
    """Did the stopping rule end this call (the swarm was not moved any more)?"""
    cfg = tr.cfg
    if cfg["ftol"] is None:
        return False
    best = [O.run_min(tr, call, t + 1) for t in range(call.start, call.end)]
    n = len(best)
    return O.expected_iterations(best, cfg["ftol"], cfg["ftol_iter"], n + 1) == n


def configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for v in [dict(), dict(ftol=0.5), dict(ftol=0.3, ftol_iter=2), dict(bounds="asym", bh="intermediate", opts="far"),
                  dict(bounds="asym", bh="shrink", vh="zero", opts="far"), dict(bounds="unit", bh="nearest", clamp="s", vh="invert"),
                  dict(bounds="asym", bh="reflective"), dict(bounds="asym", bh="periodic", opts="far"), dict(bounds="asym", bh="random", opts="far"),
                  dict(oh={"w": "lin_variation"}), dict(init="same"), dict(opts="zero"), dict(init="lat", k=1)]:
            c = dict(O.DEFAULT, opt=o, n=4, d=2, k=2, r=0, calls=3 if tier == "thorough" or v == {} else 2)
            c.update(v)
            if F.valid(c):
                out.append(c)
    return out


def run(cfg, ctx):
    plan = []
    with rng.controlled(rng.FixedSource(3)):
        tr = O.Trace(cfg, None)
        for i in range(cfg["calls"]):
            lv = ctx.pick(LEVELS, "level", free=True)
            it = ctx.pick([3, 1] if i < cfg["calls"] - 1 else [3], "iters", free=True)
            plan.append((lv, it))

            def cost(t, X, lv=lv, **kw):
                if lv == "other":
                    return 2.0 + np.sum(np.abs(np.clip(X, -1e6, 1e6) - 0.25), axis=1)
                if lv == "inf":
                    return np.full(len(X), np.inf)
                return lv + O.bumpy(t, X) / 64.0
            tr.costfn = cost
            tr.optimize(iters=it)
            call = tr.calls[-1]
            O.mon_best(tr, call)
            O.mon_pbest(tr, call)
            O.mon_stop(tr, call)
            if i:
                prev = tr.calls[-2]
                last, first = prev.end - 1, call.start
                v = tr.S[first]["velocity"]
                what = "calls %s: first evaluation of call %d" % (plan, i + 1)
                if stopped(tr, prev):
                    check(np.array_equal(tr.X[first], tr.X[last]), lambda: "%s at %s; the previous call stopped early at %s" % (what, tr.X[first].tolist(), tr.X[last].tolist()))
                elif cfg["opt"] != "binary":
                    step = tr.X[last] + v
                    inb = O.in_bounds(cfg, step)
                    check(np.array_equal(step[inb], tr.X[first][inb]), lambda: "%s at %s; the previous call moved the swarm from %s by %s" % (
                        what, tr.X[first].tolist(), tr.X[last].tolist(), v.tolist()))
                check(np.array_equal(tr.X[first], prev.final["position"]), lambda: "%s at %s, the swarm was left at %s" % (what, tr.X[first].tolist(), prev.final["position"].tolist()))
                check(np.array_equal(v, prev.final["velocity"]), lambda: "%s: velocities %s, the swarm was left with %s" % (what, v.tolist(), prev.final["velocity"].tolist()))
        O.mon_history(tr)
    for t, X in enumerate(tr.X):
        ctx.state(t, X, tr.S[t]["pbest_cost"])
    ctx.step(len(tr.X))
    ctx.validated()
    ctx.outcome(repr(plan), np.asarray(tr.calls[-1].result[0]))
    ctx.sample(lambda: "%s calls %s -> %s" % (cfg["opt"], plan, [c.result for c in tr.calls]))


def split_configs(tier):
    return [dict(O.DEFAULT, opt=o, n=4, d=2, k=2, r=0, bounds=b, bh=bh, opts="far" if b else "std") for o in O.ALL_OPTS
            for b, bh in [(None, "periodic")] + [("asym", h) for h in O.BH] if not (o == "binary" and b)]


def split_run(cfg, ctx):
    """Where the second call starts is where a longer first call would have gone."""
    a = 1 + ctx.choose(4, "first")
    with rng.controlled(rng.FixedSource(3)):
        tr = O.Trace(cfg, O.bumpy, snapshots=False)
        tr.optimize(iters=a)
        tr.optimize(iters=1)
    with rng.controlled(rng.FixedSource(3)):
        ref = O.Trace(cfg, O.bumpy, snapshots=False)
        ref.optimize(iters=a + 1)
    for t in range(a + 1):
        check(np.array_equal(tr.X[t], ref.X[t]), lambda: "%d iterations then a new call: evaluation %d at %s, one call goes to %s" % (a, t, tr.X[t].tolist(), ref.X[t].tolist()))
        ctx.state(repr(cfg["opt"]), t, tr.X[t])
    ctx.step(2 * a + 2)
    ctx.validated()


BOUNDS = "all sequences of 2-3 optimize() calls over 5 objectives (better, worse, same, other function, infinite) and 2 lengths for 12 optimizers x up to 13 configurations; splits of a run at every iteration"
BOUNDS += F.KINDS_NOTE
ASSUMPTIONS = ["no NaN costs"]
HARNESSES = [Harness("calls", run, configs), Harness("split", split_run, split_configs),
    F.kinds_family([O.mon_best, O.mon_pbest, O.mon_continue], snapshots=False, calls=3, iters=3),
    F.scale_family([O.mon_best, O.mon_continue], calls=2, keep_state=False, quick_step=2),
    F.extreme_family([O.mon_best, O.mon_continue]),
]
