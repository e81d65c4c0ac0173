"""reset() == fresh construction, after every sequence of operations."""
import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import check
from ..runner import Harness
from .c08 import same_run

OPS = ["run3", "run1", "min", "neg", "fail", "reset", "poke"]


class Fail(Exception):
    pass


def apply_op(tr, op):
    def down(t, X, **kw):
        return O.bumpy(t, X) - 1000.0
    if op == "run3":
        tr.optimize(iters=3)
    elif op == "run1":
        tr.optimize(iters=1)
    elif op == "min":
        tr.costfn = lambda t, X, **kw: np.full(len(X), -1e9)
        tr.optimize(iters=2)
    elif op == "neg":
        tr.costfn = down
        tr.optimize(iters=2)
    elif op == "fail":
        n0 = len(tr.X)

        def f(t, X, **kw):
            if t - n0 == 1:
                raise Fail()
            return O.bumpy(t, X)
        tr.costfn = f
        try:
            tr.optimize(iters=3)
        except Fail:
            pass
    elif op == "reset":
        tr.reset()
    elif op == "poke":      # the user reads everything
        [np.array(getattr(tr.opt, h)) for h in O.HISTS]
    tr.costfn = O.bumpy


def configs(tier):
    out = []
    depth = 2 if tier == "quick" else 3
    base = [dict(), dict(ftol=0.5)]
    extra = [dict(bounds="asym", bh=bh, vh=vh, opts="far") for bh, vh in zip(O.BH, ["unmodified", "zero", "invert", "adjust", "zero", "unmodified"])]
    for o in O.ALL_OPTS:
        for i, v in enumerate(base + extra + [dict(oh={"w": "exp_decay", "c1": "lin_variation", "c2": "random"}), dict(init="lat"), dict(clamp="s", vh="adjust", bounds="unit"),
                                              dict(k=1), dict(p=1), dict(center=2.0), dict(init="same")]):
            for source in ("shape",) if i else ("shape", "real"):
                c = dict(O.DEFAULT, opt=o, n=4, d=2, k=2, r=0, iters=3, source=source, depth=depth if i == 0 and source == "shape" or tier == "thorough" else 1)
                c.update(v)
                if F.valid(c):
                    out.append(c)
    return out


def run(cfg, ctx):
    ops = [ctx.pick(OPS, "op", free=True) for _ in range(cfg["depth"])]
    again = ctx.choose(2, "reset twice", free=True)
    plan = [3, 2]

    def follow(tr):
        for it in plan:
            tr.optimize(iters=it)

    def go():
        if cfg["source"] == "shape":
            src = lambda s: rng.controlled(rng.ShapeSource(s))
        with src(1):
            tr = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
        with src(2):
            for op in ops:
                apply_op(tr, op)
        with src(3):
            tr.reset()
            if again:
                tr.reset()
            check_clean(tr.opt)
        with src(3):
            fresh = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
        return tr, fresh, src

    if cfg["source"] == "real":
        # numpy's own generator, seeded
        np.random.seed(11)
        tr = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
        for op in ops:
            apply_op(tr, op)
        np.random.seed(12)
        tr.reset()
        if again:
            np.random.seed(12)
            tr.reset()
        check_clean(tr.opt)
        # construction may draw the swarm more than once: only the stream after it is compared
        fresh = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
        np.random.seed(12)
        fresh.reset()
        runs = []
        for o in (tr, fresh):
            np.random.seed(13)
            n0 = len(o.X)
            follow(o)
            runs.append((o.X[n0:], o.calls[-1].result))
    else:
        tr, fresh, src = go()
        runs = []
        for a, b in zip(sorted(O.swarm_state(tr.opt).items(), key=lambda kv: kv[0]), sorted(O.swarm_state(fresh.opt).items(), key=lambda kv: kv[0])):
            check(a[1] == b[1] if isinstance(a[1], dict) else np.array_equal(a[1], b[1], equal_nan=True),
                  lambda: "after %s and reset(): swarm.%s is %s, on a new optimizer %s" % (ops, a[0], a[1], b[1]))
        for o in (tr, fresh):
            with src(4):
                n0 = len(o.X)
                follow(o)
                runs.append((o.X[n0:], o.calls[-1].result))
    same_run(runs[0][0], runs[1][0], runs[0][1], runs[1][1], "after %s and reset()" % ops)
    for h in O.HISTS:
        a, b = getattr(tr.opt, h), getattr(fresh.opt, h)
        check(len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)), lambda: "after %s and reset(): %s differs from a new optimizer's" % (ops, h))
    for t, X in enumerate(tr.X):
        ctx.state(t, X)
    ctx.step(len(tr.X) + len(fresh.X) + len(ops))
    ctx.validated()
    ctx.outcome(repr(ops), np.asarray(runs[0][1][0]))
    ctx.sample(lambda: "%s: %s, reset, runs of %s -> %s" % ({k: v for k, v in cfg.items() if O.DEFAULT.get(k) != v}, ops, plan, runs[0][1]))


def check_clean(opt):
    for h in O.HISTS:
        check(len(getattr(opt, h)) == 0, lambda: "%s not empty after reset()" % h)
    s = opt.swarm
    check(np.all(np.isinf(s.best_cost)) and np.all(np.asarray(s.best_cost) > 0), lambda: "best_cost is %r after reset()" % s.best_cost)
    check(np.size(s.best_pos) == 0, lambda: "best_pos is %r after reset()" % s.best_pos)


BOUNDS = ("all sequences of 2 (thorough 3) operations from 7 (runs, runs with lower costs, failing run, reset, reads) for every optimizer, 1 operation for 14 further configurations per optimizer, then reset() (once or twice) and two runs compared with a new optimizer fed the same draws")
ASSUMPTIONS = ["same draws: answered by shape and position, or numpy's generator seeded alike"]
HARNESSES = [Harness("sequences", run, configs)]
