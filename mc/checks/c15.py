"""Option schedules."""
import itertools
import math

import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import check
from ..runner import Harness

from pyswarms.backend.handlers import OptionsHandler

NAMES = [None, "exp_decay", "lin_variation", "nonlin_mod", "random"]


def formula(strategy, opt, start, it, n, end_opts=None, u=0.5, d1=0.2, d2=7, nm=1.2):
    s = start[opt]
    end = {"w": 0.4, "c1": 0.8 * start["c1"], "c2": start["c2"]}.get(opt)
    if end_opts and opt in end_opts:
        end = end_opts[opt]
    if strategy is None:
        return s
    if strategy == "exp_decay":
        return (s - end - d1) * math.exp(1.0 / (1.0 + d2 * it / n))
    if strategy == "lin_variation":
        return end + (s - end) * (n - it) / n
    if strategy == "nonlin_mod":
        return end + (s - end) * ((n - it) ** nm / n ** nm)
    e = end_opts[opt] if end_opts and opt in end_opts else s + 1
    return s + (e - s) * u


def close(a, b):
    return abs(a - b) <= 1e-11 * max(1.0, abs(a), abs(b))


def h_configs(tier):
    out = []
    for st in itertools.product(NAMES, repeat=3):
        for start in (dict(c1=2.0, c2=1.0, w=0.9), dict(c1=0.5, c2=-3.0, w=0.1, k=3, p=2)):
            out.append(dict(st=dict((k, s) for k, s in zip(("c1", "c2", "w"), st) if s), start=start))
    return out


ENDS = [None, {}, {"w": 0.2}, {"c1": 5.0, "c2": 0.0}, {"c1": 0.5, "c2": 2.5, "w": 0.4}, {"c1": 0.0}]
PARAMS = [{}, {"d1": 1.0}, {"d2": 3}, {"n": 2.0}, {"d1": 0.0, "d2": 1, "n": 0.5}]


def h_run(cfg, ctx):
    """The handler alone, over two consecutive calls."""
    st, start = cfg["st"], dict(cfg["start"])
    n = ctx.pick([10, 1, 3, 1000], "n", free=True)
    h = OptionsHandler(strategy=dict(st))
    end = ctx.pick(ENDS, "end", free=True)
    par = ctx.pick(PARAMS, "par")
    e = ctx.choose(5, "frac")
    its = sorted({0, n // 4, n // 2, n - 1, n})
    it = its[min(e, len(its) - 1)]
    for which in (it, 0):
        kw = dict(par)
        if end is not None:
            kw["end_opts"] = end
        keep = dict(start), dict(end or {})
        with rng.controlled(rng.CallbackSource(lambda kind: 0.25)):
            out = h(start, iternow=which, itermax=n, **kw)
        check(start == keep[0] and (end or {}) == keep[1], "the options handler modified its input")
        check(set(out) == set(start), lambda: "options %s became %s" % (start, out))
        for k in start:
            want = formula(st.get(k), k, start, which, n, end, u=0.25, d1=par.get("d1", 0.2), d2=par.get("d2", 7), nm=par.get("n", 1.2)) if k in ("w", "c1", "c2") else start[k]
            check(close(float(out[k]), want), lambda: "%s=%r with strategy %s, start %s, end_opts %s, %s, iteration %d of %d: expected %r" % (
                k, out[k], st.get(k), start, end, par, which, n, want))
    ctx.state(repr(st), repr(start), repr(ctx.choices()))
    ctx.step(2)
    ctx.validated()


def r_configs(tier):
    out = [dict(which=w, end=e, at=[1]) for w in (("w",), ("c1", "c2"), ("w", "c1", "c2")) for e in (False, True)]
    # several iterations of one run, or of two runs, draw afresh each
    out += [dict(which=(w,), end=e, at=at) for w in ("w", "c1", "c2") for e in (False, True) for at in ([0, 1], [0, 1, 2, 3], [0, 0], [3, 0], [2, 2, 2])]
    return out + [dict(which=("w", "c1"), end=False, at=at) for at in ([0, 1], [0, 0], [1, 2, 3])]


def r_run(cfg, ctx):
    """random: one draw of its own per option, anywhere between start and end."""
    start = dict(c1=2.0, c2=1.0, w=0.5)
    end = {"c1": 4.0, "c2": -1.0, "w": 0.25}
    h = OptionsHandler(strategy={k: "random" for k in cfg["which"]})
    alpha = [0.0, 0.25, 0.75]
    tup = []
    with rng.controlled(rng.ElementSource(ctx, alpha)):
        outs = [h(start, iternow=t, itermax=4, **({"end_opts": end} if cfg["end"] else {})) for t in cfg["at"]]
    for out, k in itertools.product(outs, start):
        allowed = [formula("random", k, start, 1, 4, end if cfg["end"] else None, u) for u in alpha] if k in cfg["which"] else [start[k]]
        check(out[k] in allowed, lambda: "%s=%r, expected one of %s" % (k, out[k], allowed))
        tup.append(out[k])
    ctx.acc.setdefault("seen", set()).add(tuple(tup))
    ctx.state(repr(cfg), tuple(tup))
    ctx.step()
    ctx.validated()


def r_finish(cfg, acc, stats):
    check(len(acc["seen"]) == 3 ** (len(cfg["which"]) * len(cfg["at"])), "only %d option combinations reachable: options or iterations share their draw" % len(acc["seen"]))


def o_configs(tier):
    out = []
    sts = [dict(zip(("w", "c1", "c2"), s)) for s in itertools.product(NAMES, repeat=3)]
    sts = [{k: v for k, v in s.items() if v} for s in sts]
    for o in O.CONT_OPTS:
        for i, s in enumerate(sts):
            if len(s) > 1 and o not in O.CORE_OPTS and tier == "quick":
                continue
            for start in ("std", "dy2") if tier == "thorough" or len(s) == 1 else ("dy2",):
                out.append(dict(O.DEFAULT, opt=o, n=4, d=2, k=2, r=0, iters=5, oh=s or None, opts=start, init="lat", verbose=False))
    return out


def o_run(cfg, ctx):
    """Inside the optimizers: options seen at every evaluation, and the velocities they gave."""
    iters = ctx.pick([5, 1, 2], "iters", free=True)
    second = ctx.pick([None, 3, "reset"], "then", free=True)
    st = cfg["oh"] or {}
    start = O.make_options(O.full(cfg))
    with rng.controlled(rng.CallbackSource(lambda kind: 0.5)):
        tr = O.Trace(cfg, O.bumpy, snapshots=False)
        tr.optimize(iters=iters)
        if second is not None:
            if second == "reset":
                tr.reset()
            tr.optimize(iters=3)
    for call in tr.calls:
        n = call.iters
        for t in range(call.start, call.end):
            it = t - call.start
            nxt = tr.S[t + 1] if t + 1 < call.end else call.final
            used = nxt["options"]
            want = {k: formula(st.get(k), k, start, it, n) if k in ("w", "c1", "c2") else start[k] for k in start}
            for k in want:
                check(close(float(used[k]), want[k]), lambda: "%s: %s=%r used in iteration %d of %d, expected %r (strategies %s)" % (cfg["opt"], k, used[k], it, n, want[k], st))
            x, v = tr.X[t], tr.S[t]["velocity"]
            p, b = nxt["pbest_pos"], np.broadcast_to(nxt["best_pos"], x.shape)
            law = want["w"] * v + want["c1"] * 0.5 * (p - x) + want["c2"] * 0.5 * (b - x)
            check(np.allclose(nxt["velocity"], law, rtol=1e-9, atol=1e-9),
                  lambda: "%s: velocity %s in iteration %d of %d, with options %s it should be %s" % (cfg["opt"], nxt["velocity"].tolist(), it, n, want, law.tolist()))
    check(tr.opt.options == start, lambda: "optimizer.options changed from %s to %s" % (start, tr.opt.options))
    ctx.state(repr(cfg), iters, second)
    ctx.step(len(tr.X))
    ctx.validated()
    ctx.sample(lambda: "%s strategies %s iters=%d: last options %s" % (cfg["opt"], st, iters, tr.calls[-1].final["options"]))


BOUNDS = "all 125 strategy assignments; handler: 5 positions in runs of 4 lengths x 6 end options x 5 parameter sets, two consecutive calls; random: all draws from 3 letters, also over several iterations; optimizers: every iteration of runs of 1, 2, 5 iterations followed by a second call or reset"
ASSUMPTIONS = ["exp_decay's default d1 is 0.2, as implemented (the docstring says 2)"]
HARNESSES = [
    Harness("handler", h_run, h_configs, bound=lambda t: 2 if t == "quick" else None),
    Harness("random", r_run, r_configs, finish=r_finish),
    Harness("runs", o_run, o_configs),
]
