import itertools

import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import check
from ..runner import Harness

from pyswarms.backend.handlers import VelocityHandler


def configs(tier):
    out = []
    variants = [dict(opt="global", opts="big"), dict(opt="general:ring", opts="huge"), dict(opt="local", opts="std", n=4)]
    if tier == "thorough":
        variants += [dict(opt=o, opts=p, n=5, init=i) for o in O.CONT_OPTS for p in ("big", "std") for i in (None, "corner")]
    for cl in O.CLAMPS:
        for vh in O.VH:
            for b, bh in [(None, "periodic")] + [("asym", h) for h in O.BH] + [("wide", "nearest"), ("unit", "shrink")]:
                for v in variants:
                    c = dict(O.DEFAULT, clamp=cl, vh=vh, bounds=b, bh=bh)
                    c.update(v)
                    if F.valid(c):
                        out.append(c)
        for opts in ("std", "big", "huge"):
            out.append(dict(O.DEFAULT, opt="binary", clamp=cl, opts=opts))
    return out


def run(cfg, ctx):
    with rng.controlled(rng.PatternSource(ctx, patterns=3)):
        tr = O.Trace(cfg, O.bumpy, snapshots=False)
        tr.optimize()
    O.mon_clamp(tr, tr.calls[0])
    for t, X in enumerate(tr.X):
        ctx.state(t, X, tr.S[t]["velocity"])
    ctx.step(len(tr.X))
    ctx.validated()
    ctx.outcome(tr.calls[0].final["velocity"])
    ctx.sample(lambda: "%s -> final velocity %s" % ({k: v for k, v in cfg.items() if O.DEFAULT.get(k) != v}, tr.calls[0].final["velocity"].tolist()))


def alone_configs(tier):
    return [dict(vh=vh, clamp=cl, n=n, d=d, calls=c) for vh in O.VH for cl in O.CLAMPS
            for n, d, c in [(1, 2, 2), (2, 1, 2)] + ([(2, 2, 1)] if cl in ("asym", "dim") else []) + ([(1, 3, 2), (2, 2, 2), (1, 2, 3)] if tier == "thorough" else [])]


def alone_run(cfg, ctx):
    """The handler alone: every velocity / in-or-out pattern, sequences of calls."""
    n, d = cfg["n"], cfg["d"]
    clamp = O.CLAMPS[cfg["clamp"]](d)
    h = VelocityHandler(strategy=cfg["vh"])
    bounds = (np.zeros(d), np.ones(d))
    log = []
    for c in range(cfg["calls"]):
        v = np.array([[ctx.pick([0.0, -7.0, 25.0], "v", free=True) for _ in range(d)] for _ in range(n)])
        x = np.array([[ctx.pick([0.5, -20.0, 1.25], "x", free=True) if c == 0 or cfg["vh"] == "adjust" else 2.0 for _ in range(d)] for _ in range(n)])
        out = h(v, clamp, position=x, bounds=bounds)
        log.append((v.tolist(), x.tolist()))
        check(((out >= clamp[0]) & (out <= clamp[1])).all() and out.shape == (n, d),
              lambda: "%s calls (velocity, position) %s: %s outside clamp %s" % (cfg["vh"], log, np.asarray(out).tolist(), clamp))
    ctx.state(cfg["vh"], cfg["clamp"], repr(log))
    ctx.step(cfg["calls"])
    ctx.validated()


def calls_mon(tr, call):
    O.mon_clamp(tr, call)


BOUNDS = ("8 clamps x 4 velocity x 9 box/boundary variants x 3 optimizers (thorough: every optimizer), matrices drawn as spread/lowest/highest with <=1 (2) deviations, 3 iterations; "
          "the velocity handler alone on every lattice velocity x position pattern up to 2x2 and sequences of 2 (3) calls; call sequences")
BOUNDS += F.SCALE_NOTE
BOUNDS += F.KINDS_NOTE
ASSUMPTIONS = ["clamp minimum < maximum", "invert and zero need bounds"]
HARNESSES = [
    Harness("runs", run, configs, bound=lambda t: 1 if t == "quick" else 2),
    Harness("handler", alone_run, alone_configs),
    F.calls_family([calls_mon], variants=[dict(clamp="dim"), dict(clamp="s", opts="big")]),
    F.scale_family([calls_mon], keep_state=False, quick_step=3, variants=[dict(clamp="dim", vh="adjust", bounds="asym"), dict(clamp="s", opts="big"), dict(clamp="asym", vh="invert", bounds="unit"), dict(clamp="s", vh="zero", bounds="asym", bh="nearest")]),
    F.kinds_family([O.mon_clamp], snapshots=False, variants=[dict(clamp=c) for c in ("np", "pos", "neg", "list", "nano")]),
]
