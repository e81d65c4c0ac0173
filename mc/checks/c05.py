from .. import families as F
from .. import opt as O
from .. import rng
from ..runner import Harness
from ..core import check

import numpy as np

BNAMES = list(O.BOUNDS)


def mons(tr, call):
    O.mon_bounds(tr, call)


def configs(tier):
    out = []
    variants = [dict(opt="global", opts="big"), dict(opt="global", opts="huge", init="corner"),
                dict(opt="general:ring", opts="big", clamp="s", init="lo"), dict(opt="local", opts="huge", bform="list", init="lat")]
    if tier == "thorough":
        variants += [dict(opt=o, opts=p, clamp=c, init=i, n=n, d=d, bform=bf)
                     for o in ("local_static", "general:random", "general:pyramid", "general:vn") for p in ("std", "huge")
                     for c in (None, "dim") for i in (None, "hi") for (n, d) in ((4, 2), (7, 3)) for bf in ("array", "listpair")]
    for b in BNAMES:
        for bh in O.BH:
            for vh in O.VH:
                for v in variants:
                    c = dict(O.DEFAULT, n=3, d=2, iters=3, bounds=b, bh=bh, vh=vh)
                    c.update(v)
                    if bh == "reflective":    # one mirroring per box width
                        c["opts"] = "std" if b == "tiny" else "far" if c["opts"] == "huge" else c["opts"]
                    if F.valid(c):
                        out.append(c)
    return out


def run(cfg, ctx):
    with rng.controlled(rng.PatternSource(ctx, patterns=3)):
        tr = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
        tr.optimize()
    O.mon_bounds(tr, tr.calls[0])
    for t, X in enumerate(tr.X):
        ctx.state(t, X)
    ctx.step(len(tr.X))
    ctx.validated()
    ctx.outcome(tr.X[-1])
    ctx.sample(lambda: "%s -> last positions %s" % ({k: v for k, v in cfg.items() if O.DEFAULT.get(k) != v}, tr.X[-1].tolist()))


def long_configs(tier):
    out = []
    for o in O.CONT_OPTS:
        for b in ("asym", "mixed", "int", "neg", "iflo", "ifhi"):
            for i, bh in enumerate(O.BH):
                for vh in (O.VH if tier == "thorough" else [O.VH[i % 4]]):
                    out.append(dict(O.DEFAULT, opt=o, bounds=b, bh=bh, vh=vh, n=5, d=2, r=1, k=2, iters=25, opts="big" if i % 2 else "std"))
    return out


def long_run(cfg, ctx):
    """Long runs with repeated calls and reset (handler memory)."""
    with rng.controlled(rng.FixedSource(ctx.choose(2, "salt"))):
        tr = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
        tr.optimize()
        O.mon_bounds(tr, tr.calls[-1])
        if ctx.choose(2, "reset"):
            tr.reset()
        tr.optimize(iters=6)
        O.mon_bounds(tr, tr.calls[-1])
    for t, X in enumerate(tr.X):
        ctx.state(t, X)
    ctx.step(len(tr.X))
    ctx.validated()


EDGES = [(0.1, 0.7), (-0.3, 0.1), (1e-3, 77.7), (-0.02244177, 0.93834415), (-0.04469688, 0.9791725), (-0.04821948, 0.95288949), (-1e8 - 0.1, 1e8 + 0.7), (0.1, 0.1 + 2.0 ** -50),
         (-3.3, -1.1), (1 / 3.0, 2 / 3.0), (-1e-9, 3e-9), (-1e-17, 1.0), (-1.0, 1e-17), (5.0, 6.0)]


def edge_configs(tier):
    return [dict(opt=o, bh=bh, lb=lb, ub=ub) for o in ("global", "local", "general") for bh in O.BH for lb, ub in EDGES if tier == "thorough" or o == "global" or lb < 0 < ub]


def edge_run(cfg, ctx):
    """Particles on (or next to) an edge of a box of awkward numbers, moved by some rounding errors or some box widths."""
    import pyswarms as ps
    from pyswarms.backend.topology import Star
    lb, ub = cfg["lb"], cfg["ub"]
    w = ub - lb
    steps = [5e-324, 1e-17 * w, np.spacing(lb), np.spacing(ub), 2 * np.spacing(max(-lb, ub)), 0.3 * w, w, float(np.nextafter(w, 9e99)), float(np.nextafter(w, 0)), 3 * w]
    v = ctx.pick(steps, "step", free=True) * ctx.pick([-1.0, 1.0], "sign", free=True)
    start = ctx.pick([lb, ub, float(np.nextafter(lb, ub)), float(np.nextafter(ub, lb))], "start", free=True)
    opts = dict(c1=0.0, c2=0.0, w=1.0, k=1, p=2)
    kw = dict(bounds=(np.array([lb]), np.array([ub])), bh_strategy=cfg["bh"], vh_strategy="unmodified", init_pos=np.array([[start], [start]]))
    seen = []

    def f(X):
        seen.append(np.array(X))
        return X[:, 0] * 1.0

    with rng.controlled(rng.FixedSource()):
        o = {"global": lambda: ps.single.GlobalBestPSO(2, 1, opts, **kw), "local": lambda: ps.single.LocalBestPSO(2, 1, opts, **kw), "general": lambda: ps.single.GeneralOptimizerPSO(2, 1, opts, Star(), **kw)}[cfg["opt"]]()
    o.swarm.velocity = np.full((2, 1), v)
    with rng.controlled(rng.ElementSource(ctx, [0.0, 1 - 2.0 ** -53, 0.3] if cfg["bh"] == "random" else [0.3])):
        o.optimize(f, 3, verbose=False)
    for t, X in enumerate(seen):
        check(((X >= lb) & (X <= ub)).all(), lambda: "strategy %s, bounds [%r, %r], start %r, velocity %r: iteration %d evaluated %s" % (cfg["bh"], lb, ub, start, v, t, X.tolist()))
        ctx.state(cfg, v, t, X)
    ctx.step(len(seen))
    ctx.validated()


BOUNDS = ("steps of a few rounding errors or box widths from the edges of 14 boxes of awkward numbers; every boundary x velocity strategy x box (9) for 4 optimizer/coefficient/start variants, each random matrix drawn as spread / all lowest / all highest with at most 1 (thorough 2) deviating draws, 3 iterations; "
          "25+6-iteration runs of every optimizer with every boundary strategy, second call with and without reset")
BOUNDS += F.SCALE_NOTE
BOUNDS += F.KINDS_NOTE
ASSUMPTIONS = ["lower < upper in every dimension, box width not below 1e-12 of the velocities", "random draws per matrix are spread, lowest or highest values"]
HARNESSES = [
    Harness("boxes", run, configs, bound=lambda t: 1 if t == "quick" else 2),
    Harness("edges", edge_run, edge_configs, bound=lambda t: 1 if t == "quick" else 2),
    Harness("long", long_run, long_configs),
    F.calls_family([mons], opts=O.CONT_OPTS, variants=[dict(bounds="asym", bh=bh, opts="far") for bh in O.BH]),
    F.scale_family([mons], opts=O.CONT_OPTS, keep_state=False, quick_step=6, filt=lambda c: "pyramid" not in c["opt"] or c["opts"] == "std", variants=[dict(bounds=b, bh=bh, vh=vh, opts=op) for bh in O.BH for b, vh, op in (("asym", "unmodified", "far"), ("mixed", "invert", "std"), ("wide", "zero", "std"))]),
    F.kinds_family([mons], snapshots=False, opts=["global", "local", "general:vn", "general:random"], variants=[dict(bounds=b, bh=h, vh=v, opts="far") for b in ("dy", "int", "unit", "iflo", "ifhi") for h, v in zip(O.BH, ["adjust", "zero", "invert", "unmodified", "zero", "adjust"])]),
]
