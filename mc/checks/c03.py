import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import check
from ..runner import Harness

BOUNDS = ("all cost assignments (orders), single deviating evaluations in long runs (needle, snapshots of all histories at every evaluation), "
          "all configurations within 2 changes of the default with every bounds/velocity strategy, sequences of 2 (thorough 3) optimize() calls; the caller overwriting its array of starting positions before, at each evaluation of, or after the run, for every optimizer")
BOUNDS += F.SCALE_NOTE
BOUNDS += F.KINDS_NOTE
ASSUMPTIONS = ["no NaN costs"]


def hist(tr):
    O.mon_history(tr)


def reuse_configs(tier):
    return [dict(O.DEFAULT, opt=o, init=i, bounds=b, bh=bh, n=n, iters=3, k=2, r=1) for o in O.ALL_OPTS for i in ("lat", "same", "int") for b, bh in ((None, "periodic"), ("unit", "nearest"), ("asym", "reflective"))
            for n in (4, 6) if F.valid(dict(O.DEFAULT, opt=o, init=i, bounds=b, bh=bh, n=n, k=2, r=1)) and not (o == "binary" and (b or i == "int")) and not ("pyramid" in o and i != "lat")]


def reuse_run(cfg, ctx):
    """A caller reusing the array of its starting positions does not change the run or its record."""
    when = ctx.choose(6, "when", free=True)     # 0 never; 1 after construction; 2-4 at an evaluation; 5 after the run
    calls = 1 + ctx.choose(2, "calls", free=True)
    logs = []
    for at in (0, when):
        inp = O.inputs(cfg)
        start = inp["init_pos"]

        def spoil(now):
            if now == at and at:
                start[...] = 1 - start if cfg["opt"] == "binary" else start * 3 + 100

        seen = []

        def f(X):
            seen.append(np.array(X))
            spoil(2 + (len(seen) - 1) % 3)
            return O.bumpy(0, seen[-1])

        with rng.controlled(rng.FixedSource(3)):
            o = O.build(cfg, inp=inp)
            spoil(1)
            for _ in range(calls):
                r = o.optimize(f, 3, verbose=False)
        spoil(5)
        check(all(np.array_equal(h, x) for h, x in zip(o.pos_history, seen)) and len(o.pos_history) == len(seen),
              lambda: "the starting positions' array was reused (%s): the record %s, evaluated %s" % (at, np.array(o.pos_history).tolist(), np.array(seen).tolist()))
        logs.append((np.array(seen).tolist(), np.array(o.velocity_history).tolist(), np.array(o.cost_history).tolist(), float(r[0]), np.array(r[1]).tolist(), np.array(o.swarm.pbest_pos).tolist()))
    check(logs[0] == logs[1], lambda: "the starting positions' array was reused (%s): the run became %s, was %s" % (when, logs[1], logs[0]))
    ctx.state(cfg, when, calls)
    ctx.step()
    ctx.validated()


ALTS = {"iters": [1, 6, 15]}
HARNESSES = [
    Harness("reuse", reuse_run, reuse_configs),
    F.orders([], finish_mons=[hist], shapes=lambda t: [(2, 3, "two", None), (2, 2, "std", None), (3, 2, "two", "same"), (2, 2, "inf", None)]
             + ([(2, 3, "std", None), (3, 3, "two", None)] if t == "thorough" else [])),
    F.needle([], finish_mons=[hist], sizes=lambda t: [(3, 2, 7)] if t == "quick" else [(4, 3, 20), (9, 1, 8)], snapshots=True, modes=("down", "ramp")),
    F.configs_family([], O.DEFAULT, finish_mons=[hist], snapshots=True, rbound=0, alternatives=ALTS),
    F.configs_family([], dict(O.DEFAULT, bounds="unit", iters=6, opts="big", n=4), finish_mons=[hist], snapshots=True, rbound=0,
                     keys=["bh", "vh", "opt", "clamp", "bform", "init"], bound=2, name="configs_bounded", thorough_bound=3),
    F.calls_family([], finish_mons=[hist], snapshots=True),
    F.scale_family([], finish_mons=[hist]),
    F.extreme_family([], finish_mons=[hist]),
    F.kinds_family([], finish_mons=[hist], calls=2),
]
