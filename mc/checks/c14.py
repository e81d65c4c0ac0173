"""BinaryPSO: bits are 0/1 and independent Bernoulli(sigmoid(velocity))."""
import math

import numpy as np

from .. import families as F
from .. import opt as O
from .. import rng
from ..core import check
from ..runner import Harness


def is_bits(P):
    P = np.asarray(P)
    return bool(np.all((P == 0) | (P == 1))) and P.dtype.kind in "biu"


def mon_bits(tr):
    starts = set(c.start for c in tr.calls)
    for t, X in enumerate(tr.X):
        check(is_bits(X), lambda: "evaluated positions %s" % X.tolist())
        # (the first ones may be the caller's own)
        check(t in starts or X.dtype.kind == "i" and X.dtype.itemsize >= 4, lambda: "evaluation %d is given bits of type %s, too small to compute with" % (t, X.dtype))
    for X in tr.opt.pos_history:
        check(is_bits(X), lambda: "pos_history has %s" % np.asarray(X).tolist())
    for c in tr.calls:
        check(is_bits(c.result[1]), lambda: "returned position %r" % (c.result[1],))
        check(is_bits(c.final["position"]), lambda: "final swarm position %s" % c.final["position"].tolist())


def bern_configs(tier):
    out = []
    clamps = ((-8.0, 8.0), (-1.0, 1.0), (-2.0, 0.5), (-900.0, 900.0), None)

    def add(n, d, letters, clamp, w, at):
        out.append(dict(O.DEFAULT, opt="binary", n=n, d=d, k=1, letters=letters, cl=clamp, at=at, iters=at + 2, opts=dict(c1=0.0, c2=0.0, w=w)))
    for clamp in clamps:
        for w in (1.0, -1.0, 0.5):
            for at in (0, 1):
                add(1, 1, "edge", clamp, w, at)
                for (n, d) in ((1, 2), (2, 1)):
                    add(n, d, "two" if tier == "quick" and (clamp, w, at) != ((-1.0, 1.0), 1.0, 0) else "four", clamp, w, at)
    for w in (4.0, -4.0):
        add(1, 2, "two", (-900.0, 900.0), w, 0)
        add(2, 1, "two", (-900.0, 900.0), w, 1)
    for (n, d) in ((2, 2),) if tier == "quick" else ((2, 2), (1, 4), (4, 1)):
        for clamp in ((-1.0, 1.0), (-900.0, 900.0)) if tier == "quick" else clamps:
            add(n, d, "two", clamp, 1.0, 0)
    for (n, d) in ((1, 3), (3, 1)):
        for clamp in ((-1.0, 1.0), (-900.0, 900.0), None) if tier == "quick" else clamps:
            for w in (1.0,) if tier == "quick" else (1.0, -1.0, 0.5):
                add(n, d, "two", clamp, w, 0)
    return out


def sig(v):
    try:
        return 1.0 / (1.0 + math.exp(-v))
    except OverflowError:
        return 0.0


def bern_run(cfg, ctx):
    """Enumerates every draw of one iteration; velocities are known (c1 = c2 = 0)."""
    state = {}
    src = rng.PhaseSource(None, rng.FixedSource(5, bits=4))

    class Elem(rng.Source):
        def unit(self, kind):
            a = state["alphabet"]
            return a[ctx.choose(len(a), "u")]

        def index(self, n, kind):
            return ctx.choose(n, "i") if n > 1 else 0
    src.elem = Elem()
    inp = O.inputs(cfg)
    inp["clamp"] = tuple(cfg["cl"]) if cfg["cl"] else None
    w = cfg["opts"]["w"]
    with rng.controlled(src):
        tr = O.Trace(cfg, None, inp=inp, snapshots=False)

        def cost(t, X, **kw):
            if t == cfg["at"]:
                v = w * tr.S[t]["velocity"]
                if cfg["cl"]:
                    v = np.clip(v, *cfg["cl"])
                state["v"] = v
                if cfg["letters"] == "edge":
                    s = sig(v[0, 0])
                    # the thresholds are those of any usual form of the logistic function: draws lie on a grid of 2^-53
                    e = min(1e-9, max(min(s, 1 - s) / 2, 1e-14))
                    state["alphabet"] = [2.0 ** -50, min(max(2.0 ** -50, s - e), 1 - 2.0 ** -50), max(2.0 ** -50, min(s + e, 1 - 2.0 ** -50)), 1 - 2.0 ** -50]
                elif cfg["letters"] == "four":
                    state["alphabet"] = [0.1, 0.4, 0.6, 0.9]
                else:
                    # (0.0 only where every form of the logistic function is on the same side of it)
                    state["alphabet"] = [0.0 if all(sig(x) == 0 or sig(x) > 1e-12 for x in v.ravel()) else 2.0 ** -50, 1 - 2.0 ** -30]
                src.enumerating = True
            return np.zeros(len(X))
        tr.costfn = cost
        tr.on_eval = lambda t, X: setattr(src, "enumerating", False)
        tr.optimize()
    mon_bits(tr)
    bits = tr.X[cfg["at"] + 1]
    check(np.array_equal(tr.S[cfg["at"] + 1]["velocity"], state["v"]), lambda: "velocity %s, expected %s" % (tr.S[cfg["at"] + 1]["velocity"], state["v"]))
    a = ctx.acc
    if "v" not in a:
        a.update(v=state["v"], alphabet=state["alphabet"], counts={}, total=0)
    a["total"] += 1
    key = tuple(np.asarray(bits).ravel().astype(int).tolist())
    a["counts"][key] = a["counts"].get(key, 0) + 1
    ctx.state(repr(cfg), key)
    ctx.step(len(tr.X))
    ctx.validated()
    ctx.outcome(key)


def bern_finish(cfg, acc, stats):
    """The fraction of draws giving each bit pattern is the product of the bits' fractions."""
    v = acc["v"].ravel()
    m = len(acc["alphabet"])
    import itertools
    p = []
    for x in v:
        s = sig(x)
        p.append(sum(1 for u in acc["alphabet"] if u < s))
    for pat in itertools.product((0, 1), repeat=len(v)):
        want = 1
        for b, k in zip(pat, p):
            want *= k if b else m - k
        got = acc["counts"].get(pat, 0)
        check(got * m ** len(v) == want * acc["total"],
              "velocities %s, draws from %s: bits %s in %d of %d equally likely cases, expected fraction %d/%d" % (
                  v.tolist(), acc["alphabet"], pat, got, acc["total"], want, m ** len(v)))


def hist(tr):
    mon_bits(tr)


ALTS = {"n": [1, 2, 7], "d": [1, 3, 5], "iters": [1, 6], "clamp": ["s", "dim", "big"], "opts": ["big", "huge", "zero", "int"], "init": ["lat", "same"], "k": [1, 3], "p": [1],
        "ftol": [0.5], "vh": ["adjust"], "verbose": [True]}
BOUNDS = ("all draws of one iteration for up to 2x2 bits over 2-4 letters around the thresholds, velocities from -900 to 900, five inertia weights; "
          "configurations within 2 (thorough 3) changes with <=1 deviating draw; all cost orders; call sequences")
ASSUMPTIONS = ["uniform draws come from numpy.random or random"]
HARNESSES = [
    Harness("bernoulli", bern_run, bern_configs, finish=bern_finish),
    F.orders([], finish_mons=[hist], opts=["binary"], shapes=lambda t: [(2, 3, "std", None), (3, 2, "std", "same"), (3, 3, "two", "lat")]),
    F.configs_family([], dict(O.DEFAULT, opt="binary", n=4), finish_mons=[hist], keys=list(ALTS), alternatives=ALTS, patterns=3, rbound=1, thorough_bound=3),
    F.calls_family([], opts=["binary"], finish_mons=[hist]),
]
