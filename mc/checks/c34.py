"""Only the order of the costs matters: a strictly increasing change of the objective changes nothing else."""
import numpy as np

from .. import families as F, opt as O, rng
from ..core import check
from ..runner import Harness
from .c33 import Log, Replay, Rec, by_optimizer

INF = float("inf")


# ---------------------------------------------------------------- increasing sequences of m numbers

def _ulps(at):
    def f(m):
        out, x = [], at
        for _ in range(m):
            out.append(x)
            x = float(np.nextafter(x, INF))
        return out
    return f


SEQ = {
    "ranks": lambda m: [float(k) for k in range(m)],
    "negative": lambda m: [float(k - m) for k in range(m)],
    "around0": lambda m: [float(k - m // 2) for k in range(m)],
    "ulps1": _ulps(1.0),
    "ulps-1": _ulps(-1.0),
    "ulps0": lambda m: [k * 5e-324 for k in range(m)],
    "ulps1e6": _ulps(1e6),
    "ulps-1e12": _ulps(-1e12),
    "1e-12": lambda m: [k * 1e-12 for k in range(m)],
    "-1e-9": lambda m: [(k - m) * 1e-9 for k in range(m)],
    "1e-300": lambda m: [(k - m // 2) * 1e-300 for k in range(m)],
    "1e9": lambda m: [1e9 + 10.0 * k for k in range(m)],
    "-1e9": lambda m: [-1e9 - 1e6 * (m - k) for k in range(m)],
    "huge": lambda m: [(2.0 * k / max(m - 1, 1) - 1.0) * 1.7e308 for k in range(m)],
    "geometric": lambda m: [-10.0 ** (150 - 299.0 * k / m) for k in range((m + 1) // 2)] + [10.0 ** (-150 + 299.0 * k / m) for k in range(m - (m + 1) // 2)],
    "infends": lambda m: ([-INF] + [float(k) for k in range(m - 2)] + [INF]) if m > 2 else [0.0, INF][:m],
    "inftop": lambda m: [float(k) for k in range(m - 1)] + [INF],
    "-infbottom": lambda m: [-INF] + [float(k) for k in range(m - 1)],
    "int": lambda m: np.arange(m),
    "int-": lambda m: np.arange(m) - m,
    "int32": lambda m: (1000 * np.arange(m) - 7).astype(np.int32),
    "int16": lambda m: (np.arange(m) - m // 2).astype(np.int16),
    "uint8": lambda m: (np.arange(m) + max(0, 256 - m)).astype(np.uint8) if m <= 256 else np.arange(m).astype(np.uint16),
    "bool": lambda m: np.array([False, True])[:m] if m <= 2 else np.arange(m).astype(np.uint32),
    "float32": lambda m: np.arange(m).astype(np.float32) / 8 - 3,
    "float16": lambda m: (np.arange(m) - m // 2).astype(np.float16) if m < 2000 else np.arange(m).astype(np.float32),
    "longdouble": lambda m: np.arange(m).astype(np.longdouble) / 4,
}
NAMES = [n for n in SEQ if n != "ranks"]
for _n, _f in SEQ.items():          # the table itself
    for _m in (1, 2, 3, 7, 40):
        _v = np.asarray(_f(_m))
        assert len(_v) == _m and all(_v[i] < _v[i + 1] for i in range(_m - 1)), (_n, _m, _v)


def ends(rec):
    return dict(pbest_pos=rec.state["pbest_pos"], position=rec.state["position"], velocity=rec.state["velocity"])


def same_search(a, b, to, what, ctx):
    """b is a with every cost c replaced by to(c)."""
    check(len(a.X) == len(b.X), lambda: "%s: %d and %d evaluations" % (what, len(a.X), len(b.X)))
    for t, (X, Y) in enumerate(zip(a.X, b.X)):
        check(np.array_equal(X, Y), lambda: "%s: evaluation %d at\n%s\nand\n%s" % (what, t, X.tolist(), Y.tolist()))
        ctx.state(t, X)
    for j, (r, s) in enumerate(zip(a.R, b.R)):
        check(np.array_equal(r[1], s[1]), lambda: "%s: call %d returns position %s and %s" % (what, j, r[1], s[1]))
        check(to(np.min(r[0])) == np.min(s[0]), lambda: "%s: call %d returns cost %r, which becomes %r, and %r" % (what, j, r[0], to(np.min(r[0])), s[0]))
    check([to(c) for c in a.hist] == b.hist, lambda: "%s: best costs %s, which become %s, and %s" % (what, a.hist, [to(c) for c in a.hist], b.hist))
    for k, v in ends(a).items():
        check(np.array_equal(v, ends(b)[k]), lambda: "%s: %s ends as %s and %s" % (what, k, v.tolist(), ends(b)[k].tolist()))
    check([to(c) for c in a.state["pbest_cost"]] == b.state["pbest_cost"].tolist(), lambda: "%s: personal best costs %s and %s" % (what, a.state["pbest_cost"], b.state["pbest_cost"]))
    ctx.step(len(a.X) + len(b.X))
    ctx.validated()
    ctx.outcome(np.asarray(a.R[-1][1]), len(a.X))


# ---------------------------------------------------------------- all orders

def orders_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for n, iters, m in [(2, 2, 3), (3, 2, 2), (2, 4, 2)] + ([(2, 3, 3), (3, 3, 2), (4, 2, 2), (3, 2, 3)] if tier == "thorough" else []):
            c = dict(O.DEFAULT, opt=o, n=n, d=2, iters=iters, k=1 if ":random" in o else 2, r=0, m=m)
            if "pyramid" in o:
                if (n, m) != (3, 2):
                    continue
                c.update(n=4)
            if F.valid(c):
                out.append(c)
    return out


def orders_run(cfg, ctx):
    memo = {}

    def ranks(t, n):
        if t not in memo:
            memo[t] = np.array([ctx.choose(cfg["m"], "c") for _ in range(n)])
        return memo[t]
    log = Log(rng.FixedSource(5))
    a = by_optimizer(cfg, Rec(lambda t, X: ranks(t, len(X)).astype(float)), log)
    for name in NAMES:
        seq = np.asarray(SEQ[name](cfg["m"]))
        b = by_optimizer(cfg, Rec(lambda t, X: seq[ranks(t, len(X))]), Replay(log.log))
        same_search(a, b, lambda c: float(seq[int(c)]), "%s, costs of order %s given as %s" % (cfg["opt"], [memo[t].tolist() for t in sorted(memo)], seq.tolist()), ctx)
    ctx.sample(lambda: "%s ranks %s -> %s" % (cfg["opt"], [memo[t].tolist() for t in sorted(memo)], a.R))


# ---------------------------------------------------------------- long searches on a function

def long_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for v in [dict(), dict(n=4, d=2, iters=60), dict(n=20, iters=8), dict(n=1, k=1, iters=10), dict(calls=[4, 3, 5]), dict(bounds="asym", bh="nearest", opts="far"), dict(bounds="unit", bh="reflective", opts="far", vh="zero"),
                  dict(bounds="asym", bh="shrink", vh="invert", opts="far"), dict(bounds="dy", bh="random", vh="adjust", opts="far"), dict(bounds="dy", bh="intermediate", opts="far"), dict(clamp="s"), dict(init="int", clamp="asym"),
                  dict(oh={"w": "exp_decay", "c1": "lin_variation", "c2": "nonlin_mod"})] + ([dict(n=64, iters=12), dict(n=6, d=9, iters=30), dict(iters=300), dict(calls=[1, 1, 1, 9, 2])] if tier == "thorough" else []):
            c = dict(O.DEFAULT, opt=o, n=6, d=3 if "vn" not in o and "pyramid" not in o else 2, k=3, r=0, iters=12)
            c.update(v)
            if "pyramid" in o and (c["n"] < 4 or c["d"] > 3) or ":random" in o and c["n"] < 2:
                continue
            if c.get("n") == 1:
                c["k"] = 1
            if c["n"] == 20 and "vn" in o:
                c["r"] = 1
            if F.valid(c):
                out.append(c)
    return out


FUNCS = {"bumpy": O.bumpy, "sphere": O.sphere, "quant": lambda t, X: np.floor(O.bumpy(0, X)), "drift": lambda t, X: O.bumpy(0, X) - 0.25 * t, "first": lambda t, X: np.asarray(X[:, 0], dtype=float)}


def long_run(cfg, ctx):
    f = FUNCS[ctx.pick(list(FUNCS), "function")]
    salt = ctx.choose(2, "salt")
    log = Log(rng.FixedSource(7 + salt))
    a = by_optimizer(cfg, Rec(f), log)
    values = sorted({float(c) for C in a.C for c in C})
    rank = {v: i for i, v in enumerate(values)}
    for name in NAMES:
        seq = np.asarray(SEQ[name](len(values)))
        b = by_optimizer(cfg, Rec(lambda t, X: seq[[rank.get(float(v), 0) for v in f(t, X)]]), Replay(log.log))
        same_search(a, b, lambda c: float(seq[rank[float(c)]]), "%s %s, %d different costs replaced by %s... %s" % (cfg["opt"], {k: v for k, v in cfg.items() if O.DEFAULT.get(k) != v}, len(values), seq[:3].tolist(), name), ctx)
    ctx.sample(lambda: "%s %d values -> %s" % (cfg["opt"], len(values), a.R))


BOUNDS = ("all assignments of 2-3 ranks to 2-3 (thorough 4) particles over 2-4 evaluations and runs of five functions in thirteen settings (bounds, every boundary strategy, clamps, schedules, up to 60 (300) iterations, several calls), each once with ranks and once with every one of %d strictly increasing "
          "codings of the ranks (neighbouring floats at 0, 1, -1, 1e6, -1e12, steps of 1e-12 and 1e-300, up to +-1.7e308, infinite ends, integer, boolean and half to extended precision arrays), for every optimizer" % len(NAMES))
ASSUMPTIONS = ["no stopping rule (ftol compares differences of costs)", "costs representable as doubles, not nan", "both searches are given the same draws"]
HARNESSES = [
    Harness("orders", orders_run, orders_configs),
    Harness("long", long_run, long_configs),
]
