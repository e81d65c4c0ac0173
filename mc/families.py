"""Harness families shared by the run-level properties.

orders   every assignment of costs from a small alphabet to (iteration, particle)
needle   long runs; one single better cost at every (iteration, particle)
configs  every configuration within a bounded number of changes from a default,
         with every bounded deviation of the random draws
calls    every sequence of optimize()/reset() calls up to a length
"""
import numpy as np

from . import opt as O
from . import rng
from .core import check, dev_product
from .runner import Harness

INF = float("inf")
ALPHAS = {
    "std": [1.0, 0.0, 2.0],
    "two": [1.0, 0.0],
    "neg": [-1.0, 0.5, -2.0],
    "inf": [INF, 3.0, -1.0],
    "huge": [1e300, -1e300, 1e-300],
    "int": [3, 1, 2],
    "close": [1.0, np.nextafter(1.0, 0.0), np.nextafter(1.0, 2.0)],
}


def alpha_values(name):
    return ALPHAS[name], (int if name == "int" else float)


def apply(mons, tr, call):
    for m in mons:
        m(tr, call)


def orders(mons, opts=None, shapes=None, extra=None, name="orders", finish_mons=()):
    def configs(tier):
        out = []
        sh = shapes(tier) if callable(shapes) else shapes
        for o in (opts or O.ALL_OPTS):
            for (n, iters, al, init) in sh:
                if tier == "quick" and o not in O.CORE_OPTS and (n, iters, al) == (3, 2, "std"):
                    continue
                k = 2 if n > 2 else 1
                c = dict(opt=o, n=n, d=2 if o != "binary" else 2, k=k, iters=iters, alpha=al, init=init, r=0 if n < 5 else 1)
                if ":random" in o:
                    c["k"] = 1
                if extra:
                    c.update(extra)
                out.append(c)
        return out

    def run(cfg, ctx):
        vals, dt = alpha_values(cfg["alpha"])
        with rng.controlled(rng.FixedSource(1)):
            tr = O.Trace(cfg, O.scripted(ctx, vals, dtype=dt), snapshots=False)
            tr.optimize()
        apply(mons, tr, tr.calls[0])
        for m in finish_mons:
            m(tr)
        O.record(ctx, tr)
        ctx.sample(lambda: "%s n=%d iters=%d costs=%s -> %s" % (cfg["opt"], cfg["n"], cfg["iters"], [c.tolist() for c in tr.C], tr.calls[0].result))
    return Harness(name, run, configs, about="all cost assignments")


def default_shapes(tier):
    s = [(2, 3, "std", None), (3, 2, "std", "same"), (2, 2, "inf", None), (2, 2, "huge", "lat"),
         (2, 2, "neg", None), (2, 2, "int", None), (2, 2, "close", None), (3, 3, "two", None)]
    if tier == "thorough":
        s += [(3, 2, "inf", None), (3, 3, "std", None), (3, 3, "inf", "same"), (4, 3, "two", "same"), (2, 4, "neg", None), (2, 5, "std", None), (5, 2, "two", "lat")]
    return s


def needle(mons, opts=None, sizes=None, name="needle", snapshots=False, finish_mons=(), modes=("down", "up", "ramp"), keep_state=None):
    """Constant costs with one better (or worse) cost at one place."""
    def configs(tier):
        out = []
        for o in (opts or O.ALL_OPTS):
            for (n, d, iters) in (sizes(tier) if sizes else [(4, 2, 14), (9, 1, 5)] if tier == "quick" else [(5, 3, 60), (12, 4, 40), (25, 2, 20)]):
                for mode in modes:
                    out.append(dict(opt=o, n=n, d=d, k=min(3, n - 1), iters=iters, mode=mode))
        if tier == "quick":
            for o in (opts or O.ALL_OPTS):
                out.append(dict(opt=o, n=4, d=2, k=2, iters=130, mode="down", stride=51))
                out.append(dict(opt=o, n=64, d=6 if "vn" not in o and "pyramid" not in o else 2, k=3, iters=4, mode="down", stride=41))
        else:
            for o in (opts or O.ALL_OPTS):
                out.append(dict(opt=o, n=4, d=2, k=2, iters=400, mode="down", stride=7))
                out.append(dict(opt=o, n=300, d=8 if "vn" not in o and "pyramid" not in o else 2, k=3, iters=4, mode="down", stride=37))
        return out

    def run(cfg, ctx):
        if cfg["d"] == 1 and "pyramid" in cfg["opt"]:
            cfg = dict(cfg, d=2)
        if "vn" in cfg["opt"]:
            cfg = dict(cfg, r=1 if 2 * cfg["d"] + 1 <= cfg["n"] else 0)
        n, iters = cfg["n"], cfg["iters"]
        total = n * iters
        stride = cfg.get("stride", 1)
        at = (ctx.choose((total + stride - 1) // stride, "at") * stride + stride // 2) % total
        nt, ni = divmod(at, n)
        mode = cfg["mode"]

        def cost(t, X, **kw):
            if mode == "down":
                c = np.full(n, 5.0)
            elif mode == "up":
                c = np.full(n, 5.0) + np.arange(n) * 0.5 + t * 0.25
            else:
                c = 1000.0 - t - 0.01 * np.arange(n)
            if t == nt:
                c[ni] = -3.0 if mode != "ramp" else -2000.0
            return c
        with rng.controlled(rng.FixedSource(2)):
            tr = O.Trace(cfg, cost, snapshots=snapshots, keep_state=(total <= 200 if keep_state is None else keep_state))
            tr.optimize()
        apply(mons, tr, tr.calls[0])
        for m in finish_mons:
            m(tr)
        O.record(ctx, tr)
        ctx.sample(lambda: "%s n=%d iters=%d mode=%s better cost at iteration %d particle %d -> %s" % (cfg["opt"], n, iters, mode, nt, ni, tr.calls[0].result))
    return Harness(name, run, configs, about="single deviating evaluation in long runs")


ALTERNATIVES = {
    "opt": O.ALL_OPTS[1:],
    "n": [1, 2, 4, 7],
    "d": [1, 3, 5],
    "iters": [1, 2, 6],
    "bounds": ["unit", "asym", "neg", "wide", "mixed", "int", "iflo", "ifhi"],
    "bform": ["list", "tuple"],
    "bh": O.BH[1:],
    "vh": O.VH[1:],
    "clamp": ["s", "dim", "lo0"],
    "opts": ["big", "zero", "int", "w1"],
    "oh": [{"w": "exp_decay"}, {"w": "lin_variation", "c1": "nonlin_mod", "c2": "random"}],
    "init": ["lat", "same", "corner", "int"],
    "k": [1], "p": [1],
    "ftol": [0.05],
    "verbose": [True],
    "nproc": [2],
}


def valid(cfg):
    """Configurations inside the documented preconditions."""
    c = O.full(cfg)
    o = c["opt"]
    n, d = c["n"], c["d"]
    if "local" in o or "ring" in o or o == "binary":
        if not c["k"] <= n:
            return False
    if ":random" in o and not c["k"] < n:
        return False
    if ":vn" in o:
        from math import comb
        k = sum(comb(d, i) * comb(c["r"], i) * 2 ** i for i in range(min(d, c["r"]) + 1))
        if k > n:
            return False
    if ":pyramid" in o and d < 2:
        return False
    if o == "binary" and (c["bounds"] or c["oh"] or c["vh"] in ("invert", "zero") or c["bh"] != "periodic" or c["center"]):
        return False
    if c["vh"] in ("invert", "zero") and c["bounds"] is None:
        return False
    if c["bounds"] is None and (c["bh"] != "periodic" or c["bform"] != "array"):
        return False
    if c["init"] == "int" and c["bounds"] in ("mixed", "tiny", "iflo", "ifhi"):
        return False
    if c["center"] is not None and c["bounds"] is not None:
        return False
    if c["nproc"] is not None:
        return False
    return True


def configs_family(mons, default, keys=None, alternatives=None, bound=2, patterns=2, rbound=1, name="configs",
                   cost=O.bumpy, filt=None, snapshots=False, finish_mons=(), thorough_bound=None, opts=None, source=None, logs=False):
    alts = dict(ALTERNATIVES)
    alts.update(alternatives or {})
    if keys:
        alts = {k: alts[k] for k in keys}

    def configs(tier):
        out = []
        b = bound if tier == "quick" or thorough_bound is None else thorough_bound
        for c in dev_product(dict(default), alts, b):
            if valid(c) and (filt is None or filt(c)):
                out.append(c)
        return out

    def run(cfg, ctx):
        src = rng.PatternSource(ctx, patterns=patterns, free_calls=0)
        with rng.controlled(src):
            tr = O.Trace(cfg, cost, snapshots=snapshots, logs=logs)
            tr.optimize()
        apply(mons, tr, tr.calls[0])
        for m in finish_mons:
            m(tr)
        O.record(ctx, tr)
        ctx.sample(lambda: "%s -> %s" % ({k: v for k, v in cfg.items() if O.DEFAULT.get(k) != v}, tr.calls[0].result))
    return Harness(name, run, configs, bound=lambda tier: rbound if tier == "quick" else rbound + 1,
                   about="configurations x deviating draws")


def calls_family(mons, opts=None, name="calls", finish_mons=(), variants=None, depth=None, snapshots=False):
    """Sequences of optimize() calls on one optimizer, each with costs that are
    better, equal, worse or infinite compared with the calls before."""
    levels = [("worse", 10.0), ("same", 5.0), ("better", 1.0)]

    def configs(tier):
        out = []
        dp = depth(tier) if depth else (2 if tier == "quick" else 3)
        for o in (opts or O.ALL_OPTS):
            for v in (variants or [dict(), dict(ftol=0.5, ftol_iter=1), dict(init="same")]):
                c = dict(opt=o, n=4, d=2, k=2, r=0, depth=dp)
                c.update(v)
                if valid(c):
                    out.append(c)
        return out

    def run(cfg, ctx):
        plan = []
        level = [5.0]

        def cost(t, X, **kw):
            return level[0] + O.bumpy(t, X) / 64.0
        with rng.controlled(rng.FixedSource(3)):
            tr = O.Trace(cfg, cost, snapshots=snapshots)
            level[0] = 5.0
            tr.optimize(iters=ctx.pick([2, 1, 4], "iters"))
            for m in mons:
                m(tr, tr.calls[-1])
            for _ in range(cfg["depth"] - 1):
                nm, lv = ctx.pick(levels, "level")
                level[0] = lv
                it = ctx.pick([2, 1, 4], "iters")
                plan.append((nm, it))
                tr.optimize(iters=it)
                for m in mons:
                    m(tr, tr.calls[-1])
        for m in finish_mons:
            m(tr)
        O.record(ctx, tr)
        ctx.sample(lambda: "%s calls %s -> %s" % (cfg["opt"], plan, [c.result for c in tr.calls]))
    return Harness(name, run, configs, about="sequences of optimize() calls")


def _quant(t, X, **kw):
    return np.floor(2 * O.bumpy(t, X)) / 2.0


def sizes(tier):
    """(n, d, iters): every small pair, every size along each axis."""
    out = {}
    thorough = tier == "thorough"
    for n in range(1, 9 if not thorough else 13):
        for d in range(1, 7 if not thorough else 9):
            out[n, d, 3] = 1
    ns = list(range(9, 41)) + [48, 50, 60, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300]
    ds = list(range(7, 33)) + [40, 50, 63, 64, 65, 100, 101, 128]
    ts = list(range(1, 34)) + [40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 201, 255, 256, 257]
    if thorough:
        ns += list(range(41, 130)) + [400, 500, 501, 512, 513, 700, 1000, 1001, 1024, 1025]
        ds += list(range(33, 101)) + [200, 256, 257, 500]
        ts += list(range(34, 130)) + [300, 500, 501, 512, 513, 999, 1000, 1001, 1024, 1025, 2001]
    else:
        ts += [501, 1001]
        ns += [501, 1001]
        ds += [257]
    for n in ns:
        out[n, 2, 3] = 1
    for d in ds:
        out[4, d, 3] = 1
    for t in ts:
        out[4, 2, t] = 1
    return list(out)


# costs of all kinds a numpy objective may answer with
def _noise(t, n, m=997):
    return np.array([((i * 7919 + t * 104729 + (i + 3) * (t + 5) * 31) % m) for i in range(n)], dtype=float)


class CostKind:
    """One kind of answer; keeps what it answered to see later changes."""
    NAMES = ["noise", "int", "int_neg", "uint8", "f32", "f16", "const", "zeros", "tinysteps", "ulps", "inf", "someinf",
             "neginf", "huge", "reused", "view", "readonly", "falling", "rising", "bool", "sub", "swap"]

    def __init__(self, name):
        self.name, self.given, self.buf = name, [], None

    def __call__(self, t, X, **kw):
        n, k = len(X), self.name
        v = _noise(t, n)
        if k == "noise":
            c = v / 7.0 - 50
        elif k == "int":
            c = v.astype(int)
        elif k == "int_neg":
            c = (v - 900).astype(np.int32)
        elif k == "uint8":
            c = (v % 251).astype(np.uint8)
        elif k == "f32":
            c = (v / 7.0).astype(np.float32)
        elif k == "f16":
            c = (v / 8.0).astype(np.float16)
        elif k == "const":
            c = np.full(n, 2.5)
        elif k == "zeros":
            c = np.zeros(n) if t % 2 else -np.zeros(n)
        elif k == "tinysteps":
            c = 1e-13 * v
        elif k == "ulps":
            c = 1.0 - np.finfo(float).epsneg * v
        elif k == "inf":
            c = np.full(n, INF)
        elif k == "someinf":
            c = np.where(v % 3 == 0, v, INF)
        elif k == "neginf":
            c = np.where((v % 5 == 0) & (t > 0), -INF, v)
        elif k == "huge":
            c = (v - 500) * 1e305
        elif k == "sub":
            c = v * 5e-324
        elif k == "reused":          # the objective always answers in the same array
            if self.buf is None:
                self.buf = np.empty(n)
            self.buf[:] = v
            return self.buf
        elif k == "view":
            c = np.stack([v, -v], axis=1)[:, 1]
        elif k == "readonly":
            c = v.copy()
            c.setflags(write=False)
        elif k == "falling":
            c = 1000.0 - 10 * t - v / 1000.0
        elif k == "rising":
            c = 10.0 * t + v / 1000.0
        elif k == "bool":
            c = v % 2 == 0
        elif k == "swap":            # big negative and positive values in turns
            c = (v + 1) * (-1.0) ** t * 10.0 ** (t % 7)
        self.given.append((c, c.copy()))
        return c


INITS = [None, "int", "nano", "far", "offset", "zeros", "same", "f32", "fortran", "strided", "readonly"]
KINDS_NOTE = ("; kinds: every pair of (kind of costs out of %d, kind of starting positions out of %d) and (kind of costs, coefficients out of 8) "
              "for every optimizer" % (len(CostKind.NAMES), len(INITS)))


def kinds_family(mons, opts=None, variants=({},), name="kinds", snapshots=True, finish_mons=(), iters=5, quick_step=1, calls=1, logs=False):
    """Every kind of cost values x starting positions x coefficients, one run each."""
    def configs(tier):
        out = []
        for o in (opts or O.ALL_OPTS):
            for vi, v in enumerate(variants):
                base = dict(opt=o, n=5, d=2, k=2, r=0, iters=iters if tier == "quick" else 2 * iters)
                base.update(v)
                for i in INITS:
                    if o == "binary" and i not in (None, "same", "int"):
                        continue
                    if base.get("bounds") and i in ("nano", "far", "offset", "zeros"):
                        continue
                    out.append(dict(base, init=i, opts=base.get("opts", "std")))
                for c in () if "opts" in v else ("eq", "eq1", "neg", "np", "small", "zero", "int", "dy2"):
                    out.append(dict(base, init=None, opts=c))
                    if tier == "thorough":
                        out.append(dict(base, init="same" if o == "binary" else "int", opts=c))
        return [c for c in out if valid(c)]

    def run(cfg, ctx):
        kind = ctx.pick(CostKind.NAMES, "kind")
        cost = CostKind(kind)
        with rng.controlled(rng.FixedSource(7)):
            tr = O.Trace(cfg, cost, snapshots=snapshots, logs=logs)
            for _ in range(calls):
                tr.optimize()
                apply(mons, tr, tr.calls[-1])
        for m in finish_mons:
            m(tr)
        O.record(ctx, tr)
        ctx.sample(lambda: "%s init=%s opts=%s costs=%s -> %r" % (cfg["opt"], cfg["init"], cfg["opts"], kind, tr.calls[0].result[0]))
    return Harness(name, run, configs, about="kinds of values")


SCALE_NOTE = "; scale: one run for each swarm size, dimension and length of a grid that reaches 1001 (every optimizer), with scripted draws"


def scale_family(mons, opts=None, variants=({},), name="scale", snapshots=False, keep_state=None, finish_mons=(), filt=None, salts=1, quick_step=1, calls=1, logs=False):
    """Every swarm size, dimension and length up to large values, one run each."""
    def configs(tier):
        out = []
        for o in (opts or O.ALL_OPTS):
            for vi, v in enumerate(variants):
                for j, (n, d, iters) in enumerate(sizes(tier)):
                    if tier == "quick" and quick_step > 1 and (j + vi) % quick_step:
                        continue
                    if "pyramid" in o and (n < d + 2 or d > 4 or d < 2 or n > 300):
                        continue
                    if iters > 300 and "pyramid" in o and tier == "quick":
                        continue
                    r = 1 if 2 * d + 1 <= n else 0
                    k = min(3, n - 1) if ":random" in o else max(1, min(3, n - 1))
                    if ":random" in o and n < 2:
                        continue
                    c = dict(O.DEFAULT, opt=o, n=n, d=d, iters=iters, k=k, r=r)
                    c.update(v)
                    if valid(c) and (filt is None or filt(c)):
                        out.append(c)
        return out

    def run(cfg, ctx):
        salt = ctx.choose(salts, "salt")
        cost = ctx.pick([O.bumpy, _quant], "cost") if cfg["n"] * cfg["iters"] * cfg["d"] <= 2000 else O.bumpy
        keep = cfg["n"] * cfg["iters"] <= 6000 if keep_state is None else keep_state
        with rng.controlled(rng.FixedSource(5 + salt)):
            tr = O.Trace(cfg, cost, snapshots=snapshots, keep_state=keep, logs=logs)
            for _ in range(calls):
                tr.optimize()
                apply(mons, tr, tr.calls[-1])
        for m in finish_mons:
            m(tr)
        for t in (0, len(tr.X) - 1):
            ctx.state(t, tr.X[t], tr.C[t])
        ctx.step(len(tr.X))
        ctx.validated()
        ctx.sample(lambda: "%s n=%d d=%d iters=%d -> cost %r" % (cfg["opt"], cfg["n"], cfg["d"], cfg["iters"], tr.calls[0].result[0]))
    return Harness(name, run, configs, about="sizes")


def extreme_family(mons, opts=None, variants=({},), name="extreme", finish_mons=(), filt=None):
    """A few runs far beyond any size a fixed buffer, batch or window would have: many iterations, particles, dimensions."""
    def configs(tier):
        out = []
        for o in (opts or (["global", "local", "general:star", "binary"] if tier == "quick" else [o for o in O.ALL_OPTS if "pyramid" not in o])):
            big = 20011 if ":random" not in o else 1500
            for n, d, iters in [(2, 1, 12007), (big, 1, 2), (3, 5003, 3)] + ([(2, 2, 70001)] if tier == "thorough" and o in O.CORE_OPTS else []):
                for v in variants:
                    c = dict(O.DEFAULT, opt=o, n=n, d=d, iters=iters, k=1 if n <= 2 else 2, r=0)
                    c.update(v)
                    if valid(c) and (filt is None or filt(c)):
                        out.append(c)
        return out

    def run(cfg, ctx):
        with rng.controlled(rng.FixedSource(7)):
            tr = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
            tr.optimize()
            apply(mons, tr, tr.calls[-1])
        for m in finish_mons:
            m(tr)
        ctx.state(cfg["opt"], cfg["n"], cfg["d"], cfg["iters"])
        ctx.step(len(tr.X))
        ctx.validated()
    return Harness(name, run, configs, about="sizes")
