"""Swarm generation: every draw, shape, box, clamp, centre and init_pos."""
import itertools

import numpy as np

from .. import env, opt as O, rng
from ..core import check
from ..runner import Harness
import pyswarms.backend as P

LET = [0.0, 0.5, 1 - 2.0 ** -40]
BOX = {None: None, "unit": lambda d: ([0.0] * d, [1.0] * d), "asym": lambda d: ([-1.0 - j for j in range(d)], [0.5 + 2 * j for j in range(d)]),
       "neg": lambda d: ([-8.0] * d, [-4.0 + j for j in range(d)]), "int": lambda d: ([-3] * d, [5] * d),
       "iflo": lambda d: ([-1] * d, [0.75 + 0.5 * j for j in range(d)]), "ifhi": lambda d: ([-2.75 + 0.5 * j for j in range(d)], [2] * d),
       "f32": lambda d: (np.array([-1.5] * d, dtype=np.float32), np.array([0.25 + j for j in range(d)], dtype=np.float32))}
CLAMP = {None: None, "s": lambda d: (-0.5, 0.25), "lo0": lambda d: (0, 2), "hi0": lambda d: (-2.0, 0), "same": lambda d: (0.5, 0.5),
         "dim": lambda d: (np.array([-1.0 - j for j in range(d)]), np.array([0.5 + j for j in range(d)]))}
FORMS = {"array": np.array, "list": list, "tuple": tuple}


def letters(k):
    return LET if k <= 4 else [0.0, 0.5]


def box_of(name, d, form="array"):
    if BOX[name] is None:
        return None
    lo, hi = BOX[name](d)
    return (FORMS[form](lo), FORMS[form](hi))


def affine(u, lo, hi):
    return lo + (hi - lo) * u


def product_check(cfg, acc, options, what):
    """options: per element the admissible values; all combinations equally often."""
    want = set(itertools.product(*options))
    got = set(acc["seen"])
    check(got <= want, "%s: unexpected values %s (per element expected %s)" % (what, sorted(got - want)[:3], options))
    check(got == want, "%s: over all draws only %d of %d combinations are reached: elements do not have draws of their own" % (what, len(got), len(want)))
    check(len(set(acc["seen"].values())) == 1, "%s: combinations are not equally frequent: %s" % (what, sorted(acc["seen"].items())[:6]))


def seen(ctx, A, n, d, what):
    A = np.asarray(A)
    check(A.shape == (n, d), lambda: "%s: shape %s instead of %s" % (what, A.shape, (n, d)))
    key = tuple(A.ravel().tolist())
    s = ctx.acc.setdefault("seen", {})
    s[key] = s.get(key, 0) + 1
    ctx.state(what, key)
    ctx.step()
    ctx.validated()
    ctx.outcome(key)
    ctx.sample(lambda: "%s -> %s" % (what, A.tolist()))


SHAPES = [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3)]


def shapes(tier):
    return SHAPES if tier == "quick" else SHAPES + [(4, 2), (2, 4), (3, 3)]


def pos_configs(tier):
    out = []
    for n, d in shapes(tier):
        for b in BOX:
            for form in FORMS if b and n * d <= 3 else ("array",):
                out.append(dict(n=n, d=d, box=b, form=form, center=1.0, via="generate"))
                out.append(dict(n=n, d=d, box=b, form=form, center=1.0, via="create"))
        for c in (4.0, -2.0, 0.0, "vec", "list") if n * d <= 4 else (4.0, "vec"):
            out.append(dict(n=n, d=d, box=None, form="array", center=c, via="generate"))
            out.append(dict(n=n, d=d, box=None, form="array", center=c, via="create"))
    return out


def center_of(cfg):
    c = cfg["center"]
    return np.array([0.5 + 2 * j for j in range(cfg["d"])]) if c == "vec" else np.array([-1.0] * cfg["d"]) if c == "list" else c


def pos_run(cfg, ctx):
    n, d = cfg["n"], cfg["d"]
    box = box_of(cfg["box"], d, cfg["form"])
    src = rng.ElementSource(ctx, letters(n * d))
    kw = dict(bounds=box, center=center_of(cfg)) if cfg["center"] != 1.0 or ctx is None else dict(bounds=box)
    if cfg["via"] == "generate":
        with rng.controlled(src):
            A = P.generate_swarm(n, d, **kw)
    else:
        ph = rng.PhaseSource(src, rng.FixedSource(3))
        ph.enumerating = True
        # the velocity draws stay fixed: they are enumerated in their own harness
        real = P.generators.generate_velocity

        def velocity(*a, **k):
            ph.enumerating = False
            try:
                return real(*a, **k)
            finally:
                ph.enumerating = True
        P.generators.generate_velocity = velocity
        try:
            with rng.controlled(ph):
                s = P.create_swarm(n, d, **kw)
        finally:
            P.generators.generate_velocity = real
        A = s.position
        check(np.shape(s.velocity) == (n, d), lambda: "create_swarm: velocity shape %s" % (np.shape(s.velocity),))
        check(s.n_particles == n and s.dimensions == d, "create_swarm: n_particles/dimensions of the swarm")
    seen(ctx, A, n, d, "%s n=%d d=%d bounds=%s center=%s" % (cfg["via"], n, d, cfg["box"], cfg["center"]))


def pos_finish(cfg, acc, stats):
    n, d = cfg["n"], cfg["d"]
    c = np.broadcast_to(np.asarray(center_of(cfg), dtype=float), (d,)) if cfg["center"] != 1.0 else np.ones(d)
    lo, hi = ([0.0] * d, [1.0] * d) if cfg["box"] is None else [np.asarray(b, dtype=float) for b in BOX[cfg["box"]](d)]
    if cfg["center"] == 0.0:
        check(set(acc["seen"]) <= {(0.0,) * (n * d)}, "center 0: %s" % list(acc["seen"])[:2])
        return
    opts = [[float(c[j] * affine(u, lo[j], hi[j])) for u in letters(n * d)] for _ in range(n) for j in range(d)]
    product_check(cfg, acc, opts, "generate_swarm n=%d d=%d bounds=%s center=%s" % (n, d, cfg["box"], cfg["center"]))


def vel_configs(tier):
    return [dict(n=n, d=d, clamp=c) for n, d in shapes(tier) for c in CLAMP]


def clamp_of(cfg):
    return CLAMP[cfg["clamp"]](cfg["d"]) if cfg["clamp"] else None


def vel_run(cfg, ctx):
    n, d = cfg["n"], cfg["d"]
    with rng.controlled(rng.ElementSource(ctx, letters(n * d))):
        A = P.generate_velocity(n, d, clamp=clamp_of(cfg)) if cfg["clamp"] else P.generate_velocity(n, d)
    seen(ctx, A, n, d, "velocity n=%d d=%d clamp=%s" % (n, d, cfg["clamp"]))


def vel_finish(cfg, acc, stats):
    n, d = cfg["n"], cfg["d"]
    c = clamp_of(cfg) or (0.0, 1.0)
    lo, hi = [np.broadcast_to(np.asarray(x, dtype=float), (d,)) for x in c]
    if cfg["clamp"] == "same":
        check(set(acc["seen"]) == {(0.5,) * (n * d)}, "clamp (0.5, 0.5): %s" % list(acc["seen"])[:2])
        return
    opts = [[float((hi[j] - lo[j]) * u + lo[j]) for u in letters(n * d)] for _ in range(n) for j in range(d)]
    product_check(cfg, acc, opts, "generate_velocity n=%d d=%d clamp=%s" % (n, d, cfg["clamp"]))


def disc_configs(tier):
    out = [dict(n=n, d=d, binary=True) for n, d in shapes(tier) + [(1, 4), (5, 1)]]
    out += [dict(n=n, d=d, binary=False) for n, d in ((1, 1), (3, 1), (1, 2), (2, 2), (1, 3), (2, 3), (1, 4)) + (((2, 4), (3, 3)) if tier == "thorough" else ())]
    return out


def disc_run(cfg, ctx):
    n, d = cfg["n"], cfg["d"]
    units = [(i + 0.5) / d for i in range(d)] if not cfg["binary"] else [0.25, 0.75]
    if n * d > 6 and not cfg["binary"]:
        units = units[:3] if d > 3 else units
    with rng.controlled(rng.ElementSource(ctx, units)):
        A = P.generate_discrete_swarm(n, d, binary=cfg["binary"])
    A = np.asarray(A)
    if cfg["binary"]:
        check(set(np.unique(A).tolist()) <= {0, 1}, lambda: "binary swarm %s" % A.tolist())
    else:
        for row in A:
            check(sorted(row.tolist()) == list(range(d)), lambda: "discrete swarm row %s is not a permutation" % row.tolist())
    seen(ctx, A, n, d, "discrete n=%d d=%d binary=%s" % (n, d, cfg["binary"]))


def disc_finish(cfg, acc, stats):
    n, d = cfg["n"], cfg["d"]
    if cfg["binary"]:
        product_check(cfg, acc, [[0, 1]] * (n * d), "binary swarm n=%d d=%d" % (n, d))
        return
    rows = list(itertools.permutations(range(d)))
    want = set(sum((r for r in c), ()) for c in itertools.product(rows, repeat=n))
    if n * d > 6 and d > 3:
        return
    check(set(acc["seen"]) == want, "discrete swarm n=%d d=%d: %d of %d permutations reached" % (n, d, len(set(acc["seen"]) & want), len(want)))


# ---------------------------------------------------------------- init_pos

def init_configs(tier):
    return [dict(n=n, d=d, box=b, form=f) for n, d in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)) for b in BOX for f in (FORMS if b else ("array",))]


def init_run(cfg, ctx):
    """init_pos inside everywhere except at most one element on, just inside or just outside a bound; wrong shapes."""
    n, d = cfg["n"], cfg["d"]
    box = box_of(cfg["box"], d, cfg["form"])
    lo, hi = BOX[cfg["box"]](d) if box is not None else ([-3.0] * d, [3.0] * d)
    A = np.array([[lo[j] + (hi[j] - lo[j]) * 0.25 * ((i + j) % 4 + 0.5) for j in range(d)] for i in range(n)], dtype=float)
    i, j = ctx.choose(n, "row"), ctx.choose(d, "col")
    kind = ctx.pick(["inside", "lo", "hi", "below", "above", "far", "rows+1", "rows-1", "cols+1", "flat", "transposed"], "kind")
    bad = kind in ("below", "above", "far") and box is not None
    if kind == "lo":
        A[i, j] = lo[j]
    elif kind == "hi":
        A[i, j] = hi[j]
    elif kind == "below":
        A[i, j] = np.nextafter(float(lo[j]), -1e9)
    elif kind == "above":
        A[i, j] = np.nextafter(float(hi[j]), 1e9)
    elif kind == "far":
        A[i, j] = 1e6
    elif kind == "rows+1":
        A, bad = np.vstack([A, A[:1]]), True
    elif kind == "rows-1":
        if n == 1:
            return
        A, bad = A[1:], True
    elif kind == "cols+1":
        A, bad = np.hstack([A, A[:, :1]]), True
    elif kind == "flat":
        A, bad = A.ravel(), True
    elif kind == "transposed":
        if n == d:
            return
        A, bad = A.T.copy(), True
    if bad and kind in ("rows+1", "rows-1", "cols+1", "flat", "transposed") and box is not None and kind != "x":
        A = np.full(A.shape, 0.5 * (max(lo) + min(hi)) if max(lo) <= min(hi) else float(lo[0]))
    B = A.copy()
    via = ctx.pick(["generate", "create", "global", "local", "general"], "via")
    what = "%s with init_pos %s, bounds %s" % (via, A.tolist(), cfg["box"])
    with rng.controlled(rng.FixedSource(4)):
        try:
            if via == "generate":
                r = P.generate_swarm(n, d, bounds=box, init_pos=A)
            elif via == "create":
                r = P.create_swarm(n, d, bounds=box, init_pos=A).position
            else:
                c = dict(O.DEFAULT, n=n, d=d, k=1, opt={"global": "global", "local": "local", "general": "general:star"}[via])
                inp = O.inputs(c)
                inp.update(bounds=box, init_pos=A)
                r = O.build(c, inp).swarm.position
            r = np.asarray(r)
        except ValueError:
            r = "ValueError"
    if bad:
        check(isinstance(r, str), lambda: "%s: accepted" % what)
    else:
        check(not isinstance(r, str), lambda: "%s: ValueError" % what)
        check(np.array_equal(r, B), lambda: "%s: swarm starts at %s" % (what, r.tolist()))
    check(np.array_equal(A, B), "%s: init_pos modified" % what)
    ctx.state(cfg, i, j, kind, via)
    ctx.step()
    ctx.validated()
    ctx.outcome(kind, isinstance(r, str))


def binit_configs(tier):
    return [dict(n=n, d=d) for n, d in ((1, 1), (2, 1), (1, 2), (1, 3), (3, 1), (2, 2))]


def binit_run(cfg, ctx):
    n, d = cfg["n"], cfg["d"]
    A = np.array([[ctx.pick([0, 1, 2], "v") for _ in range(d)] for _ in range(n)])
    via = ctx.pick(["generate", "create", "binary"], "via")
    bad = len(set(A.ravel().tolist())) > 2
    if not bad and (A == 2).any():
        return
    with rng.controlled(rng.FixedSource(4)):
        try:
            if via == "generate":
                r = P.generate_discrete_swarm(n, d, binary=True, init_pos=A)
            elif via == "create":
                r = P.create_swarm(n, d, discrete=True, binary=True, init_pos=A).position
            else:
                c = dict(O.DEFAULT, n=n, d=d, k=1, opt="binary")
                inp = O.inputs(c)
                inp.update(init_pos=A)
                r = O.build(c, inp).swarm.position
            r = np.asarray(r)
        except ValueError:
            r = "ValueError"
    what = "binary init_pos %s via %s" % (A.tolist(), via)
    if bad:
        check(isinstance(r, str), lambda: "%s: accepted" % what)
    else:
        check(not isinstance(r, str) and np.array_equal(r, A), lambda: "%s: became %r" % (what, r))
    ctx.state(A, via)
    ctx.step()
    ctx.validated()


# ---------------------------------------------------------------- optimizers

def ctor_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        if "vn" in o or "random" in o:
            continue
        for n, d in ((1, 1), (2, 1), (1, 2)):
            if "pyramid" in o and d < 2:
                continue
            for b in (None, "asym") if o != "binary" else (None,):
                for c in (None, "s"):
                    for op in ("new", "reset"):
                        for ce in (None, 4.0, "vec") if b is None and o != "binary" else (None,):
                            out.append(dict(opt=o, n=n, d=d, box=b, clamp=c, op=op, center=ce))
    return out


def ctor_run(cfg, ctx):
    """The swarm an optimizer starts from: every combination of positions and velocities."""
    n, d = cfg["n"], cfg["d"]
    c = dict(O.DEFAULT, opt=cfg["opt"], n=n, d=d, k=1, center=cfg["center"])
    inp = O.inputs(c)
    inp.update(bounds=box_of(cfg["box"], d), clamp=clamp_of(cfg))
    src = rng.PhaseSource(rng.ElementSource(ctx, [0.0, 0.75]), rng.FixedSource(3))
    with rng.controlled(src):
        src.enumerating = cfg["op"] == "new"
        o = O.build(c, inp)
        if cfg["op"] == "reset":
            o.optimize(lambda X: np.zeros(len(X)), 1, verbose=False)
            src.enumerating = True
            o.reset()
        src.enumerating = False
    A = np.hstack([np.asarray(o.swarm.position, dtype=float), np.asarray(o.swarm.velocity)])
    seen(ctx, A, n, 2 * d, "%s %s n=%d d=%d bounds=%s clamp=%s" % (cfg["op"], cfg["opt"], n, d, cfg["box"], cfg["clamp"]))
    check(o.swarm.n_particles == n and o.swarm.dimensions == d, "swarm size")


def ctor_finish(cfg, acc, stats):
    n, d = cfg["n"], cfg["d"]
    U = [0.0, 0.75]
    lo, hi = ([0.0] * d, [1.0] * d) if cfg["box"] is None else BOX[cfg["box"]](d)
    cl = clamp_of(cfg) or (0.0, 1.0)
    pos = [[0.0, 1.0]] * d if cfg["opt"] == "binary" else [[affine(u, lo[j], hi[j]) for u in U] for j in range(d)]
    if cfg["center"] is not None:
        ce = np.broadcast_to(np.asarray(O.make_center(cfg), dtype=float), (d,))
        pos = [[float(ce[j] * u) for u in pos[j]] for j in range(d)]
    vel = [[(cl[1] - cl[0]) * u + cl[0] for u in U]] * d
    product_check(cfg, acc, (pos + vel) * n, "%s %s n=%d d=%d bounds=%s clamp=%s" % (cfg["op"], cfg["opt"], n, d, cfg["box"], cfg["clamp"]))


# ---------------------------------------------------------------- large swarms

def size_configs(tier):
    ns = [(n, 2) for n in (60, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096, 4097, 10001) + ((65537,) if tier == "quick" else (65536, 65537, 100003, 1000003))]
    ds = [(2, d) for d in (60, 127, 128, 129, 255, 256, 257, 1000, 1025, 4097, 10001)] + [(150, 150), (64, 64), (300, 20)]
    return [dict(n=n, d=d, what=w) for n, d in ns + ds for w in ("free", "box", "velocity", "clamped", "binary", "create", "init", "discrete") if w != "discrete" or d < 2000]


def size_run(cfg, ctx):
    """Every element has a draw of its own, in range, however large the swarm: with a
    generator that never repeats a value no two elements may agree."""
    n, d, w = cfg["n"], cfg["d"], cfg["what"]
    lb, ub = np.arange(d) * 1.0, np.arange(d) + 0.5
    src = Distinct()
    with rng.controlled(src):
        if w == "init":
            A = np.arange(n * d, dtype=float).reshape(n, d) / (n * d)
            r = P.generate_swarm(n, d, bounds=(np.zeros(d), np.ones(d)), init_pos=A.copy())
            check(np.array_equal(r, A), "init_pos of %dx%d changed" % (n, d))
            B = A.copy()
            B[n - 1, d - 1] = 1.5
            B2 = A.copy()
            B2[n // 2, d // 2] = -1e-9
            for bad in (B, B2):
                try:
                    P.generate_swarm(n, d, bounds=(np.zeros(d), np.ones(d)), init_pos=bad)
                    ok = False
                except ValueError:
                    ok = True
                check(ok, "%dx%d: an init_pos with one element out of bounds is accepted" % (n, d))
        elif w == "free":
            A = P.generate_swarm(n, d)
        elif w == "box":
            A = P.generate_swarm(n, d, bounds=(lb, ub))
        elif w == "velocity":
            A = P.generate_velocity(n, d)
        elif w == "clamped":
            A = P.generate_velocity(n, d, clamp=(-1.0, 3.0))
        elif w == "create":
            s = P.create_swarm(n, d, bounds=(lb, ub), clamp=(-1.0, 3.0))
            A, V = s.position, s.velocity
        elif w == "binary":
            A = P.generate_discrete_swarm(n, d, binary=True)
        else:
            A = P.generate_discrete_swarm(n, d)
    what = "%s %dx%d" % (w, n, d)
    check(np.shape(A) == (n, d), lambda: "%s: shape %s" % (what, np.shape(A)))
    if w == "box" or w == "create":
        check((A >= lb).all() and (A <= ub).all(), "%s: outside the bounds" % what)
        A = (A - lb) / 0.5
    if w == "create":
        V = (V + 1) / 4
        check(np.shape(V) == (n, d) and len(np.unique(np.round(V * Distinct.M - 0.5))) == n * d, "%s: velocities share draws" % what)
    if w == "clamped":
        check((A >= -1).all() and (A <= 3).all(), "%s: outside the clamp" % what)
        A = (A + 1) / 4
    if w in ("free", "box", "velocity", "clamped", "create"):
        check((A >= 0).all() and (A <= 1).all(), "%s: outside [0, 1]" % what)
        check(len(np.unique(np.round(A * Distinct.M - 0.5))) == n * d, lambda: "%s: only %d different values in %d draws" % (what, len(np.unique(np.round(A * Distinct.M - 0.5))), n * d))
    elif w == "binary":
        check(set(np.unique(A).tolist()) <= {0, 1}, "%s: not binary" % what)
        if n * d > 100:
            check(abs(float(np.mean(A)) - 0.5) < 0.1, lambda: "%s: %s of the bits are ones" % (what, np.mean(A)))
            if n < 500 and d < 500:
                rows, cols = {r.tobytes() for r in np.ascontiguousarray(A)}, {c.tobytes() for c in np.ascontiguousarray(A.T)}
                check(len(rows) == n or d < 60, "%s: particles share their draws" % what)
                check(len(cols) == d or n < 60, "%s: dimensions share their draws" % what)
    elif w == "discrete":
        check((np.sort(A, axis=1) == np.arange(d)).all(), "%s: rows are no permutations" % what)
        if d > 20 and n > 1:
            check(len({r.tobytes() for r in np.ascontiguousarray(A)}) == n, "%s: particles share their permutation" % what)
    ctx.state(cfg)
    ctx.step()
    ctx.validated()
    ctx.outcome(w, n, d)
    ctx.sample(lambda: what)


class Distinct(rng.Source):
    """Never gives the same unit twice (a permutation of M values); bits by a hash."""
    M = 2 ** 23

    def __init__(self):
        self.i = 0

    def unit(self, kind):
        self.i += 1
        h = self.i % self.M            # a permutation of 0..M-1
        for c in (0x2C1B3C6D, 0x297A2D39 | 1):
            h = ((h ^ h >> 11) * c) % self.M
        return (h + 0.5) / self.M

    def index(self, n, kind):
        self.i += 1
        h = (self.i * 2654435761 + 0x9E3779B9) & 0xFFFFFFFF
        h = ((h ^ h >> 15) * 2246822519) & 0xFFFFFFFF
        return (h ^ h >> 13) % n


BOUNDS = ("every draw over 2-3 letters per element for shapes up to 2x3 (thorough 3x3, 4x2) x eight boxes x three forms x six clamps x six centres; all permutations up to 4 dimensions; "
          "init_pos with every element on, an ulp inside or outside each bound, five wrong shapes, through the generators and the optimizers; all binary init_pos over {0,1,2} up to 2x2; the swarm of every optimizer after construction and reset(), with centres; sizes up to 65537 particles or 10001 dimensions with all draws distinct")
ASSUMPTIONS = ["a centre different from 1 is only used without bounds", "lower < upper", "binary init_pos with two distinct values consists of 0 and 1"]
HARNESSES = [
    Harness("positions", pos_run, pos_configs, finish=pos_finish),
    Harness("velocities", vel_run, vel_configs, finish=vel_finish),
    Harness("discrete", disc_run, disc_configs, finish=disc_finish),
    Harness("init_pos", init_run, init_configs),
    Harness("binary init_pos", binit_run, binit_configs),
    Harness("sizes", size_run, size_configs),
    Harness("optimizers", ctor_run, ctor_configs, finish=ctor_finish),
]
