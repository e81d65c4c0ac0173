"""Inputs stay untouched; optimizers do not interfere in any interleaving."""
import copy
import itertools
import os
import sys
import threading

import numpy as np

from .. import families as F
from .. import opt as O
from .. import env, pristine, rng
from ..core import Violation, check, dev_product
from ..runner import Harness

from pyswarms.backend import generators as gen
from pyswarms.backend.swarms import Swarm
from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler


def frozen_copy(x):
    return copy.deepcopy(x)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


ALTS = {
    "opt": O.ALL_OPTS[1:], "bounds": ["asym", "int", "wide"], "bform": ["list", "listpair", "tuple"], "bh": O.BH[1:], "vh": O.VH[1:],
    "clamp": ["s", "dim"], "opts": ["far", "int"], "oh": [{"w": "exp_decay"}, {"w": "lin_variation", "c1": "nonlin_mod", "c2": "random"}],
    "init": ["lat", "same", "corner"], "center": ["arr"], "ftol": [0.05], "readonly": [True],
}


def in_configs(tier):
    out = []
    for c in dev_product(dict(O.DEFAULT, n=4, r=0, iters=3), ALTS, 2 if tier == "quick" else 3):
        if F.valid(c):
            out.append(c)
    # in-place work on positions is most likely with bounds and a given start
    for o in O.CONT_OPTS:
        for bh in O.BH:
            for vh in O.VH:
                for ro in (False, True):
                    out.append(dict(O.DEFAULT, opt=o, n=4, r=0, bounds="asym", bh=bh, vh=vh, init="corner", clamp="dim", opts="far", readonly=ro))
    return out


def freeze_arrays(x):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, dict):
        [freeze_arrays(v) for v in x.values()]
    elif isinstance(x, (list, tuple)):
        [freeze_arrays(v) for v in x]


def in_run(cfg, ctx):
    cfg = dict(cfg)
    inp = O.inputs(cfg)
    if cfg["center"] == "arr":
        cfg["center"] = np.array([2.0, 0.5])
    inp["center"] = cfg["center"]
    inp["kwargs"] = {"a": np.array([1.0, 2.0]), "b": {"c": [1, 2]}}
    if cfg.get("readonly"):
        freeze_arrays(inp)
    before = frozen_copy(inp)
    ids = {k: id(v) for k, v in inp.items()}
    costs = []

    def cost(t, X, **kw):
        c = O.bumpy(t, X) - t % 3
        if cfg.get("readonly"):
            c.flags.writeable = False
        costs.append((c, c.copy()))
        return c

    def verify(what):
        for k in before:
            check(same(before[k], inp[k]) and ids[k] == id(inp[k]), lambda: "%s modified the caller's %s: %s was %s" % (what, k, inp[k], before[k]))
        for t, (c, keep) in enumerate(costs):
            check(np.array_equal(c, keep), lambda: "%s modified the costs returned in evaluation %d: %s was %s" % (what, t, c, keep))
    src = rng.PatternSource(ctx, patterns=3)
    ops = ["optimize", ctx.pick(["optimize", "reset"], "op", free=True), "optimize"]
    with rng.controlled(src):
        tr = O.Trace(cfg, cost, inp=inp, snapshots=False, keep_state=False)
        verify("construction")
        for op in ops:
            if op == "reset":
                tr.reset()
            else:
                tr.optimize(iters=2, **inp["kwargs"])
            verify("%s (%s)" % (op, ops))
    for t, X in enumerate(tr.X):
        ctx.state(t, X)
    ctx.step(len(tr.X))
    ctx.validated()


# ------------------------------------------------------------ function level

def fn_configs(tier):
    return [dict(fn=f, d=d) for f in ("generate_swarm", "create_swarm", "create_binary", "generate_velocity", "bh", "vh", "oh") for d in (1, 2, 3) if not (f == "vh" and d == 3)]


def fn_run(cfg, ctx):
    d, fn = cfg["d"], cfg["fn"]
    b = O.make_bounds(O.full(dict(d=d, bounds="asym", bform=ctx.pick(["array", "list", "tuple", "listpair"], "form"))))
    clamp = O.CLAMPS["dim"](d)
    opts = {"c1": 2.0, "c2": 1.0, "w": 0.7, "k": 2, "p": 1}
    init = np.array([[float(b[0][j]) for j in range(d)], [float(b[1][j]) for j in range(d)]])
    binit = np.array([[j % 2 for j in range(d)], [1] * d])
    args = dict(b=b, clamp=clamp, opts=opts, init=init, binit=binit)
    before = frozen_copy(args)
    with rng.controlled(rng.FixedSource(1)):
        if fn == "generate_swarm":
            r = gen.generate_swarm(2, d, bounds=b, init_pos=init)
        elif fn == "create_swarm":
            s = gen.create_swarm(2, d, bounds=b, init_pos=init, clamp=clamp, options=opts)
        elif fn == "create_binary":
            s = gen.create_swarm(2, d, discrete=True, binary=True, init_pos=binit, clamp=clamp, options=opts)
        elif fn == "generate_velocity":
            gen.generate_velocity(2, d, clamp=clamp)
        elif fn == "bh":
            h = BoundaryHandler(strategy=ctx.pick(O.BH, "bh"))
            h.memory = init
            for c in range(2):
                x = np.array([[ctx.pick([-9.0, 0.1, 9.0], "x") for _ in range(d)] for _ in range(2)]) if d < 3 and not c else np.full((2, d), 9.0)
                h(x, b)
                check(same(before, args), lambda: "boundary handler %s modified its memory or bounds" % h.strategy)
        elif fn == "vh":
            h = VelocityHandler(strategy=ctx.pick(O.VH, "vh"))
            h.memory = init
            v = np.array([[ctx.pick([-2.0, 3.0], "v") for _ in range(d)] for _ in range(2)])
            x = np.array([[ctx.pick([-9.0, 0.1], "x") for _ in range(d)] for _ in range(2)])
            for c in range(2):
                h(v, clamp, position=x, bounds=b)
                check(same(before, args), lambda: "velocity handler %s modified its memory, clamp or bounds" % h.strategy)
        elif fn == "oh":
            names = ["exp_decay", "lin_variation", "nonlin_mod", "random"]
            st = {k: ctx.pick(names, k) for k in ("w", "c1", "c2")}
            ks = dict(st)
            end = {"w": 0.4, "c1": 0.5, "c2": 2.5}
            ke = dict(end)
            h = OptionsHandler(strategy=st)
            for i in range(3):
                out = h(opts, iternow=i, itermax=5, end_opts=end)
                check(out is not opts, "the options handler returned its input")
                out["w"] = 99.0
                check(st == ks and end == ke and same(before["opts"], opts), lambda: "options handler %s modified its inputs" % st)
    check(same(before, args), lambda: "%s modified its inputs: %s was %s" % (fn, args, before))
    ctx.state(repr(cfg), repr(ctx.choices()))
    ctx.step()
    ctx.validated()


# ------------------------------------------------------------ interleavings

class Coop:
    """Runs two scripts in threads, switching only where they yield."""

    def __init__(self, ctx, scripts):
        self.ctx = ctx
        self.go = [threading.Semaphore(0) for _ in scripts]
        self.back = threading.Semaphore(0)
        self.done = [False] * len(scripts)
        self.exc = [None] * len(scripts)
        self.kill = False
        self.order = []
        self.threads = [threading.Thread(target=self._main, args=(i, f), daemon=True) for i, f in enumerate(scripts)]

    def _main(self, i, f):
        self.go[i].acquire()
        try:
            if not self.kill:
                f(lambda: self.pause(i))
        except BaseException as e:
            self.exc[i] = e
        self.done[i] = True
        self.back.release()

    def pause(self, i):
        self.back.release()
        self.go[i].acquire()
        if self.kill:
            raise SystemExit

    def run(self):
        for t in self.threads:
            t.start()
        cur = 0
        try:
            while not all(self.done):
                live = [i for i in range(len(self.done)) if not self.done[i]]
                if cur in live and len(live) > 1:
                    if self.ctx.choose(2, "switch"):
                        cur = [i for i in live if i != cur][0]
                elif cur not in live:
                    cur = live[0]
                self.order.append(cur)
                self.go[cur].release()
                self.back.acquire()
        finally:
            self.kill = True
            for i, t in enumerate(self.threads):
                if not self.done[i]:
                    self.go[i].release()
            for t in self.threads:
                t.join(5)
        for e in self.exc:
            if e is not None:
                raise e


def inter_configs(tier):
    out = []
    variants = [dict(), dict(bounds="asym", bh="intermediate", vh="zero", opts="far", init="corner"), dict(bounds="asym", bh="shrink", vh="invert", opts="far"),
                dict(clamp="dim", vh="adjust", bounds="wide"), dict(oh={"w": "exp_decay", "c1": "random"}), dict(ftol=0.3, ftol_iter=2)]
    for o in O.ALL_OPTS:
        for i, v in enumerate(variants):
            c = dict(O.DEFAULT, opt=o, n=4, d=2, k=2, r=0)
            c.update(v)
            if F.valid(c):
                if i and tier == "quick":
                    c["bound"] = 1 if i > 1 else 2
                    if i > 1 and o not in O.CORE_OPTS:
                        continue
                out.append(dict(c, other=o, shared=True))
                if not v:
                    out.append(dict(c, other=o, shared=False))
    for a, b in [("global", "local"), ("local", "local_static"), ("general:ring", "general:ring_static"), ("binary", "local"), ("general:star", "global"),
                 ("general:random", "general:pyramid"), ("general:vn", "general:ring_static")]:
        out.append(dict(O.DEFAULT, opt=a, other=b, n=4, d=2, k=2, r=0, shared=True))
    return out


def script(cfg, who, inp, store):
    def f(pause):
        with rng.controlled(rng.FixedSource(20 + who)):
            tr = store[who] = O.Trace(cfg, O.bumpy, inp=inp, snapshots=False, keep_state=False, capture=False)
            tr.on_eval = lambda t, X: pause()
            pause()
            tr.optimize(iters=3)
            pause()
            if cfg["script"] == "reset":
                tr.reset()
                pause()
            tr.optimize(iters=2)
    return f


def solo(cfg, who):
    store = {}
    script(cfg, who, O.inputs(cfg), store)(lambda: None)
    return store[who]


def inter_run(cfg, ctx):
    cfgs = []
    for who in (0, 1):
        c = dict(cfg, script="reset" if who else "again")
        if who:
            c["opt"] = cfg["other"]
            if not cfg["shared"]:
                c.update(n=5, d=3, opts="dy2", k=1)
        cfgs.append(c)
    if "solo" not in ctx.acc:
        ctx.acc["solo"] = [solo(cfgs[w], w) for w in (0, 1)]
    inp0 = O.inputs(cfgs[0])
    inps = [inp0, dict(O.inputs(cfgs[1]), **inp0) if cfg["shared"] and O.make_options(O.full(cfgs[0])).keys() == O.make_options(O.full(cfgs[1])).keys() else O.inputs(cfgs[1])]
    store = {}
    coop = Coop(ctx, [script(cfgs[w], w, inps[w], store) for w in (0, 1)])
    coop.run()
    for w in (0, 1):
        a, b = store[w], ctx.acc["solo"][w]
        what = "%s interleaved with %s in the order %s" % (cfgs[w]["opt"], cfgs[1 - w]["opt"], "".join(map(str, coop.order)))
        check(len(a.X) == len(b.X), lambda: "%s: %d evaluations, alone %d" % (what, len(a.X), len(b.X)))
        for t in range(len(a.X)):
            check(np.array_equal(a.X[t], b.X[t]), lambda: "%s: evaluation %d at %s, alone at %s" % (what, t, a.X[t].tolist(), b.X[t].tolist()))
        for c, e in zip(a.calls, b.calls):
            check(c.result[0] == e.result[0] and np.array_equal(c.result[1], e.result[1]), lambda: "%s: result %r, alone %r" % (what, c.result, e.result))
        for h in O.HISTS:
            check(len(getattr(a.opt, h)) == len(getattr(b.opt, h)) and all(np.array_equal(x, y) for x, y in zip(getattr(a.opt, h), getattr(b.opt, h))),
                  lambda: "%s: %s differs" % (what, h))
    ctx.state(repr(cfg), tuple(coop.order))
    ctx.step(len(coop.order))
    ctx.validated()
    ctx.outcome(tuple(coop.order))
    ctx.sample(lambda: "%s with %s: order %s" % (cfgs[0]["opt"], cfgs[1]["opt"], "".join(map(str, coop.order))))


class Lines:
    """Counts the lines a thread executes inside the library; calls stop() at the chosen one."""

    def __init__(self, at, stop):
        self.n, self.at, self.stop, self.where, self.over = 0, at, stop, None, False

    def glob(self, frame, event, arg):
        return self.local if not self.over and env.in_library(frame.f_code.co_filename) else None

    def local(self, frame, event, arg):
        if event == "line":
            if self.n == self.at:
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                sys.settrace(None)
                self.over = True
                self.stop()
            self.n += 1
        return None if self.over else self.local


def pre_configs(tier):
    out = []
    variants = [dict(), dict(bounds="asym", bh="shrink", vh="invert", opts="far"), dict(bounds="asym", bh="random", vh="zero", opts="far", clamp="dim"),
                dict(clamp="dim", vh="adjust", bounds="wide", bh="intermediate", opts="far"), dict(oh={"w": "exp_decay", "c1": "lin_variation", "c2": "random"}, ftol=0.3, ftol_iter=2),
                dict(bounds="asym", bh="reflective", opts="far"), dict(bounds="asym", bh="nearest", opts="far")]
    for o in O.ALL_OPTS:
        for i, v in enumerate(variants):
            if i and (o not in ("global", "local", "binary") if tier == "quick" else o not in O.CORE_OPTS and i > 2):
                continue
            c = dict(O.DEFAULT, opt=o, n=4, d=2, k=2, r=0)
            c.update(v)
            if F.valid(c):
                out.append(dict(c, other=o))
    for a, b in [("global", "local"), ("local", "binary"), ("general:star", "general:ring"), ("general:random", "general:pyramid"), ("general:vn", "general:ring_static")]:
        out.append(dict(O.DEFAULT, opt=a, other=b, n=4, d=2, k=2, r=0))
    return [dict(c, back=9 if tier == "thorough" else 1 if c["other"] == c["opt"] and c["bounds"] is None and c["oh"] is None else 0) for c in out]


def pre_script(cfg, who, store, lines):
    """Construct and run an optimizer under a line tracer of this thread."""
    inp = O.inputs(cfg)

    def f(pause):
        with rng.controlled(rng.FixedSource(40 + who)):
            if lines is not None:
                lines.stop = pause
            if lines is not None:
                sys.settrace(lines.glob)
            try:
                tr = store[who] = O.Trace(cfg, O.bumpy, inp=inp, snapshots=False, keep_state=False, capture=False)
                tr.optimize(iters=3)
            finally:
                sys.settrace(None)
    return f


def pre_run(cfg, ctx):
    """Two threads, each with an optimizer of its own: preempted at any line of the library, resumed when the other is done or part of the way."""
    cfgs = [cfg, dict(cfg, opt=cfg["other"], n=5, d=3, opts="dy2" if cfg["opts"] == "std" else cfg["opts"])]
    if "alone" not in ctx.acc:
        ctx.acc["alone"] = []
        for w in (0, 1):
            store, ln = {}, Lines(None, None)
            pre_script(cfgs[w], w, store, ln)(None)
            ctx.acc["alone"].append((store[w], ln.n))
    (a0, n0), (a1, n1) = ctx.acc["alone"]
    first = ctx.choose(n0, "line", free=True)
    b = ctx.choose(cfg["back"] + 1, "back", free=True) if cfg["back"] else 0
    # 0: the other thread runs to its end; otherwise it is preempted in its turn, at lines that move along with the first one
    second = None if b == 0 else (first + (b - 1) * max(1, n1 // cfg["back"])) % n1
    store, lines = {}, [Lines(first, None), None if second is None else Lines(second, None)]
    go, back, done, exc = [threading.Semaphore(0) for _ in (0, 1)], threading.Semaphore(0), [False, False], [None, None]

    def main(w):
        def pause():
            back.release()
            go[w].acquire()
        go[w].acquire()
        try:
            pre_script(cfgs[w], w, store, lines[w])(pause)
        except BaseException as e:
            exc[w] = e
        done[w] = True
        back.release()
    ts = [threading.Thread(target=main, args=(w,), daemon=True) for w in (0, 1)]
    for t in ts:
        t.start()
    for w in (0, 1, 0, 1):
        if not done[w]:
            go[w].release()
            back.acquire()
    for t in ts:
        t.join(10)
    what = "%s preempted at %s by %s" % (cfgs[0]["opt"], lines[0].where, cfgs[1]["opt"]) + (", itself preempted at %s" % lines[1].where if b else "")
    for w in (0, 1):
        if exc[w] is not None:
            check(False, lambda: "%s: %s fails with %r, alone it does not" % (what, cfgs[w]["opt"], exc[w]))
    for w, al in ((0, a0), (1, a1)):
        a = store[w]
        check(len(a.X) == len(al.X) and all(np.array_equal(x, y) for x, y in zip(a.X, al.X)), lambda: "%s: %s evaluates %s, alone %s" % (what, cfgs[w]["opt"], [x.tolist() for x in a.X], [x.tolist() for x in al.X]))
        check(a.calls[0].result[0] == al.calls[0].result[0] and np.array_equal(a.calls[0].result[1], al.calls[0].result[1]), lambda: "%s: result %r, alone %r" % (what, a.calls[0].result, al.calls[0].result))
        for h in O.HISTS:
            check(len(getattr(a.opt, h)) == len(getattr(al.opt, h)) and all(np.array_equal(x, y) for x, y in zip(getattr(a.opt, h), getattr(al.opt, h))), lambda: "%s: %s of %s differs" % (what, h, cfgs[w]["opt"]))
    ctx.state(repr(cfg), first, second)
    ctx.step(n0 + n1)
    ctx.validated()
    ctx.outcome(lines[0].where)


# ------------------------------------------------------------ fresh processes

class Fail(Exception):
    pass


def summary(tr):
    return dict(X=tr.X, results=[c.result for c in tr.calls], hist={h: [np.array(e) for e in getattr(tr.opt, h)] for h in O.HISTS},
                final=O.swarm_state(tr.opt))


def before(kind, cfg):
    """Something else done earlier in the same process."""
    with rng.controlled(rng.FixedSource(77)):
        if kind in ("same", "verbose"):
            tr = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
            tr.optimize(iters=4, verbose=kind == "verbose")
            tr.optimize(iters=1)
        elif kind == "reset":
            tr = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
            tr.optimize(iters=2)
            tr.reset()
            tr.optimize(iters=2)
        elif kind == "fail":
            def f(t, X, **kw):
                if t:
                    raise Fail()
                return O.bumpy(t, X) - 1e9
            tr = O.Trace(cfg, f, snapshots=False, keep_state=False)
            try:
                tr.optimize(iters=4)
            except Fail:
                pass
        elif kind == "low":
            tr = O.Trace(cfg, lambda t, X, **kw: O.bumpy(t, X) - 1e9, snapshots=False, keep_state=False)
            tr.optimize(iters=3)
        elif kind == "unused":
            O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)


def after(cfg, history):
    """What the optimizer cfg does in a process in which history happened before."""
    for kind, c in history:
        before(kind, c)
    with rng.controlled(rng.FixedSource(20)):
        tr = O.Trace(cfg, O.bumpy, snapshots=False, keep_state=False)
        tr.optimize(iters=3)
        tr.optimize(iters=2)
    return summary(tr)


def eq_summary(a, b, what):
    check(len(a["X"]) == len(b["X"]), lambda: "%s: %d evaluations, in a fresh process %d" % (what, len(b["X"]), len(a["X"])))
    for t in range(len(a["X"])):
        check(np.array_equal(a["X"][t], b["X"][t]), lambda: "%s: evaluation %d at %s, in a fresh process at %s" % (what, t, b["X"][t].tolist(), a["X"][t].tolist()))
    for x, y in zip(a["results"], b["results"]):
        check(x[0] == y[0] and np.array_equal(x[1], y[1]), lambda: "%s: result %r, in a fresh process %r" % (what, y, x))
    for h in O.HISTS:
        check(len(a["hist"][h]) == len(b["hist"][h]) and all(np.array_equal(x, y) for x, y in zip(a["hist"][h], b["hist"][h])), lambda: "%s: %s differs" % (what, h))
    for k, v in a["final"].items():
        w = b["final"][k]
        check(v == w if isinstance(v, dict) else np.array_equal(v, w), lambda: "%s: swarm.%s is %s, in a fresh process %s" % (what, k, w, v))


def shared_variants():
    return [dict(), dict(bounds="asym", bh="shrink", vh="zero", opts="far"), dict(bounds="asym", bh="intermediate", vh="invert", opts="far"),
            dict(bounds="asym", bh="random", clamp="s", vh="adjust"), dict(oh={"w": "exp_decay", "c1": "random", "c2": "lin_variation"}), dict(ftol=0.3, ftol_iter=2), dict(init="same", bounds="asym")]


def fresh_configs(tier):
    out = []
    for o in O.ALL_OPTS:
        for v in shared_variants():
            c = dict(O.DEFAULT, opt=o, n=6, d=2, k=2, r=0)
            c.update(v)
            if F.valid(c):
                out.append(dict(cfg=c))
    return out


def others(cfg):
    """The things that may have happened before: (kind, configuration)."""
    c = dict(cfg)
    small = dict(c, n=4, d=2, k=1)
    if ":vn" in cfg["opt"]:
        small = dict(c, n=5, r=1)
    deep = dict(c, n=7, d=3, k=3, init=None)
    alien = [dict(O.DEFAULT, opt=o, n=6, d=2, k=2, r=0) for o in O.ALL_OPTS if o != cfg["opt"]]
    rich = dict(c, bounds="unit", bh="reflective", vh="zero", clamp="dim", oh={"w": "nonlin_mod"}) if cfg["opt"] != "binary" else dict(c, clamp="dim")
    seqs = [[(k, c)] for k in ("same", "verbose", "reset", "fail", "low", "unused")]
    seqs += [[("same", x)] for x in (small, deep, rich)]
    seqs += [[("low", a)] for a in alien]
    seqs += [[("low", small), ("reset", deep)], [("fail", deep), ("unused", rich), ("same", small)]]
    return seqs


def fresh_run(cfg, ctx):
    c = cfg["cfg"]
    if "alone" not in ctx.acc:
        ctx.acc["alone"] = pristine.call(after, c, [])
    seqs = others(c)
    s = seqs[ctx.choose(len(seqs), "before")]
    got = pristine.call(after, c, s)
    show = [(k, {x: y for x, y in d.items() if O.DEFAULT.get(x) != y}) for k, d in s]
    eq_summary(ctx.acc["alone"], got, "%s after %s" % ({k: v for k, v in c.items() if O.DEFAULT.get(k) != v}, show))
    ctx.state(repr(c), repr(s))
    ctx.step(len(got["X"]))
    ctx.validated()
    ctx.outcome(np.asarray(got["results"][-1][0]))


def defaults_script(order, d):
    """Generators and optimizers created without and with optional arguments, in some order."""
    out = {}
    for name in order:
        with rng.controlled(rng.FixedSource(5)):
            if name == "swarm":
                s = gen.create_swarm(3, d)
            elif name == "swarm_opts":
                mine = {"w": 0.25}
                s = gen.create_swarm(3, d, options=mine)
                check(mine == {"w": 0.25}, lambda: "create_swarm changed the options it was given to %s" % mine)
            elif name == "swarm_empty":
                mine = {}
                s = gen.create_swarm(3, d, options=mine)
                check(mine == {}, lambda: "create_swarm changed the empty options it was given to %s" % mine)
            elif name == "binary":
                s = gen.create_swarm(3, d, discrete=True, binary=True)
            elif name == "bounds":
                s = gen.create_swarm(3, d, bounds=(np.zeros(d), np.ones(d)), clamp=(-0.5, 0.5), center=1.0)
            elif name == "class":
                s = Swarm(position=np.zeros((3, d)), velocity=np.ones((3, d)))
            elif name == "poke":        # a user changes the swarm created here
                s = gen.create_swarm(3, d)
                s.options["w"] = 0.5
                s.best_cost = 1.0
                s.pbest_cost[...] = 3.0
                s.position += 1.0
                continue
            elif name == "poke_class":
                s = Swarm(position=np.zeros((3, d)), velocity=np.ones((3, d)))
                s.options["c1"] = 7.0
                continue
        out[name] = [np.array(s.position), np.array(s.velocity), dict(s.options), np.array(s.pbest_cost), np.array(s.best_cost), np.array(s.best_pos), np.array(s.pbest_pos), np.array(s.current_cost), s.n_particles, s.dimensions]
    return out


SCRIPTS = ["swarm", "swarm_opts", "swarm_empty", "binary", "bounds", "class", "poke", "poke_class"]


def def_configs(tier):
    return [dict(last=l, d=d) for l in SCRIPTS[:6] for d in (1, 2)]


def def_run(cfg, ctx):
    a = ctx.pick(SCRIPTS, "first")
    b = ctx.pick(SCRIPTS, "second")
    last, d = cfg["last"], cfg["d"]
    if "alone" not in ctx.acc:
        ctx.acc["alone"] = pristine.call(defaults_script, [last], d)
    want = ctx.acc["alone"][last]
    got = pristine.call(defaults_script, [a, b, last], d)[last]
    for x, y in zip(want, got):
        check(x == y if isinstance(x, (dict, int)) else np.array_equal(x, y), lambda: "%s in a process that did %s and %s before: %s, alone %s" % (last, a, b, y, x))
    ctx.state(last, a, b, d)
    ctx.step(3)
    ctx.validated()


BOUNDS = ("inputs: every configuration within 2 (thorough 3) changes plus every boundary x velocity strategy from corner starts, with writable and read-only inputs, 2-3 operations, <=1 deviating draw; generators and handlers on small lattices; "
          "interleavings: two optimizers sharing all inputs, switching at every evaluation and operation with <=2 (3) switches, each doing construct/optimize/(reset)/optimize; "
          "preempt: two optimizers in two threads, the first preempted before any one line of the library it executes (some 1000 per run), the second running to its end or (for pairs of one kind; thorough: 9 ways) preempted in its turn; "
          "fresh: every optimizer x 7 configurations after each of ~22 earlier histories in the same process (same, smaller, larger, verbose, failing, reset, every other optimizer), compared with a process of its own; "
          "defaults: generators and Swarm objects created after every pair of earlier creations and changes")
BOUNDS += F.KINDS_NOTE
ASSUMPTIONS = ["position and velocity matrices given to a handler may be modified in place (only the optimizer's copies are)", "topology objects are not shared between optimizers", "between shared inputs: pre-emption at evaluations and operations; between threads: at line boundaries, at most two pre-emptions"]
HARNESSES = [
    Harness("inputs", in_run, in_configs, bound=lambda t: 0 if t == "quick" else 1),
    Harness("functions", fn_run, fn_configs),
    Harness("fresh", fresh_run, fresh_configs, pristine=True),
    Harness("defaults", def_run, def_configs, pristine=True),
    Harness("interleave", inter_run, inter_configs, bound=lambda t: 2 if t == "quick" else 3),
    Harness("preempt", pre_run, pre_configs),
    F.kinds_family([O.mon_given], snapshots=False, calls=2),
]
