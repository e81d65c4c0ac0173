"""Reproducibility from numpy's seed, independence of verbosity, silence."""
import os
import random
import subprocess
import sys
import tempfile

import numpy as np

import pyswarms as ps
import pyswarms.backend as P
from pyswarms.backend import topology as T
from pyswarms.utils.search import RandomSearch
from .. import env
from .. import families as F
from .. import opt as O
from ..core import check, dev_product
from ..runner import Harness

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ALTS = {k: F.ALTERNATIVES[k] for k in ("opt", "n", "d", "bounds", "bh", "vh", "clamp", "oh", "init", "ftol", "opts")}
ALTS["opts"] = ["far", "zero", "int", "w1"]


def configs(tier):
    out = []
    for o in O.ALL_OPTS:
        base = dict(O.DEFAULT, opt=o, n=4, d=2, k=2, r=0, iters=4)
        alts = {k: v for k, v in ALTS.items() if k != "opt"}
        for c in dev_product(base, alts, 1 if tier == "quick" else 2):
            if F.valid(c):
                out.append(c)
        for bh in O.BH:
            for vh in O.VH:
                c = dict(base, bounds="asym", bh=bh, vh=vh, opts="far")
                if F.valid(c):
                    out.append(c)
    return out


OPS = ["optimize", "reset", "optimize1"]


def program(cfg, seed, verbose, ops, salt):
    """One program run; salt disturbs every other source of randomness."""
    random.seed(salt)
    np.random.seed(seed)
    tr = O.Trace(cfg, O.bumpy, snapshots=False)
    tr.optimize(verbose=verbose)
    for op in ops:
        random.seed(salt * 7 + 1)
        if op == "reset":
            tr.reset()
        else:
            tr.optimize(iters=4 if op == "optimize" else 1, verbose=verbose)
    state = np.random.get_state()
    return tr, (state[0], state[1].tobytes(), state[2:])


def run(cfg, ctx):
    ops = [ctx.pick(OPS, "op", free=True)]
    seed = ctx.pick([SEED % 1000, 4242], "seed", free=True)
    a, sa = program(cfg, seed, False, ops, 1)
    b, sb = program(cfg, seed, False, ops, 2)
    c, sc = program(cfg, seed, True, ops, 3)
    for other, so, what in ((b, sb, "second run with the same seed"), (c, sc, "verbose run")):
        check(len(a.X) == len(other.X), lambda: "%s: %d evaluations instead of %d" % (what, len(other.X), len(a.X)))
        for t in range(len(a.X)):
            check(np.array_equal(a.X[t], other.X[t]), lambda: "%s: evaluation %d at %s instead of %s" % (what, t, other.X[t].tolist(), a.X[t].tolist()))
        for x, y in zip(a.calls, other.calls):
            check(np.array_equal(x.result[0], y.result[0]) and np.array_equal(x.result[1], y.result[1]), lambda: "%s: result %r instead of %r" % (what, y.result, x.result))
        for h in O.HISTS:
            check(np.array_equal(np.array(getattr(a.opt, h)), np.array(getattr(other.opt, h))), lambda: "%s: %s differs" % (what, h))
        check(sa == so, lambda: "%s leaves numpy's generator in another state" % what)
    for x in a.calls:
        check(x.output == "", lambda: "verbose=False wrote %r" % x.output)
    for t, X in enumerate(a.X):
        ctx.state(t, X)
    ctx.step(3 * len(a.X))
    ctx.validated()
    ctx.outcome(np.asarray(a.calls[-1].result[0]))
    ctx.sample(lambda: "%s seed %d ops %s -> %s" % (cfg["opt"], seed, ops, a.calls[-1].result))


def parts():
    """Everything of the backend that draws, called by itself."""
    d, n = 2, 5
    b = (np.full(d, -1.0), np.array([0.5, 2.0]))
    out_ = np.array([[3.0, 0.0], [-4.0, 1.0], [0.1, 0.2], [0.0, 9.0], [7.0, -7.0]])

    def handler(strategy):
        h = P.handlers.BoundaryHandler(strategy=strategy)
        h(np.zeros((n, d)), b)
        return h(out_.copy(), b)

    def swarm(options=None):
        return P.Swarm(out_ / 4, out_ / 9, options=options or dict(c1=0.5, c2=0.25, w=0.5), pbest_pos=out_ / 5, best_pos=out_[0], pbest_cost=np.arange(5.0), current_cost=np.arange(5.0), best_cost=0.0)
    r = [("generate_swarm", lambda: P.generate_swarm(n, d)), ("generate_swarm with bounds", lambda: P.generate_swarm(n, d, bounds=b)), ("generate_swarm with center", lambda: P.generate_swarm(n, d, center=3.0)),
         ("generate_discrete_swarm", lambda: P.generate_discrete_swarm(n, 4)), ("generate_discrete_swarm, binary", lambda: P.generate_discrete_swarm(n, 4, binary=True)),
         ("generate_velocity", lambda: P.generate_velocity(n, d)), ("generate_velocity with clamp", lambda: P.generate_velocity(n, d, clamp=(-2, 1))), ("generate_velocity with clamps", lambda: P.generate_velocity(n, d, clamp=b)),
         ("create_swarm", lambda: [P.create_swarm(n, d, bounds=b).position, P.create_swarm(n, d, clamp=(0, 2)).velocity]),
         ("create_swarm, discrete", lambda: P.create_swarm(n, d, discrete=True, binary=True).position)]
    r += [("boundary strategy %s" % s, lambda s=s: handler(s)) for s in O.BH]
    for s in O.VH:
        for c in (None, (-0.5, 0.25)):
            r.append(("compute_velocity, %s, clamp %s" % (s, c), lambda s=s, c=c: P.compute_velocity(swarm(), c, P.handlers.VelocityHandler(strategy=s), b)))
    for kw in (dict(), dict(end_opts={"w": 0.1}), dict(end_opts={"w": 0.1, "c1": 2.0, "c2": 0.5}), dict(end_opts={})):
        for st in ({"w": "random"}, {"w": "random", "c1": "random", "c2": "random"}, {"w": "exp_decay", "c1": "lin_variation", "c2": "nonlin_mod"}):
            r.append(("options %s with %s" % (st, kw), lambda st=st, kw=kw: sorted(P.handlers.OptionsHandler(strategy=st)(dict(w=0.9, c1=0.5, c2=0.3), iternow=1, itermax=5, **kw).items())))
    for k in (1, 2, 4):
        for static in (False, True):
            r.append(("Random(static=%s), k=%d" % (static, k), lambda k=k, static=static: T.Random(static=static).compute_gbest(swarm(), k=k)))
    for top in (T.Star(), T.Ring(), T.VonNeumann(), T.Pyramid(), T.Random()):
        r.append(("%s.compute_velocity" % type(top).__name__, lambda top=top: top.compute_velocity(swarm(), (-1, 1), P.handlers.VelocityHandler("unmodified"), b)))
        r.append(("%s.compute_position" % type(top).__name__, lambda top=top: top.compute_position(swarm(), b, P.handlers.BoundaryHandler("random"))))
    for o in (dict(c1=[0.1, 0.9], c2=[1, 5], w=[2, 3], k=[1, 4], p=1), dict(c1=[0.1, 0.9], c2=[0.1, 0.9], w=[0.1, 0.9], k=[1, 30], p=2)):
        for m in (1, 3, 40):
            r.append(("RandomSearch, %s, %d" % (o, m), lambda o=o, m=m: RandomSearch(ps.single.LocalBestPSO, 4, 2, dict(o), None, 3, n_selection_iters=m).generate_grid()))
    return r


def parts_configs(tier):
    return [dict(seed=s) for s in (SEED % 1000, 17) + ((99, 4242) if tier == "thorough" else ())]


def parts_run(cfg, ctx):
    """Each drawing function by itself, twice from one numpy seed with every other source of randomness in another state."""
    what, f = parts()[ctx.choose(len(parts()), "part")]
    got = []
    for salt in (1, 2):
        random.seed(salt)
        np.random.seed(cfg["seed"])
        r = f()
        s = np.random.get_state()
        got.append((repr([np.asarray(x).tolist() for x in r] if isinstance(r, (list, tuple)) and not isinstance(r[0], (dict, tuple)) else np.asarray(r).tolist() if isinstance(r, np.ndarray) else r), s[1].tobytes(), s[2:]))
        check(random.getstate() == random.Random(salt).getstate(), lambda: "%s draws from Python's generator" % what)
    check(got[0][0] == got[1][0], lambda: "%s from numpy's seed %d: once %s, once %s" % (what, cfg["seed"], got[0][0], got[1][0]))
    check(got[0][1:] == got[1][1:], lambda: "%s leaves numpy's generator in different states" % what)
    ctx.state(cfg, what)
    ctx.step()
    ctx.validated()
    ctx.outcome(got[0][0])


def proc_configs(tier):
    return [dict(seed=s) for s in ((SEED % 1000,) if tier == "quick" else (SEED % 1000, 1, 2, 3))]


def proc_run(cfg, ctx):
    """The same program in fresh interpreters with different hash seeds, and its output."""
    d = tempfile.mkdtemp(dir=env.SCRATCH)
    ps = []
    for i, hs in enumerate(("0", "77", "5", "1234", "31", "999")):
        e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") or k == "PYTHONWARNINGS"}
        e.update(PYTHONHASHSEED=hs, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(d, "pyc"))
        cwd = os.path.join(d, str(i))
        os.mkdir(cwd)
        ps.append(subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(env.VERIF, "mc", "silent_run.py"), env.REPO, os.path.join(cwd, "out"), str(cfg["seed"])],
                                   cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    res = []
    for i, p in enumerate(ps):
        o, err = p.communicate(timeout=120)
        check(p.returncode == 0, lambda: "program failed: %s" % err.decode()[-800:])
        check(o == b"" and err == b"", lambda: "verbose=False wrote to stdout %r, to stderr %r" % (o[:300], err[:300]))
        res.append(open(os.path.join(d, str(i), "out")).read().splitlines())
    for lines in zip(*res):
        check(len(set(lines)) == 1, lambda: "interpreters with the same numpy seed disagree: %s" % " / ".join(sorted(set(lines))))
        ctx.state(lines[0])
    ctx.step(len(res[0]))
    ctx.validated()


BOUNDS = ("silence: every kind of costs x starting positions, all configurations within 2 changes and a grid of sizes, with the loggers watched; every optimizer x configurations within 1 (thorough 2) changes and all boundary x velocity strategies, 2 seeds, 3 second operations: two runs with different states of every other generator and a verbose run; "
          "parts: every function of the backend that draws, by itself, twice from one seed with every other generator in another state; a program over all optimizers, generators, topologies and searches in fresh interpreters with 6 different hash seeds, its output captured")
ASSUMPTIONS = ["numpy's own floating point warnings are not counted as output of optimize()", "seeds are a finite set (the property is per seed)"]
HARNESSES = [
    Harness("interpreters", proc_run, proc_configs, guard=200),
    Harness("seeds", run, configs),
    Harness("parts", parts_run, parts_configs),
    F.kinds_family([O.mon_silent], snapshots=False, logs=True, calls=2, name="silent_kinds"),
    F.configs_family([O.mon_silent], O.DEFAULT, keys=[k for k in F.ALTERNATIVES if k not in ("verbose", "nproc")], alternatives={"opts": ["big", "huge", "zero"]}, bound=2, rbound=0, logs=True, name="silent_configs"),
    F.scale_family([O.mon_silent], keep_state=False, quick_step=3, logs=True, name="silent_scale"),
]
