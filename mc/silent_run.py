"""Runs every optimizer quietly in a plain interpreter (no controlled randomness)
and writes digests of all results.  usage: silent_run.py REPO OUT SEED"""
import hashlib
import os
import random
import sys

sys.dont_write_bytecode = True
repo, out, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
os.environ["MPLBACKEND"] = "Agg"
sys.path.insert(0, repo)
import numpy as np  # noqa: E402

import pyswarms as ps  # noqa: E402
from pyswarms.backend import topology as T  # noqa: E402


def f(X, **kw):
    return np.sum((X - 0.3) ** 2, axis=1) + np.sin(5 * X[:, 0])


O = {"c1": 0.5, "c2": 0.3, "w": 0.9}
B = (np.array([-1.0, -2.0, -1.5]), np.array([1.0, 2.0, 0.5]))


def makers():
    yield "global", lambda: ps.single.GlobalBestPSO(6, 3, dict(O))
    for bh in ("periodic", "nearest", "reflective", "shrink", "random", "intermediate"):
        yield "global-" + bh, lambda bh=bh: ps.single.GlobalBestPSO(6, 3, dict(O, c1=9.0), bounds=B, bh_strategy=bh, vh_strategy="invert")
    yield "global-oh", lambda: ps.single.GlobalBestPSO(6, 3, dict(O), oh_strategy={"w": "exp_decay", "c1": "lin_variation", "c2": "random"}, velocity_clamp=(-0.3, 0.3))
    for st in (False, True):
        yield "local%d" % st, lambda st=st: ps.single.LocalBestPSO(6, 3, dict(O, k=3, p=2), static=st)
    yield "binary", lambda: ps.discrete.BinaryPSO(6, 3, dict(O, k=3, p=2))
    for name, t in (("star", T.Star), ("ring", T.Ring), ("vn", T.VonNeumann), ("pyramid", T.Pyramid), ("random", T.Random)):
        o = dict(O)
        if name == "ring":
            o.update(k=2, p=1)
        if name == "vn":
            o.update(r=1, p=2)
        if name == "random":
            o.update(k=2)
        yield "general-" + name, lambda t=t, o=o: ps.single.GeneralOptimizerPSO(8, 3, o, topology=t())


res = []
for name, mk in makers():
    np.random.seed(seed)
    random.seed(os.getpid())
    opt = mk()
    r = opt.optimize(f, 12, verbose=False)
    opt.reset()
    r2 = opt.optimize(f, 3, verbose=False)
    h = hashlib.sha256()
    for a in list(opt.pos_history) + list(opt.velocity_history) + [np.array(opt.cost_history), np.asarray(r[0]), np.asarray(r[1]), np.asarray(r2[0])]:
        h.update(np.ascontiguousarray(np.asarray(a, dtype=float)).tobytes())
    res.append("%s %s" % (name, h.hexdigest()))


def digest(*arrays):
    h = hashlib.sha256()
    for a in arrays:
        h.update(np.ascontiguousarray(np.asarray(a, dtype=float)).tobytes())
    return h.hexdigest()


# other situations a silent run may meet
I = np.array([[3, -4, 0], [5, 6, -7], [0, 0, 1], [9, -9, 2]])
for name, kw, g in (("int", dict(init_pos=I), f), ("far", dict(init_pos=I * 1e9), f), ("inf", {}, lambda X: np.full(len(X), np.inf)),
                    ("const", {}, lambda X: np.ones(len(X))), ("stopped", dict(ftol=1.0, ftol_iter=2), lambda X: np.ones(len(X)))):
    for cls, o in ((ps.single.GlobalBestPSO, O), (ps.single.LocalBestPSO, dict(O, k=2, p=1))):
        np.random.seed(seed)
        opt = cls(4, 3, dict(o), **kw)
        r = opt.optimize(g, 9, verbose=False)
        res.append("%s %s %s" % (cls.__name__, name, digest(*opt.pos_history, r[0], r[1])))

# everything else that draws
from pyswarms.backend import generators as G  # noqa: E402
from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler  # noqa: E402
from pyswarms.utils.decorators import cost  # noqa: E402
from pyswarms.utils.search.grid_search import GridSearch  # noqa: E402
from pyswarms.utils.search.random_search import RandomSearch  # noqa: E402

np.random.seed(seed)
res.append("generators " + digest(G.generate_swarm(5, 3, bounds=B), G.generate_swarm(4, 3, center=[1, 2, 3]), G.generate_discrete_swarm(4, 5),
                                  G.generate_discrete_swarm(4, 5, binary=True), G.generate_velocity(4, 3, (-1, 2))))
res.append("random handler " + digest(BoundaryHandler("random")(np.arange(12.0).reshape(4, 3) - 5, B)))
res.append("options %r" % sorted((k, float(v)) for k, v in OptionsHandler({"w": "random", "c1": "random", "c2": "random"})(dict(O), iternow=1, itermax=4).items()))
np.random.seed(seed)
opt = ps.single.GlobalBestPSO(5, 3, dict(O))
res.append("cost " + digest(*opt.optimize(cost(lambda x: float(((x - 0.3) ** 2).sum())), 5, verbose=False)))
sys.stdout.flush()
sys.stderr.flush()
keep = [os.dup(1), os.dup(2)]
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
os.dup2(null, 2)
for cls, o, kw in ((GridSearch, {"c1": [0.1, 0.5], "c2": [0.2, 0.9], "w": [0.3, 0.7], "k": [1, 3], "p": 1}, {}),
                   (RandomSearch, {"c1": [0.1, 0.5], "c2": [0.2, 0.9], "w": [0.3, 0.7], "k": [1, 4], "p": 1}, dict(n_selection_iters=4))):
    np.random.seed(seed)
    g = cls(ps.single.LocalBestPSO, 5, 3, o, f, 3, **kw)
    grid = [sorted((k, float(v)) for k, v in c.items()) for c in g.generate_grid()]
    best = g.search()
    res.append("%s %r %r %r" % (cls.__name__, grid, float(best[0]), sorted((k, float(v)) for k, v in best[1].items())))
sys.stdout.flush()
sys.stderr.flush()
os.dup2(keep[0], 1)
os.dup2(keep[1], 2)
with open(out, "w") as g:
    g.write("\n".join(res))
