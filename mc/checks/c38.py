"""User-defined topologies, strategies and optimizers: the library as their environment."""
import contextlib
import io

import numpy as np

from .. import env, opt as O, rng
from ..core import check
from ..runner import Harness
import pyswarms as ps
from pyswarms.backend import operators as OP, topology as T
from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
from pyswarms.backend.swarms import Swarm
from pyswarms.base import DiscreteSwarmOptimizer, SwarmOptimizer
from pyswarms.utils.search import GridSearch, RandomSearch


class Adversary(T.Topology):
    """Answers every question of the optimizer with any of a few values and notes what it was asked."""

    def __init__(self, ctx, cfg, log):
        super().__init__(static=False)
        self.ctx, self.cfg, self.log, self.t = ctx, cfg, log, 0

    def compute_gbest(self, swarm, **kwargs):
        c, cfg = self.ctx, self.cfg
        k = c.choose(cfg["bests"], "best")
        n, d = swarm.position.shape
        pos = [swarm.pbest_pos[int(np.argmin(swarm.pbest_cost))].copy(), np.arange(d) + 0.25 * self.t - 1.0, np.full(d, 7.5 - self.t)][k]
        cost = [np.float64(np.min(swarm.pbest_cost)), np.float64(3.0 - self.t), np.float64(-2.0)][k]
        self.log.append(dict(ev="gbest", swarm=swarm, kw=dict(kwargs), pos=np.array(swarm.position), cur=np.array(swarm.current_cost), pbest=np.array(swarm.pbest_pos),
                             pcost=np.array(swarm.pbest_cost), ret=(np.array(pos), cost), lie=k))
        return pos, cost

    def compute_velocity(self, swarm, clamp=None, vh=None, bounds=None):
        k = self.ctx.choose(self.cfg["moves"], "velocity")
        n, d = swarm.position.shape
        v = np.array([[((3 * i + 5 * j + 7 * self.t + 11 * k) % 13) / 4.0 - 1.5 for j in range(d)] for i in range(n)])
        self.log.append(dict(ev="velocity", swarm=swarm, clamp=clamp, vh=vh, bounds=bounds, best=(np.array(swarm.best_pos), swarm.best_cost), opts=dict(swarm.options),
                             pos=np.array(swarm.position), ret=v.copy()))
        return v

    def compute_position(self, swarm, bounds=None, bh=None):
        k = self.ctx.choose(self.cfg["moves"], "position")
        n, d = swarm.position.shape
        p = np.array([[((2 * i + 3 * j + 5 * self.t + 4 * k) % 11) / 2.0 - 2.0 for j in range(d)] for i in range(n)])
        self.log.append(dict(ev="position", swarm=swarm, bounds=bounds, bh=bh, vel=np.array(swarm.velocity), pos=np.array(swarm.position), ret=p.copy()))
        self.t += 1
        return p


def top_configs(tier):
    out = []
    base = dict(n=2, d=1, iters=2, calls=1, bests=3, moves=2, costs=3)
    out.append(dict(base))
    out.append(dict(base, bounds="unit", bh="nearest", clamp="s"))
    out.append(dict(base, d=2, bounds="asym", bh="shrink", vh="invert", clamp="dim", init="lat"))
    out.append(dict(base, oh={"w": "exp_decay", "c1": "lin_variation"}, iters=3, moves=1, costs=2))
    for f, fi in ((1e9, 1), (1.0, 1), (0.6, 2), (1.0, 2), (0.0, 1)):
        out.append(dict(base, iters=4, ftol=f, ftol_iter=fi, moves=1, costs=1))
        out.append(dict(base, iters=2, calls=2, ftol=f, ftol_iter=fi, moves=1, costs=1))
    out.append(dict(base, n=3, iters=2, calls=2, moves=2, costs=1, bests=2))
    out.append(dict(base, n=1, iters=2, calls=2, moves=1, costs=2, bests=3))
    if tier == "thorough":
        out.append(dict(base, iters=3))
        out.append(dict(base, iters=3, bounds="unit", bh="random", clamp="asym", vh="zero"))
        out.append(dict(base, n=3, d=2, iters=3, costs=2, moves=1, calls=2))
        out.append(dict(base, iters=7, moves=1, costs=1, ftol=1.0, ftol_iter=3))
        out.append(dict(base, iters=4, moves=1, costs=2, ftol=0.5, ftol_iter=1))
    return out


EXTRA = {"k": 3, "p": 2, "r": 1, "temperature": 0.25, "names": ["a", "b"]}


def top_run(cfg, ctx):
    """GeneralOptimizerPSO over a topology that answers anything."""
    full = O.full(dict(cfg, opt="general:star"))
    log = []
    adv = Adversary(ctx, cfg, log)
    inp = O.inputs(full)
    inp["options"].update(EXTRA)
    given = dict(inp["options"])
    n, d = cfg["n"], cfg["d"]
    kw = {"marker": object()}

    def objective(X, **k):
        t = sum(e["ev"] == "objective" for e in log)
        pick = ctx.choose(cfg["costs"], "costs")
        c = np.array([((3 * i + 2 * t + 5 * pick) % 7) / 2.0 - 1.0 for i in range(n)])
        log.append(dict(ev="objective", X=np.array(X), C=c.copy(), kw=k))
        return c
    with rng.controlled(rng.FixedSource(7)):
        opt = ps.single.GeneralOptimizerPSO(n, d, inp["options"], adv, bounds=inp["bounds"], oh_strategy=inp["oh"], bh_strategy=full["bh"], velocity_clamp=inp["clamp"],
                                            vh_strategy=full["vh"], ftol=-np.inf if full["ftol"] is None else full["ftol"], ftol_iter=full["ftol_iter"], init_pos=inp["init_pos"])
        check(opt.top is adv, "the optimizer does not use the topology it was given")
        pos, vel = np.array(opt.swarm.position), np.array(opt.swarm.velocity)
        done = 0
        for call in range(cfg["calls"]):
            del log[:]
            with contextlib.redirect_stderr(io.StringIO()):
                cost, best = opt.optimize(objective, cfg["iters"], verbose=False, **kw)
            evs = [e["ev"] for e in log]
            rounds = []
            for e in log:
                if e["ev"] == "objective":
                    rounds.append([])
                check(rounds, "the topology was asked before the first evaluation")
                rounds[-1].append(e)
            want = O.expected_iterations([float(r[1]["ret"][1]) if len(r) > 1 and r[1]["ev"] == "gbest" else float("nan") for r in rounds], full["ftol"], full["ftol_iter"], cfg["iters"])
            check(want == len(rounds), lambda: "best costs %s with ftol=%s, ftol_iter=%s: %d of %d iterations, expected %s" % (
                [float(r[1]["ret"][1]) for r in rounds], full["ftol"], full["ftol_iter"], len(rounds), cfg["iters"], want))
            pc, pp = np.full(n, np.inf), np.array(pos)
            for t, r in enumerate(rounds):
                names = [e["ev"] for e in r]
                if t < len(rounds) - 1:
                    check(names == ["objective", "gbest", "velocity", "position"], lambda: "iteration %d consists of %s" % (t, names))
                else:
                    check(names in (["objective", "gbest", "velocity", "position"], ["objective", "gbest"]), lambda: "the last iteration consists of %s" % names)
                o, g = r[0], r[1]
                check(np.array_equal(o["X"], pos), lambda: "iteration %d evaluates %s, compute_position returned %s" % (t, o["X"].tolist(), pos.tolist()))
                check(o["kw"].keys() == kw.keys() and o["kw"]["marker"] is kw["marker"], "keyword arguments of the objective")
                better = o["C"] < pc
                pc = np.where(better, o["C"], pc)
                pp = np.where(better[:, None], pos, pp)
                check(g["swarm"] is opt.swarm, "compute_gbest gets another swarm")
                check(np.array_equal(g["pos"], pos), "positions seen by compute_gbest")
                check(np.array_equal(g["cur"], o["C"]), lambda: "compute_gbest sees costs %s instead of %s" % (g["cur"], o["C"]))
                check(np.array_equal(g["pcost"], pc) and np.array_equal(g["pbest"], pp), lambda: "compute_gbest sees personal bests %s %s instead of %s %s" % (g["pcost"], g["pbest"].tolist(), pc, pp.tolist()))
                check(all(k in g["kw"] and g["kw"][k] == v for k, v in EXTRA.items()), lambda: "compute_gbest gets the options %s" % g["kw"])
                check(opt.cost_history[done + t] == g["ret"][1], lambda: "cost_history[%d] is %s, the topology said %s" % (done + t, opt.cost_history[done + t], g["ret"][1]))
                check(np.array_equal(opt.pos_history[done + t], pos) and np.array_equal(opt.velocity_history[done + t], vel), "position and velocity history")
                check(abs(opt.mean_pbest_history[done + t] - np.mean(pc)) < 1e-12, "mean_pbest_history")
                if len(r) < 3:
                    continue
                v, p = r[2], r[3]
                check(v["swarm"] is opt.swarm and p["swarm"] is opt.swarm, "compute_velocity or compute_position get another swarm")
                check(np.array_equal(v["best"][0], g["ret"][0]) and v["best"][1] == g["ret"][1], lambda: "compute_velocity sees the best %s, the topology said %s" % (v["best"], g["ret"]))
                check(np.array_equal(v["pos"], pos), "positions seen by compute_velocity")
                if inp["oh"] is None:
                    check(all(v["opts"][k] == x for k, x in given.items()), lambda: "options %s at the velocity update" % v["opts"])
                else:
                    check(all(v["opts"][k] == x for k, x in given.items() if k not in inp["oh"]), lambda: "options %s at the velocity update" % v["opts"])
                check(same_bounds(v["bounds"], inp["bounds"]) and same_bounds(p["bounds"], inp["bounds"]), lambda: "bounds %s instead of %s" % (v["bounds"], inp["bounds"]))
                check(same_bounds(v["clamp"], inp["clamp"]), lambda: "clamp %s instead of %s" % (v["clamp"], inp["clamp"]))
                check(isinstance(v["vh"], VelocityHandler) and v["vh"].strategy == full["vh"], "velocity handler")
                check(isinstance(p["bh"], BoundaryHandler) and p["bh"].strategy == full["bh"], "boundary handler")
                check(np.array_equal(p["vel"], v["ret"]), lambda: "compute_position sees the velocities %s instead of %s" % (p["vel"].tolist(), v["ret"].tolist()))
                check(np.array_equal(p["pos"], pos), "positions seen by compute_position")
                pos, vel = p["ret"], v["ret"]
            done += len(rounds)
            check(np.array_equal(opt.swarm.position, pos) and np.array_equal(opt.swarm.velocity, vel), "the swarm after the call is not where the topology put it")
            check(len(opt.cost_history) == done, lambda: "%d history entries after %d iterations" % (len(opt.cost_history), done))
            check(np.array_equal(best, pp[int(np.argmin(pc))]), lambda: "best position %s instead of %s" % (best, pp[int(np.argmin(pc))].tolist()))
            if rounds[-1][1]["lie"] == 0:
                check(cost == pc.min(), lambda: "cost %s instead of %s" % (cost, pc.min()))
            ctx.step(len(log))
            ctx.state(cfg, [(float(r[1]["ret"][1]), r[0]["C"].tobytes(), pos.tobytes()) for r in rounds[-1:]], call)
            ctx.outcome(tuple(r[1]["lie"] for r in rounds), len(rounds))
    ctx.validated(done)
    ctx.sample(lambda: "topology answers %s" % ctx.choices())


def same_bounds(a, b):
    if a is None or b is None:
        return a is None and b is None
    return all(np.array_equal(np.asarray(x, dtype=float), np.asarray(y, dtype=float)) for x, y in zip(a, b))


# ------------------------------------------------------------ plain types returned by a topology

def type_configs(tier):
    return [dict(kind=k, iters=i) for k in ("float", "int", "float32", "float64", "list") for i in (1, 2, 3)]


class Plain(T.Star):
    """Overrides one method of a built-in topology; returns plain Python numbers."""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def compute_gbest(self, swarm, **kwargs):
        i = int(np.argmin(swarm.pbest_cost))
        c, p = swarm.pbest_cost[i], swarm.pbest_pos[i]
        return (p.tolist() if self.kind == "list" else p), {"float": float, "int": int, "float32": np.float32, "float64": np.float64, "list": float}[self.kind](c)


def type_run(cfg, ctx):
    """A topology that returns the documented "float" runs like the built-in one."""
    script = [ctx.pick([(3.0, 5.0), (4.0, 1.0), (2.0, 2.0)], "costs") for _ in range(cfg["iters"])]
    ftol = ctx.pick([-np.inf, 0.5], "ftol")
    res = []
    for top in (Plain(cfg["kind"]), T.Star()):
        X = []

        def f(P):
            X.append(np.array(P))
            return np.array(script[len(X) - 1])
        with rng.controlled(rng.FixedSource(3)):
            o = ps.single.GeneralOptimizerPSO(2, 2, dict(c1=0.5, c2=0.25, w=0.5), top, ftol=ftol)
            c, p = o.optimize(f, cfg["iters"], verbose=False)
        res.append(([x.tolist() for x in X], float(c), np.asarray(p).tolist(), [float(v) for v in o.cost_history]))
    check(res[0] == res[1], lambda: "a topology returning %s: %s instead of %s" % (cfg["kind"], res[0], res[1]))
    ctx.state(cfg, script, ftol)
    ctx.step(cfg["iters"])
    ctx.validated()
    ctx.outcome(cfg)


# ------------------------------------------------------------ strategies of one's own

class MyBounds(BoundaryHandler):
    pick = None

    def mine(self, position, bounds, **kwargs):
        return self.pick("bounds", position, bounds, kwargs)


class MyVelocity(VelocityHandler):
    pick = None

    def mine(self, velocity, clamp, **kwargs):
        return self.pick("velocity", velocity, clamp, kwargs)


class MyOptions(OptionsHandler):
    pick = None

    def mine(self, start_opts, opt, **kwargs):
        return self.pick("options", start_opts, opt, kwargs)


def strategy_configs(tier):
    return [dict(via=v, n=n, d=d, bounds=b, clamp=c) for v in ("operators", "star", "ring", "pyramid", "random", "vn", "optimizer") for n, d in ((4, 2), (5, 2)) for b in (False, True)
            for c in (False, True) if tier == "thorough" or n == 4 or b and c]


def strategy_run(cfg, ctx):
    """Handlers extended by a strategy answer as that strategy does, in a backend loop and in an optimizer."""
    n, d = cfg["n"], cfg["d"]
    bounds = (np.full(d, -0.5), np.full(d, 0.75)) if cfg["bounds"] else None
    clamp = (-0.25, 0.5) if cfg["clamp"] else None
    asked = []

    def pick(what, a, b, kwargs):
        k = ctx.choose(2 if what == "options" else 3, what)
        t = sum(x[0] == what for x in asked)
        if what == "options":
            r = [0.25, 2.0][k] + t
        elif k == 2:
            # all particles end up inside the bounds
            r = np.array([[((i + 2 * j + t) % 5) / 4.0 - 0.375 for j in range(d)] for i in range(n)])
            if what == "velocity":
                r = r - np.array(kwargs["position"])
        else:
            r = np.array([[((3 * i + 4 * j + 5 * t + 6 * k) % 9) / 4.0 - 1.0 for j in range(d)] for i in range(n)])
        asked.append((what, np.array(a) if what != "options" else dict(a), b, kwargs, np.array(r)))
        return r
    bh, vh = MyBounds("mine"), MyVelocity("mine")
    bh.pick = vh.pick = pick
    check("mine" in bh.strategies and "mine" in vh.strategies, "the strategy is not among those of the handler")
    P = np.array([[((5 * i + 3 * j) % 7) / 4.0 - 0.75 + 0.01 * i * i for j in range(d)] for i in range(n)])
    V = np.array([[((2 * i + 3 * j) % 5) / 4.0 - 0.5 for j in range(d)] for i in range(n)])
    if cfg["via"] == "optimizer":
        X = []

        def f(Q):
            X.append(np.array(Q))
            return (Q ** 2).sum(axis=1)
        oh = MyOptions({"w": "mine"})
        oh.pick = pick
        with rng.controlled(rng.FixedSource(3)):
            o = ps.single.GlobalBestPSO(n, d, dict(c1=0.5, c2=0.25, w=0.5), bounds=bounds, velocity_clamp=clamp)
            o.bh, o.vh, o.oh = bh, vh, oh
            o.optimize(f, 2, verbose=False)
        want = [] if bounds is None else [a[4] for a in asked if a[0] == "bounds"]
        vel = [a[4] for a in asked if a[0] == "velocity"]
        check(len(vel) == 2 and [a[0] for a in asked] == ["options", "velocity"] * 2 if bounds is None else [a[0] for a in asked] == ["options", "velocity", "bounds"] * 2,
              lambda: "strategies asked: %s" % [a[0] for a in asked])
        for t in range(2):
            a = [x for x in asked if x[0] == "options"][t]
            check(a[1]["w"] == 0.5 and a[2] == "w" and a[3]["iternow"] == t and a[3]["itermax"] == 2, lambda: "options strategy asked with %s" % (a[:4],))
        check(o.swarm.options["w"] == asked[-3 if bounds is not None else -2][4], lambda: "w is %s" % o.swarm.options["w"])
        end = want[-1] if want else X[1] + vel[1]
        check(np.array_equal(o.swarm.position, end), "final positions")
        check(np.array_equal(X[1], want[0] if want else X[0] + vel[0]), "positions of the second iteration")
    else:
        s = Swarm(P.copy(), V.copy(), options=dict(c1=0.5, c2=0.25, w=0.5))
        s.pbest_cost = s.current_cost = np.arange(n) + 1.0
        s.best_pos, s.best_cost = P[0].copy(), 1.0
        top = OP if cfg["via"] == "operators" else {"star": T.Star, "ring": T.Ring, "pyramid": T.Pyramid, "random": T.Random, "vn": T.VonNeumann}[cfg["via"]]()
        for step in range(2):
            del asked[:]
            before = s.position.copy()
            with rng.controlled(rng.FixedSource(3 + step)):
                v = top.compute_velocity(s, clamp, vh, bounds)
            check(len(asked) == 1 and np.array_equal(v, asked[0][4]), "the velocity is not what the strategy returned")
            check(same_bounds(asked[0][2], clamp) and np.array_equal(asked[0][3]["position"], before) and same_bounds(asked[0][3]["bounds"], bounds), lambda: "velocity strategy asked with %s" % (asked[0][2:4],))
            ref = VelocityHandler("unmodified")
            with rng.controlled(rng.FixedSource(3 + step)):
                u = top.compute_velocity(s, None, ref, bounds)
            check(np.array_equal(asked[0][1], u), lambda: "velocity strategy asked about %s instead of %s" % (asked[0][1].tolist(), u.tolist()))
            s.velocity = v
            del asked[:]
            p = top.compute_position(s, bounds, bh)
            if bounds is None:
                check(not asked and np.array_equal(p, before + v), "positions without bounds")
            else:
                check(len(asked) == 1 and np.array_equal(p, asked[0][4]), "the position is not what the strategy returned")
                check(np.array_equal(asked[0][1], before + v) and same_bounds(asked[0][2], bounds), "boundary strategy asked with other arguments")
            s.position = p
    ctx.state(cfg, ctx.choices())
    ctx.step(len(asked) + 1)
    ctx.validated()
    ctx.outcome(cfg["via"])


def option_configs(tier):
    names = ["w", "c1", "c2"]
    return [dict(mine=[x for i, x in enumerate(names) if m >> i & 1], other=o, order=q) for m in range(1, 8) for o in (None, "lin_variation") for q in range(2)]


def option_run(cfg, ctx):
    """Every option with a strategy is asked for once per iteration, from the start values, whatever the others answer."""
    asked = []
    given = dict(w=0.5, c1=1.0, c2=2.0) if cfg["order"] else dict(c2=2.0, c1=1.0, w=0.5)
    opts = dict(given, k=2)
    st = {k: "mine" for k in cfg["mine"]}
    if cfg["other"]:
        st.update({k: cfg["other"] for k in given if k not in st})
    oh = MyOptions(st)

    def pick(what, a, b, kwargs):
        r = [0.25, a[b] / 2 + sum(a[k] for k in ("w", "c1", "c2")), -1.0][ctx.choose(3, "answer")]
        asked.append((dict(a), b, dict(kwargs), r))
        return r
    oh.pick = pick
    for i in range(2):
        del asked[:]
        got = oh(opts, iternow=i, itermax=4)
        check(opts == dict(given, k=2), lambda: "the start options became %s" % opts)
        check(sorted(a[1] for a in asked) == sorted(cfg["mine"]), lambda: "strategies %s: asked for %s" % (st, [a[1] for a in asked]))
        for a in asked:
            check(a[0] == opts and a[2] == dict(iternow=i, itermax=4), lambda: "strategies %s: the one of %s is asked with %s and %s instead of the start options %s" % (st, a[1], a[0], a[2], opts))
            check(got[a[1]] == a[3], lambda: "strategies %s: %s is %s, answered %s" % (st, a[1], got[a[1]], a[3]))
        for k in given:
            if k not in cfg["mine"]:
                want = OptionsHandler({k: cfg["other"]})(dict(opts), iternow=i, itermax=4)[k] if cfg["other"] else given[k]
                check(got[k] == want, lambda: "strategies %s: %s is %s, should be %s" % (st, k, got[k], want))
        check(got["k"] == 2 and set(got) == set(opts), lambda: "options %s" % got)
        ctx.step()
    ctx.state(cfg, ctx.choices())
    ctx.validated()
    ctx.outcome(tuple(cfg["mine"]), cfg["other"])


# ------------------------------------------------------------ optimizers of one's own

class Mine(SwarmOptimizer):
    """The smallest optimizer: tells what it was made and asked for, answers anything."""

    log = None
    ctx = None

    def optimize(self, objective_func, iters, n_processes=None, verbose=True, **kwargs):
        self.log.append((dict(self.options), self.n_particles, self.dimensions, self.bounds, self.velocity_clamp, self.swarm, objective_func, iters))
        return self.ctx.pick([np.float64(2.0), np.float64(1.0), np.float64(3.0)], "cost"), np.zeros(self.dimensions)


def search_configs(tier):
    return [dict(kind=k, size=s, bounds=b) for k in ("grid", "random") for s in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)) for b in (False, True)]


def search_run(cfg, ctx):
    """A search over an optimizer of one's own, which answers any cost."""
    log = []
    Mine.log, Mine.ctx = log, ctx
    maximum = bool(ctx.choose(2, "maximum"))
    B = (np.full(2, -0.5), np.full(2, 0.75)) if cfg["bounds"] else None
    f = lambda X: (X ** 2).sum(axis=1)
    kw = dict(optimizer=Mine, n_particles=4, dimensions=2, objective_func=f, iters=6, bounds=B, velocity_clamp=(-0.25, 0.5))
    with rng.controlled(rng.FixedSource(5)):
        if cfg["kind"] == "grid":
            s = GridSearch(options=dict(c1=[0.5, 1.0, 1.5, 2.0, 2.5][:cfg["size"]], c2=0.25, w=[0.5]), **kw)
        else:
            s = RandomSearch(options=dict(c1=[0.5, 2.5], c2=[0.25, 1.0], w=[0.5, 0.9], k=[1, 3], p=1), n_selection_iters=cfg["size"], **kw)
        score, best = s.search(maximum=maximum)
    picks = [[2.0, 1.0, 3.0][c] for c in ctx.choices()[1:]]
    check(len(log) == cfg["size"] == len(picks), lambda: "%d runs instead of %d" % (len(log), cfg["size"]))
    for e in log:
        check(e[1] == 4 and e[2] == 2 and same_bounds(e[3], B) and same_bounds(e[4], (-0.25, 0.5)) and e[6] is f and e[7] == 6, lambda: "run with %s" % (e,))
        check(e[5].position.shape == (4, 2), "swarm of the optimizer")
        check(B is None or bool(((e[5].position >= B[0]) & (e[5].position <= B[1])).all()), "starting positions outside the bounds")
    want = max(picks) if maximum else min(picks)
    check(float(score) == want, lambda: "score %s of %s (maximum=%s)" % (score, picks, maximum))
    check(any(p == want and all(e[0][k] == best[k] for k in ("c1", "c2", "w")) for p, e in zip(picks, log)), lambda: "options %s" % best)
    ctx.state(cfg, maximum, picks)
    ctx.step(len(log))
    ctx.validated()
    ctx.outcome(cfg["kind"], maximum, want)


def loop_configs(tier):
    return [dict(kind=k, calls=c, iters=i) for k in ("single", "discrete") for c in (1, 2) for i in (1, 2)]




def loop_run(cfg, ctx):
    """The services of the base classes: history, reset, in any order of use."""
    class Own(SwarmOptimizer if cfg["kind"] == "single" else DiscreteSwarmOptimizer):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.reset()

        def optimize(self, objective_func, iters, n_processes=None, **kwargs):
            for _ in range(iters):
                k = ctx.choose(4, "entry")
                e = [float(k), k % 2 + 1.5, 7.0 - k] + [self.swarm.position, self.swarm.velocity]
                entries.append(e)
                if hasattr(self, "_populate_history"):
                    self._populate_history(self.ToHistory(best_cost=e[0], mean_pbest_cost=e[1], mean_neighbor_cost=e[2], position=e[3], velocity=e[4]))
                else:
                    for h, x in zip((self.cost_history, self.mean_pbest_history, self.mean_neighbor_history, self.pos_history, self.velocity_history), e):
                        h.append(x)
                self.swarm.position = self.swarm.position + 1
            return self.swarm
    entries = []
    opts = dict(c1=0.5, c2=0.25, w=0.5)
    kw = dict(n_particles=3, dimensions=3, options=opts)
    if cfg["kind"] == "discrete":
        kw["binary"] = bool(ctx.choose(2, "binary"))
    k = ctx.choose(3, "clamp and init_pos")
    if k:
        kw["velocity_clamp"] = (-3.0, -1.0)
    if k == 2:
        kw["init_pos"] = np.array([[0, 1, 0], [1, 1, 0], [0, 0, 1]])

    def start(what):
        p, v = np.asarray(o.swarm.position), np.asarray(o.swarm.velocity)
        if "init_pos" in kw:
            ok = np.array_equal(p, kw["init_pos"])
        elif cfg["kind"] == "single":
            ok = p.shape == (3, 3) and bool(((p >= 0) & (p < 1)).all())
        elif kw["binary"]:
            ok = p.shape == (3, 3) and set(np.unique(p)) <= {0, 1}
        else:
            ok = p.shape == (3, 3) and bool((np.sort(p, axis=1) == np.arange(3)).all())
        check(ok, lambda: "%s: starting positions %s" % (what, p.tolist()))
        a, b = kw.get("velocity_clamp", (0.0, 1.0))
        check(v.shape == (3, 3) and bool(((v >= a) & (v <= b)).all()), lambda: "%s: starting velocities %s" % (what, v.tolist()))
    with rng.controlled(rng.FixedSource(3)):
        o = Own(**kw)
    start("constructed")
    for call in range(cfg["calls"]):
        with rng.controlled(rng.FixedSource(3)):
            if ctx.choose(2, "reset"):
                o.reset()
                start("reset")
                del entries[:]
                fresh = Own(**kw)
                for x in (fresh, o):
                    with rng.controlled(rng.FixedSource(3)):
                        x.reset()
                check(np.array_equal(o.swarm.position, fresh.swarm.position) and np.array_equal(o.swarm.velocity, fresh.swarm.velocity), "reset() is not a fresh swarm")
                if cfg["kind"] == "discrete" and kw["binary"]:
                    check(set(np.unique(o.swarm.position)) <= {0, 1}, "binary swarm")
            o.optimize(None, cfg["iters"])
        hist = list(zip(o.cost_history, o.mean_pbest_history, o.mean_neighbor_history, o.pos_history, o.velocity_history))
        check(len(hist) == len(entries), lambda: "%d history entries instead of %d" % (len(hist), len(entries)))
        for t, (h, e) in enumerate(zip(hist, entries)):
            check(h[0] == e[0] and h[1] == e[1] and h[2] == e[2] and np.array_equal(h[3], e[3]) and np.array_equal(h[4], e[4]), lambda: "history entry %d is %s instead of %s" % (t, h, e))
    ctx.state(cfg, ctx.choices())
    ctx.step(len(entries))
    ctx.validated()
    ctx.outcome(cfg)


BOUNDS = ("a topology that answers each question with any of up to 3 best positions and costs (true or not), 2 velocities and 2 positions, over up to 3 cost vectors per iteration, 1-3 particles, 2-4 iterations (thorough 7) and one or two calls, "
          "with and without bounds, clamp, schedules, stopping rule; topologies returning five number types; a new strategy with 2 answers per question in the three handlers through every topology, the operators and an optimizer; option strategies for every subset of the options with 3 answers each; searches of up to 3 (5) runs over an optimizer that answers any of three costs; base classes (real, permutations, bits; with and without clamp and given positions) under all short sequences of runs and resets")
ASSUMPTIONS = ["user-defined parts keep to the signatures of the built-in ones"]
HARNESSES = [
    Harness("topology", top_run, top_configs),
    Harness("types", type_run, type_configs),
    Harness("strategies", strategy_run, strategy_configs),
    Harness("option strategies", option_run, option_configs),
    Harness("searches", search_run, search_configs),
    Harness("bases", loop_run, loop_configs),
]
