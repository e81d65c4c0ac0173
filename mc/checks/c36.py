"""The library leaves the process as it found it and keeps nothing alive."""
import atexit
import builtins
import copyreg
import decimal
import resource
import socket
import contextlib
import gc
import io
import locale
import logging
import multiprocessing
import multiprocessing.pool
import os
import random as pyrandom
import shutil
import signal
import sys
import tempfile
import threading
import time
import warnings
import weakref

import numpy as np

from .. import env, opt as O, pool, rng
from ..core import Violation, check
from ..runner import Harness
from .c30 import real_logging
import matplotlib
import matplotlib.pyplot as plt
import pyswarms as ps
from pyswarms.backend import generators as G, topology as T
from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
from pyswarms.utils.functions import single_obj as fx
from pyswarms.utils.plotters import plot_contour, plot_cost_history, plot_surface
from pyswarms.utils.plotters.formatters import Mesher
from pyswarms.utils.search import GridSearch, RandomSearch

APP = logging.getLogger("an.application")
APP.setLevel(17)
APP.addHandler(logging.NullHandler())


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:]), pyrandom.getstate()


def threads():
    return sorted(t.name for t in threading.enumerate() if type(t).__name__ != "TMonitor")


def process(rc=True):
    """What any other code in the process can see of the process-wide state."""
    out = {
        "numpy error handling": (np.geterr(), np.geterrcall(), np.getbufsize()),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "warning filters": list(warnings.filters),
        "showwarning": warnings.showwarning,
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "recursion limit": sys.getrecursionlimit(),
        "standard streams": (sys.stdout, sys.stderr, sys.stdin),
        "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(), threading.excepthook),
        "import path": list(sys.path),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGALRM)],
        "threads": threads(),
        "children": len(multiprocessing.active_children()),
        "open files": len(os.listdir("/proc/self/fd")),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "switch interval": sys.getswitchinterval(),
        "locale": locale.setlocale(locale.LC_ALL),
        "start method": multiprocessing.get_start_method(allow_none=True),
        "application logger": (APP.level, list(APP.handlers), APP.disabled, APP.propagate, list(APP.filters)),
        "logging": (logging.root.manager.disable, logging.raiseExceptions, logging.lastResort, logging.getLoggerClass(), logging.getLevelName(20)),
        "files": sorted(f for f in os.listdir(".") if not f.startswith("report.log")),
        "exit hooks": atexit._ncallbacks(),
        "collector callbacks": list(gc.callbacks),
        "pickling": sorted(str(k) for k in copyreg.dispatch_table),
        "builtins": sorted(vars(builtins)),
        "processors": sorted(os.sched_getaffinity(0)),
        "limits": [resource.getrlimit(getattr(resource, r)) for r in ("RLIMIT_NOFILE", "RLIMIT_STACK", "RLIMIT_CORE", "RLIMIT_AS", "RLIMIT_CPU")],
        "blocked signals": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
        "decimal context": str(decimal.getcontext()),
        "numpy's generator": (id(np.random.mtrand._rand), type(np.random.get_bit_generator()).__name__),
        "socket timeout": socket.getdefaulttimeout(),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks)),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
    }
    if rc:
        out["matplotlib settings"] = dict(matplotlib.rcParams)
        out["default figure size"] = list(matplotlib.rcParams["figure.figsize"])
    return out


def unchanged(before, after, what):
    for k, v in before.items():
        check(k not in after or after[k] == v, lambda: "%s: %s was %s and is %s" % (what, k, str(v)[:300], str(after[k])[:300]))


# ---------------------------------------------------------------- sequences of operations

class Application:
    """A program using the library; remembers the objects it made, weakly."""

    def __init__(self, src):
        self.opt, self.src, self.refs, self.inside = None, src, [], None

    def ref(self, *objs):
        for o in objs:
            self.refs.append((type(o).__name__, weakref.ref(o)))

    def objective(self, fail=False):
        before, ident = process(False), threading.get_ident()
        app = self

        class Objective:
            """Not a function, so that whoever keeps it alive is noticed."""
            calls = 0

            def __call__(self, X, **kw):
                self.calls += 1
                if app.inside is None and kw.get("look", True):
                    now = process(False)
                    for k in ("open files", "standard streams"):
                        now[k] = before[k]
                    unchanged(before, now, "inside the objective")
                    check(threading.get_ident() == ident, "the objective is called in another thread")
                if fail and self.calls == 2:
                    raise ArithmeticError("the objective fails")
                return O.bumpy(0, X)
        f = Objective()
        self.ref(f)
        return f

    def make(self, name, **kw):
        c = dict(O.DEFAULT, opt=name, n=5, d=2, k=2, r=0)
        if name != "binary":
            c.update(bounds="sym", clamp="s")
        c.update(kw)
        self.opt = O.build(c)
        self.ref(self.opt, self.opt.swarm, self.opt.swarm.position)
        top = getattr(self.opt, "top", None)
        if top is not None:
            self.ref(top)

    def use(self):
        if self.opt is None:
            self.make("global")
        return self.opt


def op_make(name, **kw):
    return lambda app: app.make(name, **kw)


def op_run(app):
    app.use().optimize(app.objective(), 3, verbose=False)
    app.ref(app.opt.swarm, app.opt.swarm.position, app.opt.swarm.pbest_cost, app.opt.pos_history[0])


def op_loud(app):
    app.use().optimize(app.objective(), 2)


def op_pool(app):
    with pool.PoolControl() as ctl:
        app.use().optimize(fx.sphere, 2, n_processes=2, verbose=False)
    check(all(p._state != "RUN" for p in ctl.pools), "a pool of worker processes is left open")


def op_fail(app):
    try:
        app.use().optimize(app.objective(True), 3, verbose=False)
    except ArithmeticError:
        return
    check(False, "the exception of the objective is lost")


def op_reset(app):
    app.use().reset()


def op_invalid(app):
    for f in (lambda: ps.single.GlobalBestPSO(3, 2, {"c1": 1}), lambda: ps.single.GeneralOptimizerPSO(3, 2, O.OPTS["std"], "ring"), lambda: ps.single.GlobalBestPSO(3, 2, O.OPTS["std"], bounds=(np.ones(2), np.zeros(2))),
              lambda: BoundaryHandler("nowhere")(np.zeros((2, 2)), (np.zeros(2), np.ones(2)))):
        with contextlib.suppress(Exception):      # (C32 decides whether it must be refused)
            f()


def op_search(app):
    o = dict(c1=[0.5, 1.0], c2=0.3, w=[0.9], k=2, p=1)
    GridSearch(ps.single.LocalBestPSO, 4, 2, o, app.objective(), 2).search()
    RandomSearch(ps.single.LocalBestPSO, 4, 2, dict(c1=[1, 5], c2=[6, 10], w=[2, 5], k=[1, 3], p=1), app.objective(), 2, n_selection_iters=2).search(maximum=True)


def op_plot(app):
    o = app.use()
    if not o.pos_history:
        op_run(app)
    before = dict(matplotlib.rcParams)
    try:
        plot_cost_history(o.cost_history)
        m = Mesher(func=fx.sphere, delta=0.5)
        a = plot_contour(o.pos_history, mesher=m)
        b = plot_surface(m.compute_history_3d(o.pos_history), mesher=m)
        a._draw_was_started = b._draw_was_started = True
        a.event_source = b.event_source = None
    finally:
        plt.close("all")
    check(dict(matplotlib.rcParams) == before, "plotting changes matplotlib's settings")


def op_backend(app):
    n, d = 4, 2
    P = __import__("pyswarms.backend", fromlist=["backend"])
    s = P.create_swarm(n, d, bounds=(np.zeros(d), np.ones(d)), clamp=(-1, 1), options=dict(O.OPTS["std"], k=2, p=2))
    app.ref(s, s.position)
    G.create_swarm(n, d, discrete=True, binary=True)
    s.pbest_pos = s.position.copy()
    s.best_pos = s.position[0].copy()
    P.compute_velocity(s, (-1, 1), VelocityHandler("invert"), (np.zeros(d), np.ones(d)))
    P.compute_position(s, (np.zeros(d), np.ones(d)), BoundaryHandler("shrink"))
    OptionsHandler({"w": "exp_decay"})(dict(s.options), iternow=1, itermax=4)
    for t in (T.Star(), T.Ring(), T.Random(), T.Pyramid(), T.VonNeumann()):
        app.ref(t)
        s.pbest_cost = s.current_cost = np.arange(n, dtype=float)
        t.compute_gbest(s, k=2, p=2, r=0)


def op_functions(app):
    for f, X in [(fx.sphere, np.ones((2, 3))), (fx.ackley, np.ones((2, 3))), (fx.crossintray, np.ones((2, 2))), (fx.levi, np.zeros((2, 2))), (fx.goldstein, np.ones((2, 2)))]:
        f(X)
    try:
        fx.ackley(np.full((2, 2), 1e9))
    except ValueError:
        pass

    @ps.cost
    def g(x):
        return x[0]
    g(np.ones((3, 2)))


def op_drop(app):
    app.opt = None


OPS = {"general": op_make("general:ring"), "pyramid": op_make("general:pyramid_static", bh="shrink", vh="adjust"), "random": op_make("general:random", bounds=None, oh={"w": "random"}), "local": op_make("local", bh="intermediate"), "binary": op_make("binary"),
       "vn": op_make("general:vn"), "run": op_run, "loud": op_loud, "pool": op_pool, "fail": op_fail, "reset": op_reset, "invalid": op_invalid, "search": op_search, "backend": op_backend, "functions": op_functions, "plot": op_plot, "drop": op_drop}
SHORT = [o for o in OPS if o not in ("plot", "search", "vn")]


def seq_configs(tier):
    deep = tier == "thorough"
    names = list(OPS) if deep else SHORT
    return [dict(first=a, second=b, depth=4 if deep else 3, world=0) for a in names for b in (names if deep else [None])] + [dict(first=a, depth=2, second=None, world=w) for a in OPS for w in (0, 1)]


WORLDS = [dict(err=dict(divide="warn", over="warn", under="ignore", invalid="warn"), digits=8), dict(err=dict(divide="ignore", over="ignore", under="warn", invalid="ignore"), digits=5)]


@contextlib.contextmanager
def own_directory(world=0):
    """A directory and settings of the program's own."""
    old, err, digits = os.getcwd(), np.geterr(), np.get_printoptions()["precision"]
    d = tempfile.mkdtemp(prefix="c36-", dir=env.SCRATCH)
    os.chdir(d)
    np.seterr(**WORLDS[world]["err"])
    np.set_printoptions(precision=WORLDS[world]["digits"])
    try:
        yield d
    finally:
        np.seterr(**err)
        np.set_printoptions(precision=digits)
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def warm():
    """The monitor of tqdm's bars, which it starts with the first one."""
    import tqdm
    with contextlib.redirect_stderr(io.StringIO()):
        tqdm.tqdm(total=1).close()


def seq_run(cfg, ctx):
    warm()
    names = SHORT if cfg["depth"] > 2 else list(OPS)
    gc.collect()
    src = rng.FixedSource(5)
    app = Application(src)
    done = []
    real = rng_state()
    out, err = io.StringIO(), io.StringIO()
    with own_directory(cfg["world"]), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), rng.controlled(src):
        start = process(True)
        for j in range(cfg["depth"]):
            name = cfg["first"] if j == 0 else cfg["second"] if j == 1 and cfg["second"] else ctx.pick(names, "operation")
            done.append(name)
            OPS[name](app)
            unchanged(start, process(j == cfg["depth"] - 1), "after %s" % done)
            ctx.state(j, name, app.opt is None)
            ctx.step()
        app.opt = None
    alive = [n for n, r in app.refs if r() is not None]
    if alive:
        gc.collect()
        alive = [n for n, r in app.refs if r() is not None]
    check(not alive, lambda: "after %s, everything dropped: still alive: %s" % (done, alive))
    check(rng_state() == real, lambda: "after %s: the generators the program did not use changed their state" % done)
    ctx.validated(len(app.refs))
    ctx.outcome(tuple(done))
    ctx.sample(lambda: "%s: %d objects gone" % (done, len(app.refs)))


# ---------------------------------------------------------------- with the logging configuration in place

def log_configs(tier):
    return [dict(first=a) for a in OPS]


def log_run(cfg, ctx):
    """The default logging configuration is installed again and again: files and handlers do not pile up."""
    warm()
    names = [cfg["first"], ctx.pick(list(OPS), "operation")]
    with own_directory(1), real_logging() as (d, err, out), rng.controlled(rng.FixedSource(5)):
        app = Application(None)
        app.inside = True
        app.make("global")
        first = process(False)
        root = len(logging.root.handlers)
        for rep in range(2):
            for name in names:
                OPS[name](app)
                gc.collect()
                now = process(False)
                unchanged(first, now, "after %s (round %d)" % (name, rep))
                check(len(logging.root.handlers) <= root, lambda: "after %s: %d handlers of the root logger, %d before" % (name, len(logging.root.handlers), root))
                ctx.step()
        check(sorted(os.listdir(d)) in ([], ["report.log"]), lambda: "files written: %s" % os.listdir(d))
    ctx.state(names)
    ctx.validated()
    ctx.outcome(tuple(names))


# ---------------------------------------------------------------- real worker processes

def real_configs(tier):
    out = []
    for o in ("global", "local", "general:ring", "binary", "mesher", "contour", "surface"):
        for p, c in [(2, 2)] + ([(1, 3), (3, 2)] if tier == "thorough" else []):
            for who in ("send", "receive"):
                out.append(dict(opt=o, nproc=p, calls=c, slow=who, fails=False))
                if o in ("global", "local", "general:ring", "binary"):
                    out.append(dict(opt=o, nproc=p, calls=1, slow=who, fails=True))
    return out


@contextlib.contextmanager
def slow_handler(who, at, pause):
    """Delays the pool's own sending or receiving thread after its at-th message: a schedule the machine may choose at any time."""
    cls = multiprocessing.pool.Pool
    old = cls._setup_queues

    def setup(self):
        old(self)
        name = "_quick_put" if who == "send" else "_quick_get"
        f, count = getattr(self, name), [0]

        def late(*args):
            r = f(*args)
            count[0] += 1
            if count[0] == at:
                time.sleep(pause)
            return r
        setattr(self, name, late)
    cls._setup_queues = setup
    try:
        yield
    finally:
        cls._setup_queues = old


def fail(X):
    raise ZeroDivisionError("on purpose")


def pool_use(kind, nproc, fails):
    if kind in ("mesher", "contour", "surface"):
        m = Mesher(func=fx.sphere, delta=0.5)
        h = [np.arange(8.0).reshape(4, 2) / 8] * 2
        if kind == "mesher":
            return lambda: m.compute_history_3d(h, n_processes=nproc)
        if kind == "contour":
            return lambda: plot_contour(h, mesher=m, n_processes=nproc)
        return lambda: plot_surface(m.compute_history_3d(h), mesher=m, n_processes=nproc)
    opt = O.build(dict(O.DEFAULT, opt=kind, n=4, d=2, k=2))
    if fails:
        def failing():
            try:
                opt.optimize(fail, 2, n_processes=nproc, verbose=False)
            except ZeroDivisionError:
                return
            check(False, "%s: the error of the objective did not come through the pool" % kind)
        return failing
    return lambda: opt.optimize(fx.sphere, 2, n_processes=nproc, verbose=False)


def real_run(cfg, ctx):
    """The pool's processes and threads end with (or soon after) the call, whatever the order in which its threads get to run."""
    # at: the message after which the thread is held up; 0: nowhere
    at = ctx.choose(2 * cfg["nproc"] + 3, "at", free=True)
    before = set(threads())
    with rng.controlled(rng.FixedSource(3)), slow_handler(cfg["slow"], at, 0.2), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        use = pool_use(cfg["opt"], cfg["nproc"], cfg["fails"])
        for _ in range(cfg["calls"]):
            use()
        plt.close("all")
    del use
    end = time.time() + (20 if not cfg["fails"] else 5)
    while True:
        gc.collect()
        kids, th = len(multiprocessing.active_children()), [t for t in threads() if t not in before and "_handle" in t]
        if not kids and not th or time.time() > end:
            break
        time.sleep(0.02)
    for p in multiprocessing.active_children():
        p.kill()
        p.join(5)
    if cfg["fails"] and (kids or th):
        raise Violation("%s: %d worker processes stay after the objective raised" % (cfg["opt"], kids), "pool-left-on-error")
    check(not kids, lambda: "%s: %d worker processes are still there 20 s after the call returned, when the pool's %s thread is slow at message %d" % (cfg["opt"], kids, cfg["slow"], at))
    check(not th, lambda: "threads of the pool are still there: %s" % th)
    ctx.state(cfg["opt"], cfg["nproc"], cfg["slow"], at)
    ctx.step(cfg["calls"])
    ctx.validated()
    ctx.outcome(cfg["opt"])


BOUNDS = ("all sequences of up to 3 (thorough 4) operations from %d (making six optimizers; runs: quiet, loud, on a pool, failing; reset, malformed requests, backend calls, benchmark functions, dropping), all pairs of %d (also both searches, plots and animations), again with the default logging configuration really installed; "
          "runs on real worker processes of every function that makes a pool, with a delay of the pool's sending or receiving thread after each message in turn" % (len(SHORT), len(OPS)))
ASSUMPTIONS = ["process-wide state compared: numpy error handling, print options, warning filters, working directory, environment, streams, hooks, import path, signal handlers, threads, children, open files, garbage collector, locale, an application's logger, matplotlib settings, files in the working directory, both random generators' states",
               "report.log, handlers of the root logger (installed by design) and tqdm's monitor thread are exempt; objects may be freed by the garbage collector"]
HARNESSES = [
    Harness("sequences", seq_run, seq_configs),
    Harness("logging", log_run, log_configs),
    Harness("real processes", real_run, real_configs),
]
