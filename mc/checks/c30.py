"""Reporter: messages once, at their level, in the file; print; progress bars."""
import contextlib
import io
import itertools
import logging
import os
import pprint
import re
import shutil
import sys
import tempfile

from .. import env, opt as O, rng
from ..core import check
from ..runner import Harness
from pyswarms.utils import Reporter

LEVELS = [20, 10, 40, 30, 50, 5, 25]
CONFIG = """
version: 1
disable_existing_loggers: False
formatters:
  f:
    format: 'CFG %%(levelname)s %%(message)s'
handlers:
  h:
    class: logging.FileHandler
    formatter: f
    level: %s
    filename: %s
root:
  handlers: [h]
  level: DEBUG
"""


class Capture(logging.Handler):
    """Attached to one logger: survives reconfiguration of the root logger."""

    def __init__(self):
        logging.Handler.__init__(self, level=1)
        self.got = []

    def emit(self, r):
        self.got.append((r.levelno, r.getMessage()))


@contextlib.contextmanager
def real_logging():
    """Lets dictConfig through, in a scratch directory; undone afterwards."""
    root = logging.getLogger()
    old = (list(root.handlers), root.level, logging.root.manager.disable, env.quiet, os.getcwd(), os.environ.get("LOG_CFG"))
    d = tempfile.mkdtemp(prefix="c30-", dir=env.SCRATCH)
    err, out = io.StringIO(), io.StringIO()
    os.chdir(d)
    env.quiet = False
    logging.disable(logging.NOTSET)
    os.environ.pop("LOG_CFG", None)
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
            yield d, err, out
    finally:
        for h in list(root.handlers):
            if h not in old[0]:
                root.removeHandler(h)
                h.close()
        for h in old[0]:
            if h not in root.handlers:
                root.addHandler(h)
        root.setLevel(old[1])
        env.quiet = old[3]
        logging.disable(old[2])
        os.chdir(old[4])
        os.environ.pop("LOG_CFG", None)
        if old[5] is not None:
            os.environ["LOG_CFG"] = old[5]
        shutil.rmtree(d, ignore_errors=True)


def lines(path):
    if not os.path.exists(path):
        return None
    return [x for x in open(path, encoding="utf8").read().split("\n") if x]


# ------------------------------------------------------------ sequences of reporters and messages

def log_configs(tier):
    out = []
    for depth in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
        for first in ("default", "path", "logger", "config", "missing", "env"):
            if depth < 4:
                out.append(dict(depth=depth, first=first))
            else:
                out += [dict(depth=depth, first=first, op=i) for i in range(NOPS)]
    return out


OPS = [("new", "default"), ("new", "path"), ("new", "logger")] + [("log", lv) for lv in (20, 10, 40)] + [("args", 30), ("plain", 20)]
NOPS = len(OPS)


def log_run(cfg, ctx):
    plan = []
    with real_logging() as (d, err, out):
        names = {}
        cap = Capture()
        mine = logging.getLogger("c30.mine")
        mine.handlers = [cap]
        mine.setLevel(logging.NOTSET)
        reps = []
        written = {}                  # path -> expected [(level, message)]
        state = {"file": None, "fmt": None, "min": 20, "stderr": True}

        def create(kind):
            n = len(reps)
            path = os.path.join(d, "report.log")
            st = dict(fmt="std", min=20, stderr=True)
            if kind == "default":
                r = Reporter()
            elif kind == "path":
                path = os.path.join(d, "p%d.log" % n)
                r = Reporter(log_path=path)
            elif kind == "logger":
                r = Reporter(logger=mine)
                check(r.logger is mine, "the logger passed in is not used")
            else:
                cfgfile = os.path.join(d, "c%d.yml" % n)
                target = os.path.join(d, "cfg%d.log" % n)
                if kind in ("config", "env"):
                    with open(cfgfile, "w") as f:
                        f.write(CONFIG % ("WARNING" if kind == "env" else "DEBUG", target))
                    path = target
                    st = dict(fmt="cfg", min=30 if kind == "env" else 10, stderr=False)
                if kind == "env":
                    os.environ["LOG_CFG"] = cfgfile
                    r = Reporter(log_path=os.path.join(d, "unused.log"))
                    os.environ.pop("LOG_CFG")
                else:
                    r = Reporter(config_path=cfgfile)
            state.update(st, file=path)
            written.setdefault(path, [])
            reps.append((r, kind == "logger"))

        create(cfg["first"])
        expect_err, expect_mine = [], []
        for s in range(cfg["depth"]):
            if s == 0 and "op" in cfg:
                op = OPS[cfg["op"]]
            else:
                op = ctx.pick(OPS, "op")
            plan.append(op)
            if op[0] == "new":
                create(op[1])
            else:
                r, own = reps[ctx.choose(len(reps), "reporter")] if len(reps) > 1 else reps[0]
                msg = "message %d" % s
                lvl = op[1]
                if op[0] == "plain":
                    r.log(msg)
                elif op[0] == "args":
                    r.log("message %s%d", lvl, "no ", s)
                    msg = "message no %d" % s
                elif s % 2:
                    r.log(msg, lvl=lvl)
                else:
                    r.log(msg, lvl)
                root_level = 20 if state["fmt"] == "std" else 10
                if lvl >= root_level:
                    if lvl >= state["min"]:
                        written[state["file"]].append((lvl, msg))
                        if state["stderr"]:
                            expect_err.append((lvl, msg))
                    if own:
                        expect_mine.append((lvl, msg))
            for h in logging.getLogger().handlers:
                h.flush()
            for path, want in written.items():
                got = lines(path)
                check(got is not None, lambda: "report file %s does not exist" % os.path.basename(path))
                check(len(got) == len(want), lambda: "after %s the file %s has the lines %s, should have %s" % (plan, os.path.basename(path), got, want))
                for g, (lv, m) in zip(got, want):
                    check(g.endswith(m) and re.search(r"\b%s\b" % logging.getLevelName(lv), g), lambda: "line %r for message %r at level %d" % (g, m, lv))
            check(not os.path.exists(os.path.join(d, "unused.log")), "log_path is used although a configuration was given")
            el = [x for x in err.getvalue().split("\n") if x]
            check(len(el) == len(expect_err) and all(g.endswith(m) for g, (_, m) in zip(el, expect_err)), lambda: "after %s stderr has %s, should have %s" % (plan, el, expect_err))
            check(out.getvalue() == "", lambda: "stdout has %r" % out.getvalue())
            check(cap.got == expect_mine, lambda: "after %s the logger passed in received %s, should have %s" % (plan, cap.got, expect_mine))
            ctx.step()
        mine.handlers = []
    ctx.state(cfg["first"], plan, ctx.choices())
    ctx.validated()
    ctx.outcome(tuple(sorted((os.path.basename(p), tuple(w)) for p, w in written.items())))
    ctx.sample(lambda: "%s then %s -> %s" % (cfg["first"], plan, written))


# ------------------------------------------------------------ messages

class Shown:
    def __str__(self):
        return "shown 5%"


# message, arguments; text in the log
MESSAGES = [
    ("plain", (), "plain"), ("100% done", (), "100% done"), ("%s", (), "%s"), ("%d and %f", (), "%d and %f"), ("%(a)s %", (), "%(a)s %"),
    ("{} {a} }{", (), "{} {a} }{"), ("%%", (), "%%"), ("a%%b %d", (3,), "a%b 3"), ("%s", ("100%",), "100%"), ("%s and %r", ("x", "y"), "x and 'y'"),
    ("%(a)s-%(b)d", ({"a": "u", "b": 4},), "u-4"), ("{} %s", ("v",), "{} v"), ("caf\u00e9 \u2713", (), "caf\u00e9 \u2713"), ("tab\tend", (), "tab\tend"),
    (" spaces  ", (), " spaces  "), (17, (), "17"), (2.5, (), "2.5"), (None, (), "None"), (("t", 1), (), "('t', 1)"), ([1, 2], (), "[1, 2]"), ({"k": 1}, (), "{'k': 1}"),
    (Shown(), (), "shown 5%"), (ValueError("bad %s"), (), "bad %s"), ("%s", ((1, 2),), "(1, 2)"), ("%5.2f|", (3.14159,), " 3.14|"), ("x" * 3000, (), "x" * 3000), ("%s", ("y" * 3000,), "y" * 3000), ("\\d", (), "\\d"), ("0", (), "0"), (0, (), "0"), (False, (), "False"),
]


def message_configs(tier):
    return [dict(msg=i, own=o) for i in range(len(MESSAGES)) for o in (True, False)]


def message_run(cfg, ctx):
    """Every kind of message, with and without arguments and keyword arguments, twice."""
    msg, args, text = MESSAGES[cfg["msg"]]
    lvl = ctx.pick([20, 30, 40], "lvl")
    how = ctx.pick(["plain", "default", "kw", "extra", "exc"], "how")
    if args and how in ("default", "kw"):
        how = "plain"
    with real_logging() as (d, err, out):
        recs = []

        class Keep(logging.Handler):
            def emit(self, r):
                recs.append(r)
        keep = Keep(level=1)
        path = os.path.join(d, "m.log")
        mine = logging.getLogger("c30.msg")
        rep = Reporter(log_path=path, logger=mine) if cfg["own"] else Reporter(log_path=path)
        rep.logger.addHandler(keep)
        try:
            for _ in range(2):
                if how == "plain":
                    rep.log(msg, lvl, *args)
                elif how == "default":
                    rep.log(msg)
                    lvl = 20
                elif how == "kw":
                    rep.log(lvl=lvl, msg=msg)
                elif how == "extra":
                    rep.log(msg, lvl, *args, extra={"mark": 5})
                else:
                    try:
                        raise KeyError("inner")
                    except KeyError:
                        rep.log(msg, lvl, *args, exc_info=True)
                ctx.step()
        finally:
            rep.logger.removeHandler(keep)
        check(len(recs) == 2 and all(r.levelno == lvl for r in recs), lambda: "2 messages at level %d gave the records %s" % (lvl, [(r.levelno, r.msg) for r in recs]))
        for r in recs:
            check(r.getMessage() == text, lambda: "message %r with arguments %r is logged as %r" % (msg, args, r.getMessage()))
            check(how != "extra" or getattr(r, "mark", None) == 5, "the extra attribute is lost")
            check(how != "exc" or (r.exc_info and r.exc_info[0] is KeyError), "the exception is lost")
        with open(path, encoding="utf8", newline="") as f:
            flat = f.read()
        check(flat.count("%s - %s\n" % (logging.getLevelName(lvl), text)) == 2, lambda: "message %r (arguments %r) twice: the file has %r" % (msg, args, flat[-300:]))
        check(err.getvalue().count(text) >= 2, lambda: "message %r (arguments %r) twice: stderr has %r" % (msg, args, err.getvalue()[-300:]))
        check(out.getvalue() == "", "stdout")
    ctx.state(cfg, lvl, how)
    ctx.validated()
    ctx.outcome(text, lvl, how)


# ------------------------------------------------------------ levels

def level_configs(tier):
    return [dict(reporters=n, level=lv) for n in (1, 2, 3, 8) for lv in (0, 5, 10, 20, 30, 40, 50)]


def level_run(cfg, ctx):
    """Every level through a logger of every level, after many reporters."""
    lvl = ctx.pick(LEVELS, "lvl")
    form = ctx.pick(["pos", "kw", "default"], "form")
    if form == "default":
        lvl = 20
    with real_logging() as (d, err, out):
        cap = Capture()
        mine = logging.getLogger("c30.level")
        mine.handlers = [cap]
        mine.setLevel(cfg["level"])
        reps = [Reporter(logger=mine, log_path=os.path.join(d, "f.log")) for _ in range(cfg["reporters"])]
        for i, r in enumerate(reps):
            if form == "pos":
                r.log("m%d" % i, lvl)
            elif form == "kw":
                r.log(msg="m%d" % i, lvl=lvl)
            else:
                r.log("m%d" % i)
        enabled = lvl >= (cfg["level"] or 20)
        want = [(lvl, "m%d" % i) for i in range(len(reps))] if enabled else []
        check(cap.got == want, lambda: "%d reporters, level %d (logger at %d): records %s" % (len(reps), lvl, cfg["level"], cap.got))
        got = lines(os.path.join(d, "f.log"))
        wf = [m for _, m in want] if lvl >= 20 else []
        check(len(got) == len(wf) and all(g.endswith(m) for g, m in zip(got, wf)), lambda: "messages at level %d with the logger at %d: the file has %s" % (lvl, cfg["level"], got))
        mine.handlers = []
        mine.setLevel(0)
    ctx.state(cfg, lvl, form)
    ctx.step(cfg["reporters"])
    ctx.validated()
    ctx.outcome(cfg, lvl, len(want), len(wf))


# ------------------------------------------------------------ print

class Printer:
    def __init__(self):
        self.got = []

    def pprint(self, m):
        self.got.append(m)


def print_configs(tier):
    return [dict(printer=p, length=k) for p in ("own", "default") for k in ((1, 2) if tier == "quick" else (1, 2, 3))]


def print_run(cfg, ctx):
    V = [-1, 0, 1, 2, 3] if cfg["length"] == 1 else [0, 1, 2]
    msgs = ["text", {"b": [1, 2], "a": (3,)}, ["x" * 50, "y" * 50], 5, None] if cfg["length"] == 1 else ["text", "other"]
    own = Printer()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = Reporter(printer=own) if cfg["printer"] == "own" else Reporter()
        want = []
        for _ in range(cfg["length"]):
            m, v, t = ctx.pick(msgs, "msg"), ctx.pick(V, "verbosity"), ctx.pick([None] + V, "threshold")
            if t is None:
                r.print(m, v)
            elif ctx.choose(2, "kw"):
                r.print(msg=m, verbosity=v, threshold=t)
            else:
                r.print(m, v, t)
            if v > (t or 0):
                want.append(m)
            ctx.step()
    got = own.got if cfg["printer"] == "own" else out.getvalue()
    exp = want if cfg["printer"] == "own" else "".join(pprint.pformat(m) + "\n" for m in want)
    check(got == exp, lambda: "printed %r, should have printed %r" % (got, exp))
    ctx.state(ctx.choices(), cfg)
    ctx.validated()
    ctx.outcome(repr(want))


# ------------------------------------------------------------ progress bars

def bar_configs(tier):
    return [dict(iters=n, bars=b) for n in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4)) for b in (1, 2) if not (b == 2 and n > 2)]


def bar_run(cfg, ctx):
    """pbar of one or two reporters, with hooks or without after any element."""
    err, out = io.StringIO(), io.StringIO()
    n = cfg["iters"]
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        reps = [Reporter() for _ in range(cfg["bars"])]
        desc = ctx.pick([None, "name"], "desc")
        its = [iter(r.pbar(n, desc) if desc else r.pbar(n)) for r in reps]
        seen = [[] for _ in reps]
        posts = []
        live = list(range(len(reps)))
        while live:
            b = live[ctx.choose(len(live), "bar")]
            try:
                seen[b].append(next(its[b]))
            except StopIteration:
                live.remove(b)
                continue
            h = ctx.choose(3, "hook")
            for j in range(h):
                val = "v%d_%d_%d" % (b, len(seen[b]), j)
                reps[b].hook(best_cost=val)
                posts.append(val)
                check("best_cost=" + val in str(reps[b].t), lambda: "bar %d shows %s after hook(best_cost=%s)" % (b, reps[b].t, val))
            ctx.step()
    for b in range(len(reps)):
        check(seen[b] == list(range(n)), lambda: "pbar(%d) yields %s" % (n, seen[b]))
    check(out.getvalue() == "", "progress bars write to stdout")
    text = err.getvalue()
    for v in posts:
        check(v in text, lambda: "hook value %s never shown" % v)
    check(n == 0 or "%d/%d" % (n, n) in text, lambda: "the bar ends with %r" % text[-80:])
    check(desc is None or desc in text, "the description is not shown")
    ctx.state(cfg, ctx.choices())
    ctx.validated()
    ctx.outcome(cfg, desc, len(posts))


# ------------------------------------------------------------ what optimize() reports

def opt_configs(tier):
    return [dict(opt=o, n=4, d=2, k=2, r=0, iters=it, ftol=f) for o in O.ALL_OPTS for it in (1, 3) for f in (None, 1e9)]


def opt_run(cfg, ctx):
    ops = [ctx.pick(["verbose", "silent"], "op") for _ in range(2)]
    with real_logging() as (d, err, out), rng.controlled(rng.FixedSource(5)):
        got = []
        real = logging.getLogRecordFactory()
        depth = [0]

        def factory(*a, **k):
            r = real(*a, **k)
            if depth[0]:
                got.append((r.levelno, r.getMessage()))
            return r
        logging.setLogRecordFactory(factory)
        try:
            tr = O.Trace(cfg, O.bumpy, snapshots=False, capture=False)
            for op in ops:
                del got[:]
                e0 = err.tell()
                f0 = len(lines(os.path.join(d, "report.log")))
                depth[0] = 1
                tr.optimize(verbose=op == "verbose")
                depth[0] = 0
                info = [g for g in got if g[0] >= 20]
                new = lines(os.path.join(d, "report.log"))[f0:]
                text = err.getvalue()[e0:]
                if op == "silent":
                    check(not info and not new and not text, lambda: "silent run reports %s %s %s" % (info, new, text))
                    continue
                cost, pos = tr.calls[-1].result
                executed = tr.calls[-1].end - tr.calls[-1].start
                check(len(info) == 2 and all(l == 20 for l, _ in info), lambda: "verbose run logs %s" % info)
                check(str(cost) in info[1][1] and str(pos) in info[1][1], lambda: "final message %r, result %s" % (info[1][1], (cost, pos)))
                check(re.search(r"\b%d\b" % cfg["iters"], info[0][1]), lambda: "first message %r, %d iterations" % (info[0][1], cfg["iters"]))
                flat = "\n".join(new)
                check(all(m in flat for _, m in info) and flat.count("finished") == 1, lambda: "the report file got %s" % new)
                check("best_cost=" in text and "/%d" % cfg["iters"] in text, lambda: "no progress bar: %r" % text)
                ctx.step(executed)
        finally:
            logging.setLogRecordFactory(real)
    check(out.getvalue() == "", "optimize() writes to stdout")
    ctx.state(cfg, ops)
    ctx.validated()
    ctx.outcome(cfg["opt"], ops)


BOUNDS = ("all sequences of up to 3 (thorough 4) operations (new reporters of three kinds, messages at four levels through any reporter) after each of six kinds of first reporter; 31 messages (percent signs, braces, other types, arguments, long and non-ASCII text) x levels x keyword arguments; all levels x logger levels x 1-8 reporters; "
          "all verbosity/threshold pairs in -1..3 and pairs of prints; every placement of 0-2 hooks per step and every interleaving of two bars; the reports of every optimizer")
ASSUMPTIONS = ["the root logger is configured by the reporters alone"]
HARNESSES = [
    Harness("log", log_run, log_configs),
    Harness("messages", message_run, message_configs),
    Harness("levels", level_run, level_configs),
    Harness("print", print_run, print_configs),
    Harness("bars", bar_run, bar_configs),
    Harness("optimizers", opt_run, opt_configs),
]
