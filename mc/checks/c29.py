"""What the plotters draw is the recorded run."""
import itertools
import contextlib
import io
import logging
import warnings

import matplotlib
import matplotlib.axes
import matplotlib.collections
import matplotlib.pyplot as plt
import numpy as np
from mpl_toolkits.mplot3d import Axes3D

from .. import env, opt as O, rng
from ..core import check
from ..runner import Harness
from pyswarms.utils.decorators import cost
from pyswarms.utils.functions import single_obj as fx
from pyswarms.utils.plotters import plot_contour, plot_cost_history, plot_surface
from pyswarms.utils.plotters.formatters import Animator, Designer, Mesher


def lin(X):
    return X[:, 0] + 10.0 * X[:, 1] - X[:, 0] * X[:, 1] / 4.0


@cost
def single(x):
    return x[0] - 3.0 * x[1] ** 2


def curve(X):
    return 0.1 + np.sqrt(np.abs(X[:, 0])) / 3.0 + X[:, 1] * 1e-3


def half(X):
    """Whole values for some points and halves for others, in an array of objects or of small floats."""
    return (X[:, 0] + X[:, 1]) / 2.0


FUNCS = {"curve": curve, "half": half, "lin": lin, "sphere": fx.sphere, "booth": fx.booth, "cost": single, "ackley": fx.ackley}
LET = [(-1.0, 0.5), (0.25, -0.75), (0.25, 0.5)]


LETI = [(-1, 2), (3, 0), (2, 5)]
DTYPES = ["int64", "int32", "uint8", "float32", "bool", "ints"]


def near(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-12, atol=1e-12)


# ------------------------------------------------------------ 3-D history

def hist_configs(tier):
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] + ([(2, 3), (3, 2), (4, 1), (1, 4)] if tier == "thorough" else [])
    return [dict(it=t, n=n, f=f, form=form) for t, n in shapes for f in FUNCS for form in ("array", "list")] + \
           [dict(it=2, n=2, f=f, form="lists") for f in ("lin",)] + \
           [dict(it=t, n=n, f=f, form=form) for t, n in shapes if t * n <= 4 for f in ("curve", "half", "cost") for form in DTYPES]


def hist_run(cfg, ctx):
    it, n = cfg["it"], cfg["n"]
    let = LET if cfg["form"] not in DTYPES else [(0, 1), (1, 1), (1, 0)] if cfg["form"] == "bool" else [(7, 2), (3, 0), (2, 5)] if cfg["form"] == "uint8" else LETI
    P = [[ctx.pick(let, "p") for _ in range(n)] for _ in range(it)]
    H = np.array(P)
    if cfg["form"] in DTYPES[:-1]:
        H = H.astype(cfg["form"])
    f = FUNCS[cfg["f"]]
    data = H if cfg["form"] == "array" or cfg["form"] in DTYPES[:-1] else [np.array(h) for h in H]
    before = np.array(data)
    if cfg["form"] == "lists":
        data = [np.array(h) for h in P]
    out = Mesher(func=f).compute_history_3d(data)
    check(isinstance(out, np.ndarray) and out.shape == (it, n, 3), lambda: "shape %s for %d iterations of %d particles" % (np.shape(out), it, n))
    check(np.array_equal(out[:, :, :2], H), lambda: "coordinates %s became %s" % (H.tolist(), out[:, :, :2].tolist()))
    for t in range(it):
        for i in range(n):
            z = float(f(H[t, i:i + 1])[0])
            check(near(float(out[t, i, 2]), z), lambda: "iteration %d particle %d at %s has height %r, function value %r" % (t, i, P[t][i], out[t, i, 2], z))
            ctx.step()
    check(np.array_equal(before, np.array(data)), "the history was modified")
    ctx.state(cfg["f"], H)
    ctx.validated()
    ctx.outcome(out)
    ctx.sample(lambda: "history %s -> %s" % (P, out.tolist()))


# ------------------------------------------------------------ animations

def scatters(fig, mark):
    """Offsets of all scatter plots of the figure, the mark apart."""
    out, marks = [], []
    for ax in fig.axes:
        for c in ax.collections:
            if not isinstance(c, matplotlib.collections.PathCollection):
                continue
            if hasattr(c, "_offsets3d"):
                off = np.array([np.asarray(v, dtype=float) for v in c._offsets3d]).T
            else:
                off = np.asarray(c.get_offsets(), dtype=float)
            if mark is not None and off.shape == (1, len(mark)) and np.array_equal(off[0], mark):
                marks.append(off)
            else:
                out.append(off)
    return out, marks


MARK = {2: (7.0, -8.0), 3: (7.0, -8.0, 9.0)}


def history(it, n, dim, salt=0):
    return np.array([[[((7 * t + 3 * i + 5 * j + salt) % 16) / 8.0 - 1.0 + 0.001 * (t * n + i) for j in range(dim)] for i in range(n)] for t in range(it)])


@contextlib.contextmanager
def figures():
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            yield
        finally:
            plt.close("all")


def anim_configs(tier):
    out = []
    for kind in ("contour", "surface"):
        for it, n, length in [(1, 1, 2), (1, 3, 2), (2, 1, 3), (2, 2, 3), (3, 1, 3), (3, 2, 2), (3, 3, 2)] + ([(3, 2, 3), (4, 3, 3), (4, 1, 3), (3, 3, 3)] if tier == "thorough" else []):
            for var in ("plain", "mark", "canvas", "mesh", "list", "designer"):
                if var == "list" and kind == "surface":
                    continue
                if var != "plain" and (it, n) not in ((2, 2), (3, 2)):
                    continue
                out.append(dict(kind=kind, it=it, n=n, length=length, var=var))
    return out


def anim_run(cfg, ctx):
    """Frames drawn in every order (with repetitions)."""
    kind, it, n, var = cfg["kind"], cfg["it"], cfg["n"], cfg["var"]
    dim = 2 if kind == "contour" else 3
    H = history(it, n, dim, cfg["length"])
    order = [ctx.choose(it, "frame") for _ in range(cfg["length"])]
    plot = plot_contour if kind == "contour" else plot_surface
    kw, mark = {}, None
    limits, title = [(-1, 1)] * 3, "Trajectory"
    with figures():
        if var == "mark":
            mark = MARK[dim]
            kw["mark"] = mark
        if var == "canvas":
            kw["canvas"] = plt.subplots(1, 1, figsize=(3, 2))
        if var == "mesh":
            kw["mesher"] = Mesher(func=lin, delta=0.5, limits=[(-1, 1), (-1, 2)])
        if var == "designer":
            limits, title = [(-2, 3), (-4, 5), (-6, 7)], "T1"
            kw["designer"] = Designer(limits=limits[:dim], label=["a", "b", "c"][:dim], figsize=(3, 2))
            kw["animator"] = Animator(interval=17, repeat=False)
            kw["title"] = title
        data = [np.array(h) for h in H] if var == "list" else H
        before = np.array(data)
        anim = plot(data, **kw)
        fig = kw["canvas"][0] if var == "canvas" else plt.gcf()
        for _ in range(2):
            frames = list(anim.new_frame_seq())
            check([int(f) for f in frames] == list(range(it)), lambda: "%d iterations are animated with the frames %s" % (it, frames))
        for i in order:
            anim._draw_frame(frames[i])
            offs, marks = scatters(fig, mark)
            check(len(offs) == 1 and np.array_equal(offs[0], H[i]), lambda: "frame %d (after %s) shows %s, the particles were at %s" % (i, order, [o.tolist() for o in offs], H[i].tolist()))
            check(mark is None or len(marks) == 1, lambda: "the mark %s is not drawn" % (mark,))
            ctx.step()
            ctx.state(cfg, i)
        axs = [a for a in fig.axes if a.get_title() == title]
        check(len(axs) == 1, lambda: "titles %s" % [a.get_title() for a in fig.axes])
        ax = axs[0]
        lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if dim == 3 else [])
        check(near(lims, limits[:dim]), lambda: "axes show %s instead of %s" % (lims, limits[:dim]))
        labels = [ax.get_xlabel(), ax.get_ylabel()] + ([ax.get_zlabel()] if dim == 3 else [])
        check(labels == (["a", "b", "c"] if var == "designer" else ["x-axis", "y-axis", "z-axis"])[:dim], lambda: "labels %s" % labels)
        check(np.array_equal(before, np.array(data)), "the history was modified")
        anim._draw_was_started = True
    ctx.validated()
    ctx.outcome(cfg, order)
    ctx.sample(lambda: "%s of %d iterations, %d particles: frames %s drawn" % (kind, it, n, order))


def long_configs(tier):
    its = list(range(5, 41)) + [50, 51, 52, 64, 65, 99, 100, 101, 102, 128, 129, 130, 150, 200, 201]
    if tier == "thorough":
        its = list(range(5, 131)) + [150, 199, 200, 201, 255, 256, 257, 300, 500, 501, 1000, 1001]
    out = [dict(kind=k, it=t, n=2) for k in ("contour", "surface") for t in its]
    ns = [5, 10, 16, 17, 20, 30, 32, 33, 40, 50, 51, 64, 65, 100, 101, 128, 129, 200, 257] + (list(range(4, 130)) if tier == "thorough" else [])
    return out + [dict(kind=k, it=3, n=n) for k in ("contour", "surface") for n in sorted(set(ns))] + [dict(kind=k, it=t, n=n) for k in ("cost", "history3d") for t, n in [(t, 2) for t in its] + [(2, n) for n in ns]]


def long_run(cfg, ctx):
    """Every length and swarm size: each frame shows its iteration, every entry is drawn."""
    kind, it, n = cfg["kind"], cfg["it"], cfg["n"]
    if kind == "cost":
        C = [100.0 / (1 + t) - t % 7 for t in range(it * (n if it == 2 else 1))]
        with figures():
            ax = plot_cost_history(C)
            x, y = ax.lines[0].get_data()
            check(list(map(float, x)) == list(map(float, range(len(C)))) and list(map(float, y)) == C, lambda: "%d costs are drawn as %d points" % (len(C), len(x)))
    elif kind == "history3d":
        H = history(it, n, 2)
        for f in (lin, fx.sphere, single):
            out = Mesher(func=f).compute_history_3d(H)
            check(np.shape(out) == (it, n, 3) and np.array_equal(out[:, :, :2], H), lambda: "history of %d iterations of %d particles became %s" % (it, n, np.shape(out)))
            for t in range(it):
                check(near(out[t, :, 2], f(H[t])), lambda: "heights of iteration %d of %d: %s, function values %s" % (t, it, out[t, :, 2].tolist(), np.asarray(f(H[t])).tolist()))
    else:
        dim = 2 if kind == "contour" else 3
        H = history(it, n, dim)
        with figures():
            anim = (plot_contour if kind == "contour" else plot_surface)(H, mesher=Mesher(func=lin, delta=0.5))
            frames = list(anim.new_frame_seq())
            check([int(f) for f in frames] == list(range(it)), lambda: "%d iterations are animated with %d frames" % (it, len(frames)))
            for i in list(range(it)) + [0, it - 1]:
                anim._draw_frame(frames[i])
                offs, _ = scatters(plt.gcf(), None)
                check(len(offs) == 1 and np.array_equal(offs[0], H[i]), lambda: "frame %d of %d shows %s, the particles were at %s" % (i, it, [o.tolist() for o in offs], H[i].tolist()))
            anim._draw_was_started = True
    ctx.state(cfg)
    ctx.step(it)
    ctx.validated()


# ------------------------------------------------------------ animation settings

def anim2_configs(tier):
    return ([dict(kind=k, it=t, delay=d, interval=i) for k in ("contour", "surface") for t in (1, 2, 3, 7) for d in (None, 0, 1, 2, 5) for i in (1, 3, 80)]
            + [dict(kind=k, it=t, delay=None, interval=80) for k in ("contour", "surface") for t in (999, 1000, 1001, 1500, 4097) + ((10001, 20000) if tier == "thorough" else ())])


def anim2_run(cfg, ctx):
    """The number of frames is the number of iterations whatever the animation settings."""
    kind, it = cfg["kind"], cfg["it"]
    H = history(it, 1, 2 if kind == "contour" else 3)
    repeat = bool(ctx.choose(2, "repeat"))
    limits = ([(-1, 1)] * 3, [(-50, 70)] * 3, ((3, 4), (-2, -1), (0, 1)))[ctx.choose(3, "limits")][:np.shape(H)[2]]
    with figures():
        kw = dict(animator=Animator(interval=cfg["interval"], repeat_delay=cfg["delay"], repeat=repeat), designer=Designer(limits=limits, figsize=(3, 2)), mesher=Mesher(func=lin, delta=0.5))
        anim = (plot_contour if kind == "contour" else plot_surface)(H, **kw)
        frames = list(anim.new_frame_seq())
        check([int(f) for f in frames] == list(range(it)), lambda: "%d iterations are animated with %d frames: %s... (%s)" % (it, len(frames), frames[:5], cfg))
        check(anim.event_source is None or anim.event_source.interval == cfg["interval"], lambda: "interval %r instead of %r" % (anim.event_source.interval, cfg["interval"]))
        for i in sorted({0, it - 1, it // 2, min(it - 1, 1000)}):
            anim._draw_frame(frames[i])
            offs, _ = scatters(plt.gcf(), None)
            check(len(offs) == 1 and np.array_equal(offs[0], H[i]), lambda: "frame %d of %d shows %s, the particle was at %s" % (i, it, [o.tolist() for o in offs], H[i].tolist()))
        ax = [a for a in plt.gcf().axes if a.get_title() == "Trajectory"][0]
        lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if kind == "surface" else [])
        check(near(lims, limits), lambda: "axes show %s instead of %s" % (lims, limits))
        anim._draw_was_started = True
    ctx.state(cfg, repeat, limits)
    ctx.step(it)
    ctx.validated()


# ------------------------------------------------------------ meshes

LIMITS = [[(-1, 1), (-1, 1)], [(-1, 1), (0, 3)], [(2, 4), (-1, 0)], [(-0.5, 0.25), (-3, -1)], ((0, 1), (0, 2))]
DELTAS = [0.5, 0.25, 0.1, 0.3, 1.0]


def mesh_configs(tier):
    return [dict(kind=k, lim=i, f=f) for k in ("contour", "surface") for i in range(len(LIMITS)) for f in (("lin", "cost") if tier == "quick" else FUNCS)
            if not (f == "booth" and i == 99)]


def mesh_run(cfg, ctx):
    delta = ctx.pick(DELTAS, "delta")
    lim = LIMITS[cfg["lim"]]
    f = FUNCS[cfg["f"]]
    seen = []
    levels = [-1.0, 0.5, 2.0, 11.0]

    def rec(self, *a, **k):
        seen.append((a, k))
    plot = plot_contour if cfg["kind"] == "contour" else plot_surface
    old = matplotlib.axes.Axes.contour, Axes3D.plot_surface
    matplotlib.axes.Axes.contour, Axes3D.plot_surface = rec, rec
    try:
        with figures():
            H = history(2, 2, 2 if cfg["kind"] == "contour" else 3)
            kw = {}
            if delta in (0.5, 0.3):
                kw["canvas"] = plt.subplots(1, 1)
            anim = plot(H, mesher=Mesher(func=f, delta=delta, limits=lim, levels=levels, alpha=0.7), **kw)
            anim._draw_was_started = True
    finally:
        matplotlib.axes.Axes.contour, Axes3D.plot_surface = old
    check(len(seen) == 1, lambda: "the mesh is drawn %d times" % len(seen))
    (a, k) = seen[0]
    xx, yy, zz = [np.asarray(v) for v in a[:3]]
    check(xx.shape == yy.shape == zz.shape and xx.ndim == 2, lambda: "mesh shapes %s" % [xx.shape, yy.shape, zz.shape])
    if cfg["kind"] == "contour":
        check(np.array_equal(k.get("levels", a[3] if len(a) > 3 else None), levels), lambda: "levels %s" % k)
    else:
        check(k.get("alpha") == 0.7, lambda: "alpha %s" % k)
    pts = set(zip(xx.ravel().tolist(), yy.ravel().tolist()))
    for vals, (lo, hi), nm in ((sorted({p[0] for p in pts}), lim[0], "x"), (sorted({p[1] for p in pts}), lim[1], "y")):
        check(vals[0] == lo and abs(vals[-1] - hi) <= delta * (1 + 1e-9) and vals[-1] <= hi + 1e-9, lambda: "%s runs over %s for the limits %s, delta %s" % (nm, vals, (lo, hi), delta))
        check(all(abs(b - a - delta) <= 1e-9 for a, b in zip(vals, vals[1:])), lambda: "%s has steps %s, delta is %s" % (nm, vals, delta))
    check(len(pts) == xx.size == len({p[0] for p in pts}) * len({p[1] for p in pts}), "the mesh is not the full grid")
    for i in np.ndindex(*xx.shape):
        z = float(f(np.array([[xx[i], yy[i]]]))[0])
        check(near(float(zz[i]), z), lambda: "mesh at (%r, %r) is %r, function value %r" % (xx[i], yy[i], zz[i], z))
        ctx.step()
    ctx.state(cfg, delta)
    ctx.validated()
    ctx.outcome(zz)


# ------------------------------------------------------------ cost history

def cost_configs(tier):
    return [dict(length=k, form=f) for k in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5)) for f in ("list", "array", "ax", "designer")]


def cost_run(cfg, ctx):
    if ctx.acc.get("n", 0) % 10 == 0:
        plt.close("all")
        ctx.acc["ax"] = plt.subplots(1, 1, figsize=(3, 2))[1]
    ctx.acc["n"] = ctx.acc.get("n", 0) + 1
    C = [ctx.pick([3.0, -1.5, 0.0, 1e9], "cost") for _ in range(cfg["length"])]
    kw = {}
    data = C if cfg["form"] != "array" else np.array(C)
    labels, legend = ["Iterations", "Cost"], "Cost"
    if cfg["form"] == "designer":
        kw["designer"] = Designer(legend="L", label=["p", "q"], figsize=(3, 2))
        labels, legend = ["p", "q"], "L"
    if cfg["form"] == "ax" or cfg["length"] > 1:
        ctx.acc["ax"].clear()
        kw["ax"] = ctx.acc["ax"]
    ax = plot_cost_history(data, **kw)
    check("ax" not in kw or ax is kw["ax"], "not drawn on the axes given")
    check(len(ax.lines) == 1, lambda: "%d lines" % len(ax.lines))
    x, y = ax.lines[0].get_data()
    check(list(map(float, x)) == list(map(float, range(len(C)))) and list(map(float, y)) == C, lambda: "costs %s are drawn as %s at %s" % (C, list(y), list(x)))
    check([ax.get_xlabel(), ax.get_ylabel()] == labels and [t.get_text() for t in ax.get_legend().get_texts()] == [legend], "labels")
    check(list(map(float, data)) == C, "costs modified")
    ctx.state(C)
    ctx.step(len(C))
    ctx.validated()
    ctx.outcome(tuple(C))


def cost_finish(cfg, acc, stats):
    plt.close("all")
    for bad in (5, None, 2.5):
        try:
            plot_cost_history(bad)
        except TypeError:
            continue
        finally:
            plt.close("all")
        check(False, "plot_cost_history(%r) is accepted" % (bad,))


# ------------------------------------------------------------ a real run, from end to end

def real_configs(tier):
    return [dict(opt=o, n=n, d=2, iters=it, bounds="dy", r=0, f=f) for o in ("global", "local", "general:pyramid") for n, it in ((1, 2), (3, 1), (4, 3), (6, 5)) for f in ("lin", "sphere")
            if not (n < 3 and o != "global")]


def real_run(cfg, ctx):
    f = FUNCS[cfg["f"]]
    with rng.controlled(rng.PatternSource(ctx, patterns=2)):
        tr = O.Trace({k: v for k, v in cfg.items() if k != "f"}, lambda t, X, **kw: f(X), snapshots=False)
        tr.optimize()
    H = Mesher(func=f).compute_history_3d(tr.opt.pos_history)
    for t in range(cfg["iters"]):
        check(near(H[t], np.column_stack([tr.X[t], tr.C[t]])), lambda: "iteration %d of the 3-D history is %s, evaluated %s at %s" % (t, H[t].tolist(), tr.C[t], tr.X[t].tolist()))
    with figures():
        ax = plot_cost_history(tr.opt.cost_history)
        y = list(map(float, ax.lines[0].get_ydata()))
        check(y == [min(float(tr.C[u].min()) for u in range(t + 1)) for t in range(cfg["iters"])], "cost plot")
        for plot, data in ((plot_contour, tr.opt.pos_history), (plot_surface, H)):
            anim = plot(data)
            frames = list(anim.new_frame_seq())
            check(len(frames) == cfg["iters"], "number of frames")
            for t in (0, cfg["iters"] - 1):
                anim._draw_frame(frames[t])
                offs, _ = scatters(plt.gcf(), None)
                check(any(near(o, np.asarray(data[t])) for o in offs), lambda: "frame %d of %s does not show the positions of the run" % (t, plot.__name__))
            anim._draw_was_started = True
    ctx.state(cfg, ctx.choices())
    ctx.step(cfg["iters"])
    ctx.validated()


# ------------------------------------------------------------ what the designer, the animator and the mesher ask for

SETTINGS = {"figsize": ((10, 8), (3, 2)), "title_fontsize": ("large", 21), "text_fontsize": ("medium", 17), "legend": ("Cost", "Fitness"),
            "label": (["x-axis", "y-axis", "z-axis"], ["first", "second", "third"]), "limits": ([(-1, 1), (-1, 1), (-1, 1)], [(-2, 3), (0, 5), (1, 2)]),
            "colormap": (matplotlib.colormaps["viridis"], matplotlib.colormaps["jet"])}
SHOWN = {"cost": ["figsize", "title_fontsize", "text_fontsize", "legend", "label"],
         "contour": ["figsize", "title_fontsize", "text_fontsize", "label", "limits", "colormap"],
         "surface": ["figsize", "title_fontsize", "text_fontsize", "label", "limits", "colormap"]}


def points(v):
    """Size of a font in points."""
    return matplotlib.font_manager.FontProperties(size=v).get_size_in_points()


def design_configs(tier):
    return ([dict(kind="cost", canvas=c, extra=False, mark=False) for c in (False, True)]
            + [dict(kind=k, canvas=c, extra=e, mark=m) for k in ("contour", "surface") for c in (False, True) for e in (False, True) for m in (False, True)
               if tier == "thorough" or c + e + m != 2])


def design_run(cfg, ctx):
    """Every subset of the settings differs from the default; the figure shows exactly what was asked for."""
    kind, extra = cfg["kind"], cfg["extra"]
    given = {p: SETTINGS[p][ctx.choose(2, p)] for p in SHOWN[kind]}
    dim = 3 if kind == "surface" else 2
    H = history(2, 2, dim)
    title = "The title"
    with figures():
        kw = {"designer": Designer(**given), "title": title}
        canvas = plt.subplots(1, 1, figsize=(4, 5)) if cfg["canvas"] else None
        want_size = (4, 5) if canvas else given["figsize"]
        if kind == "cost":
            ax = plot_cost_history([3.0, 2.0, 2.0], ax=canvas[1] if canvas else None, **kw)
            fig = ax.figure
            check(canvas is None or ax is canvas[1], "the given axes were not used")
        else:
            if canvas:
                kw["canvas"] = canvas
            mesher = Mesher(func=lin, delta=0.5, limits=[(-1, 1), (-1, 1)], levels=[-3.0, -1.0, 2.0] if extra else [-2.0, 0.5], alpha=0.75 if extra else 0.25)
            kw["mesher"] = mesher
            kw["animator"] = Animator(interval=33, repeat_delay=None, repeat=False) if extra else Animator(repeat_delay=55)
            if cfg["mark"]:
                kw["mark"] = MARK[dim]
            anim = (plot_contour if kind == "contour" else plot_surface)(H, **kw)
            fig = plt.gcf()
            check(anim.event_source.interval == (33 if extra else 80), lambda: "interval %s" % anim.event_source.interval)
            # let the time of the animation pass, twice around when it repeats
            anim._init_draw()
            anim._draw_was_started = True
            anim.frame_seq = anim.new_frame_seq()
            for turn in range(1 if extra else 2):
                for t in range(len(H)):
                    check(anim._step(), lambda: "the animation ends at frame %d" % t)
                    offs, _ = scatters(fig, kw.get("mark"))
                    check(len(offs) == 1 and np.array_equal(offs[0], H[t]), lambda: "turn %d: frame %d is not shown" % (turn, t))
                going = bool(anim._step())
                check(going == (not extra), "the animation %s after the last frame" % ("repeats" if going else "ends"))
                if going:
                    check(anim.event_source.interval == 55, lambda: "delay of %s before repeating" % anim.event_source.interval)
                ctx.step(len(H) + 1)
            anim._draw_frame(0)
            check(canvas is None or fig is canvas[0], "the given canvas was not used")
        check(np.allclose(fig.get_size_inches(), want_size), lambda: "figure of size %s instead of %s" % (fig.get_size_inches(), want_size))
        axs = [a for a in fig.axes if a.get_title() == title]
        check(len(axs) == 1, lambda: "titles %s" % [a.get_title() for a in fig.axes])
        ax = axs[0]
        names = [ax.xaxis.label, ax.yaxis.label] + ([ax.zaxis.label] if dim == 3 else [])
        check([t.get_text() for t in names] == list(given["label"])[:dim], lambda: "labels %s" % [t.get_text() for t in names])
        check(abs(ax.title.get_fontsize() - points(given["title_fontsize"])) < 1e-9, lambda: "title of size %s for %s" % (ax.title.get_fontsize(), given["title_fontsize"]))
        for t in names:
            check(abs(t.get_fontsize() - points(given["text_fontsize"])) < 1e-9, lambda: "label of size %s for %s" % (t.get_fontsize(), given["text_fontsize"]))
        if kind == "cost":
            lg = ax.get_legend()
            check(lg is not None and [t.get_text() for t in lg.get_texts()] == [given["legend"]], "legend")
            check(all(abs(t.get_fontsize() - points(given["text_fontsize"])) < 1e-9 for t in lg.get_texts()), "size of the legend")
        else:
            lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if dim == 3 else [])
            check(near(lims, given["limits"][:dim]), lambda: "axes show %s instead of %s" % (lims, given["limits"]))
            maps = [c for c in ax.collections if not isinstance(c, matplotlib.collections.PathCollection)]
            check(len(maps) == 1, lambda: "%d maps drawn" % len(maps))
            check(maps[0].get_cmap().name == given["colormap"].name, lambda: "drawn in %s instead of %s" % (maps[0].get_cmap().name, given["colormap"].name))
            if kind == "contour":
                check(np.allclose(maps[0].levels, mesher.levels), lambda: "levels %s" % maps[0].levels)
            else:
                check(maps[0].get_alpha() == mesher.alpha, lambda: "transparency %s" % maps[0].get_alpha())
            offs, marks = scatters(fig, kw.get("mark"))
            check(len(offs) == 1 and len(marks) == cfg["mark"], lambda: "%d swarms and %d marks drawn" % (len(offs), len(marks)))
    ctx.state(cfg, ctx.choices())
    ctx.step(len(given))
    ctx.validated(len(given))
    ctx.outcome(cfg)
    ctx.sample(lambda: "%s with %s" % (cfg, given))


BOUNDS = ("3-D histories of up to 2x2 (thorough 3x2) positions over three points x seven functions, as float, integer, boolean and single precision arrays and lists; every sequence of up to 3 frames of animations with up to 3 (4) iterations and particles, with marks, meshes, given canvases and designers; frames for all animator settings and for up to 4097 (20000) iterations; all frames for 51 lengths up to 201 (thorough 1001) and 19 swarm sizes up to 257; "
          "5 limits x 5 deltas of meshes; cost histories up to 3 (5) entries over four values; real runs from optimize() to the plots; every subset of the designer's settings (size, fonts, legend, labels, limits, colours) x canvas, mark, mesher and animator settings")
ASSUMPTIONS = ["matplotlib draws what its artists hold"]
HARNESSES = [
    Harness("history3d", hist_run, hist_configs),
    Harness("frames", anim_run, anim_configs),
    Harness("animator", anim2_run, anim2_configs),
    Harness("long", long_run, long_configs),
    Harness("mesh", mesh_run, mesh_configs),
    Harness("cost", cost_run, cost_configs, finish=cost_finish),
    Harness("designs", design_run, design_configs),
    Harness("real", real_run, real_configs, bound=1),
]
