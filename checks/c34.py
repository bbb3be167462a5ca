"""C34: plots show the landscape and the recorded data they are given."""
import contextlib
import math
import os
import warnings
import numpy as np
import pandas as pd
import matplotlib
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from mpl_toolkits.mplot3d import Axes3D
from vlib.harness import Check
from vlib.gen import *
from leap_ec import probe
from leap_ec.decoder import IdentityDecoder
from leap_ec.individual import Individual
from leap_ec.problem import ScalarProblem
from leap_ec.binary_rep import problems as bp
from leap_ec.real_rep import problems as rp
from leap_ec.multiobjective.probe import ParetoPlotProbe2D
from leap_ec.contrib import analysis as A

CHECK = Check("C34", rule="landscapes, probes' backgrounds and result tables are drawn with random limits, spacings, padding, axes and options; what reaches "
              "the real drawing calls and what the axes then contain is recomputed from the function or the table; distinct by (plot, options, data)")


class Poly(ScalarProblem):
    """a function of any number of inputs in which no two inputs are interchangeable"""

    def __init__(self, rng, dims, bounds=None, maximize=False):
        super().__init__(maximize=maximize)
        self.c = [rng.uniform(-2, 2) for _ in range(2 * dims)]
        self.seen = []
        self.floor = rng.choice([None, None, 0, -1])          # an integer in some places, a fraction in others
        if bounds is not None:
            self.bounds = bounds

    def value(self, x):
        v = sum(a * v + b * v * v for a, b, v in zip(self.c[::2], self.c[1::2], x)) + x[0] * x[1]
        return v if self.floor is None else max(self.floor, v)

    def evaluate(self, phenome, *args, **kwargs):
        x = [float(v) for v in phenome]
        self.seen.append(tuple(x))
        return self.value(x)


@contextlib.contextmanager
def drawing():
    """records the surfaces and contours that the real axes are asked to draw"""
    log = []
    saved = []

    def wrap(cls, name):
        orig = getattr(cls, name)

        def recorder(self, *args, **kw):
            z = [np.array(a, float) for a in args[:3]]
            for k in ("X", "Y", "Z")[len(z):]:
                if k in kw:
                    z.append(np.array(kw[k], float))
            log.append((name, self, z, {k: v for k, v in kw.items() if k not in "XYZ"}))
            return orig(self, *args, **kw)
        saved.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, recorder)
    wrap(Axes3D, "plot_surface")
    wrap(Axes, "contour")
    try:
        yield log
    finally:
        for cls, name, f in saved:
            if f is None:
                delattr(cls, name)
            else:
                setattr(cls, name, f)


def contents(ax):
    return (len(ax.lines), len(ax.collections), len(ax.patches), ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xlim(), ax.get_ylim(), ax.get_yscale(),
            ax.get_legend() is None)


def grid_axis(lim, step):
    n = max(int(math.ceil((lim[1] - lim[0]) / step - 1e-9)), 0)
    return [lim[0] + k * step for k in range(n)]


def limits(rng):
    lo = rng.choice([-5.0, -1.0, 0.0, 2.0, -0.5, -100.0])
    return (lo, lo + rng.choice([1.0, 2.0, 6.5, 0.25, 12.0]))


def spacing(rng, lim):
    # a spacing that does not divide the range, so that rounding cannot add or drop a grid point
    return (lim[1] - lim[0]) / (rng.randint(2, 9) + rng.choice([.3, .5, .8]))


def check_grid(t, entry, fun, xlim, ylim, gx, gy, pad, what, whole=True):
    name, ax, arrays, kw = entry
    t.check(len(arrays) == 3, "a landscape is drawn without its coordinates", plot=what)
    X, Y, Z = arrays
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    xs, ys = grid_axis(xlim, gx), grid_axis(ylim, gy)
    t.check(X.shape == Y.shape == Z.shape, "a landscape is drawn on a broken grid", plot=what)
    for V, vs, lim, step, axis in ((X, xs, xlim, gx, "x"), (Y, ys, ylim, gy, "y")):
        got = sorted(set(np.round(V.ravel(), 9).tolist()))
        if len(got) == len(vs) + 1 and abs((lim[1] - lim[0]) / step - round((lim[1] - lim[0]) / step)) < 1e-6:
            vs.append(lim[1])       # the range is a multiple of the spacing: rounding decides whether its end is drawn
        t.close(got, sorted(set(np.round(vs, 9).tolist())), "a landscape is drawn at the wrong positions", rtol=1e-6, atol=1e-7, plot=what, axis=axis, limits=lim, granularity=step)
    t.eq(Z.size, len(xs) * len(ys), "a landscape does not cover the grid", plot=what)
    for x, y, z in zip(X.ravel(), Y.ravel(), Z.ravel()):
        v = float(fun([float(x), float(y)] + list(pad)))
        t.check((math.isnan(v) and math.isnan(z)) or abs(v - z) <= 1e-9 * max(1, abs(v)), "a landscape is drawn with the wrong height", plot=what, x=x, y=y, got=z, expected=v)
    t.event("heights", Z.size)


REAL = [rp.SpheroidProblem, rp.RastriginProblem, rp.AckleyProblem, rp.RosenbrockProblem, rp.GriewankProblem, rp.SchwefelProblem]


@CHECK.section(quick=160, thorough=3000, need={"heights": 2000, "default_bounds": 20, "default_step": 10, "padded": 15, "refused": 5})
def landscapes(t):
    rng = t.rng
    npad = rng.choice([0, 0, 1, 3])
    padv = [rng.uniform(-3, 3) for _ in range(npad)]
    bounds = limits(rng) if rng.random() < .7 else None
    if rng.random() < .6:
        problem = Poly(rng, 2 + npad, bounds)
        fun = problem.value
    else:
        problem = rng.choice(REAL)()
        if rng.random() < .4:
            problem = rp.TranslatedProblem(problem, np.array([rng.uniform(-1, 1) for _ in range(2 + npad)]))
        fun = lambda x: problem.evaluate(np.array(x))  # noqa
        bounds = tuple(problem.bounds)
    kind = rng.choice(["surface", "contour"])
    which = rng.choice(["problem", "problem", "function"])
    kw = {}
    title = rng.choice([None, "Landscape", "f(x, y)"])
    if title:
        kw["title"] = title
    xlim, ylim = limits(rng), limits(rng)
    gran = spacing(rng, (0, max(xlim[1] - xlim[0], ylim[1] - ylim[0])))
    own_x = which == "problem" and bounds is not None and rng.random() < .5
    own_y = which == "problem" and bounds is not None and rng.random() < .5
    own_g = which == "problem" and bounds is not None and rng.random() < .4
    if own_x:
        xlim = bounds
    else:
        kw["xlim"] = xlim
    if own_y:
        ylim = bounds
    else:
        kw["ylim"] = ylim
    if own_g:
        gran = (bounds[1] - bounds[0]) / 50.
        # keep the number of samples small and unambiguous
        if not own_x:
            xlim = kw["xlim"] = (xlim[0], xlim[0] + gran * (rng.randint(2, 8) + .5))
        if not own_y:
            ylim = kw["ylim"] = (ylim[0], ylim[0] + gran * (rng.randint(2, 8) + .5))
    else:
        if own_x or own_y:
            gran = spacing(rng, (0, max(xlim[1] - xlim[0], ylim[1] - ylim[0])))
        kw["granularity"] = gran
    for lim in (xlim, ylim):  # at least two points each way, whatever the spacing
        if (lim[1] - lim[0]) / gran < 1.05:
            t.event("small")
            return
    if npad:
        kw["pad"] = np.array(padv)
        t.event("padded")
    fig, axs = plt.subplots(1, 2, subplot_kw={"projection": "3d"} if kind == "surface" else {})
    given = rng.random() < .6
    if given:
        kw["ax"] = axs[0]
    plt.sca(axs[1])
    c0 = contents(axs[1])
    if kind == "surface" and rng.random() < .3:
        kw["alpha"] = 0.25
    nfig = len(plt.get_fignums())
    with drawing() as log:
        if which == "problem":
            if kind == "contour" or rng.random() < .5:
                kw["kind"] = kind
            r = rp.plot_2d_problem(problem, **kw)
        elif kind == "surface":
            r = rp.plot_2d_function(fun, **kw)
        else:
            r = rp.plot_2d_contour(fun, **kw)
    t.eq([e[0] for e in log], ["plot_surface" if kind == "surface" else "contour"], "a landscape is not drawn exactly once", kind=kind, which=which)
    if not given or own_g or own_x:
        t.event("defaults")
    t.event("default_bounds", own_x + own_y)
    t.event("default_step", int(own_g))
    # with the default spacing the range is a multiple of it, and rounding may add one more grid line at the upper limit
    if (own_g and (own_x or own_y)):
        X, Y, Z = log[0][2]
        if X.ndim == 1:
            X, Y = np.meshgrid(X, Y)
        for own, V, lim, name in ((own_x, X, xlim, "x"), (own_y, Y, ylim, "y")):
            u = np.unique(np.round(V.ravel(), 9))
            t.close(u[0], lim[0], "a landscape does not start at the lower bound", rtol=1e-6, atol=1e-7, axis=name)
            t.check(lim[1] - 1.001 * gran <= u[-1] <= lim[1] + 1e-6 * (1 + abs(lim[1])), "a landscape does not reach up to the upper bound", axis=name, last=u[-1], limits=lim)
            t.close(np.diff(u), [gran] * (len(u) - 1), "the default spacing is not a fiftieth of the bounds", rtol=1e-5, atol=1e-7, axis=name)
        for x, y, z in list(zip(X.ravel(), Y.ravel(), Z.ravel()))[::7]:
            v = float(fun([float(x), float(y)] + padv))
            t.check(abs(v - z) <= 1e-9 * max(1, abs(v)), "a landscape is drawn with the wrong height", x=x, y=y, got=z, expected=v)
        t.event("heights", 100)
    else:
        check_grid(t, log[0], fun, xlim, ylim, gran, gran, padv, (which, kind))
    ax = log[0][1]
    if given:
        t.check(ax is axs[0], "a landscape is not drawn on the axes given", which=which, kind=kind)
        t.eq(len(plt.get_fignums()), nfig, "a figure is created although axes were given")
    else:
        t.check(ax is not axs[0] and ax is not axs[1], "a landscape is drawn over other axes although none were given")
    t.check(contents(axs[1]) == c0, "drawing a landscape changes other axes")
    t.eq(ax.get_title(), title or "", "a landscape has the wrong title")
    t.check(r in ax.collections or kind == "contour", "the drawn surface is not handed back")
    if "alpha" in kw:
        t.eq(log[0][3].get("alpha"), 0.25, "drawing options are lost")
    # what cannot be drawn is refused
    if which == "problem" and isinstance(problem, Poly):
        t.raises(ValueError, lambda: rp.plot_2d_problem(problem, xlim=xlim, ylim=ylim, granularity=gran, kind="heat"), "an unknown kind of plot is accepted")
        if bounds is None:
            t.raises(ValueError, lambda: rp.plot_2d_problem(problem, xlim=xlim, ylim=ylim, kind=kind), "a spacing is made up for a problem without bounds")
        t.event("refused")
    t.sig(which, kind, xlim, ylim, round(gran, 6), npad, given, type(problem).__name__)
    plt.close("all")


def visible(t, ax, pts, what):
    (l, r), (b, top) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    for x, y in pts:
        t.check(l - 1e-9 <= x <= r + 1e-9 and b - 1e-9 <= y <= top + 1e-9, "a plotted point lies outside the visible area", plot=what, point=(x, y), xlim=(l, r), ylim=(b, top))
        t.event("points")


@CHECK.section(quick=200, thorough=3000, need={"heights": 500, "points": 400, "curves": 10, "titles": 100})
def backgrounds(t):
    """the landscape behind a plot probe, its frame and its title"""
    rng = t.rng
    name = rng.choice(["cartesian", "cartesian", "sum", "sum", "fitness", "pareto", "metrics"])
    ctx = {"leap": {"generation": 0}}
    kw = {"context": ctx}
    fig, axs = plt.subplots(1, 2)
    given = rng.random() < .7
    if given:
        kw["ax"] = axs[0]
        plt.sca(axs[rng.randint(0, 1)])
    c0 = contents(axs[1])
    title = rng.choice([None, "One", "Two"])
    if title:
        kw["title"] = title
    gens = rng.randint(1, 3)
    genome = lambda: np.array([rng.gauss(0, 3), rng.gauss(0, 3), 1.0])  # noqa
    problem = scalar_problem(rng.random() < .5)
    framed = rng.random() < .6
    with drawing() as log:
        if name == "cartesian":
            xlim, ylim = (-5.12, 5.12), (-5.12, 5.12)
            if framed:
                xlim, ylim = kw["xlim"], kw["ylim"] = limits(rng), limits(rng)
            npad = rng.choice([0, 1, 2])
            padv = [rng.uniform(-3, 3) for _ in range(npad)]
            if npad:
                kw["pad"] = padv if rng.random() < .5 else tuple(padv)
            land = None
            if rng.random() < .8:
                span = max(xlim[1] - xlim[0], ylim[1] - ylim[0])
                gran = spacing(rng, (0, span))
                if min(xlim[1] - xlim[0], ylim[1] - ylim[0]) / gran < 1.05:
                    gran = min(xlim[1] - xlim[0], ylim[1] - ylim[0]) / 1.5
                default = rng.random() < .4
                lo = rng.uniform(-3, 3)
                land = Poly(rng, 2 + npad, (lo, lo + 50 * gran) if default else None)
                if not default:
                    kw["granularity"] = gran
                kw["contours"] = land
            pr = probe.CartesianPhenotypePlotProbe(**kw)
            if land is None:
                t.eq(len(log), 0, "contours are drawn although none were asked for")
            else:
                t.eq([e[0] for e in log], ["contour"], "the fitness contours are not drawn exactly once")
                t.check(log[0][1] is pr.ax, "the fitness contours are drawn on other axes")
                check_grid(t, log[0], land.value, xlim, ylim, gran, gran, padv, "cartesian")
        elif name == "sum":
            n = rng.randint(3, 12)
            xlim = kw["xlim"] = (rng.choice([0, 0, 2]), n)
            ylim = kw["ylim"] = rng.choice([(0, n), (0.0, 3.0), (-1, 2 * n)])
            land = rng.choice([None, bp.MaxOnes(), bp.DeceptiveTrap(), bp.LeadingOnes()])
            genome = lambda: np.array([rng.randint(0, 1) for _ in range(n)])  # noqa
            gran = 1
            if land is not None:
                kw["problem"] = land
                if rng.random() < .4:
                    gran = kw["granularity"] = rng.choice([1, 2, 3, 2.0])
            pr = probe.SumPhenotypePlotProbe(**kw)
            lines = list(pr.ax.lines)
            t.eq(len(lines), 0 if land is None else 1, "the fitness curve is not drawn exactly when asked for")
            if land is not None:
                xs = list(range(xlim[0], n + 1, int(gran)))
                t.close(np.asarray(lines[0].get_xdata(), float), [float(x) for x in xs], "the fitness curve has the wrong numbers of ones")
                t.close(np.asarray(lines[0].get_ydata(), float), [float(land.evaluate(np.array([1] * k + [0] * (n - k)))) for k in xs],
                        "the fitness curve has the wrong heights", problem=type(land).__name__)
                t.event("curves")
        else:
            xlim, ylim = None, None
            if framed:
                xlim, ylim = kw["xlim"], kw["ylim"] = (0, rng.choice([1, 10])), rng.choice([(0, 1), (-5.0, 40.0)])
            elif name == "pareto":
                xlim, ylim = (0, 1), (0, 1)
            if name == "metrics":
                kw["metrics"] = [lambda p: float(sum(i.fitness for i in p)), lambda p: len(p)]
            pr = {"fitness": probe.FitnessPlotProbe, "pareto": ParetoPlotProbe2D, "metrics": probe.PopulationMetricsPlotProbe}[name](**kw)
    ax = pr.ax
    if given:
        t.check(ax is axs[0], "a probe does not draw on the axes given", probe=name)
        t.check(contents(axs[1]) == c0, "a probe changes other axes than the ones given", probe=name, title=title)
    else:
        t.check(ax is not axs[0] and ax is not axs[1], "a probe draws over other axes although none were given", probe=name)
    if title:
        t.eq(ax.get_title(), title, "the title is not on the probe's own axes", probe=name)
    t.event("titles")
    shown = []
    for g in range(gens):
        ctx["leap"]["generation"] = g
        big = rng.choice([1, 1, 20])
        pop = []
        for _ in range(rng.randint(1, 4)):
            i = mkind(problem, rng.gauss(0, 3) * big, genome=genome(), decoder=IdentityDecoder())
            if name == "sum":
                i.fitness = float(np.sum(i.genome)) * big
            elif name == "pareto":
                i = mkind(VecProblem([False, False]), np.array([rng.gauss(0, 1) * big, rng.gauss(0, 1) * big]))
            elif name == "cartesian":
                i.genome = i.genome * big
            pop.append(i)
        pr(pop)
        if name == "cartesian":
            shown = [(float(i.genome[0]), float(i.genome[1])) for i in pop]
        elif name == "sum":
            shown = [(float(np.sum(i.genome)), float(i.fitness)) for i in pop]
        elif name == "pareto":
            shown = [tuple(map(float, i.fitness)) for i in pop]
        elif name == "fitness":
            best = (max if problem.maximize else min)(float(i.fitness) for i in pop)
            shown.append((float(g), best))
        else:
            shown += [(float(g), float(sum(i.fitness for i in pop))), (float(g), float(len(pop)))]
        visible(t, ax, shown, name)
        if xlim is not None:
            visible(t, ax, [(float(a), float(b)) for a in xlim for b in ylim], name + " frame")
    if given:
        t.check(contents(axs[1]) == c0, "a probe changes other axes than the ones given", probe=name)
    t.sig(name, given, title, gens, framed, str(shown)[:60])
    plt.close("all")


def table(rng):
    time_col = rng.choice(["step", "eval"])
    metrics = rng.choice([["bsf"], ["bsf", "mean_fitness"]])
    exps = rng.choice([["experiment"], ["algorithm", "size"]])
    run = rng.choice(["job", "seed"])
    keys = rng.sample(["a", "b", "c"], rng.randint(1, 3))
    keys = sorted([(k,) if len(exps) == 1 else (k, rng.choice([10, 20])) for k in keys])
    rows, curves = [], {}
    same_times = rng.random() < .7
    nsteps = rng.randint(2, 5)
    for k in keys:
        for j in range(rng.randint(1, 3)):
            n = nsteps if same_times else rng.randint(2, 5)
            step = rng.choice([1, 1, 5])if not same_times else 1
            for s in range(n):
                vals = {m: round(rng.uniform(0.5, 30), 3) for m in metrics}
                rows.append({**dict(zip(exps, k)), run: j, time_col: s * step, **vals, "unused": rng.random()})
                for m in metrics:
                    curves.setdefault((m, k, j), []).append((s * step, vals[m]))
    if rng.random() < .5:
        # runs interleaved, as when several logs are merged; each run stays in time order
        by = {}
        for r in rows:
            by.setdefault((tuple(r[e] for e in exps), r[run]), []).append(r)
        rows = []
        while by:
            k = rng.choice(sorted(by))
            rows.append(by[k].pop(0))
            if not by[k]:
                del by[k]
    return pd.DataFrame(rows), time_col, metrics, exps, run, keys, curves


def auc_of(pts):
    pts = sorted(pts)
    return sum((b[0] - a[0]) * b[1] for a, b in zip(pts, pts[1:]))


def series(line):
    return [(float(x), float(y)) for x, y in zip(line.get_xdata(), line.get_ydata())]


def near(a, b):
    return len(a) == len(b) and all(abs(p[0] - q[0]) < 1e-9 and abs(p[1] - q[1]) < 1e-9 * (1 + abs(q[1])) for p, q in zip(a, b))


def match_curves(t, lines, expected, what):
    """`expected`: list of (points, group); every curve drawn once, one colour per group"""
    left = list(lines)
    colours = {}
    for pts, group in expected:
        hits = [ln for ln in left if near(series(ln), pts)]
        t.check(hits, "a curve is missing or drawn with other values", plot=what, expected=pts, group=group, drawn=[series(x) for x in lines])
        same = [h for h in hits if group in colours and matplotlib.colors.to_hex(h.get_color()) == colours[group]]
        h = (same or hits)[0]
        colours.setdefault(group, matplotlib.colors.to_hex(h.get_color()))
        t.check(matplotlib.colors.to_hex(h.get_color()) == colours[group], "the curves of one experiment have different colours", plot=what)
        left.remove(h)
        t.event("curves")
    t.eq(len(left), 0, "more curves are drawn than there are", plot=what)
    t.eq(len(set(colours.values())), len(colours), "two experiments share one colour", plot=what)
    return colours


def check_legend(t, ax, keys, colours, what):
    leg = ax.get_legend()
    t.check(leg is not None, "the plot has no legend", plot=what)
    texts = [x.get_text() for x in leg.get_texts()]
    t.eq(len(texts), len(keys), "the legend does not list every experiment once", plot=what)
    handles = getattr(leg, "legend_handles", None) or leg.legendHandles
    for txt, h, k in zip(texts, handles, sorted(keys)):
        t.check(all(str(v) in txt for v in k), "the legend names another experiment", plot=what, text=txt, expected=k)
        t.eq(matplotlib.colors.to_hex(h.get_facecolor()), colours[k], "the legend shows another colour than the curve", plot=what, experiment=k)
    t.event("legends")


def mean_curve(curves, metric, key):
    acc = {}
    for (m, k, j), pts in curves.items():
        if m == metric and k == key:
            for x, y in pts:
                acc.setdefault(x, []).append(y)
    return [(float(x), float(np.mean(v)), float(np.std(v, ddof=1)) if len(v) > 1 else float("nan")) for x, v in sorted(acc.items())]


def check_mean_lines(t, ax, curves, metric, keys, error, what):
    exp = [([(x, m) for x, m, _ in mean_curve(curves, metric, k)], k) for k in keys]
    if not error:
        return match_curves(t, ax.lines, exp, what)
    t.eq(len(ax.containers), len(keys), "not every experiment has an average curve with error bars", plot=what)
    lines = [c.lines[0] for c in ax.containers]
    colours = match_curves(t, lines, exp, what)
    for c in ax.containers:
        k = next(k for pts, k in exp if near(series(c.lines[0]), pts) and colours[k] == matplotlib.colors.to_hex(c.lines[0].get_color()))
        want = mean_curve(curves, metric, k)
        caps = c.lines[1]
        t.eq(len(caps), 2, "an average curve has no error bars", plot=what)
        for cap, sign in zip(caps, (-1, 1)):
            got = np.asarray(cap.get_ydata(), float)
            want_y = [m + sign * s for _, m, s in want]
            for g, w in zip(got, want_y):
                if not math.isnan(w):
                    t.check(abs(g - w) < 1e-9 * (1 + abs(w)), "the error bars are not one standard deviation", plot=what, got=g, expected=w)
                    t.event("errorbars")
    return colours


def check_boxes(t, ax, curves, metric, keys, what):
    ticks = ax.get_xticklabels()
    t.eq(len(ticks), len(keys), "not every experiment has its box", plot=what)
    for pos, (k, tick) in enumerate(zip(sorted(keys), ticks), start=1):
        t.check(all(str(v) in tick.get_text() for v in k), "a box carries another experiment's name", plot=what, text=tick.get_text(), expected=k)
        vals = [auc_of(pts) for (m, kk, j), pts in curves.items() if m == metric and kk == k]
        ys = [y for ln in ax.lines for x, y in series(ln) if abs(x - pos) < 0.5]
        lo, mid, hi = min(vals), float(np.median(vals)), max(vals)
        tol = 1e-9 * (1 + abs(hi))
        t.check(ys and abs(min(ys) - lo) <= tol and abs(max(ys) - hi) <= tol and any(abs(y - mid) <= tol for y in ys), "a box does not show the runs' scores", plot=what,
                experiment=k, scores=vals, drawn=ys)
        t.event("boxes")


@CHECK.section(quick=70, thorough=1500, need={"curves": 150, "legends": 40, "boxes": 30, "errorbars": 30})
def curve_plots(t):
    rng = t.rng
    df, time_col, metrics, exps, run, keys, curves = table(rng)
    d0 = df.to_csv()
    an = A.CurveAnalyzer(df, time_col=time_col, metric_cols=metrics, experiment_cols=exps, run_col=run)
    pl = A.CurvePlotter(an)
    metric = rng.choice(metrics)
    for what in ("curves", "avg", "bar"):
        fig, axs = plt.subplots(1, 2)
        given = rng.random() < .7
        if given:
            plt.sca(axs[rng.randint(0, 1)])
        kw = {"ax": axs[0]} if given else {}
        c0 = contents(axs[1])
        title = rng.choice(["T1", "Results"])
        labels = {}
        ylog = False
        if what != "bar":
            labels = rng.choice([{}, {"xlabel": "xx", "ylabel": "yy"}, {"ylabel": "fitness"}])
            ylog = rng.random() < .3
            if ylog or rng.random() < .3:
                kw["ylog"] = ylog
        ylim = rng.choice([None, (0.5, 77.0)])
        error = rng.random() < .5
        if what == "curves":
            pl.plot_curves(metric, title, **labels, **kw)
        elif what == "avg":
            pl.plot_avg_curves(metric, title, error, ylim, **labels, **kw)
        else:
            pl.plot_scalars_bar(metric, title=title, **kw)
        ax = axs[0] if given else plt.gca()
        if given:
            now, ref = contents(axs[1]), c0
            t.check(now == ref, "plotting on the axes given changes other axes", plot=what, before=ref, after=now)
        else:
            t.check(ax is not axs[0] and ax is not axs[1], "curves are drawn over other axes although none were given", plot=what)
        if what == "curves":
            colours = match_curves(t, ax.lines, [([(float(x), y) for x, y in pts], k) for (m, k, j), pts in sorted(curves.items()) if m == metric], what)
            check_legend(t, ax, keys, colours, what)
        elif what == "avg":
            colours = check_mean_lines(t, ax, curves, metric, keys, error, what)
            check_legend(t, ax, keys, colours, what)
            if ylim:
                t.close(ax.get_ylim(), ylim, "the vertical limits asked for are not used", plot=what)
        else:
            check_boxes(t, ax, curves, metric, keys, what)
        t.eq(ax.get_title(), title, "the title is not on the plot's own axes", plot=what)
        if "xlabel" in labels:
            t.eq(ax.get_xlabel(), "xx", "the axis label is lost", plot=what)
        if "ylabel" in labels:
            t.eq(ax.get_ylabel(), labels["ylabel"], "the axis label is lost", plot=what)
        if what != "bar":
            t.eq(ax.get_yscale(), "log" if ylog else "linear", "the vertical scale is not the one asked for", plot=what)
        plt.close("all")
    t.check(df.to_csv() == d0, "plotting changes the data")
    t.sig(time_col, metrics, exps, run, len(df), metric)


@CHECK.section(quick=24, thorough=400, need={"commands": 20, "curves": 10})
def command_line(t):
    from click.testing import CliRunner
    rng = t.rng
    rows, curves = [], {}
    time_col = rng.choice(["step", "step", "eval"])
    metric = rng.choice(["bsf", "bsf", "mean_fitness"])
    keys = [(k,) for k in rng.sample(["a", "b", "c"], rng.randint(1, 2))]
    cols = list(probe.FitnessStatsCSVProbe.default_metric_cols)
    n = rng.randint(3, 7)
    for k in keys:
        for j in range(rng.randint(1, 3)):
            for s in range(n):
                vals = {m: round(rng.uniform(.5, 9), 3) for m in cols}
                rows.append({"job": j, time_col: s, "experiment": k[0], **vals})
                for m in cols:
                    curves.setdefault((m, k, j), []).append((s, vals[m]))
    path = os.path.join(t.tmp, "curves.csv")
    with open(path, "w") as f:
        f.write("# a comment\n")
        pd.DataFrame(rows).to_csv(f, index=False)
    before = open(path).read()
    cmd = rng.choice(["curves", "avg-curves", "auc", "all"])
    args = ["plot", cmd, path]
    if metric != "bsf" or rng.random() < .5:
        args += ["--metric-col", metric]
    if time_col != "step" or rng.random() < .5:
        args += ["--time-col", time_col]
    title, modulo, error, ylog, ylim = None, 1, True, False, None
    if cmd != "all" and rng.random() < .6:
        title = "My title"
        args += ["--title", title]
    if cmd == "all" and rng.random() < .6:
        modulo = rng.choice([1, 2])
        args += ["--modulo", str(modulo)]
    if cmd in ("all", "avg-curves"):
        if rng.random() < .5:
            error = rng.random() < .5
            args += ["--error" if error else "--no-error"]
        if rng.random() < .5:
            ylim = (.25, 12.0)
            args += ["--ylim", ".25", "12.0"]
    if cmd != "auc" and rng.random() < .5:
        ylog = rng.random() < .6
        args += ["--ylog" if ylog else "--no-ylog"]
    plt.close("all")
    res = CliRunner().invoke(A.cli, args, catch_exceptions=True)
    t.check(res.exit_code == 0, "the plot command fails", args=args[1:2] + args[3:], error=repr(res.exception))
    curves = {k: [p for p in v if p[0] % modulo == 0] for k, v in curves.items()}
    axs = [a for f in plt.get_fignums() for a in plt.figure(f).axes]
    t.eq(len(axs), 3 if cmd == "all" else 1, "the plot command does not show its plots", command=cmd)
    todo = {"curves": [("curves", axs[0])], "avg-curves": [("avg", axs[0])], "auc": [("bar", axs[0])], "all": list(zip(("curves", "avg", "bar"), axs))}[cmd]
    for what, ax in todo:
        if what == "curves":
            col = match_curves(t, ax.lines, [([(float(x), y) for x, y in pts], k) for (m, k, j), pts in sorted(curves.items()) if m == metric], cmd)
            check_legend(t, ax, keys, col, cmd)
        elif what == "avg":
            col = check_mean_lines(t, ax, curves, metric, keys, error, cmd)
            check_legend(t, ax, keys, col, cmd)
            if ylim:
                t.close(ax.get_ylim(), ylim, "the vertical limits asked for are not used", command=cmd)
        else:
            check_boxes(t, ax, curves, metric, keys, cmd)
        if what != "bar":
            t.eq(ax.get_yscale(), "log" if ylog else "linear", "the vertical scale is not the one asked for", command=cmd)
        if title:
            t.eq(ax.get_title(), title, "the title asked for is not shown", command=cmd)
    t.check(open(path).read() == before, "plotting changes the file")
    t.event("commands")
    t.sig(*[a for a in args if a != path], n, len(rows))
    plt.close("all")


if __name__ == "__main__":
    CHECK.main()
