"""C25: probes report the population truthfully and never disturb it."""
import csv
import io
import math
import random
import matplotlib
import numpy as np
import gymnasium as gym
from vlib.harness import Check
from vlib.gen import *
from leap_ec.decoder import IdentityDecoder
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib.probe import log_pop, log_worker_location
from leap_ec.binary_rep.problems import MaxOnes
from leap_ec.real_rep.problems import SpheroidProblem
from leap_ec import probe
from leap_ec.executable_rep.rules import PittRulesDecoder, PlotPittRuleProbe
from leap_ec.executable_rep.neural_network import SimpleNeuralNetworkDecoder, GraphPhenotypeProbe
from leap_ec.multiobjective.probe import ParetoPlotProbe2D
from leap_ec.global_vars import context as global_context

CHECK = Check("C25", rule="sequences of populations (ties, NaN, both directions, every fitness type) pass through every probe with random options; each written "
              "or plotted value is recomputed from the population, and populations, random sources and number formatting are compared before "
              "and after; distinct by (probe, options, populations)")


class Quiet:
    """the probe may neither disturb the population nor the random sources nor how numbers are printed"""

    def __init__(self, t, pop, what):
        self.t, self.pop, self.what = t, pop, what

    def _state(self):
        s = np.random.get_state()
        if sum(isnan(i.fitness) for i in self.pop):
            # which of two NaN fitnesses counts as better is a coin toss of the problem, not of the probe
            s = ("", np.zeros(1), 0)
            return (None, s[0], s[1].tobytes(), s[2], repr(np.arange(3.0)), str(np.arange(1500)), snap_pop(self.pop))
        return (random.getstate(), s[0], s[1].tobytes(), s[2], repr(np.arange(3.0)), str(np.arange(1500)), snap_pop(self.pop))

    def __enter__(self):
        self.s0 = self._state()
        return self

    def __exit__(self, *exc):
        if exc[0] is None:
            s1 = self._state()
            self.t.check(self.s0[:4] == s1[:4], "a probe consumes random numbers", probe=self.what)
            self.t.check(self.s0[4:6] == s1[4:6], "a probe changes how arrays are printed", probe=self.what)
            self.t.check(self.s0[6] == s1[6], "a probe changes the population", probe=self.what)
            self.t.event("quiet")


def population(rng, problem, n=None, nan=0.0, genome=None, cls=None, kinds=("int", "float", "np", "tie")):
    n = n or rng.choice([1, 2, 3, 5, 9])
    fs = [float(f) if isinstance(f, np.float32) else f for f in fitness_values(rng, n, nan=nan, kinds=kinds)]
    return [mkind(problem, f, genome=genome() if genome else np.array([rng.randint(0, 1) for _ in range(3)]), cls=cls or Individual) for f in fs]


def ctx_for(rng):
    return global_context if rng.random() < .5 else {"leap": {"generation": 0}}


def set_gen(ctx, g):
    ctx["leap"]["generation"] = g


def best_value(fs, maximize):
    return max(fs, key=lambda f: rank_key(f, maximize))


def samef(a, b):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12


def gens(rng):
    g, out = rng.choice([0, 0, 1, 7]), []
    for _ in range(some_size(rng, 1, 6, 60)):
        out.append(g)
        g += rng.choice([1, 1, 1, 2])
    return out


@CHECK.section(quick=1500, thorough=30000, need={"rows": 3000, "quiet": 3000})
def best_so_far(t):
    rng = t.rng
    maximize = rng.random() < .5
    problem = scalar_problem(maximize)
    ctx = ctx_for(rng)
    kw = {} if ctx is global_context else {"context": ctx}
    set_gen(ctx, 0)
    st = io.StringIO()
    header = rng.choice([True, False, None])
    if header is not None:
        kw["header"] = header
    it = rng.random() < .5
    pr = (probe.BestSoFarIterProbe if it else probe.BestSoFarProbe)(stream=st, **kw)
    exp, seen = [], []
    nan = rng.choice([0.0, 0.0, .3])
    src, shared = None, []
    if it:
        def feed():
            while True:
                yield shared.pop(0)
        src = pr(feed())
    for g in gens(rng):
        set_gen(ctx, g)
        pop = population(rng, problem, nan=nan, cls=rng.choice([Individual, RobustIndividual]))
        if it:
            for ind in pop:
                shared.append(ind)
                with Quiet(t, pop, "BestSoFarIterProbe"):
                    t.check(next(src) is ind, "the streaming best-so-far probe hands on another individual")
                t.check(not shared, "the streaming probe pulls too few individuals")
                seen.append(ind.fitness)
                exp.append((g, best_value(seen, maximize)))
        else:
            lst = list(pop)
            with Quiet(t, pop, "BestSoFarProbe"):
                t.check(pr(lst) is lst and all(a is b for a, b in zip(lst, pop)) and len(lst) == len(pop), "the best-so-far probe returns another population")
            seen += [i.fitness for i in pop]
            exp.append((g, best_value(seen, maximize)))
        t.check(samef(pr.bsf.fitness, best_value(seen, maximize)), "the best-so-far individual is not the best seen", got=pr.bsf.fitness, seen=seen, maximize=maximize)
    rows = list(csv.reader(io.StringIO(st.getvalue())))
    if header is not False:
        t.eq(rows[0], ["step", "bsf"], "the best-so-far header is wrong")
        rows = rows[1:]
    t.eq(len(rows), len(exp), "a best-so-far row is missing or superfluous", rows=rows)
    for r, (g, b) in zip(rows, exp):
        t.check(int(r[0]) == g and samef(r[1], b), "a best-so-far row is wrong", row=r, expected=(g, b), maximize=maximize, seen=seen)
        t.event("rows")
    t.sig(it, maximize, str(exp))


def stats(fs):
    m = math.fsum(float(f) for f in fs) / len(fs)
    return m, math.sqrt(math.fsum((float(f) - m) ** 2 for f in fs) / len(fs)), min(float(f) for f in fs), max(float(f) for f in fs)


def csv_fields(line):
    """The fields of a line, as any CSV reader that skips the blank after a comma sees them."""
    return [x.strip() for x in next(csv.reader([line], skipinitialspace=True))]


@CHECK.section(quick=1500, thorough=30000, need={"rows": 2000, "skipped": 300, "quiet": 3000, "extras": 800})
def fitness_stats(t):
    rng = t.rng
    maximize = rng.random() < .5
    problem = scalar_problem(maximize)
    ctx = ctx_for(rng)
    kw = {} if ctx is global_context else {"context": ctx}
    set_gen(ctx, 0)
    header = rng.choice([True, True, False])
    if not header or rng.random() < .5:
        kw["header"] = header
    modulo = rng.choice([1, 1, 2, 3])
    if modulo > 1:
        kw["modulo"] = modulo
    job = rng.choice([None, None, 0, 15, "j7"])
    if job is not None:
        kw["job"] = job
    notes = rng.choice([None, {}, {"desc": "just a test"}, {"b": 1, "a": 2.5}, {"desc": "std=0.1, k=2"}, {"x": 'say "hi", twice', "y": 3},
                        {"a, b": (1, 2)}, {"issue": "fixes #12"}])
    if notes is not None:
        kw["notes"] = notes
    handed = []

    def median(p):
        handed.append(p)
        return float(np.median([i.fitness for i in p]))

    extras = rng.choice([None, {}, {"median": median}, {"zz": lambda p: len(p), "median": median, "aa": lambda p: -1}, {"sizes": lambda p: [len(p), 1], "median": median}])
    if extras is not None:
        kw["extra_metrics"] = extras
    comment = rng.choice([None, None, "one", "one\ntwo"])
    if comment is not None:
        kw["comment"] = comment
    if rng.random() < .3:
        kw["numpy_as_list"] = rng.random() < .5
    st = io.StringIO()
    pr = probe.FitnessStatsCSVProbe(stream=st, **kw)
    exp, seen = [], []
    for g in gens(rng):
        set_gen(ctx, g)
        pop = population(rng, problem)
        if rng.random() < .2:
            big = rng.choice([1e6, 1e9])
            for i in pop:
                i.fitness = big + float(i.fitness)
        seen += [i.fitness for i in pop]
        lst = list(pop)
        with Quiet(t, pop, "FitnessStatsCSVProbe"):
            t.check(pr(lst) is lst and [id(x) for x in lst] == [id(x) for x in pop], "the statistics probe returns another population")
        if g % modulo == 0:
            fs = [i.fitness for i in pop]
            exp.append((g, [best_value(seen, maximize), *stats(fs)],
                        [float(np.median(fs)) if k == "median" else len(fs) if k == "zz" else [len(fs), 1] if k == "sizes" else -1 for k in (extras or {})]))
        else:
            t.event("skipped")
    lines = st.getvalue().split("\n")
    t.eq(lines.pop(), "", "the last row is not ended")
    cols = (["job"] if job is not None else []) + list(notes or {}) + ["step", "bsf", "mean_fitness", "std_fitness", "min_fitness", "max_fitness"] + list(extras or {})
    if header:
        for c in (comment.split("\n") if comment else []):
            t.eq(lines.pop(0), "# " + c, "the comment is not written")
        t.eq(csv_fields(lines.pop(0)), cols, "the header is wrong")
    t.eq(len(lines), len(exp), "a statistics row is missing or superfluous", lines=lines, options=str(kw))
    for l, (g, vals, ex) in zip(lines, exp):
        f = csv_fields(l)
        t.eq(len(f), len(cols), "a statistics row has other columns than its header", row=l, columns=cols)
        row = dict(zip(cols, f))
        t.check(int(row["step"]) == g, "a statistics row has a wrong step", row=l, step=g)
        for c, v in zip(["bsf", "mean_fitness", "std_fitness", "min_fitness", "max_fitness"], vals):
            t.check(samef(row[c], v) or (c == "std_fitness" and abs(float(row[c]) - v) < 1e-6 * (1 + abs(vals[1]))),
                    "a statistics value is wrong", column=c, row=l, expected=v, maximize=maximize)
        if job is not None:
            t.eq(row["job"], str(job), "the job column is wrong")
        for k, v in (notes or {}).items():
            t.eq(row[k], str(v), "a notes column is wrong")
        for k, v in zip(extras or {}, ex):
            t.check(row[k] == str(v) if isinstance(v, list) else samef(row[k], v), "an extra column is wrong", column=k, row=l, expected=v)
            t.event("extras")
        t.event("rows")
    t.sig(maximize, modulo, job, str(notes), str(list(extras or {})), str(exp))
    t.sample(dict(lines=lines[:2]))


@CHECK.section(quick=1500, thorough=30000, need={"rows": 4000, "quiet": 3000, "long": 20})
def attributes(t):
    rng = t.rng
    maximize = rng.random() < .5
    problem = scalar_problem(maximize)
    ctx = ctx_for(rng)
    kw = {} if ctx is global_context else {"context": ctx}
    set_gen(ctx, 0)
    attrs = rng.choice([(), ["color"], ("color", "size"), ["size", "color", "text"]])
    job = rng.choice([None, 0, 15])
    notes = rng.choice([None, {"desc": "just, a test"}, {"b": 1, "a": 2}])
    opts = dict(do_fitness=rng.random() < .6, do_genome=rng.random() < .6, best_only=rng.random() < .35, header=rng.random() < .8)
    extras = rng.choice([None, {"double": lambda row: row["step"] * 2}, {"q": lambda row: "x", "p": lambda row: len(row)}])
    mode = rng.choice(["stream", "frame", "both"])
    st = io.StringIO()
    # an option at its documented default may as well be left out
    kw.update({k: v for k, v in opts.items() if v != (k == "header") or rng.random() < .5})
    if attrs or rng.random() < .5:
        kw["attributes"] = attrs
    if job is not None:
        kw["job"] = job
    if notes is not None:
        kw["notes"] = notes
    if extras is not None:
        kw["extra_metrics"] = extras
    kw["stream"] = None if mode == "frame" else st
    if mode != "stream":
        kw["do_dataframe"] = True
    as_list = rng.choice([None, True, False])
    if as_list is not None:
        kw["numpy_as_list"] = as_list
    long = rng.random() < .03
    if long:
        t.event("long")
    glen = 1200 if long else rng.randint(1, 40)
    pr = probe.AttributesCSVProbe(**kw)
    fields = (["job"] if job is not None else []) + list(notes or {}) + ["step"] + list(attrs) + (["fitness"] if opts["do_fitness"] else []) + \
        (["genome"] if opts["do_genome"] else []) + list(extras or {})
    calls = []
    for g in gens(rng)[:3]:
        set_gen(ctx, g)
        pop = population(rng, problem, genome=lambda: np.array([rng.randint(0, 99) for _ in range(glen)]))
        for k, i in enumerate(pop):
            i.color = rng.choice(["red", "blue, green", 'q"x'])
            i.size = rng.randint(0, 10**6)
            i.text = rng.random()
        lst = list(pop)
        with Quiet(t, pop, "AttributesCSVProbe"):
            t.check(pr(lst) is lst and [id(x) for x in lst] == [id(x) for x in pop], "the attribute probe returns another population")
        rows = []
        for i in pop:
            r = {"step": g, "color": i.color, "size": i.size, "text": i.text, "fitness": i.fitness, "genome": i.genome}
            rows.append(r)
        calls.append((g, pop, rows))
    # expected rows; best_only leaves a choice among ties
    exp = []
    for g, pop, rows in calls:
        if opts["best_only"]:
            b = best_value([i.fitness for i in pop], maximize)
            exp.append([r for r, i in zip(rows, pop) if samef(i.fitness, b)])
        else:
            exp += [[r] for r in rows]

    def matches(vals, r, text):
        v = dict(zip(fields, vals))
        for k in list(attrs) + (["fitness"] if opts["do_fitness"] else []):
            if not (str(v[k]) == str(r[k]) if k != "fitness" else samef(v[k], r[k])):
                return False
        if opts["do_genome"]:
            if not text:
                if not np.array_equal(v["genome"], r["genome"]):
                    return False
            elif as_list is not False:
                if [int(x) for x in v["genome"].strip("[]").split(",")] != r["genome"].tolist():
                    return False
            elif len(r["genome"]) < 1000 and [int(x) for x in v["genome"].strip("[]").split()] != r["genome"].tolist():
                return False
        return int(v["step"]) == r["step"] and (job is None or str(v["job"]) == str(job)) and all(str(v[k]) == str(x) for k, x in (notes or {}).items())

    sets = []
    if mode != "frame":
        rows = list(csv.reader(io.StringIO(st.getvalue())))
        if opts["header"]:
            t.eq(rows.pop(0), fields, "the header is wrong")
        sets.append((rows, True))
    if mode != "stream":
        df = pr.dataframe
        t.eq(list(df.columns), fields, "the data frame has other columns")
        sets.append(([list(r) for r in df.itertuples(index=False, name=None)], False))
    for rows, text in sets:
        t.eq(len(rows), len(exp), "an attribute row is missing or superfluous", text=text, options=str(opts))
        for r, ok in zip(rows, exp):
            t.eq(len(r), len(fields), "an attribute row has other columns than its header", row=r)
            t.check(any(matches(r, x, text) for x in ok), "an attribute row is wrong", row=r, candidates=ok[:4], fields=fields, text=text)
            v = dict(zip(fields, r))
            if extras and "double" in extras:
                t.check(int(v["double"]) == 2 * int(v["step"]), "an extra column is wrong", row=r)
            elif extras:
                t.eq(v["q"], "x", "an extra column is wrong", row=r)
            t.event("rows")
    pop[0].__dict__.pop("color")
    if "color" in attrs and not opts["best_only"]:
        t.raises(ValueError, lambda: pr(pop), "a missing attribute is not reported")
    t.sig(str(attrs), str(opts), mode, job, str(notes), glen, [r["size"] for _, _, rs in calls for r in rs])


@CHECK.section(quick=600, thorough=10000, need={"lines": 1500})
def printing(t):
    rng = t.rng
    problem = scalar_problem(True)
    pop = population(rng, problem)
    prefix = rng.choice([None, "", "best: "])
    kw = {} if prefix is None else {"prefix": prefix}
    st = io.StringIO()
    seen = []

    def metric(p):
        seen.append(list(p))
        return len(p) * 7

    op = probe.print_probe(probe=metric, stream=st, **kw)
    with Quiet(t, pop, "print_probe"):
        t.check(op(pop) is pop, "print_probe returns another population")
    t.eq(st.getvalue(), (prefix or "") + str(len(pop) * 7), "print_probe writes something else than its metric")
    t.eq([[id(x) for x in s] for s in seen], [[id(x) for x in pop]], "print_probe measures something else than the population")
    st = io.StringIO()
    pulled = []

    def src():
        for i in pop:
            pulled.append(i)
            yield i
    gen = probe.print_individual(stream=st, **kw)(src())
    for k, i in enumerate(pop):
        with Quiet(t, pop, "print_individual"):
            t.check(next(gen) is i and len(pulled) == k + 1, "print_individual hands on another individual")
        t.eq(st.getvalue(), "".join((prefix or "") + str(x) + "\n" for x in pop[:k + 1]), "print_individual writes something else")
        t.event("lines")
    t.sig(prefix, str(snap_pop(pop)))


@CHECK.section(quick=1500, thorough=20000, need={"metrics": 4000})
def diversity(t):
    rng = t.rng
    n, L = rng.choice([1, 2, 3, 6, 15]), rng.randint(1, 8)
    dt = rng.choice(["real", "real", "int", "bin", "bool", "uint8"])
    fixed = [rng.random() < .3 for _ in range(L)]
    off = rng.choice([0.0, 0.0, 1000.0])
    base = [rng.randint(-20, 20) for _ in range(L)]
    gs = []
    for _ in range(n):
        if dt == "real":
            g = [off + (base[k] / 4 if fixed[k] else rng.choice([rng.gauss(0, 5), float(rng.randint(-3, 3))])) for k in range(L)]
        elif dt == "int":
            g = [int(off) + (base[k] if fixed[k] else rng.randint(-20, 20)) for k in range(L)]
        elif dt == "uint8":
            g = [(base[k] + 30 if fixed[k] else rng.randint(0, 255)) for k in range(L)]
        else:
            g = [base[k] % 2 if fixed[k] else rng.randint(0, 1) for k in range(L)]
        gs.append(g)
    cv = dict(real=float, int=int, bin=int, bool=bool, uint8=np.uint8)[dt]
    pop = [mkind(scalar_problem(True), 1.0, genome=np.array(g, dtype=cv)) for g in gs]
    cols = [[float(g[k]) for g in gs] for k in range(L)]
    pair = math.fsum((a - b) ** 2 for c in cols for a in c for b in c)
    var = [math.fsum((a - math.fsum(c) / n) ** 2 for a in c) / n for c in cols]
    if any(1e-12 < v < 1e-6 for v in var):
        return
    with Quiet(t, pop, "diversity metrics"):
        p, v, f = probe.pairwise_squared_distance_metric(pop), probe.sum_of_variances_metric(pop), probe.num_fixated_metric(pop)
    d = dict(genomes=gs, dtype=dt)
    t.close(float(p), pair, "the pairwise distance metric differs from its definition", rtol=1e-7, atol=1e-5, **d)
    t.close(float(v), math.fsum(var), "the sum of variances differs from its definition", rtol=1e-7, atol=1e-6, **d)
    t.eq(int(f), sum(len(set(c)) == 1 for c in cols), "the number of fixated genes differs from its definition", **d)
    b = population(rng, scalar_problem(rng.random() < .5))
    bi = probe.best_of_gen(b)
    t.check(any(bi is x for x in b) and not any(x > bi for x in b), "best_of_gen is not the best")
    t.event("metrics", 4)
    t.sig(str(gs))


@CHECK.section(quick=320, thorough=3000, need={"draws": 200, "rule_plots": 10, "graph_plots": 10})
def plots(t):
    import matplotlib.pyplot as plt
    rng = t.rng
    maximize = rng.random() < .5
    ctx = ctx_for(rng)
    kw = {} if ctx is global_context else {"context": ctx}
    set_gen(ctx, 0)
    modulo = rng.choice([1, 1, 2])
    name = rng.choice(["fitness", "metrics", "cartesian", "hist", "heat", "sum", "pareto", "pitt", "graph"])
    if rng.random() < .6:
        plt.figure()
        kw["ax"] = plt.gca()
    mod = {"step" if name == "pareto" else "modulo": modulo}
    problem = scalar_problem(maximize)
    decoder = IdentityDecoder()
    genome = lambda: np.array([rng.gauss(0, 4) for _ in range(3)])  # noqa
    handed = []
    if name == "fitness":
        if rng.random() < .4:
            kw["x_axis_value"] = lambda: ctx["leap"]["generation"] * 10
        pr = probe.FitnessPlotProbe(**mod, **kw, **rng.choice([{}, {"ylim": (0, 1), "xlim": (0, 10)}]))
    elif name == "metrics":
        ms = [lambda p: (handed.append(p), float(np.mean([float(i.fitness) for i in p])))[1], probe.pairwise_squared_distance_metric, lambda p: len(p)]
        ms = ms[:rng.randint(1, 3)]
        pr = probe.PopulationMetricsPlotProbe(metrics=ms, **mod, **kw)
    elif name == "cartesian":
        pad = rng.choice([(), (0.0,)])
        extra = {} if rng.random() < .5 else {"contours": SpheroidProblem(), "granularity": 2.0, "pad": pad}
        pr = probe.CartesianPhenotypePlotProbe(**extra, **mod, **kw)
    elif name in ("hist", "heat"):
        genome = lambda: rng.gauss(0, 4)  # noqa
        pr = (probe.HistPhenotypePlotProbe if name == "hist" else probe.HeatMapPhenotypeProbe)(**mod, **kw)
    elif name == "sum":
        genome = lambda: np.array([rng.randint(0, 1) for _ in range(5)])  # noqa
        extra = {} if rng.random() < .5 else {"problem": MaxOnes()}
        pr = probe.SumPhenotypePlotProbe(xlim=(0, 5), ylim=(0, 5), **extra, **mod, **kw)
    elif name == "pareto":
        pr = ParetoPlotProbe2D(**mod, **kw)
    elif name == "pitt":
        nin, nout = rng.choice([2, 2, 3]), rng.choice([1, 1, 2])
        decoder = PittRulesDecoder(gym.spaces.Box(0.0, 1.0, shape=(nin,)), gym.spaces.Discrete(2) if nout == 1 else gym.spaces.MultiBinary(nout))
        genome = lambda: [np.array([rng.random() for _ in range(2 * nin)] + [float(rng.randint(0, 1)) for _ in range(nout)]) for _ in range(rng.randint(1, 4))]  # noqa
        dims, pxlim, pylim = (0, 1), (0, 1), (0, 1)
        if rng.random() < .5:
            dims = kw["plot_dimensions"] = tuple(rng.sample(range(nin), 2))
        if rng.random() < .5:
            pxlim, pylim = kw["xlim"], kw["ylim"] = (-1, 2), (0, 3)
        pr = PlotPittRuleProbe(decoder, **mod, **kw)
        t.check(tuple(pr.ax.get_xlim()) == pxlim and tuple(pr.ax.get_ylim()) == pylim, "the limits asked for are not used", probe=name)
    else:
        decoder = SimpleNeuralNetworkDecoder(rng.choice([(2, 2, 1), (1, 3, 2), (2, 1)]))
        genome = lambda: np.array([rng.gauss(0, 1) for _ in range(int(decoder.length))])  # noqa
        weighted, mult = rng.random() < .6, 1.0
        if rng.random() < .5:
            mult = kw["weight_multiplier"] = rng.choice([0.5, 3.0])
        pr = GraphPhenotypeProbe(weights=weighted, **mod, **kw)
    hist = []
    for g in gens(rng)[:4]:
        set_gen(ctx, g)
        pop = [mkind(problem, float(f), genome=genome(), decoder=decoder) for f in fitness_values(rng, rng.choice([1, 2, 4, 7]), kinds=("int", "float", "tie"))]
        if name == "sum":
            for i in pop:
                i.fitness = float(np.sum(i.genome)) + rng.choice([0.0, 1.0])
        if name == "pareto":
            mo = VecProblem([False, False])
            pop = [mkind(mo, np.array([rng.random() * 3, rng.random()])) for _ in range(rng.choice([1, 2, 5]))]
        lst = list(pop)
        s0 = snap_pop(pop)
        r0 = (random.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2])
        t.check(pr(lst) is lst and [id(x) for x in lst] == [id(x) for x in pop], "a plot probe returns another population", probe=name)
        t.check(snap_pop(pop) == s0, "a plot probe changes the population", probe=name)
        t.check(r0 == (random.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2]), "a plot probe consumes random numbers", probe=name)
        t.event("quiet")
        if g % modulo == 0:
            hist.append((g, pop))
    if hist:
        t.event("draws")
        last = hist[-1][1]
        ax = pr.ax
        if name in ("fitness", "metrics"):
            xs = [g * 10 if "x_axis_value" in kw else g for g, _ in hist]
            fs = [lambda p: best_value([i.fitness for i in p], maximize)] if name == "fitness" else \
                [lambda p: float(np.mean([float(i.fitness) for i in p])), probe.pairwise_squared_distance_metric, lambda p: len(p)][:len(ms)]
            for k, f in enumerate(fs):
                line = ax.lines[k]
                t.close(np.asarray(line.get_xdata(), float), [float(x) for x in xs], "a plot has wrong steps", probe=name, modulo=modulo)
                t.close(np.asarray(line.get_ydata(), float), [float(f(p)) for _, p in hist], "a plot has wrong values", probe=name, maximize=maximize)
        elif name == "cartesian":
            t.close(np.asarray(pr.sc.get_offsets()), [i.genome[:2] for i in last], "the plotted points are not the phenotypes", probe=name)
        elif name == "sum":
            t.close(np.asarray(pr.sc.get_offsets()), [[float(np.sum(i.genome)), float(i.fitness)] for i in last], "the plotted points are not the phenotypes", probe=name)
        elif name == "pareto":
            t.close(np.asarray(pr.scatterplot.get_offsets()), [[float(v) for v in i.fitness] for i in last], "the plotted points are not the fitnesses", probe=name)
        elif name in ("hist", "heat"):
            t.check(abs(sum(p.get_height() for p in ax.patches) - len(last)) < 1e-9, "the histogram does not count every phenotype", probe=name)
        elif name == "pitt":
            b = best_value([i.fitness for i in last], maximize)
            cands = []
            for i in last:
                if i.fitness == b:
                    rs = []
                    for s in i.genome:
                        xl, xh = s[2 * dims[0]:2 * dims[0] + 2]
                        yl, yh = s[2 * dims[1]:2 * dims[1] + 2]
                        xl, xh = (xl, xh) if xl <= xh else pxlim
                        yl, yh = (yl, yh) if yl <= yh else pylim
                        rs.append((xl, yl, xh - xl, yh - yl, float(s[2 * nin])))
                    cands.append(sorted(rs))
            got = sorted((p.get_x(), p.get_y(), p.get_width(), p.get_height(), float(matplotlib.colors.same_color(p.get_edgecolor(), "red"))) for p in ax.patches)
            t.check(any(len(c) == len(got) and np.allclose(c, got) for c in cands), "the drawn rules are not those of the best individual", got=got, expected=cands, dims=dims)
            t.event("rule_plots")
        elif name == "graph":
            b = best_value([i.fitness for i in last], maximize)
            graphs = [i.decode().graph for i in last if i.fitness == b]
            labels = sorted(x.get_text() for x in ax.texts)
            t.eq(labels, sorted(map(str, graphs[0].nodes)), "the drawn nodes are not those of the best individual's network", probe=name)
            widths = sorted(p.get_linewidth() for p in ax.patches)
            if weighted:
                cands = [sorted(mult * w for _, _, w in g.edges(data="weight")) for g in graphs]
                t.check(any(len(c) == len(widths) and np.allclose(c, widths) for c in cands), "the drawn weights are not those of the best individual", got=widths, expected=cands)
            else:
                t.eq(len(widths), graphs[0].number_of_edges(), "the drawn edges are not those of the network", probe=name)
                t.check(len(set(widths)) == 1, "edges are drawn with different widths although weights are off", probe=name)
            t.event("graph_plots")
    t.sig(name, modulo, maximize, len(hist), str(sorted(map(str, kw))), len(hist[-1][1]) if hist else 0)


@CHECK.section(quick=500, thorough=8000, need={"rows": 1500})
def distributed_logs(t):
    rng = t.rng
    problem = scalar_problem(True)
    st, st2 = io.StringIO(), io.StringIO()
    every = rng.choice([1, 1, 2, 3])
    header = rng.choice([True, False])
    lp = log_pop(every, stream=st, header=header)
    lw = log_worker_location(stream=st2, header=header)
    exp, exp2 = [], []
    bid = 0
    for k in range(rng.randint(1, 7)):
        pop = population(rng, problem, nan=.1, cls=DistributedIndividual)
        for i in pop:
            bid += 1
            i.birth_id, i.hostname, i.pid = bid, "h%d" % rng.randint(0, 3), rng.randint(1, 999)
            i.start_eval_time = rng.random() * 100
            i.stop_eval_time = i.start_eval_time + rng.random()
        with Quiet(t, pop, "log_pop"):
            lp(pop)
        if k % every == 0:
            exp += [(k, i) for i in pop]
        for i in pop[:2]:
            with Quiet(t, pop, "log_worker_location"):
                lw(i)
            exp2.append(i)
    for stream, rows, names in ((st, exp, ["interval", "uuid", "birth_id", "start_eval_time", "stop_eval_time", "fitness"]),
                                (st2, [(None, i) for i in exp2], ["hostname", "pid", "uuid", "birth_id", "start_eval_time", "stop_eval_time", "fitness"])):
        got = list(csv.reader(io.StringIO(stream.getvalue())))
        if header:
            t.eq(got.pop(0), names, "the log header is wrong")
        t.eq(len(got), len(rows), "a log row is missing or superfluous")
        for r, (k, i) in zip(got, rows):
            v = dict(zip(names, r))
            t.check(len(r) == len(names) and all(str(getattr(i, n)) == v[n] for n in names if n not in ("interval", "fitness")) and samef(v["fitness"], i.fitness)
                    and (k is None or int(v["interval"]) == k), "a log row is wrong", row=r)
            t.event("rows")
    t.sig(every, header, bid)
