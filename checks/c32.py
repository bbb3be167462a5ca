"""C32: landscape features and statistical helpers compute their definitions."""
import math
import os
import warnings
import numpy as np
import pandas as pd
from vlib.harness import Check
from vlib.gen import *
from leap_ec import Representation
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder, Decoder
from leap_ec.problem import ScalarProblem
from leap_ec.landscape_features.exploratory import ELAConvexity
from leap_ec import statistical_helpers as S
from leap_ec.contrib.transfer.sequential import PopulationSeedingRepertoire

CHECK = Check("C32", boost=2, rule="landscape features over random samples and landscapes re-derived from the exposed pairs and combinations, helpers next to direct computations, "
              "curve analysis next to plain Python loops; distinct by input")
fs = math.fsum


class Landscape(ScalarProblem):
    def __init__(self, kind, w, scale):
        super().__init__(False)
        self.kind, self.w, self.scale, self.calls = kind, w, scale, []

    def f(self, x):
        if self.kind == "linear":
            return float(np.dot(self.w, x)) + 1.5
        if self.kind == "convex":
            return float(np.sum(self.scale * np.asarray(x) ** 2))
        if self.kind == "concave":
            return -float(np.sum(self.scale * np.asarray(x) ** 2))
        if self.kind == "flat":
            return 4.0
        return float(np.sum(np.asarray(x) ** 2 - 10 * np.cos(2 * math.pi * np.asarray(x))))

    def evaluate(self, phenome, *a, **k):
        self.calls.append(np.array(phenome))
        return self.f(phenome)

    def __str__(self):
        return "Landscape-" + self.kind


class Scale(Decoder):
    def decode(self, genome, *a, **k):
        return np.asarray(genome) * 2 + 1


def sample(t, d, size, kind=None, dec=None):
    rng = t.rng
    prob = Landscape(kind or rng.choice(["linear", "convex", "concave", "rough", "flat"]), np.array([rng.gauss(0, 1) for _ in range(d)]), rng.choice([.5, 1.0, 3.0]))
    dec = dec or (IdentityDecoder() if rng.random() < .7 else Scale())
    rep = Representation(initialize=lambda: t.np.uniform(-5, 5, size=d), decoder=dec)
    des = [rep.create_individual(prob) for _ in range(size)]
    for i in des:
        i.evaluate()
    return prob, rep, des


@CHECK.section(quick=500, thorough=8000, need={"deltas": 6000})
def convexity(t):
    rng = t.rng
    d, size = rng.choice([1, 2, 3, 10]), rng.choice([3, 4, 10, 50])
    prob, rep, des = sample(t, d, size)
    s0 = snap_pop(des)
    prob.calls.clear()
    nt = rng.choice([1, 2, 10, 60])
    e = ELAConvexity(prob, rep, des, nt) if rng.random() < .5 else ELAConvexity(problem=prob, representation=rep, design_individuals=des, num_convexity_tests=nt)
    t.eq(snap_pop(des), s0, "the analysis changes the sample it is given")
    pairs, combs, deltas = e.pairs, e.combinations, e.deltas
    t.eq((len(pairs), len(combs), len(deltas), len(prob.calls)), (nt, nt, nt, nt), "the number of convexity tests is not the requested one")
    known = {id(i) for i in des}
    for (x, y), (f, q), delta in zip(pairs, combs, deltas):
        t.check(id(x) in known and id(y) in known and x is not y, "a pair is not made of two different individuals of the sample")
        diff = x.genome - y.genome
        a = float(np.dot(q.genome - y.genome, diff) / np.dot(diff, diff))
        t.check(-1e-9 <= a <= 1 + 1e-9, "a combination lies outside its pair", weight=a)
        t.check(np.allclose(q.genome, a * x.genome + (1 - a) * y.genome, rtol=1e-7, atol=1e-7), "a combination does not lie between its pair", x=x.genome, y=y.genome,
                got=q.genome)
        exp = a * x.fitness + (1 - a) * y.fitness
        tol = 1e-7 * (1 + abs(x.fitness) + abs(y.fitness))
        t.check(abs(f - exp) <= tol, "a combined fitness is not the same combination as its point", weight=a, got=f, expected=exp)
        t.check(q.fitness == prob.f(rep.decoder.decode(q.genome)), "a combination has another fitness than its own")
        t.check(abs(delta - (q.fitness - f)) <= 1e-12 * (1 + abs(f)), "a difference is not the new point's fitness minus the combined fitness", got=delta,
                expected=q.fitness - f)
        t.check(not share_storage(q.genome, x.genome) and not share_storage(q.genome, y.genome), "a combination shares its genome with the sample")
        t.event("deltas")
    dl = [float(v) for v in deltas]
    th = rng.choice([None, -1e-10, -1e-3, -.5, -5.0])
    kw = {} if th is None else dict(threshold=th)
    tv = -1e-10 if th is None else th
    t.eq(e.convex_p(**kw), sum(v < tv for v in dl) / nt, "the convex ratio differs from its definition", threshold=tv)
    t.eq(e.linear_p(**kw), sum(abs(v) < -tv for v in dl) / nt, "the linear ratio differs from its definition", threshold=tv)
    t.close(float(e.linear_deviation()), fs(dl) / nt, "the mean deviation differs from its definition", rtol=1e-9, atol=1e-9)
    t.close(float(e.linear_deviation_abs()), fs(map(abs, dl)) / nt, "the mean absolute deviation differs from its definition", rtol=1e-9, atol=1e-9)
    name = rng.choice([None, "thing"])
    tab = e.results_table(name) if name else e.results_table()
    t.eq((len(tab), list(tab.columns)), (1, ["Function", "P(convex)", "P(linear)", "Linear_deviation", "Linear_deviation_abs"]), "the table has another form")
    row = tab.iloc[0]
    t.check(row["Function"] == (name or str(prob)) and row["P(convex)"] == e.convex_p() and row["P(linear)"] == e.linear_p()
            and np.isclose(row["Linear_deviation"], fs(dl) / nt) and np.isclose(row["Linear_deviation_abs"], fs(map(abs, dl)) / nt),
            "the table differs from the features", row=str(row))
    # lists handed out are copies
    e.pairs.clear(), e.combinations.clear(), e.deltas.clear()
    t.eq((len(e.pairs), len(e.combinations), len(e.deltas)), (nt, nt, nt), "a caller's change of a list changes the features")
    if prob.kind in ("linear", "flat"):
        t.check(e.linear_p() == 1.0 and e.convex_p() == 0.0, "a linear landscape is not reported linear", kind=prob.kind)
    elif prob.kind == "convex":
        t.check(e.linear_deviation() <= 1e-9 and (nt < 60 or e.convex_p() > .7), "a convex landscape is not reported convex", got=e.convex_p())
        t.check(all(v <= 1e-7 for v in dl), "a convex landscape has a positive difference")
    elif prob.kind == "concave":
        t.check(e.convex_p() == 0.0 and e.linear_deviation() >= -1e-9, "a concave landscape is reported convex")
    for bad in (lambda: e.convex_p(0.0), lambda: e.linear_p(.1), lambda: ELAConvexity(prob, rep, des[:2], 5), lambda: ELAConvexity(prob, rep, des, 0)):
        t.raises(Exception, bad, "an illegal argument is accepted")
    t.sig(prob.kind, d, size, nt, tuple(dl[:2]))
    t.sample(dict(kind=prob.kind, d=d, size=size, tests=nt, convex=e.convex_p(), linear=e.linear_p()))


@CHECK.section(quick=24, thorough=200)
def sampling(t):
    """Pairs and weights are drawn uniformly."""
    rng = t.rng
    size = rng.choice([3, 4, 5])
    prob, rep, des = sample(t, 2, size, dec=IdentityDecoder())
    e = ELAConvexity(prob, rep, des, 3000)
    pos = {id(i): k for k, i in enumerate(des)}
    c = np.zeros((size, size))
    w = []
    for (x, y), (f, q) in zip(e.pairs, e.combinations):
        c[min(pos[id(x)], pos[id(y)]), max(pos[id(x)], pos[id(y)])] += 1
        diff = x.genome - y.genome
        w.append(float(np.dot(q.genome - y.genome, diff) / np.dot(diff, diff)))
    cells = [c[i, j] for i in range(size) for j in range(i + 1, size)]
    t.chisq(cells, [1 / len(cells)] * len(cells), "pairs are not drawn uniformly")
    t.ks(np.array(w), "uniform", "weights are not drawn uniformly from [0, 1]")
    t.check(len({round(v, 12) for v in w}) > 2900, "weights repeat")
    t.sig(size, w[0])
    prob, rep, des = sample(t, 2, 4)
    t.eq(len(ELAConvexity(prob, rep, des).deltas), 1000, "the default number of tests is not the documented one")


# ------------------------------------------------------------------ statistics
def counts(rng, keys, total, weights):
    out = {k: 0 for k in keys}
    for k in rng.choices(keys, weights, k=total):
        out[k] += 1
    return out


@CHECK.section(quick=5000, thorough=60000, need={"accepted": 800, "rejected": 800})
def chisquare(t):
    from scipy.stats import chi2
    rng = t.rng
    m = rng.choice([1, 2, 2, 3, 6, 11])
    keys = rng.choice([list(range(m)), ["k%d" % i for i in range(m)], [(i, 0) for i in range(m)]])
    total = rng.choice([20, 60, 97, 200, 1000])
    w = [rng.choice([1, 1, 2]) for _ in keys]
    exp = {k: total * a / sum(w) for k, a in zip(keys, w)}
    if rng.random() < .6:
        exp = counts(rng, keys, total, w)
    v = w if rng.random() < .5 else [rng.choice([.05, 1, 5]) for _ in keys]
    obs = counts(rng, keys, total, v)
    if rng.random() < .6:                # categories that were not seen are usually not in the dictionary
        obs = {k: c for k, c in obs.items() if c}
    if rng.random() < .3:
        exp = {k: c for k, c in exp.items() if c}
    if rng.random() < .3:
        items = list(obs.items())
        rng.shuffle(items)
        obs = dict(items)
    p = rng.choice([.05, .01, .001, 1e-6, .5])
    o0, e0 = dict(obs), dict(exp)
    allk = [k for k in {**obs, **exp} if obs.get(k, 0) or exp.get(k, 0)]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        got = S.stochastic_equals(exp, obs, p)
    if len(allk) == 1:
        want = math.isclose(obs.get(allk[0], 0), exp.get(allk[0], 0))
        pv = None
    else:
        stat = 0.0
        for k in allk:
            e = exp.get(k, 0)
            stat = float("inf") if e == 0 else stat + (obs.get(k, 0) - e) ** 2 / e
            if e == 0:
                break
        pv = chi2.sf(stat, len(allk) - 1)
        want = pv >= p
    if pv is None or abs(pv - p) > 1e-9:
        t.eq(bool(got), bool(want), "a chi-square test decides wrongly", expected_counts=e0, observed=o0, level=p, pvalue=pv)
        t.event("accepted" if want else "rejected")
    t.check(obs == o0 and exp == e0 and len(obs) == len(o0), "a statistical helper changes its arguments", observed=o0, after=obs)
    if pv is not None:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            got = float(S.stochastic_chisquare(exp, obs))
        t.check(abs(got - pv) < 1e-8, "a p-value differs from the chi-square distribution", got=got, expected_p=pv, expected_counts=e0, observed=o0)
        t.raises(Exception, lambda: S.stochastic_chisquare({**exp, keys[0]: exp.get(keys[0], 0) + 5}, obs), "samples of different size are compared")
    # uniformity
    obs = counts(rng, keys, total, v)
    o0 = dict(obs)
    got = S.equals_uniform(obs, p)
    if m > 1:
        stat = fs((c - total / m) ** 2 / (total / m) for c in obs.values())
        pv = chi2.sf(stat, m - 1)
        if abs(pv - p) > 1e-9:
            t.eq(bool(got), bool(pv >= p), "a uniformity test decides wrongly", observed=o0, level=p, pvalue=pv)
    else:
        t.check(bool(got), "a single outcome is not uniform")
    t.eq(obs, o0, "a uniformity test changes its argument")
    t.sig(tuple(o0.values()), p, m)


@CHECK.section(quick=1500, thorough=20000)
def gaussian(t):
    from scipy.stats import t as T
    rng = t.rng
    k, kr = rng.choice([10, 50, 400]), rng.choice([10, 100, 1000])
    mu, sd = rng.choice([0.0, 15.0, -3.0]), rng.choice([1.0, .1, 5.0])
    shift = rng.choice([0, 0, .2, 1, 5]) * sd
    xs = [rng.gauss(mu + shift, sd) for _ in range(k)]
    xs = np.array(xs) if rng.random() < .5 else xs
    p = rng.choice([.05, .01, 1e-4])
    pvs = []
    for dd in (0, 1):
        s = float(np.std(xs, ddof=dd))
        var = ((k - 1) * s * s + (kr - 1) * sd * sd) / (k + kr - 2)
        z = (float(np.mean(xs)) - mu) / math.sqrt(var * (1 / k + 1 / kr))
        pvs.append(2 * T.sf(abs(z), k + kr - 2))
    got = S.equals_gaussian(xs, mu, sd, kr, p)
    # with or without Bessel's correction: only where both agree
    if (pvs[0] > p * 1.0001) == (pvs[1] > p * 1.0001) == (pvs[0] > p * .9999):
        t.eq(bool(got), pvs[0] > p, "a t test decides wrongly", pvalues=pvs, level=p)
        t.event("decided")
    # counting outcomes
    seq = [rng.choice("abc") for _ in range(rng.randint(0, 30))]
    it = iter(seq)
    d = S.collect_distribution(lambda: next(it), samples=len(seq))
    t.eq(dict(d), {c: seq.count(c) for c in set(seq)}, "outcomes are counted wrongly")
    t.raises(StopIteration, lambda: next(it), "the function is not called the requested number of times")
    t.sig(k, kr, mu, shift, float(xs[0]))


# ------------------------------------------------------------------ curves
def frame(rng):
    ex = rng.choice([["experiment"], ["algo", "size"]])
    rows = []
    metrics = rng.choice([["bsf"], ["bsf", "mean_fitness"], ["m"]])
    groups = [("A",), ("B",)] if len(ex) == 1 else [("A", 1), ("A", 2), ("B", 1)]
    groups = groups[:rng.randint(1, len(groups))]
    time = rng.choice(["step", "generation"])
    run = rng.choice(["job", "run"])
    same_jobs = rng.random() < .5
    for gi, g in enumerate(groups):
        for j in range(rng.randint(1, 4)):
            t0 = rng.choice([0, 0, 3])
            times, cur = [], t0
            for _ in range(rng.randint(1, 7)):
                times.append(cur)
                cur += rng.choice([1, 1, 2, 5])
            for s in times:
                r = dict(zip(ex, g))
                r[time] = s
                r[run] = j if same_jobs else gi * 10 + j
                for m in metrics:
                    r[m] = rng.choice([rng.gauss(0, 10), float(rng.randint(-3, 3))])
                r["other"] = "x"
                rows.append(r)
    rng.shuffle(rows)
    return rows, ex, metrics, time, run


def sd1(v):
    if len(v) < 2:
        return float("nan")
    m = fs(v) / len(v)
    return math.sqrt(fs((a - m) ** 2 for a in v) / (len(v) - 1))


def by(rows, cols):
    out = {}
    for r in rows:
        out.setdefault(tuple(r[c] for c in cols), []).append(r)
    return out


def area(rs, time, m):
    rs = sorted(rs, key=lambda r: r[time])
    return fs((b[time] - a[time]) * b[m] for a, b in zip(rs, rs[1:]))


def keyed(df, cols):
    return {tuple(r[c] for c in cols): r for r in df.to_dict("records")}


@CHECK.section(quick=160, thorough=3000, need={"groups": 400})
def curves(t):
    from leap_ec.contrib import analysis as A
    rng = t.rng
    rows, ex, metrics, time, run = frame(rng)
    df = pd.DataFrame(rows)
    d0 = df.copy(deep=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        an = A.CurveAnalyzer(df, time_col=time, metric_cols=metrics, experiment_cols=ex, run_col=run)
        avg = keyed(an.avg_curves(), [time] + ex)
        exp = by(rows, [time] + ex)
        t.eq(set(avg), set(exp), "the average curves have other points")
        for k, rs in exp.items():
            for m in metrics:
                v = [r[m] for r in rs]
                t.close(avg[k][m + "_mean"], fs(v) / len(v), "an average curve differs from the mean of the runs", rtol=1e-9, atol=1e-9, at=k)
                t.close(avg[k][m + "_std"], sd1(v), "an average curve's deviation differs from the runs'", rtol=1e-7, atol=1e-9, at=k)
            t.event("groups")
        for m in metrics:
            for meas, f in ((A.auc, lambda rs: area(rs, time, m)), (A.max_value, lambda rs: max(r[m] for r in rs))):
                name = "auc" if meas is A.auc else "max_value"
                got = keyed(an.scalar_metrics_per_run(m, scalar_measure=meas) if name != "auc" or rng.random() < .5 else an.scalar_metrics_per_run(metric_col=m), [run] + ex)
                per = {k: f(rs) for k, rs in by(rows, [run] + ex).items()}
                t.eq(set(got), set(per), "the runs of a scalar measure are not the runs of the data")
                for k, v in per.items():
                    t.close(got[k][name], v, "a run's scalar measure is wrong", rtol=1e-9, atol=1e-9, measure=name, run=k)
                got = keyed(an.avg_scalar_metrics(m, scalar_measure=meas), ex)
                grp = {}
                for k, v in per.items():
                    grp.setdefault(k[1:], []).append(v)
                t.eq(set(got), set(grp), "the experiments of a scalar measure are not the experiments of the data")
                for k, v in grp.items():
                    t.close(got[k][name + "_mean"], fs(v) / len(v), "an experiment's average scalar measure is wrong", rtol=1e-9, atol=1e-9, measure=name)
                    t.close(got[k][name + "_std"], sd1(v), "an experiment's deviation of a scalar measure is wrong", rtol=1e-7, atol=1e-9, measure=name)
                    t.event("groups")
    t.check(df.equals(d0) and list(df.columns) == list(d0.columns), "the analysis changes its data")
    for kw in (dict(time_col="nope"), dict(run_col="nope"), dict(experiment_cols=["nope"]), dict(metric_cols=["nope"]), dict(experiment_cols=[])):
        full = dict(time_col=time, metric_cols=metrics, experiment_cols=ex, run_col=run)
        full.update(kw)
        t.raises(Exception, lambda: A.CurveAnalyzer(df, **full), "missing columns are accepted", missing=str(kw))
    t.sig(str(rows[:2]), len(rows))
    t.sample(dict(rows=len(rows), experiments=ex, metrics=metrics))


@CHECK.section(quick=24, thorough=200)
def command_line(t):
    """The analyze command: files in, averaged tables out."""
    from click.testing import CliRunner
    from leap_ec.contrib import analysis as A
    rng = t.rng
    here = os.getcwd()
    rows, files = [], []
    metrics = ["bsf", "mean_fitness", "std_fitness", "min_fitness", "max_fitness"]
    try:
        os.chdir(t.tmp)
        for i in range(rng.randint(1, 3)):
            mine = []
            for j in range(rng.randint(1, 3)):
                for s in range(rng.randint(1, 5)):
                    r = dict(job=i * 10 + j, step=s, experiment="E%d" % (i % 2))
                    for m in metrics:
                        r[m] = round(rng.gauss(0, 5), 6)
                    mine.append(r)
            f = "f%d.csv" % i
            with open(f, "w") as fh:
                if rng.random() < .5:
                    fh.write("# a comment\n")
                cols = list(mine[0])
                fh.write(", ".join(cols) + "\n")
                for r in mine:
                    fh.write(", ".join(str(r[c]) for c in cols) + "\n")
            files.append(f)
            rows += mine
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cat = A.cat_csv_files(files)
            t.eq(sorted(map(str, cat.to_dict("records"))), sorted(map(str, pd.DataFrame(rows).to_dict("records"))), "combining files changes the data")
            res = CliRunner().invoke(A.cli, ["analyze"] + files)
        t.check(res.exit_code == 0, "the analyze command fails on legal files", error=str(res.exception))
        got = keyed(pd.read_csv("avg_curves_by_experiment.csv"), ["step", "experiment"])
        exp = by(rows, ["step", "experiment"])
        t.eq(set(got), set(exp), "the analyze command reports other points")
        for k, rs in exp.items():
            t.close(got[k]["bsf_mean"], fs(r["bsf"] for r in rs) / len(rs), "the analyze command reports a wrong average", rtol=1e-9, atol=1e-9)
        got = keyed(pd.read_csv("scalars_by_run.csv"), ["job", "experiment"])
        for k, rs in by(rows, ["job", "experiment"]).items():
            t.close(got[k]["auc"], area(rs, "step", "bsf"), "the analyze command reports a wrong area under the curve", rtol=1e-9, atol=1e-9)
        got = keyed(pd.read_csv("avg_scalars_by_experiment.csv"), ["experiment"])
        for k, rs in by(rows, ["experiment"]).items():
            v = [area(q, "step", "bsf") for q in by(rs, ["job"]).values()]
            t.close(got[k]["auc_mean"], fs(v) / len(v), "the analyze command reports a wrong average area under the curve", rtol=1e-9, atol=1e-9)
    finally:
        os.chdir(here)
    t.sig(str(rows[:3]))


# ------------------------------------------------------------------ repertoires
@CHECK.section(quick=800, thorough=10000)
def repertoire(t):
    rng = t.rng
    d = rng.randint(1, 4)
    seen = []

    def algorithm(problem, initialize, steps=3, **kw):
        gs = [initialize() for _ in range(6)]
        seen.append((problem, [freeze(g) for g in gs], dict(kw, steps=steps)))
        best = None
        for s in range(steps):           # yields the best so far
            cand = Individual(np.array([rng.random() for _ in range(d)]), problem=None)
            if best is None or cand.genome.sum() > best.genome.sum():
                best = cand
            log.append((problem, s, best.genome.copy()))
            yield s, best
    log = []
    made = []

    def base():
        made.append(t.np.random(d))
        return made[-1]
    rep = PopulationSeedingRepertoire(base, algorithm) if rng.random() < .5 else PopulationSeedingRepertoire(initialize=base, algorithm=algorithm)
    bests = []
    for _ in range(rng.randint(1, 2)):
        probs = ["p%d" % i for i in range(rng.randint(0, 4))]
        kws = None if rng.random() < .5 else [dict(steps=rng.randint(1, 5), tag=i) for i in range(len(probs))]
        seen.clear(), log.clear()
        rep.build_repertoire(probs, kws)
        t.eq([s[0] for s in seen], probs, "the problems are not trained on in order, once each")
        if kws is not None:
            t.eq([s[2] for s in seen], kws, "a problem does not get its own parameters")
        for pr in probs:
            bests.append(freeze([g for p_, s, g in log if p_ == pr][-1]))
    t.eq([freeze(np.asarray(g)) for g in rep.repertoire], bests, "the repertoire is not the best solution of every problem, in order")
    for _ in range(2):
        seen.clear()
        made.clear()
        out = list(rep.apply("target", steps=2, extra=1))
        t.check(len(out) == 2 and len(seen) == 1 and seen[0][0] == "target" and seen[0][2] == dict(steps=2, extra=1), "the algorithm is not applied to the problem")
        gs = seen[0][1]
        t.eq(gs[:len(bests)], bests[:6], "the initial population does not start with the repertoire")
        t.eq(gs[len(bests):], [freeze(g) for g in made], "the initial population is not filled up by the initialiser")
    t.eq([freeze(np.asarray(g)) for g in rep.repertoire], bests, "applying the repertoire changes it")
    path = os.path.join(t.tmp, "r.csv")
    rep.export(path)
    back = PopulationSeedingRepertoire(base, algorithm, repfile=path)
    t.eq([[float(v) for v in g] for g in back.repertoire], [[float(v) for v in g] for g in rep.repertoire], "a saved repertoire comes back different")
    t.sig(d, len(bests), str(bests[:1]))
