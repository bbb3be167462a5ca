"""C18: NSGA-II survivors are the best by rank and crowding, generation after generation."""
import collections
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib.mo import check_distances
from leap_ec import ops
from leap_ec.algorithm import stop_at_generation
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.multiobjective import ops as mops
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective.problems import (MultiObjectiveProblem, SCHProblem, ZDT1Problem, ZDT3Problem, ZDT5Problem)
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.representation import Representation
from leap_ec.global_vars import context as GLOBAL

CHECK = Check("C18", boost=4, rule="real NSGA-II runs over synthetic grids (many ties) and benchmark problems with both ranking methods, random sizes, directions, "
              "stop conditions and contexts; taps at both ends of the pipeline record parents and offspring of every generation and the survivors "
              "are judged against independently computed layers and distances; distinct by (problem, sizes, ranker, layer profile)")


class Grid(MultiObjectiveProblem):
    def __init__(self, dirs, k, seed):
        super().__init__(maximize=dirs)
        self.dtype = [float, float, np.uint16, int][seed % 4]
        self.dirs, self.k, self.seed, self.calls = tuple(dirs), k, seed, 0

    def evaluate(self, phenome, *args, **kwargs):
        self.calls += 1
        p = np.asarray(phenome, float)
        return np.array([float(int(abs(np.sum(p * (j + 2) ** 1.5) * 1e3) + self.seed * j) % self.k) for j in range(len(self.dirs))]).astype(self.dtype)


def counted(cls, *args):
    class Counted(cls):
        calls = 0

        def evaluate(self, phenome, *a, **k):
            type(self).calls += 1
            return super().evaluate(phenome, *a, **k)
    p = Counted(*args)
    p.dirs = (False, False)
    return p


class Scalar(Individual):
    pass


@CHECK.section(quick=1000, thorough=9000, need={"generations": 800, "exact_distances": 3000, "split_fronts": 200})
def runs(t):
    rng = t.rng
    kind = rng.choice(["grid", "grid", "grid", "fine", "zdt1", "zdt3", "zdt5", "sch"])
    if kind in ("grid", "fine"):
        m = rng.choice([1, 2, 2, 3, 4])
        problem = Grid(tuple(rng.random() < .5 for _ in range(m)), rng.randint(2, 6) if kind == "grid" else 10 ** 6, rng.randint(1, 99))
        init, mut = (lambda: np.array([rng.uniform(-3, 3) for _ in range(3)])), mutate_gaussian(std=.5, expected_num_mutations=1)
    elif kind == "sch":
        problem = counted(SCHProblem)
        init, mut = (lambda: np.array([rng.uniform(-3, 3)])), mutate_gaussian(std=1.0, expected_num_mutations=1)
    elif kind == "zdt5":
        problem = counted(ZDT5Problem, 3)
        init, mut = (lambda: np.array([rng.randint(0, 1) for _ in range(40)])), mutate_bitflip(expected_num_mutations=2)
    else:
        problem = counted(ZDT1Problem if kind == "zdt1" else ZDT3Problem, 4)
        init, mut = (lambda: np.array([rng.random() for _ in range(4)])), mutate_gaussian(std=.2, expected_num_mutations=2, bounds=(0, 1))
    dirs = problem.dirs
    ps = some_size(rng, 1, 10, 50)
    pool = ps if rng.random() < .6 else rng.randint(1, 12)
    start = rng.choice([None, 0, 3])
    s0 = start or 0
    maxg = s0 + some_size(rng, 0, 4, 30)
    own = rng.random() < .5
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own else GLOBAL
    cls = rng.choice([Individual, RobustIndividual, DistributedIndividual])
    starts, ends, gens, stops, created = [], [], [], [], []

    def initialize():
        created.append(1)
        return init()

    def tap_start(pop):
        judge_last(pop)
        starts.append(list(pop))
        gens.append(ctx["leap"]["generation"])
        return pop

    def tap_end(pop):
        ends.append(list(pop))
        t.check(ctx["leap"]["generation"] == gens[-1], "the generation number changes inside a generation")
        return pop

    def judge_last(nxt):
        if not ends or len(ends) != len(starts):
            return
        par, off = starts[-1], ends[-1]
        both = par + off
        t.eq(len(off), pool, "the pipeline did not deliver the pool size", **d)
        t.eq(len(nxt), len(par), "the survivors do not number exactly the parents", generation=len(starts), **d)
        ids = collections.Counter(map(id, both))
        have = collections.Counter(map(id, nxt))
        t.check(all(have[k] <= ids[k] for k in have), "a survivor is neither parent nor offspring (or was duplicated)", **d)
        layers = pareto_layers([i.fitness for i in both], dirs)
        rank = dict(zip(map(id, both), layers))
        surv = sorted(rank[id(i)] for i in nxt)
        t.check(surv == sorted(layers)[:len(par)], "somebody left out has a smaller Pareto rank than a survivor", survivors=surv, layers=sorted(layers), **d)
        for i in both:
            t.check(i.rank == rank[id(i)], "an individual carries a wrong rank", got=i.rank, expected=int(rank[id(i)]), **d)
        if len(ids) < len(both):                # somebody is parent and offspring: distances are not judged
            t.event("repeated")
            t.event("generations")
            return
        for r in set(layers):
            check_distances(t, [i for i in both if rank[id(i)] == r], dirs, d)
        last = surv[-1]
        s_ids = set(map(id, nxt))
        inn = [i.distance for i in both if rank[id(i)] == last and id(i) in s_ids]
        out = [i.distance for i in both if rank[id(i)] == last and id(i) not in s_ids]
        if out:
            t.check(max(out) <= min(inn) + 1e-12, "within the last admitted rank somebody left out has a larger crowding distance than a survivor",
                    admitted=inn, left_out=out, **d)
            t.event("split_fronts")
        profile.append(tuple(collections.Counter(layers).values()))
        t.event("generations")
    profile = []
    xover = [ops.UniformCrossover(p_swap=.3)] if rng.random() < .5 else []
    breed = [ops.clone, mut] + xover if rng.random() < .93 else []      # without cloning the offspring are the parents themselves
    pipeline = [tap_start, rng.choice([ops.random_selection, ops.tournament_selection, ops.cyclic_selection])] + breed + \
        rng.choice([[ops.evaluate, ops.pool(size=pool)], [ops.pool(size=pool), ops.grouped_evaluate]]) + [tap_end]
    kw = {}
    rname = rng.choice(["default", "rank_ordinal", "fast"])
    if rname != "default":
        kw["rank_func"] = mops.fast_nondominated_sort if rname == "fast" else mops.rank_ordinal_sort
    stop_after = rng.choice([None, None, rng.randint(0, 4)])

    def stop(pop):
        stops.append((list(pop), ctx["leap"]["generation"]))
        return stop_after is not None and len(stops) > stop_after
    if stop_after is not None:
        kw["stop"] = stop
    if start is not None:
        kw["start_generation"] = start
    if own:
        kw["context"] = ctx
    inits = []
    n0 = ps
    if rng.random() < .4:
        def ie(pop):
            inits.append(len(pop))
            evaluated.extend((copies(pop) if elsewhere else list(pop))[:keep])
            return ops.grouped_evaluate(list(evaluated))
        # a user may start from some of them only
        elsewhere, evaluated, keep = rng.random() < .5, [], ps if rng.random() < .7 else rng.randint(1, ps)
        n0 = keep
        kw["init_evaluate"] = ie
    d = dict(problem=kind, dirs=dirs, pop=ps, pool=pool, ranker=rname, start=start, maxg=maxg, stop_after=stop_after)
    final = generalized_nsga_2(maxg, ps, problem, Representation(initialize=initialize, individual_cls=cls), pipeline, **kw)
    judge_last(final)
    G = len(starts)
    full = maxg - s0
    t.eq(G, full if stop_after is None else min(full, stop_after), "a wrong number of generations", **d)
    t.eq(len(created), ps, "a wrong number of initial individuals", **d)
    t.eq(problem.calls, n0 + G * pool, "a wrong number of evaluations", **d)
    t.eq(gens, list(range(s0, s0 + G)), "operators did not see the current generation number", **d)
    t.eq(ctx["leap"]["generation"], s0 + G, "the context does not hold the generation reached", **d)
    if "init_evaluate" in kw:
        t.eq(inits, [ps], "the initial population was not evaluated as asked", **d)
        p0 = starts[0] if starts else final
        t.check(len(p0) == len(evaluated) and all(a is b for a, b in zip(p0, evaluated)), "the run does not start from the evaluated initial population", **d)
    if stop_after is not None:
        t.eq(len(stops), G + 1 if stop_after < full else G, "the stop condition was not consulted before every generation", **d)
        for g in range(G):
            t.check(all(a is b for a, b in zip(stops[g][0], starts[g])) and stops[g][1] == s0 + g, "the stop condition did not see the current parents", **d)
    if own:
        t.check("generation" not in GLOBAL["leap"], "the run wrote into the global context")
    t.eq(len(final), n0, "the result has a wrong size", **d)
    t.sig(kind, dirs, ps, pool, rname, tuple(profile))
    t.sample(dict(d, layers_per_generation=profile))


@CHECK.section(quick=200, thorough=3000, need={"pairs": 150})
def interchangeable(t):
    """The same seed with either ranking method keeps survivors of the same quality."""
    import random
    rng = t.rng
    m = rng.choice([2, 3])
    dirs = tuple(rng.random() < .5 for _ in range(m))
    ps = some_size(rng, 2, 8, 40)
    k = rng.choice([3, 6])
    res = []
    seed = rng.randint(0, 10 ** 6)
    for rf in (mops.rank_ordinal_sort, mops.fast_nondominated_sort):
        problem = Grid(dirs, k, 7)
        np.random.seed(seed)
        random.seed(seed)
        r0 = random.Random(seed)
        final = generalized_nsga_2(1, ps, problem, Representation(initialize=lambda: np.array([r0.uniform(-3, 3) for _ in range(3)])),
                                   [ops.naive_cyclic_selection, ops.clone, mutate_gaussian(std=.5, expected_num_mutations=1), ops.evaluate, ops.pool(size=ps)],
                                   rank_func=rf)
        res.append(sorted(int(i.rank) for i in final))
    t.eq(res[0], res[1], "the two ranking methods keep survivors of different ranks", dirs=dirs, pop=ps)
    t.event("pairs")
    t.sig(dirs, ps, k, tuple(res[0]))
