"""C11: a generational run honours its budget, size, elitism and stop condition."""
import collections
import io
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib.kits import BinaryKit, RealKit, IntKit, SegmentedKit, ListKit, CGPKit
from leap_ec import ops, probe, util
from leap_ec.algorithm import generational_ea, random_search, stop_at_generation
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.representation import Representation
from leap_ec.global_vars import context as GLOBAL
from toolz import pipe

CHECK = Check("C11", boost=4, rule="real runs of the generational algorithm and of random search over random representations, pipelines, directions, "
              "fitness ties, failing evaluations, elite counts, start generations and stop conditions; taps at both ends of the "
              "pipeline, the problem, the initialiser and the stop condition record the run, which is then judged generation by "
              "generation; distinct by (configuration, run length)")


class Counting(RecordingProblem):
    pass


def fitness_fn(rng):
    m = rng.choice([2, 5, 50, 10 ** 6])
    fail = rng.choice([0, 0, 0, 7, 3])

    def f(ph):
        h = int(hash_fitness(ph) * 7)
        if fail and (h // 11) % fail == 0:
            raise RuntimeError("evaluation failed")
        return float(h % m)
    return f, fail


def selectors(rng):
    return rng.choice([("tournament", lambda: ops.tournament_selection), ("tournament3", lambda: ops.tournament_selection(k=3)),
                       ("random", lambda: ops.random_selection), ("cyclic", lambda: ops.cyclic_selection),
                       ("naive", lambda: ops.naive_cyclic_selection), ("worst", lambda: ops.tournament_selection(select_worst=True))])


def key_of(problem):
    return lambda i: rank_key(i.fitness, problem.maximize)


@CHECK.section(quick=1200, thorough=20000, need={"generations": 1000, "stopped_early": 100, "elites_kept": 100})
def generational(t):
    rng = t.rng
    kit = rng.choice([BinaryKit, RealKit, IntKit, SegmentedKit, ListKit, CGPKit])(rng)
    f_, fail = fitness_fn(rng)
    evalgens = []

    def f(ph):
        evalgens.append(ctx["leap"].get("generation"))
        return f_(ph)
    problem = Counting(f, rng.random() < .5)
    cls = rng.choice([RobustIndividual, DistributedIndividual]) if fail else rng.choice([Individual, RobustIndividual, DistributedIndividual])
    key = key_of(problem)
    pop_size = some_size(rng, 1, 8, 60)
    pool = pop_size if rng.random() < .6 else some_size(rng, 1, 9, 60)
    k = rng.choice([None, 0, 1, 1, 2, 3, pop_size, pop_size + 2])
    start = rng.choice([None, 0, 0, 2, 5])
    s0 = start or 0
    maxg = s0 + some_size(rng, -1 if s0 else 0, 6, 60)
    own = rng.random() < .5
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own else GLOBAL
    created = []

    def init():
        g = kit.genome()
        created.append(freeze(g))
        return g
    rep = Representation(initialize=init, individual_cls=cls)
    starts, ends, gens, stops = [], [], [], []

    def tap_start(pop):
        starts.append((list(pop), snap_pop(pop)))
        gens.append(ctx["leap"]["generation"])
        return pop

    def tap_end(pop):
        ends.append((list(pop), snap_pop(pop)))
        t.check(ctx["leap"]["generation"] == gens[-1], "the generation number changes inside a generation")
        return pop
    sname, sel = selectors(rng)
    muts = kit.unary()
    middle = [ops.clone]
    names = [sname]
    if muts:
        for _ in range(rng.randint(1, 2)):
            n, mk = rng.choice(muts)
            names.append(n)
            middle.append(mk())
    xs = [x for x in kit.crossovers() if kit.persistent_length]
    if xs and rng.random() < .5:
        n, mk = rng.choice(xs)
        names.append(n)
        middle.append(mk())
    if rng.random() < .5:
        tail = [ops.evaluate, ops.pool(size=pool)]
    elif fail:
        tail = [ops.pool(size=pool), cls.evaluate_population]
    else:
        tail = [ops.pool(size=pool), ops.grouped_evaluate]
    stream = io.StringIO()
    bsf = probe.BestSoFarProbe(stream=stream, context=ctx)
    stats = probe.FitnessStatsCSVProbe(stream=io.StringIO(), context=ctx)
    pipeline = [tap_start, sel()] + middle + tail + [bsf, stats, tap_end]
    stop_kind = rng.choice(["none", "none", "call", "fitness", "gen"])
    calls_until = rng.randint(0, 6)
    stopgen = s0 + rng.randint(0, 6)
    thresh = float(rng.choice([0, 1, 20, 10 ** 5]))

    def stop(pop):
        t.check(isinstance(pop, list), "the stop condition was not given the population")
        stops.append((list(pop), snap_pop(pop), ctx["leap"]["generation"]))
        if stop_kind == "call":
            r = len(stops) > calls_until
        elif stop_kind == "fitness":
            b = max(pop, key=key)
            r = not isnan(b.fitness) and (b.fitness >= thresh if problem.maximize else b.fitness <= thresh)
        elif stop_kind == "gen":
            r = stopper(pop)
        else:
            r = False
        stops[-1] += (bool(r),)
        return r
    stopper = stop_at_generation(stopgen, context=ctx) if own or rng.random() < .5 else stop_at_generation(stopgen)
    kw = {}
    if stop_kind != "none" or rng.random() < .5:
        kw["stop"] = stop
    if k is not None:
        kw["k_elites"] = k
    if start is not None:
        kw["start_generation"] = start
    if own:
        kw["context"] = ctx
    inits = []
    if rng.random() < .5 or fail:
        def init_evaluate(pop):
            inits.append(list(pop))
            if elsewhere:
                pop = copies(pop)
            evaluated.extend(pop)
            return cls.evaluate_population(pop)
        elsewhere, evaluated = rng.random() < .5, []
        kw["init_evaluate"] = init_evaluate
    ctx["leap"]["generation"] = rng.choice([7, -3])        # left over by an earlier run
    d = dict(kit=kit.name, cls=cls.__name__, maximize=problem.maximize, pop_size=pop_size, pool=pool, k=k, start=start, maxg=maxg, fail=fail,
             pipeline=names, stop=stop_kind, own=own)
    problem.calls.clear()
    final = generational_ea(max_generations=maxg, pop_size=pop_size, problem=problem, representation=rep, pipeline=pipeline, **kw)
    G = len(starts)
    # budget
    t.eq(len(created), pop_size, "a wrong number of initial individuals was created", **d)
    if "init_evaluate" in kw:
        t.check(len(inits) == 1 and len(inits[0]) == pop_size, "initial population not evaluated as asked", **d)
        p0 = starts[0][0] if starts else final
        t.check(len(p0) == len(evaluated) and all(a is b for a, b in zip(p0, evaluated)), "the run does not start from the evaluated initial population", **d)
    t.eq(len(problem.calls), pop_size + G * pool, "a wrong number of evaluations", generations=G, **d)
    t.eq(evalgens, [s0] * pop_size + [g for g in range(s0, s0 + G) for _ in range(pool)],
         "evaluations did not see the current generation number (the start generation for the initial population)", **d)
    t.eq(gens, list(range(s0, s0 + G)), "operators did not see the current generation number", **d)
    t.eq(ctx["leap"]["generation"], s0 + G, "the context does not hold the generation reached", **d)
    if own:
        t.check("generation" not in GLOBAL["leap"], "the run wrote into the global context although it was given its own", **d)
    full = max(0, maxg - s0)
    if stops or stop_kind != "none":
        early = bool(stops) and stops[-1][3]
        if early:
            t.eq(len(stops), G + 1, "the stop condition was not consulted before every generation", **d)
            t.check(G < full, "the stop condition ended the run too late", **d)
            t.event("stopped_early")
        else:
            t.eq(G, full, "the run did not execute the requested number of generations", **d)
            t.check(len(stops) in (G, G + 1), "the stop condition was not consulted once before every generation", calls=len(stops), **d)
        t.check(not any(s[3] for s in stops[:-1]), "the run went on after the stop condition said stop", **d)
        if stop_kind == "gen":
            t.eq(G, min(full, max(0, stopgen - s0)), "stop_at_generation stopped at the wrong generation", stopgen=stopgen, **d)
        if stop_kind == "call":
            t.eq(G, min(full, calls_until), "the stop condition was not consulted once before every generation", **d)
        for g, s in enumerate(stops[:G]):
            t.check(s[2] == s0 + g, "the stop condition did not see the current generation number", **d)
            t.check(s[1] == starts[g][1], "the stop condition was not given the current parents", **d)
    else:
        t.eq(G, full, "the run did not execute the requested number of generations", **d)
    # populations
    pops = [s[0] for s in starts] + [final]
    snaps = [s[1] for s in starts] + [snap_pop(final)]
    t.eq(len(pops[0]), pop_size, "initial population size", **d)
    t.eq(sorted(map(repr, (freeze(i.genome) for i in pops[0]))), sorted(map(repr, created)), "the initial population is not the one created", **d)
    kk = 1 if k is None else k
    for g in range(G):
        par, off, nxt = pops[g], ends[g][0], pops[g + 1]
        t.eq(len(off), pool, "the pipeline did not deliver the pool size", **d)
        t.eq(len(nxt), pool, "the population has a wrong size after a generation", generation=g, **d)
        t.check(all(s.fitness is not None for s in nxt), "an unevaluated individual survived", **d)
        allowed = collections.Counter(map(id, off))
        for i in par:
            allowed[id(i)] += 1
        have = collections.Counter(map(id, nxt))
        t.check(all(have[i] <= allowed[i] for i in have), "a survivor is neither offspring nor parent (or was duplicated)", generation=g, **d)
        from_par = [i for i in nxt if id(i) in set(map(id, par)) and id(i) not in set(map(id, off))]
        t.check(len(from_par) <= kk, "more parents survived than there are elites", generation=g, survivors=len(from_par), **d)
        elites = sorted((key(i) for i in par), reverse=True)[:kk]
        pool_keys = sorted([key(i) for i in off] + elites, reverse=True)[:pool]
        t.check(sorted((key(i) for i in nxt), reverse=True) == pool_keys, "survivors are not the best of the offspring and the k best parents",
                generation=g, parents=[i.fitness for i in par], offspring=[i.fitness for i in off], survivors=[i.fitness for i in nxt], **d)
        if kk >= 1:
            t.check(max(map(key, nxt)) >= max(map(key, par)), "the best fitness got worse although there is an elite", generation=g, **d)
        if from_par:
            t.event("elites_kept", len(from_par))
        # parents are not altered by breeding (only elites live on, unchanged)
        t.check(snap_pop(par) == snaps[g], "the pipeline changed its parents", generation=g, **d)
        t.event("generations")
    rows = [r.split(",") for r in stream.getvalue().split()[1:]]
    t.eq([int(r[0]) for r in rows], gens, "the probe did not see every generation once", **d)
    t.sig(kit.name, cls.__name__, problem.maximize, pop_size, pool, k, start, maxg, tuple(names), stop_kind, G, fail)
    t.sample(dict(d, generations=G, evaluations=len(problem.calls), best=[repr(max(p, key=key).fitness) for p in pops]))


@CHECK.section(quick=800, thorough=10000, need={"steps": 3000})
def randomsearch(t):
    rng = t.rng
    kit = rng.choice([BinaryKit, RealKit, IntKit, SegmentedKit, ListKit])(rng)
    f, _ = fitness_fn(rng)
    problem = RecordingProblem(hash_fitness, rng.random() < .5)
    cls = rng.choice([Individual, RobustIndividual, DistributedIndividual])
    rep = Representation(initialize=kit.genome, individual_cls=cls)
    own = rng.random() < .5
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own else GLOBAL
    n = some_size(rng, 1, 12, 150)
    mode = rng.choice(["fresh", "walk", "climb"])
    seen, ins = [], []

    def tap(pop):
        ins.append(list(pop))
        seen.append(ctx["leap"]["generation"])
        return pop
    outs = []

    def end(pop):
        outs.append(list(pop))
        return pop
    if mode == "fresh":
        def redraw(pop):
            i = rep.create_individual(problem)
            i.evaluate()
            return [i]
        pipeline = [tap, redraw, end]
    else:
        muts = kit.unary()
        mid = [ops.clone] + ([rng.choice(muts)[1]()] if muts else [])
        pipeline = [tap, ops.random_selection] + mid + [ops.evaluate, ops.pool(size=1), end]
    kw = dict(context=ctx) if own else {}
    tr = random_search(n, problem, rep, pipeline, **kw)
    d = dict(evaluations=n, mode=mode, kit=kit.name, cls=cls.__name__)
    t.check(isinstance(tr, list) and len(tr) == n, "random search returned a wrong number of individuals", got=len(tr), **d)
    t.eq(len(problem.calls), n, "random search spent a wrong number of evaluations", **d)
    t.check(all(type(i) is cls for i in tr), "wrong individual class", **d)
    t.eq([freeze(i.genome) for i in tr], list(problem.calls), "random search does not return its individuals in the order of evaluation", **d)
    t.check(all(i.fitness == hash_fitness(i.genome) for i in tr), "an individual carries a wrong fitness", **d)
    t.check(len({id(i) for i in tr}) == n, "an individual was returned twice", **d)
    t.check([[id(i) for i in x] for x in ins] == [[id(i)] for i in tr[:-1]], "a step did not start from the previous individual", **d)
    t.check([[id(i) for i in x] for x in outs] == [[id(i)] for i in tr[1:]], "the trajectory is not what the pipeline produced", **d)
    t.eq(seen, list(range(1, n)), "the step counter in the context is wrong", **d)
    if own:
        t.check("generation" not in GLOBAL["leap"], "random search wrote into the global context although it was given its own")
    t.event("steps", n)
    t.sig(kit.name, cls.__name__, n, mode, own)


@CHECK.section(quick=300, thorough=3000, need={"decisions": 2000})
def stopping(t):
    """stop_at_generation against a live counter."""
    rng = t.rng
    own = rng.random() < .5
    ctx = {"leap": {}} if own else GLOBAL
    limit = rng.randint(0, 8)
    g0 = rng.randint(0, 4)
    kw = dict(context=ctx) if own else {}
    stop = stop_at_generation(limit, **kw)
    gen = util.inc_generation(g0, **kw)
    for g in range(g0, g0 + 10):
        t.check(bool(stop([])) == (g >= limit), "stop_at_generation decides wrongly", generation=g, limit=limit)
        t.event("decisions")
        gen()
    t.raises(AssertionError, lambda: stop_at_generation(-1, **kw), "a negative limit was accepted")
    t.sig(own, limit, g0)
