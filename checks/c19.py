"""C19: incremental layer updates keep the same layers as sorting from scratch."""
import collections
import math
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib.mo import vectors, individuals, check_distances
from vlib import cluster
from leap_ec import ops
from leap_ec.individual import RobustIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.multiobjective.asynchronous import ENLUInserter, steady_state_nsga_2
from leap_ec.representation import Representation
from leap_ec.global_vars import context as GLOBAL

CHECK = Check("C19", boost=2, rule="random insertion histories (grids, duplicates, fronts, chains; 1-4 objectives, mixed directions, every population size) "
              "through the incremental inserter, and real parallel steady-state runs; after every insertion ranks, distances and the "
              "member that left are compared with sorting the whole population from scratch; distinct by (directions, size, layer profile)")


def failed(i):
    return np.ndim(i.fitness) == 0 and isnan(i.fitness)


def judge(t, prev, new, now, size, dirs, d):
    """prev, new -> now; individuals whose evaluation failed only ever fill room nobody else needs."""
    t.check(len(now) <= size, "the population exceeds its size", got=len(now), **d)
    all_ = prev + [new]
    bad = [i for i in all_ if failed(i)]
    if bad:
        kept = [i for i in now if failed(i)]
        t.check(len(set(map(id, kept))) == len(kept) and set(map(id, kept)) <= set(map(id, bad)), "a failed individual is in the population twice, or a stranger is", **d)
        good = [i for i in all_ if not failed(i)]
        t.eq(len(kept), min(len(bad), max(0, size - len(good))), "failed individuals do not fill exactly the room that is left", **d)
        t.event("failed_kept" if kept else "failed_dropped")
        now = [i for i in now if not failed(i)]
        prev = [i for i in prev if not failed(i)]
        if failed(new):
            t.check(set(map(id, now)) == set(map(id, prev)), "a failed individual changed who else is in the population", **d)
            t.event("failed_insertions")
            if now:
                lay = pareto_layers([i.fitness for i in now], dirs)
                t.check([int(i.rank) for i in now] == list(lay), "a failed individual changed the ranks", **d)
                return tuple(collections.Counter(map(int, lay)).values())
            return ()
    both = prev + [new]
    t.check(len(now) <= size, "the population exceeds its size", got=len(now), **d)
    ids = set(map(id, now))
    t.check(len(ids) == len(now), "an individual is in the population twice", **d)
    gone = [i for i in both if id(i) not in ids]
    t.check(ids <= set(map(id, both)), "a stranger is in the population", **d)
    if len(both) <= size:
        t.check(not gone, "somebody left although there was room", **d)
    else:
        t.eq(len(gone), 1, "not exactly one member left a full population", **d)
        layers = pareto_layers([i.fitness for i in both], dirs)
        worst = layers.max()
        lay = [i for i, r in zip(both, layers) if r == worst]
        t.check(any(i is gone[0] for i in lay), "the member that left is not in the worst layer", fitnesses=[i.fitness for i in both],
                left=gone[0].fitness, layers=list(layers), **d)
        fits = [[float(x) for x in i.fitness] for i in lay]
        k = [j for j, i in enumerate(lay) if i is gone[0]][0]
        if tie_free(fits):
            dist = crowding(fits)
            t.check(dist[k] <= dist.min() + 1e-9, "the member that left does not have the smallest crowding distance in the worst layer",
                    distances=dist, left=fits[k], layer=fits, **d)
            t.event("exact_departures")
        else:
            F = np.array(fits)
            nc = [j for j in range(F.shape[1]) if F[:, j].max() != F[:, j].min()]
            def unique_extreme(r):
                return any((F[r, j] == F[:, j].max() and (F[:, j] == F[r, j]).sum() == 1) or (F[r, j] == F[:, j].min() and (F[:, j] == F[r, j]).sum() == 1) for j in nc)
            def inner(r):
                return all(F[:, j].min() < F[r, j] < F[:, j].max() for j in nc)
            t.check(not (unique_extreme(k) and any(inner(r) for r in range(len(fits)))),
                    "an extreme member left although an inner one had a smaller distance", left=fits[k], layer=fits, **d)
            t.event("tied_departures")
    lay = pareto_layers([i.fitness for i in now], dirs)
    got = [int(i.rank) for i in now]
    t.check(got == list(lay), "ranks differ from sorting the whole population from scratch", got=got, expected=list(lay), fitnesses=[i.fitness for i in now], **d)
    for r in set(lay):
        check_distances(t, [i for i, q in zip(now, lay) if q == r], dirs, d)
    t.event("insertions")
    return tuple(collections.Counter(map(int, lay)).values())


@CHECK.section(quick=1200, thorough=9000, need={"insertions": 5000, "exact_departures": 800, "tied_departures": 200, "exact_distances": 5000, "failed_insertions": 800, "failed_kept": 500, "failed_dropped": 300})
def histories(t):
    rng = t.rng
    m = rng.choice([1, 2, 2, 2, 3, 4])
    dirs = tuple(rng.random() < .5 for _ in range(m))
    problem = VecProblem(dirs)
    size = rng.choice([1, 2, 3, 5, 8, 12]) if rng.random() < .99 else rng.randint(13, 40)
    n = rng.randint(1, 2 * size + 10)
    style, v = vectors(rng, n, m, tie_free_only=rng.random() < .4)
    order = rng.choice(["random", "up", "down"])
    if order != "random":
        v.sort(key=lambda f: sum(x if mx else -x for x, mx in zip(f, dirs)), reverse=order == "down")
    ins = ENLUInserter()
    pop, profile = [], []
    d = dict(dirs=dirs, size=size, style=style, order=order)
    snaps, keep = {}, []
    bad = rng.choice([0, 0, .2, .5])
    dtype = rng.choice([float, float, float, np.float32, int, np.uint16, np.uint64]) if style in ("grid", "bits", "chain", "dup") else float
    for i in individuals(problem, v, rng.choice(INDIVIDUAL_CLASSES), dtype):
        if rng.random() < .2:
            i.rank, i.distance = rng.randint(1, 9), rng.choice([0, math.inf])       # stale, inherited by cloning
        snaps[id(i)] = snap(i)
        prev = list(pop)
        ins(i, pop, size)
        profile.append(judge(t, prev, i, list(pop), size, dirs, d))
        if rng.random() < bad:
            x = mkind(problem, math.nan, cls=RobustIndividual)
            x.is_viable = False
            snaps[id(x)] = snap(x)
            prev = list(pop)
            ins(x, pop, size)
            profile.append(judge(t, prev, x, list(pop), size, dirs, d))
            keep.append(x)
        t.check(all(snap(x) == snaps[id(x)] for x in pop), "insertion modified a genome or fitness", **d)
    t.sig(dirs, size, tuple(profile))
    t.sample(dict(d, layers=profile[-5:], insertions=n))


@CHECK.section(quick=30, thorough=400, serial=True, wall=200, need={"insertions": 120, "failures": 12})
def parallel(t):
    rng = t.rng
    client = cluster.client(*rng.choice([(1, 1), (1, 4), (3, 1)]))
    m = rng.choice([2, 2, 3])
    dirs = tuple(rng.random() < .5 for _ in range(m))
    rid = cluster.new_run("c19")
    beh = cluster.Behaviour(rid, rng.randint(0, 10 ** 9), delay=rng.choice([0, .002, .005]), levels=rng.choice([4, 10 ** 6]),
                            fail=rng.choice([0, 0, .2, .5]))
    problem = cluster.TraceMulti(beh, dirs)
    n0, size, births = rng.randint(1, 6), rng.randint(1, 6), rng.randint(0, 14)
    own = rng.random() < .5
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own else GLOBAL
    state = dict(prev=[], new=None)
    seen, profile = [], []
    d = dict(dirs=dirs, size=size, init=n0, births=births)

    def ep(ind):
        if beh.fails(ind.genome):
            t.check(failed(ind) and not ind.is_viable, "a failed individual carries a fitness", **d)
        else:
            t.check(np.array_equal(ind.fitness, problem.vector(ind.genome)), "an individual carries a wrong fitness", **d)
        state["new"] = ind
        seen.append(cluster.key_of(ind.genome))

    def pp(pop):
        profile.append(judge(t, state["prev"], state["new"], list(pop), size, dirs, d))
        state["prev"] = list(pop)

    def vary(stream):
        for i in stream:
            i.genome = np.array([rng.random(), rng.random()])
            i.fitness = None
            yield i
    kw = dict(context=ctx) if own else {}
    count = rng.random() < .5
    if count or rng.random() < .5:
        kw["count_nonviable"] = count
    with client.as_current():
        final = steady_state_nsga_2(client, max_births=births, init_pop_size=n0, pop_size=size, problem=problem,
                                    representation=Representation(initialize=lambda: np.array([rng.random(), rng.random()]), individual_cls=DistributedIndividual),
                                    offspring_pipeline=[rng.choice([ops.random_selection, ops.tournament_selection]), ops.clone, vary, ops.pool(size=1)],
                                    evaluated_probe=ep, pop_probe=pp, **kw)
    log = cluster.events(rid)
    cluster.drop(rid)
    ends = [e[1] for e in log if e[0] == "end"]
    lost = sum(beh.fails_key(e) for e in ends)
    net = len(ends) - n0 - (0 if count else lost)
    t.eq(net, births, "the run did not spend exactly its budget", count_nonviable=count, failures=lost, evaluations=len(ends), **d)
    t.eq(ctx["leap"]["distrib"]["non_viable"], lost, "failed evaluations are not counted", **d)
    t.event("failures", lost)
    t.check(sorted(ends) == sorted(seen), "not every individual was probed exactly once", **d)
    t.check(len(final) == len(state["prev"]) and all(a is b for a, b in zip(final, state["prev"])), "the result is not the final population", **d)
    t.eq(len(final), min(size, len(ends)), "the result has a wrong size", **d)
    t.eq(ctx["leap"]["births"], births, "the birth count in the context is wrong", **d)
    t.sig(dirs, size, n0, births, tuple(profile))
