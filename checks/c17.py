"""C17: non-dominated sorting and crowding distance are exact."""
import collections
import math
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib.mo import vectors, individuals, check_distances
from leap_ec.multiobjective import ops as mops
from toolz import pipe

CHECK = Check("C17", boost=3, rule="random fitness sets (grids, duplicates, fronts, chains, constants, huge ranges, signed zeros; 1-5 objectives with mixed "
              "directions, with and without parents) go through both ranking operators, crowding and sorting; ranks are compared with layers "
              "peeled by the definition, distances with the definition; distinct by (directions, layer pattern)")

RANKERS = [("rank_ordinal", mops.rank_ordinal_sort), ("fast", mops.fast_nondominated_sort)]


def setup(t, lo=1, hi=24, tie_free_only=False):
    rng = t.rng
    m = rng.choice([1, 2, 2, 2, 3, 3, 4, 5])
    dirs = tuple(rng.random() < .5 for _ in range(m))
    problem = VecProblem(dirs)
    style, v = vectors(rng, some_size(rng, lo, hi, 120, .01), m, tie_free_only=tie_free_only)
    dtype = rng.choice([float, float, float, np.float32, int, np.uint16, np.uint64]) if style in ("grid", "bits", "chain", "dup") else float
    cls = rng.choice(INDIVIDUAL_CLASSES)
    return rng, dirs, problem, style, v, dtype, cls


@CHECK.section(quick=2500, thorough=50000, need={"ranked": 20000, "repeated": 500})
def ranking(t):
    rng, dirs, problem, style, v, dtype, cls = setup(t)
    if dtype is float and rng.random() < .15:       # infinite penalties compare like other numbers
        v = [[rng.choice([math.inf, -math.inf]) if rng.random() < .2 else x for x in row] for row in v]
        t.event("infinite", len(v))
    cut = rng.randint(1, len(v))
    use_parents = cut < len(v) and rng.random() < .7
    res = []
    d = dict(dirs=dirs, fitnesses=v, style=style, offspring=cut if use_parents else len(v))
    # individuals may occur repeatedly, as offspring that were not cloned do
    again = [rng.randrange(len(v)) for _ in range(rng.randint(1, 4))] if rng.random() < .2 else []
    t.event("repeated", len(again))
    for name, op in RANKERS:
        inds = individuals(problem, v, cls, dtype)
        for k, j in enumerate(again):
            inds.insert((j * 7 + k) % (len(inds) + 1), inds[j])
        before = snap_pop(inds)
        for i in inds:
            if rng.random() < .3:
                i.rank = rng.randint(0, 9)          # stale rank of an earlier generation
        if use_parents:
            off, par = inds[:cut], inds[cut:]
            par0 = list(par)
            out = op(off, parents=par) if rng.random() < .5 else op(parents=par)(off)
            t.check(len(par) == len(par0) and all(a is b for a, b in zip(par, par0)), "ranking changed the list of parents", op=name, **d)
        else:
            out = op(list(inds)) if rng.random() < .7 else op(list(inds), parents=None)
        t.check(sorted(map(id, out)) == sorted(map(id, inds)), "ranking did not return exactly the merged individuals", op=name, got=len(out), expected=len(inds), **d)
        t.check(snap_pop(inds) == before, "ranking modified an individual's genome or fitness", op=name, **d)
        exp = pareto_layers([i.fitness for i in inds], dirs)
        got = [i.rank for i in inds]
        t.check(all(int(g) == g for g in got) and [int(g) for g in got] == list(exp), "ranks are not the numbers of the Pareto layers", op=name, got=got, expected=list(exp), **d)
        res.append([int(g) for g in got])
        t.event("ranked", len(inds))
    t.check(res[0] == res[1], "the two ranking operators disagree", **d)
    t.sig(dirs, tuple(res[0]), use_parents)
    t.sample(dict(dirs=dirs, style=style, ranks=res[0], fitnesses=v))


@CHECK.section(quick=8, thorough=60, need={"large": 2000})
def large(t):
    """populations of hundreds: many distinct fitnesses, and sometimes hundreds of layers"""
    rng = t.rng
    m = rng.choice([2, 2, 3])
    dirs = tuple(rng.random() < .5 for _ in range(m))
    problem = VecProblem(dirs)
    n = rng.randint(257, 380)
    if rng.random() < .5:
        base = rng.sample(range(10 * n), n)
        v = [[x if mx else -x for mx in dirs] for x in base]         # one individual per layer
        style = "layers"
    else:
        style, v = vectors(rng, n, m, style=rng.choice(["float", "grid", "front"]))
    exp = list(pareto_layers([np.array(x, float) for x in v], dirs))
    for name, op in RANKERS:
        if name == "fast" and rng.random() < .6:
            continue
        inds = individuals(problem, v, INDIVIDUAL_CLASSES[0])
        cut = rng.randint(1, n - 1)
        out = op(inds[:cut], parents=inds[cut:])
        t.check(sorted(map(id, out)) == sorted(map(id, inds)), "ranking did not return exactly the merged individuals", op=name, style=style, size=n)
        t.check([i.rank for i in inds] == exp, "ranks are not the numbers of the Pareto layers", op=name, style=style, size=n, layers=max(exp))
        mops.crowding_distance_calc(list(inds))
        for r in set(exp):
            check_distances(t, [i for i in inds if i.rank == r], dirs, dict(op=name, style=style))
        t.event("large", n)
    t.sig(style, n, dirs, max(exp))


@CHECK.section(quick=2500, thorough=50000, need={"exact_distances": 8000, "tied_distances": 2500})
def crowding_(t):
    rng, dirs, problem, style, v, dtype, cls = setup(t, tie_free_only=t.rng.random() < .5)
    inds = individuals(problem, v, cls, dtype)
    layers = pareto_layers([i.fitness for i in inds], dirs)
    for i, r in zip(inds, layers):
        i.rank = int(r)
        if rng.random() < .5:
            i.distance = rng.choice([0, math.inf, 7.5])      # stale
    before = snap_pop(inds)
    arg = list(inds)
    rng.shuffle(arg)
    d = dict(dirs=dirs, style=style)
    out = mops.crowding_distance_calc(list(arg))
    t.check(sorted(map(id, out)) == sorted(map(id, inds)), "crowding lost or repeated an individual", got=len(out), expected=len(inds), fitnesses=v, **d)
    t.check(snap_pop(inds) == before and [i.rank for i in inds] == list(layers), "crowding changed a genome, fitness or rank", **d)
    for r in sorted(set(layers)):
        check_distances(t, [i for i in inds if i.rank == r], dirs, d)
    s = list(out)
    rng.shuffle(s)
    s0 = list(s)
    srt = mops.sort_by_dominance(s)
    t.check(sorted(map(id, srt)) == sorted(map(id, inds)), "sorting lost or repeated an individual", **d)
    keys = [(i.rank, -i.distance) for i in srt]
    t.check(all(a <= b for a, b in zip(keys, keys[1:])), "sorting by dominance does not order by rank and then larger distance", keys=keys, **d)
    t.check(snap_pop(inds) == before, "sorting modified an individual", **d)
    t.sig(dirs, tuple(layers), style)


@CHECK.section(quick=800, thorough=15000, need={"pipes": 500})
def composed(t):
    """The pipeline as a user writes it, twice in a row with new parents."""
    rng, dirs, problem, style, v, dtype, cls = setup(t, lo=2)
    inds = individuals(problem, v, cls, dtype)
    cut = rng.randint(1, len(inds) - 1)
    par, off = inds[:cut], inds[cut:]
    for rep in range(2):
        pool = par + off
        op = rng.choice(RANKERS)[1]
        out = pipe(list(off), op(parents=list(par)), mops.crowding_distance_calc, mops.sort_by_dominance)
        t.check(sorted(map(id, out)) == sorted(map(id, pool)), "the composed operators lost or repeated an individual")
        layers = dict(zip(map(id, pool), pareto_layers([i.fitness for i in pool], dirs)))
        t.check([i.rank for i in out] == sorted(layers.values()) and all(i.rank == layers[id(i)] for i in out), "the composed operators rank wrongly", dirs=dirs, fitnesses=v)
        for r in set(layers.values()):
            check_distances(t, [i for i in out if i.rank == r], dirs, dict(dirs=dirs))
        par = out[:len(par)]
        off = individuals(problem, vectors(rng, len(off), len(dirs), style)[1], cls, dtype)
        t.event("pipes")
    t.sig(dirs, tuple(i.rank for i in out))
