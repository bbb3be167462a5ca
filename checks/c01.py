"""C01: comparing individuals follows the problem's direction of optimisation."""
import math
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec import ops
from leap_ec.parsimony import lexical_parsimony, koza_parsimony
from leap_ec.problem import (FunctionProblem, ConstantProblem, FitnessOffsetProblem, AverageFitnessProblem,
                             CooperativeProblem, AlternatingProblem, ExternalProcessProblem)
from leap_ec.real_rep import problems as rp
from leap_ec.binary_rep import problems as bp
from leap_ec.global_vars import context

CHECK = Check("C01", boost=4, rule="random fitness pairs/populations (ints, floats, numpy scalars, infinities, NaN, ties, "
              "vectors) under both directions and through wrapper problems; a case is distinct by "
              "(problem chain, direction, kinds and order of the fitness values)")

BASE = ["function", "constant", "spheroid", "maxones", "leading", "external", "rastrigin", "trap"]
WRAP = ["offset", "translated", "scaled", "matrix", "average", "alternating", "cooperative"]


def base_problem(rng, maximize):
    k = rng.choice(BASE)
    p = {"function": lambda: FunctionProblem(lambda x: 0, maximize),
         "constant": lambda: ConstantProblem(maximize=maximize),
         "spheroid": lambda: rp.SpheroidProblem(maximize=maximize),
         "rastrigin": lambda: rp.RastriginProblem(maximize=maximize),
         "maxones": lambda: bp.MaxOnes(maximize=maximize),
         "leading": lambda: bp.LeadingOnes(maximize=maximize),
         "trap": lambda: bp.DeceptiveTrap(maximize=maximize),
         "external": lambda: ExternalProcessProblem("/bin/true", maximize)}[k]()
    return p, k


def wrap_problem(rng, p, name, maximize):
    """One random wrapper around p; returns problem, name, effective direction."""
    scal = hasattr(p, "maximize")
    opts = [w for w in WRAP if scal or w in ("average", "alternating", "cooperative")]
    w = rng.choice(opts)
    over = rng.choice([None, None, True, False])
    eff = maximize if over is None else over
    if w == "offset":
        kw = {} if over is None else {"maximize": over}
        return FitnessOffsetProblem(p, 3.5, **kw), "offset(%s)" % name, eff
    if w == "translated":
        kw = {} if over is None else {"maximize": over}
        return rp.TranslatedProblem(p, [0.5, -0.5], **kw), "translated(%s)" % name, eff
    if w == "scaled":
        if not hasattr(p, "bounds"):
            return p, name, maximize
        kw = {} if over is None else {"maximize": over}
        return rp.ScaledProblem(p, new_bounds=(-3, 5), **kw), "scaled(%s)" % name, eff
    if w == "matrix":
        kw = {} if over is None else {"maximize": over}
        return rp.MatrixTransformedProblem(p, np.eye(2), **kw), "matrix(%s)" % name, eff
    if w == "average":
        return AverageFitnessProblem(p, 2), "average(%s)" % name, maximize
    if w == "cooperative":
        return CooperativeProblem(p, 1, ops.random_selection), "cooperative(%s)" % name, maximize
    if w == "alternating":
        return AlternatingProblem([p], modulo=3), "alternating(%s)" % name, maximize
    return p, name, maximize


def expect(t, a, b, fa, fb, mx, where):
    """All six operators between two individuals with fitness fa, fb."""
    na, nb = isnan(fa), isnan(fb)
    d = dict(a=repr(fa), b=repr(fb), maximize=mx, problem=where)
    if na and nb:
        return "nan-nan"
    ka, kb = rank_key(fa, mx), rank_key(fb, mx)
    if ka < kb:
        exp = (True, True, False, False, False, True)
    elif ka > kb:
        exp = (False, False, True, True, False, True)
    else:
        exp = (False, True, False, True, True, False)
    got = (bool(a < b), bool(a <= b), bool(a > b), bool(a >= b), bool(a == b), bool(a != b))
    t.check(got == exp, "comparison operators (<, <=, >, >=, ==, !=) disagree with the direction of optimisation",
            got=got, expected=exp, **d)
    t.check(bool(a.problem.worse_than(fa, fb)) == (ka < kb), "worse_than disagrees with the direction", **d)
    t.check(bool(a.problem.equivalent(fa, fb)) == (ka == kb), "equivalent disagrees", **d)
    return "lt" if ka < kb else "gt" if ka > kb else "eq"


@CHECK.section(quick=1500, thorough=30000, need={"pairs": 1000})
def pairs(t):
    rng = t.rng
    context['leap']['generation'] = rng.randint(0, 20)
    mx = rng.random() < .5
    p, name = base_problem(rng, mx)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        p, name, mx = wrap_problem(rng, p, name, mx)
    cls = rng.choice(INDIVIDUAL_CLASSES)
    fits = fitness_values(rng, some_size(rng, 2, 9, 60), nan=rng.choice([0, .2]))
    inds = [mkind(p, f, cls=cls) for f in fits]
    t.check(all(not (i < None) and i != None and i > None for i in inds), "an individual must beat None",  # noqa
            problem=name)
    kinds = set()
    for i, a in enumerate(inds):
        for j, b in enumerate(inds):
            if i != j:
                kinds.add(expect(t, a, b, fits[i], fits[j], mx, name))
                t.event("pairs")
    keys = [rank_key(f, mx) for f in fits]
    best, worst = max(keys), min(keys)
    t.check(rank_key(max(inds).fitness, mx) == best, "max() is not the best individual",
            fits=[repr(f) for f in fits], maximize=mx, problem=name)
    t.check(rank_key(min(inds).fitness, mx) == worst, "min() is not the worst individual",
            fits=[repr(f) for f in fits], maximize=mx, problem=name)
    if sum(map(isnan, fits)) <= 1:
        s = sorted(inds)
        t.check([rank_key(i.fitness, mx) for i in s] == sorted(keys), "sorting does not run from worst to best",
                fits=[repr(f) for f in fits], maximize=mx, problem=name)
        t.check(sorted(map(id, s)) == sorted(map(id, inds)), "sorting lost an individual")
        t.event("sorts")
    t.sig(name, mx, cls.__name__, tuple(sorted(kinds)), len(fits))
    t.sample(dict(problem=name, maximize=mx, fitnesses=[repr(f) for f in fits]))


@CHECK.section(quick=300, thorough=5000, need={"pairs": 200})
def alternating_directions(t):
    """The alternating problem compares by the currently scheduled problem."""
    rng = t.rng
    dirs = [rng.random() < .5 for _ in range(rng.randint(1, 4))]
    modulo = rng.randint(1, 5)
    p = AlternatingProblem([FunctionProblem(lambda x: 0, d) for d in dirs], modulo)
    fits = fitness_values(rng, 4)
    inds = [mkind(p, f) for f in fits]
    for gen in range(0, 3 * modulo * len(dirs)):
        context['leap']['generation'] = gen
        mx = dirs[(gen // modulo) % len(dirs)]
        for i in range(4):
            for j in range(4):
                if i != j:
                    expect(t, inds[i], inds[j], fits[i], fits[j], mx, "alternating gen %d" % gen)
                    t.event("pairs")
    t.sig(tuple(dirs), modulo)


@CHECK.section(quick=800, thorough=20000, need={"pairs": 500})
def vectors(t):
    rng = t.rng
    k = rng.choice([1, 2, 2, 3, 3, 4, 5])
    dirs = [rng.random() < .5 for _ in range(k)]
    form = rng.choice([list, tuple, np.array])
    p = VecProblem(form(dirs))
    grid = rng.choice([1, 2, 4, 50])
    vals = lambda: rng.choice([rng.randint(-grid, grid), rng.randint(-grid, grid),  # noqa
                               rng.randint(-grid, grid) / 4.0, math.inf, -math.inf][:rng.choice([2, 3, 5])])
    inds = []
    kind = rng.choice([float, float, float, np.float32, int, np.int8, np.uint8, np.uint32, np.uint64])
    for _ in range(some_size(rng, 2, 8, 60)):
        if kind in (float, np.float32):
            f = np.array([vals() for _ in range(k)], dtype=kind)
        else:
            f = np.array([rng.randint(0 if np.dtype(kind).kind == "u" else -grid, grid) for _ in range(k)], dtype=kind)
        inds.append(mkind(p, f))
    seen = set()
    for a in inds:
        for b in inds:
            ab, ba = dominates(a.fitness, b.fitness, dirs), dominates(b.fitness, a.fitness, dirs)
            got = (bool(a < b), bool(a <= b), bool(a > b), bool(a >= b), bool(a == b), bool(a != b))
            eq = not ab and not ba
            exp = (ba, ba or eq, ab, ab or eq, eq, not eq)
            t.check(got == exp, "vector comparison is not Pareto dominance",
                    a=a.fitness, b=b.fitness, directions=dirs, got=got, expected=exp)
            seen.add((ab, ba))
            t.event("pairs")
    t.sig(k, tuple(dirs), tuple(sorted(seen)), grid, np.dtype(kind).name)
    t.sample(dict(directions=dirs, fitnesses=[i.fitness for i in inds]))


@CHECK.section(quick=600, thorough=12000, need={"pairs": 400})
def parsimony(t):
    rng = t.rng
    mx = rng.random() < .5
    p = scalar_problem(mx)
    penalty = rng.choice([0, 0.25, 0.5, 1, 2, 7.5])
    inds, vals = [], []
    # some fitness functions return numpy scalars, e.g. the sum of a narrow or unsigned genome
    kind = rng.choice([None, None, None, np.float64, np.float32, np.int8, np.uint8, np.uint64, np.int64])
    for _ in range(some_size(rng, 2, 8, 60)):
        g = rng.choice([list, np.array, tuple])([0] * some_size(rng, 1, 6, 300))
        v = rng.choice([rng.randint(-4, 4), rng.randint(-16, 16) / 4.0])
        if kind not in (None, np.float64, np.float32):
            v = int(abs(v)) if kind in (np.uint8, np.uint64) else int(v)
        vals.append(v)
        inds.append(mkind(p, v if kind is None else kind(v), genome=g))
    lk = [(v if mx else -v, -len(i.genome)) for v, i in zip(vals, inds)]
    kk = [(v if mx else -v) - penalty * len(i.genome) for v, i in zip(vals, inds)]
    koza = koza_parsimony(penalty=penalty)
    for a in range(len(inds)):
        for b in range(len(inds)):
            x, y = lexical_parsimony(inds[a]), lexical_parsimony(inds[b])
            t.check((x < y) == (lk[a] < lk[b]) and (x == y) == (lk[a] == lk[b]),
                    "lexical parsimony key does not rank by fitness, then shorter genome", maximize=mx,
                    fit=[inds[a].fitness, inds[b].fitness], lengths=[len(inds[a].genome), len(inds[b].genome)])
            x, y = koza(inds[a]), koza_parsimony(inds[b], penalty=penalty)
            t.check((x < y) == (kk[a] < kk[b]) and (x == y) == (kk[a] == kk[b]),
                    "koza parsimony key does not rank by penalised fitness", maximize=mx, penalty=penalty,
                    fit=[inds[a].fitness, inds[b].fitness], lengths=[len(inds[a].genome), len(inds[b].genome)])
            t.event("pairs")
    # the documented uses of the keys
    best = ops.truncation_selection(list(inds), size=1, key=lexical_parsimony)[0]
    t.check(lk[[id(i) for i in inds].index(id(best))] == max(lk), "truncation by lexical parsimony", maximize=mx)
    best = ops.truncation_selection(list(inds), size=1, key=koza)[0]
    t.check(kk[[id(i) for i in inds].index(id(best))] == max(kk), "truncation by koza parsimony", maximize=mx)
    t.sig(mx, penalty, tuple(lk))
    t.sample(dict(maximize=mx, penalty=penalty, fitness=[i.fitness for i in inds], lengths=[len(i.genome) for i in inds]))
