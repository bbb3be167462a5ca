"""C31: initialisers sample legal genomes uniformly and independently."""
import math
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec import Individual as TopIndividual, Representation
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import ConstantProblem
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from leap_ec.contrib.transfer.sequential import initialize_seeded

CHECK = Check("C31", boost=3, rule="initialisers with random lengths, bounds (equal, negative, tiny, huge, per gene) and structures; every genome is checked for legality and "
              "freshness, and large samples against the uniform law gene by gene and pair by pair; distinct by configuration")

CLASSES = [Individual, RobustIndividual, WholeEvaluatedIndividual, DistributedIndividual]


def container(rng, bounds):
    return rng.choice([list, list, tuple, np.array])(bounds)


def real_bounds(rng, d):
    out = []
    for _ in range(d):
        k = rng.choice(["unit", "sym", "neg", "pos", "tiny", "huge", "same", "point", "far"])
        out.append({"unit": (0.0, 1.0), "sym": (-5.12, 5.12), "neg": (-7.5, -2.25), "pos": (100.0, 101.0), "tiny": (1e-9, 2e-9), "huge": (-1e12, 1e12),
                    "same": (3.5, 3.5), "point": (.1, .1), "far": (1e9 + .1, 1e9 + .7)}[k])
    return out


def int_bounds(rng, d):
    out = []
    for _ in range(d):
        lo = rng.choice([0, 0, -3, 5, -100, 1000])
        out.append((lo, lo + rng.choice([0, 1, 1, 2, 3, 6, 9])))
    return out


def fresh(t, genomes, what):
    for i in range(len(genomes) - 1):
        t.check(not share_storage(genomes[i], genomes[i + 1]) and not share_storage(genomes[0], genomes[-1] if i else genomes[1]),
                "two genomes of an initialiser share storage", what=what)


@CHECK.section(quick=5000, thorough=80000, need={"genomes": 30000})
def legality(t):
    rng = t.rng
    kind = rng.choice(["real", "int", "binary", "segmented"])
    d = rng.choice([1, 2, 3, 5, 10, 40])
    if kind == "real":
        b = real_bounds(rng, d)
        init = create_real_vector(container(rng, b))
    elif kind == "int":
        b = int_bounds(rng, d)
        init = create_int_vector(container(rng, b))
    elif kind == "binary":
        b = d
        init = create_binary_sequence(d)
    else:
        b = int_bounds(rng, d)
        kk = rng.choice([1, 2, 5])
        lengths = []
        if rng.random() < .5:
            seg = kk
        else:
            def seg():
                lengths.append(rng.randint(1, 6))
                return lengths[-1]
        init = create_segmented_sequence(seg, create_int_vector(b))
    gs = [init() for _ in range(6)]
    for j, g in enumerate(gs):
        parts = [g]
        if kind == "segmented":
            t.check(isinstance(g, list), "a segmented genome is not a list of segments")
            t.eq(len(g), kk if not callable(seg) else lengths[j], "a segmented genome has a wrong number of segments")
            parts = g
        for x in parts:
            t.check(isinstance(x, np.ndarray) and x.shape == (d,), "a genome has a wrong shape", kind=kind, shape=np.shape(x), d=d)
            if kind == "real":
                t.check(x.dtype == np.float64, "a real genome has a wrong type", dtype=str(x.dtype))
                t.check(all(lo <= v <= hi for v, (lo, hi) in zip(x, b)), "a real gene lies outside its bounds", genome=x, bounds=b)
            elif kind == "binary":
                t.check(all(v in (0, 1) for v in x), "a binary gene is no bit", genome=x)
            else:
                t.check(np.issubdtype(x.dtype, np.integer), "an integer genome has a wrong type", dtype=str(x.dtype))
                t.check(all(lo <= v <= hi for v, (lo, hi) in zip(x, b)), "an integer gene lies outside its bounds", genome=x, bounds=b)
            t.event("genomes")
    if callable(locals().get("seg")):
        t.eq(len(lengths), 6, "the length function is not asked once per genome")
    if kind == "segmented":
        flat = [s for g in gs for s in g]
        fresh(t, flat, kind) if len(flat) > 1 else None
    fresh(t, gs, kind)
    # a caller changing a genome does not influence later ones
    for g in gs:
        for x in (g if kind == "segmented" else [g]):
            x[:] = 0
    g = init()
    for x in (g if kind == "segmented" else [g]):
        if kind == "real":
            t.check(all(lo <= v <= hi for v, (lo, hi) in zip(x, b)), "changing genomes influences later ones", bounds=b)
        elif kind != "binary":
            t.check(all(lo <= v <= hi for v, (lo, hi) in zip(x, b)), "changing genomes influences later ones", bounds=b)
    t.sig(kind, d, str(b))
    t.sample(dict(kind=kind, d=d, bounds=str(b)[:200]))


def ranks(a, k):
    """Integer classes 0..k-1 of values in [0, 1]."""
    return np.minimum((a * k).astype(int), k - 1)


def uniform_ints(t, X, sizes, what):
    """X: draws x genes, X[:, j] in 0..sizes[j]-1; every gene uniform, genes and successive calls independent."""
    N, d = X.shape
    for j in range(d):
        m = sizes[j]
        c = np.bincount(X[:, j], minlength=m)
        t.check(len(c) == m, "a gene takes a value outside its range", what=what, gene=j)
        t.check((c > 0).all() or N / m < 40, "a legal value of a gene is never drawn", what=what, gene=j, counts_=c)
        t.chisq(c, np.full(m, 1 / m), "a gene is not uniformly distributed", what=what, gene=j)
    pairs = [(j, j + 1) for j in range(d - 1)] + ([(0, d - 1)] if d > 2 else [])
    for i, j in pairs[:8]:
        m = sizes[i] * sizes[j]
        c = np.bincount(X[:, i] * sizes[j] + X[:, j], minlength=m)
        t.chisq(c, np.full(m, 1 / m), "two genes are not independent", what=what, genes=(i, j))
    for j in range(min(d, 4)):
        m = sizes[j] ** 2
        c = np.bincount(X[:-1:2, j] * sizes[j] + X[1::2, j][:len(X[:-1:2])], minlength=m)
        t.chisq(c, np.full(m, 1 / m), "two successive genomes are not independent", what=what, gene=j)


@CHECK.section(quick=150, thorough=2500, need={"draws": 300000})
def uniformity(t):
    rng = t.rng
    kind = ["real", "int", "binary", "segmented", "callable"][t.index % 5]
    N = 3000
    d = rng.choice([1, 2, 3, 6])
    if kind == "real":
        b = real_bounds(rng, d)
        init = create_real_vector(b)
        X = np.array([init() for _ in range(N)])
        free = [j for j in range(d) if b[j][1] > b[j][0]]
        lo, hi = np.array([b[j][0] for j in free]), np.array([b[j][1] for j in free])
        if free:
            U = (X[:, free] - lo) / (hi - lo)
            for k in range(len(free)):
                t.ks(U[:, k], "uniform", "a real gene is not uniformly distributed", bounds=b[free[k]])
                t.check(len(set(U[:, k])) > N * .99, "a real gene repeats values", bounds=b[free[k]])
            uniform_ints(t, ranks(U, 5), [5] * len(free), "real")
    elif kind == "binary":
        init = create_binary_sequence(d)
        X = np.array([init() for _ in range(N)]).astype(int)
        uniform_ints(t, X, [2] * d, kind)
    else:
        b = int_bounds(rng, d)
        lo = np.array([x[0] for x in b])
        sizes = [x[1] - x[0] + 1 for x in b]
        if kind == "int":
            init = create_int_vector(b)
            X = np.array([init() for _ in range(N)])
            uniform_ints(t, X - lo, sizes, kind)
        else:
            s = rng.choice([2, 3])
            draws = []
            seg = s if kind == "segmented" else (lambda: draws.append(1) or s)
            init = create_segmented_sequence(seg, create_int_vector(b))
            X = np.array([np.concatenate(init()) for _ in range(N)])
            uniform_ints(t, X - np.tile(lo, s), sizes * s, kind)
            if kind == "callable":
                t.eq(len(draws), N, "the length function is not asked once per genome")
    t.event("draws", N)
    t.sig(kind, d, t.index)


@CHECK.section(quick=2500, thorough=40000)
def populations(t):
    rng = t.rng
    cls = rng.choice(CLASSES)
    d = rng.randint(1, 5)
    made = []
    base = rng.choice([create_binary_sequence(d), create_real_vector([(-1, 1)] * d), create_int_vector([(0, 5)] * d),
                       create_segmented_sequence(2, create_binary_sequence(d))])

    def init():
        made.append(base())
        return made[-1]
    size = rng.choice([0, 1, 2, 5, 20])
    prob, dec = ConstantProblem(), IdentityDecoder()
    how = rng.choice(["class", "representation", "one"])
    if how == "class":
        pop = cls.create_population(size, initialize=init, decoder=dec, problem=prob)
    else:
        rep = Representation(initialize=init, decoder=dec, individual_cls=cls) if rng.random() < .5 else Representation(init, dec, cls)
        if how == "one":
            size = 1
            pop = [rep.create_individual(prob)]
        else:
            pop = rep.create_population(size, prob) if rng.random() < .5 else rep.create_population(pop_size=size, problem=prob)
    t.eq(len(pop), size, "a population has a wrong size")
    t.check(isinstance(pop, list), "a population is not a list")
    t.eq(len(made), size, "the initialiser is not called once per individual")
    t.check(len({id(i) for i in pop}) == size and len({i.uuid for i in pop}) == size, "individuals of a population are not distinct")
    t.eq([freeze(i.genome) for i in pop], [freeze(g) for g in made], "individuals do not get the initialiser's genomes in order")
    for i, ind in enumerate(pop):
        t.check(type(ind) is cls, "an individual has a wrong class", got=str(type(ind)), expected=str(cls))
        t.check(ind.problem is prob and ind.decoder is dec, "an individual has another problem or decoder")
        t.check(ind.fitness is None and not ind.parents, "a new individual has a fitness or parents")
        for other in pop[:i]:
            t.check(not share_storage(ind.genome, other.genome), "two individuals share a genome")
    if how != "class":
        more = rep.create_population(2, prob)
        t.check(not {i.uuid for i in more} & {i.uuid for i in pop} and all(not share_storage(a.genome, b.genome) for a in more for b in pop),
                "two populations of one representation share individuals or genomes")
    # the documented defaults of a representation
    r = Representation(initialize=init)
    ind = r.create_individual(prob)
    t.check(type(ind) is Individual and isinstance(ind.decoder, IdentityDecoder) and ind.problem is prob, "a representation has other defaults")
    t.sig(cls.__name__, size, how, d, tuple(freeze(g) for g in made[:2]))
    t.event("individuals", len(pop))


@CHECK.section(quick=2500, thorough=30000)
def seeded(t):
    rng = t.rng
    d = rng.randint(1, 4)
    kind = rng.choice(["real", "list"])
    mk = (lambda: t.np.random(d)) if kind == "real" else (lambda: [rng.random() for _ in range(d)])
    seeds = [mk() for _ in range(rng.choice([0, 1, 2, 5]))]
    s0 = [freeze(s) for s in seeds]
    made = []

    def base():
        made.append(t.np.random(d))
        return made[-1]
    size = rng.choice([0, 1, 3, 5, 8])
    for _ in range(2):          # every seeded initialiser starts over with the seeds
        made.clear()
        init = initialize_seeded(base, seeds)
        gs = [init() for _ in range(size)]
        kk = min(size, len(seeds))
        t.eq([freeze(g) for g in gs[:kk]], s0[:kk], "the seeds do not come first, in order")
        t.eq([freeze(g) for g in gs[kk:]], [freeze(g) for g in made], "after the seeds come other genomes than the initialiser's")
        t.eq(len(made), size - kk, "the initialiser is called although seeds are left, or is not called once per genome")
    pop = Individual.create_population(size, initialize_seeded(base, seeds), IdentityDecoder(), ConstantProblem())
    t.eq([freeze(i.genome) for i in pop[:len(seeds)]], s0[:size], "a seeded population does not start with the seeds")
    t.eq(([freeze(s) for s in seeds]), s0, "seeding changes the seeds")
    t.sig(d, len(seeds), size, kind, tuple(s0[:1]))
