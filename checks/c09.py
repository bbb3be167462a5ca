"""C09: random selection operators draw with the stated probabilities."""
import collections
import itertools
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec import ops

CHECK = Check("C09", boost=4, rule="one trial = one population and parameter setting (fitnesses, offset, exponent, key, n, k, direction) from which thousands of "
              "selections are recorded; distinct by setting; exact share monitors per round, chi-square/binomial tests with p < 1e-10",
              assumptions=["biases smaller than the resolution of the sample are not detected"])


def N(t, base=6000):
    return base if t.tier == "quick" else 4 * base


def make_pop(rng, n, mx=True):
    problem = scalar_problem(mx)
    style = rng.choice(["ints", "floats", "ties", "zeros", "one", "np", "small", "large", "none", "counts"])
    if style == "ints":
        f = [rng.randint(0, 9) for _ in range(n)]
    elif style == "floats":
        f = [rng.uniform(0, 5) for _ in range(n)]
    elif style == "ties":
        f = [rng.choice([1.0, 3.0]) for _ in range(n)]
    elif style == "zeros":
        f = [rng.choice([0, 0, 2.5]) for _ in range(n)]
    elif style == "np":
        f = [np.float64(rng.uniform(0, 5)) for _ in range(n)]
    elif style == "small":
        f = [rng.uniform(0, 5) * 1e-3 for _ in range(n)]
    elif style == "large":
        f = [rng.uniform(0, 5) * 1e6 for _ in range(n)]
    elif style == "counts":
        f = [rng.choice([int, np.int64, np.int32, np.uint8])(rng.randint(0, 200)) for _ in range(n)]
    elif style == "none":
        f = [0.0] * n
    else:
        f = [7.5] * n
    return [mkind(problem, v, genome=np.array([j, rng.randint(1, 5)])) for j, v in enumerate(f)], style


def setting(rng, pop):
    """offset, exponent, key -> kwargs and reference weights."""
    kw = {}
    ref = lambda i: float(i.fitness)  # noqa
    if rng.random() < .3:
        kw["key"] = lambda i: int(i.genome[1])
        ref = lambda i: float(i.genome[1])  # noqa
    vals = np.array([ref(i) for i in pop])
    o = rng.choice([None, None, 0, 1, 2.5, 'pop-min', "neg"])
    if o == "neg":
        o = -float(vals.min()) / 2
    if o is not None:
        kw["offset"] = o
        vals = vals + (-vals.min() if isinstance(o, str) else o)
    e = rng.choice([None, None, 1, 2, 3, .5, 10])
    if e is not None:
        kw["exponent"] = e
        vals = vals ** e
    if not vals.any():
        vals = np.ones(len(pop))
    return kw, vals / vals.sum()


def index_of(pop):
    return {id(i): k for k, i in enumerate(pop)}


def desc(kw):
    return {k: ("custom" if k == "key" else v) for k, v in kw.items()}


@CHECK.section(quick=150, thorough=1500, need={"draws": 100000})
def proportional(t):
    rng = t.rng
    pop, style = make_pop(rng, some_size(rng, 1, 8, 40), rng.random() < .5)
    kw, probs = setting(rng, pop)
    ix = index_of(pop)
    it = ops.proportional_selection(pop, **kw) if rng.random() < .5 else ops.proportional_selection(**kw)(pop)
    n = N(t)
    seq = np.array([ix[id(next(it))] for _ in range(n)])
    d = dict(op="proportional", fits=[i.fitness for i in pop], **desc(kw))
    t.chisq(np.bincount(seq, minlength=len(pop)), probs, "proportional selection is not proportional to (value + offset) ** exponent", **d)
    if len(pop) <= 4:
        pairs = np.bincount(seq[:-1:2] * len(pop) + seq[1::2], minlength=len(pop) ** 2)
        t.chisq(pairs, np.outer(probs, probs).ravel(), "successive proportional draws are not independent", **d)
    t.event("draws", n)
    t.sig(style, len(pop), repr(desc(kw)), tuple(np.round(probs, 6)))
    t.sample(dict(probabilities=probs, counts=np.bincount(seq, minlength=len(pop)), **d))


@CHECK.section(quick=600, thorough=5000, need={"rounds": 2000})
def sus(t):
    rng = t.rng
    pop, style = make_pop(rng, some_size(rng, 1, 8, 40), rng.random() < .5)
    kw, probs = setting(rng, pop)
    n = rng.choice([None, 1, 2, 5, len(pop), 13])
    if n is not None:
        kw["n"] = n
    shuffle = rng.random() < .7
    if not shuffle or rng.random() < .5:
        kw["shuffle"] = shuffle
    nn = n or len(pop)
    ix = index_of(pop)
    it = ops.sus_selection(pop, **kw) if rng.random() < .5 else ops.sus_selection(**kw)(pop)
    R = 100 if t.tier == "quick" else 500
    first = None
    share = probs * nn
    lo, hi = np.floor(share + 1e-9), np.ceil(share - 1e-9)
    extra = np.zeros(len(pop))
    d = dict(op="sus", fits=[i.fitness for i in pop], draws=nn, **{a: b for a, b in desc(kw).items() if a != "n"})
    for r in range(R):
        seq = [ix[id(next(it))] for _ in range(nn)]
        first = first or seq
        if not shuffle:
            t.check(seq == first, "selection does not repeat over the same points although they are not to be resampled", round=r, got=seq, first=first, **d)
        c = np.bincount(seq, minlength=len(pop))
        bad = (c < np.floor(share - 1e-9)) | (c > np.ceil(share + 1e-9))
        t.check(not bad.any(), "a round of stochastic universal sampling misses someone's expected share", round=r, counts=c, shares=share, **d)
        extra += c > lo
        t.event("rounds")
    if shuffle:
        for k in range(len(pop)):
            frac = share[k] - lo[k]
            if 1e-6 < frac < 1 - 1e-6:
                t.binom(int(extra[k]), R, frac, "stochastic universal sampling is biased", individual=k, shares=share, **d)
    t.sig(style, len(pop), nn, shuffle, repr(desc(kw)), tuple(np.round(share, 5)))
    t.sample(dict(shares=share, **d))


@CHECK.section(quick=600, thorough=6000, need={"values": 1000})
def values(t):
    """The value function behind both: (metric + offset) ** exponent."""
    rng = t.rng
    pop, style = make_pop(rng, some_size(rng, 1, 8, 40), rng.random() < .5)
    kw = {}
    ref = [float(i.fitness) for i in pop]
    if rng.random() < .3:
        kw["key"] = lambda i: int(i.genome[1])
        ref = [float(i.genome[1]) for i in pop]
    o = rng.choice([None, 0, 1, 2.5, 'pop-min'])
    e = rng.choice([None, 1, 2, 3, .5, 8, 12])
    if o is not None:
        kw["offset"] = o
    if e is not None:
        kw["exponent"] = e
    before = snap_pop(pop)
    got = ops.compute_population_values(pop, **kw)
    sh = 0 if o is None else -min(ref) if o == 'pop-min' else o
    exp = [(r + sh) ** (1 if e is None else e) for r in ref]
    t.close(got, exp, "the values are not (metric + offset) ** exponent", fits=ref, **desc(kw))
    t.check(snap_pop(pop) == before, "computing values changed the population")
    t.event("values", len(pop))
    t.sig(style, len(pop), repr(desc(kw)), tuple(ref))


@CHECK.section(quick=300, thorough=3000, need={"errors": 300})
def rejected(t):
    """Negative values after the offset raise an error, whatever the exponent."""
    rng = t.rng
    problem = scalar_problem(rng.random() < .5)
    fits = [rng.randint(-3, 9) for _ in range(rng.randint(1, 7))]
    fits[rng.randrange(len(fits))] = -rng.randint(1, 9)
    pop = [mkind(problem, rng.choice([float, int, np.float64])(f)) for f in fits]
    kw = {}
    if rng.random() < .7:
        kw["exponent"] = rng.choice([1, 2, 3, 4])
    if rng.random() < .4:
        kw["offset"] = -min(fits) - rng.choice([1, .5, .25])
    for name, f in (("proportional", ops.proportional_selection), ("sus", ops.sus_selection)):
        t.raises(ValueError, lambda: next(f(pop, **kw)), "negative values were accepted", op=name, fits=fits, **kw)
        t.event("errors")
    for n in (0, -1, -5):
        t.raises(ValueError, lambda: next(ops.sus_selection([mkind(problem, 1.0)], n=n)), "a non-positive number of points was accepted", n=n)
    t.sig(tuple(fits), repr(kw))


@CHECK.section(quick=120, thorough=1200, need={"draws": 100000})
def tournament(t):
    rng = t.rng
    mx = rng.random() < .5
    n = rng.randint(1, 7) if rng.random() < .6 else rng.choice([12, 30, 45, 64, 100])
    problem = scalar_problem(mx)
    fits = rng.sample(range(-60, 60), n)
    if rng.random() < .3:
        fits = [rng.choice(fits) for _ in fits]
    pop = [mkind(problem, f, genome=np.array([j, rng.randint(0, 3)])) for j, f in enumerate(fits)]
    k = rng.choice([None, 1, 2, 3, 5]) if n < 8 or rng.random() < .4 else rng.choice([3, n // 2, n, n + 5])
    worst = rng.random() < .4
    kw = {} if k is None else {"k": k}
    if worst:
        kw["select_worst"] = True
    ref = [rank_key(f, mx) for f in fits]
    if rng.random() < .4:
        kw["key"] = lambda i: -int(i.genome[1])
        ref = [(1, -int(i.genome[1])) for i in pop]
    idx = []
    kw["indices"] = idx
    kk = k or 2
    it = ops.tournament_selection(pop, **kw)
    M = N(t, 4000)
    ix = index_of(pop)
    seq = []
    for _ in range(M):
        w = next(it)
        t.check(len(idx) == 1 and pop[idx[0]] is w, "tournament reports a wrong index", indices=idx)
        seq.append(ix[id(w)])
    # probability of each class of equal contestants winning
    levels = sorted(set(ref), reverse=worst)
    cum = [sum(levels.index(r) <= l for r in ref) / n for l in range(len(levels))]
    probs = [c ** kk - (p ** kk) for c, p in zip(cum, [0] + cum[:-1])]
    counts = np.bincount([levels.index(ref[s]) for s in seq], minlength=len(levels))
    d = dict(op="tournament", fits=fits, k=k, worst=worst, maximize=mx, key="key" in kw)
    t.chisq(counts, probs, "tournament winners do not follow k-fold sampling with replacement", **d)
    if kk == 1:
        t.chisq(np.bincount(seq, minlength=n), np.full(n, 1 / n), "a tournament of one is not a uniform draw", **d)
    t.event("draws", M)
    t.sig(mx, n, k, worst, tuple(levels.index(r) for r in ref))
    t.sample(dict(probabilities=probs, counts=counts, **d))


@CHECK.section(quick=60, thorough=400, need={"draws": 50000})
def uniform(t):
    rng = t.rng
    pop, _ = make_pop(rng, rng.randint(1, 8))
    idx = []
    use = rng.random() < .7
    it = ops.random_selection(pop, indices=idx) if use else ops.random_selection(pop)
    ix = index_of(pop)
    seq = []
    for _ in range(N(t)):
        w = next(it)
        if use:
            t.check(len(idx) == 1 and pop[idx[0]] is w, "random selection reports a wrong index", indices=idx)
        seq.append(ix[id(w)])
    seq = np.array(seq)
    n = len(pop)
    t.chisq(np.bincount(seq, minlength=n), np.full(n, 1 / n), "random selection is not uniform")
    if n <= 4:
        t.chisq(np.bincount(seq[:-1:2] * n + seq[1::2], minlength=n * n), np.full(n * n, 1 / n ** 2), "random selection is not independent")
    t.event("draws", len(seq))
    t.sig(n, use)


@CHECK.section(quick=300, thorough=3000, need={"passes": 1000})
def cyclic(t):
    rng = t.rng
    pop, _ = make_pop(rng, rng.randint(1, 7))
    ix = index_of(pop)
    n = len(pop)
    idx = []
    it = ops.naive_cyclic_selection(pop, indices=idx) if rng.random() < .6 else ops.naive_cyclic_selection(indices=idx)(pop)
    for j in range(3 * n + 1):
        w = next(it)
        t.check(w is pop[j % n], "cyclic selection does not run through the population in order", step=j)
        t.check(idx == [j % n], "cyclic selection reports a wrong index", indices=idx)
    it = ops.cyclic_selection(pop)
    for p in range(6):
        c = sorted(ix[id(next(it))] for _ in range(n))
        t.check(c == list(range(n)), "a pass of cyclic selection does not contain everyone exactly once", passno=p, got=c)
        t.event("passes")
    t.check([id(i) for i in pop] == list(ix), "cyclic selection reordered the population")
    t.sig(n, t.index % 50)


@CHECK.section(quick=12, thorough=60, need={"passes": 5000})
def shuffled(t):
    rng = t.rng
    n = rng.choice([2, 3, 4])
    pop, _ = make_pop(rng, n)
    ix = index_of(pop)
    it = ops.cyclic_selection(pop)
    [next(it) for _ in range(n)]
    R = N(t, 3000)
    c = collections.Counter(tuple(ix[id(next(it))] for _ in range(n)) for _ in range(R))
    perms = list(itertools.permutations(range(n)))
    t.check(set(c) <= set(perms), "a pass is not a permutation")
    t.chisq([c[p] for p in perms], np.full(len(perms), 1 / len(perms)), "later passes are not shuffled uniformly", n=n)
    t.event("passes", R)
    # large populations: every place is equally likely for everyone
    n = rng.choice([20, 70, 150])
    pop, _ = make_pop(rng, n)
    ix = index_of(pop)
    it = ops.cyclic_selection(pop)
    [next(it) for _ in range(n)]
    who, first, last = rng.randrange(n), [], []
    place = []
    for _ in range(R // 10):
        seq = [ix[id(next(it))] for _ in range(n)]
        t.check(sorted(seq) == list(range(n)), "a pass is not a permutation", size=n)
        first.append(seq[0])
        last.append(seq[-1])
        place.append(seq.index(who))
    for what, x in (("first", first), ("last", last), ("place of one", place)):
        t.chisq(np.bincount(np.array(x) * 5 // n, minlength=5), np.array([sum(j * 5 // n == b for j in range(n)) / n for b in range(5)]),
                "later passes are not shuffled uniformly", size=n, what=what)
    t.sig(n)
