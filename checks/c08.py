"""C08: survivor selection keeps the best by the stated criterion."""
import collections
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec import ops
from leap_ec.parsimony import lexical_parsimony

CHECK = Check("C08", boost=4, rule="random offspring/parent populations (ties, NaN, duplicates, infinities, both directions, keys) go through every survivor "
              "selection; results are judged by conservation and exchange arguments; distinct by (operator, direction, fitness "
              "pattern, sizes, key)")


def population(rng, problem, n, nan=None, grid=None):
    nan = rng.choice([0, 0, .2, .6]) if nan is None else nan
    kinds = ("int", "float", "np", "inf", "tie") if grid is None else ("int",)
    lo, hi = (-50, 50) if grid is None else (-grid, grid)
    fits = fitness_values(rng, n, nan=nan, kinds=kinds, lo=lo, hi=hi)
    cls = rng.choice(INDIVIDUAL_CLASSES)
    return [mkind(problem, f, genome=np.array([rng.randint(0, 9) for _ in range(rng.randint(1, 4))]), cls=cls) for f in fits]


def choose_key(rng, mx):
    """(name, key argument, reference key)"""
    k = rng.choice(["none", "none", "genome0", "neg", "lexical"])
    nat = lambda i: rank_key(i.fitness, mx)  # noqa
    if k == "none":
        return k, None, nat
    if k == "genome0":
        return k, (lambda i: int(i.genome[0])), (lambda i: int(i.genome[0]))
    if k == "neg":
        f = lambda i: -int(np.sum(i.genome))  # noqa
        return k, f, f
    return k, lexical_parsimony, lambda i: (float(i.fitness) if mx else -float(i.fitness), -len(i.genome))


def pattern(pop, ref):
    ks = [ref(i) for i in pop]
    u = sorted(set(ks))
    return tuple(u.index(k) for k in ks)


def conserve(t, result, pool, before, d):
    c = collections.Counter(map(id, pool))
    c.subtract(map(id, result))
    t.check(all(v >= 0 for v in c.values()), "selection created, copied or repeated an individual", **d)
    t.check(snap_pop(pool) == before, "selection modified an individual", **d)


@CHECK.section(quick=3000, thorough=60000, need={"selections": 2000})
def truncation(t):
    rng = t.rng
    mx = rng.random() < .5
    problem = scalar_problem(mx)
    grid = rng.choice([None, 2, 5])
    kn, key, ref = choose_key(rng, mx)
    nan = 0 if kn == "lexical" else None
    off = population(rng, problem, some_size(rng, 1, 10), nan, grid)
    if rng.random() < .2 and len(off) > 1:
        off.append(off[0])      # the same individual may be in the pool twice
    par = population(rng, problem, rng.randint(0, 8), nan, grid) if rng.random() < .5 else None
    pool = off + (par or [])
    size = rng.choice([0, 1, len(pool), rng.randint(0, len(pool))])
    kw = dict(size=size)
    if par is not None:
        kw["parents"] = par
    if key is not None:
        kw["key"] = key
    before, ids = snap_pop(pool), ([id(i) for i in off], [id(i) for i in par or []])
    res = ops.truncation_selection(list(off), **kw) if rng.random() < .5 else ops.truncation_selection(**kw)(off)
    d = dict(op="truncation", size=size, offspring=len(off), parents=None if par is None else len(par), key=kn, maximize=mx,
             fits=[repr(i.fitness) for i in pool])
    t.check(isinstance(res, list) and len(res) == size, "truncation returned a wrong number of individuals", got=len(res), **d)
    conserve(t, res, pool, before, d)
    t.check(([id(i) for i in par or []]) == ids[1], "truncation altered the caller's parents", **d)
    ks = sorted((ref(i) for i in pool), reverse=True)
    got = sorted((ref(i) for i in res), reverse=True)
    t.check(got == ks[:size], "an excluded candidate beats an included one", selected=got, best=ks[:size], **d)
    t.event("selections")
    t.sig("trunc", mx, kn, size, par is None, pattern(pool, ref))
    t.sample(d)


@CHECK.section(quick=3000, thorough=60000, need={"selections": 2000})
def elitism(t):
    rng = t.rng
    mx = rng.random() < .5
    problem = scalar_problem(mx)
    grid = rng.choice([None, 2, 5])
    kn, key, ref = choose_key(rng, mx)
    nan = 0 if kn == "lexical" else None
    off = population(rng, problem, some_size(rng, 1, 9), nan, grid)
    par = population(rng, problem, some_size(rng, 1, 9), nan, grid)
    k = rng.choice([None, 0, 1, 2, len(par), len(par) + 2])
    kw = dict(parents=par)
    if k is not None:
        kw["k"] = k
    if key is not None:
        kw["key"] = key
    kk = 1 if k is None else k
    before, pids = snap_pop(off + par), [id(i) for i in par]
    n, pool = len(off), off + par
    ids_off = [id(i) for i in off]
    res = ops.elitist_survival(list(off), **kw) if rng.random() < .5 else ops.elitist_survival(**kw)(list(off))
    d = dict(op="elitist", k=k, key=kn, maximize=mx, off=[repr(i.fitness) for i in off], par=[repr(i.fitness) for i in par])
    t.check(isinstance(res, list) and len(res) == n, "elitist survival returned a wrong number of individuals", got=len(res), **d)
    conserve(t, res, pool, before, d)
    t.check([id(i) for i in par] == pids, "elitist survival altered the parents' list", **d)
    elites = sorted((ref(i) for i in par), reverse=True)[:kk]
    exp = sorted([ref(i) for i in off] + elites, reverse=True)[:n]
    got = sorted((ref(i) for i in res), reverse=True)
    t.check(got == exp, "elitist survival did not keep the best of the offspring and the k best parents", selected=got, expected=exp, **d)
    chosen_par = [ref(i) for i in res if id(i) not in ids_off]
    t.check(len(chosen_par) <= kk and all(c in elites for c in chosen_par), "a parent that is not an elite survived", **d)
    t.event("selections")
    t.sig("elite", mx, kn, k, n, pattern(pool, ref))
    t.sample(d)


@CHECK.section(quick=3000, thorough=60000, need={"selections": 2000})
def insertion(t):
    rng = t.rng
    mx = rng.random() < .5
    problem = scalar_problem(mx)
    grid = rng.choice([None, 3, 5])
    kn, key, ref = choose_key(rng, mx)
    off = population(rng, problem, rng.randint(0, 7), 0, grid)
    par = population(rng, problem, some_size(rng, 1, 7), 0, grid)
    kw = dict(parents=par)
    if key is not None:
        kw["key"] = key
    pool = off + par
    before, pids, oids = snap_pop(pool), [id(i) for i in par], [id(i) for i in off]
    res = ops.insertion_selection(list(off), **kw) if rng.random() < .5 else ops.insertion_selection(**kw)(list(off))
    d = dict(op="insertion", key=kn, maximize=mx, off=[repr(i.fitness) for i in off], par=[repr(i.fitness) for i in par],
             result=[repr(i.fitness) for i in res])
    t.check(len(res) == len(par), "insertion selection changed the population size", **d)
    conserve(t, res, pool, before, d)
    t.check([id(i) for i in par] == pids, "insertion selection altered the caller's parents", **d)
    t.check(res is not par, "insertion selection returned the caller's list itself", **d)
    present = set(map(id, res))
    for s, r in enumerate(res):
        if id(r) in pids:
            t.check(r is par[s], "a parent moved to another slot", slot=s, **d)
        else:
            t.check(ref(r) >= ref(par[s]), "an offspring replaced a better parent", slot=s, **d)
    top = max(ref(i) for i in res)
    for o in off:
        if id(o) not in present:
            t.check(top >= ref(o), "an offspring better than every survivor was dropped: it never competed", lost=repr(ref(o)), **d)
    t.check(top == max(ref(i) for i in pool), "the best individual was lost", **d) if len(par) == 1 else None
    if off:
        bo = max(ref(o) for o in off)
        if bo > max(ref(p) for p in par):
            t.check(top == bo, "the best offspring, better than every parent, did not survive", **d)
    t.event("selections")
    t.sig("insert", mx, kn, len(off), pattern(pool, ref))
    t.sample(d)


@CHECK.section(quick=60, thorough=500, need={"draws": 20000})
def insertion_slots(t):
    """Every offspring competes exactly once, against a uniformly random slot."""
    rng = t.rng
    mx = rng.random() < .5
    problem = scalar_problem(mx)
    sg = 1 if mx else -1
    n, m = rng.randint(2, 5), rng.randint(1, 4)
    par = [mkind(problem, sg * -(100 + k)) for k in range(n)]
    order = rng.choice(["up", "down"])
    off = [mkind(problem, sg * (k if order == "up" else -k)) for k in range(m)]
    R = 2000
    slot = np.zeros(n)
    filled = np.zeros(min(n, m) + 1)
    for _ in range(R):
        res = ops.insertion_selection(list(off), parents=par)
        where = [s for s in range(n) if res[s] is not par[s]]
        filled[len(where)] += 1
        best = off[-1] if order == "up" else off[0]
        pos = [s for s in range(n) if res[s] is best]
        t.check(len(pos) == 1, "the best offspring did not survive exactly once", order=order)
        slot[pos[0]] += 1
        for s in where:
            t.check(any(res[s] is o for o in off), "an unknown individual survived")
    # number of distinct slots hit by m independent uniform draws
    import itertools
    cnt = collections.Counter(len(set(c)) for c in itertools.product(range(n), repeat=m))
    probs = [cnt.get(k, 0) / n ** m for k in range(len(filled))]
    t.chisq(filled, probs, "offspring do not each compete once against a random slot", slots=n, offspring=m, order=order)
    t.chisq(slot, np.full(n, 1 / n), "slots are not chosen uniformly", slots=n)
    t.event("draws", R)
    t.sig(mx, n, m, order)


@CHECK.section(quick=1500, thorough=30000, need={"selections": 1000})
def tournament(t):
    rng = t.rng
    mx = rng.random() < .5
    problem = scalar_problem(mx)
    kn, key, ref = choose_key(rng, mx)
    pop = population(rng, problem, some_size(rng, 1, 7), 0 if kn == "lexical" else None, rng.choice([None, 2]))
    worst = rng.random() < .5
    big = rng.random() < .6
    k = 45 * len(pop) if big else rng.choice([None, 1, 2, 3])
    kw = {} if k is None else {"k": k}
    if key is not None:
        kw["key"] = key
    if worst or rng.random() < .5:
        kw["select_worst"] = worst
    idx = None
    if rng.random() < .7:
        idx = rng.choice([[], [17, 3]])
        kw["indices"] = idx
    before, ids = snap_pop(pop), [id(i) for i in pop]
    it = ops.tournament_selection(pop, **kw) if rng.random() < .5 else ops.tournament_selection(**kw)(pop)
    ks = [ref(i) for i in pop]
    d = dict(op="tournament", k=k, worst=worst, key=kn, maximize=mx, fits=[repr(i.fitness) for i in pop])
    for _ in range(rng.randint(1, 6)):
        w = next(it)
        t.check(id(w) in ids, "tournament returned a stranger", **d)
        if idx is not None:
            t.check(len(idx) == 1 and pop[idx[0]] is w, "tournament reports a wrong index", indices=idx, **d)
        if big:
            t.check(ref(w) == (min(ks) if worst else max(ks)), "tournament among (practically) everyone did not return the best (worst)",
                    winner=repr(w.fitness), **d)
        t.event("selections")
    t.check(snap_pop(pop) == before and [id(i) for i in pop] == ids, "tournament modified the population", **d)
    t.sig("tour", mx, kn, k, worst, pattern(pop, ref))
    t.sample(d)


SELECTORS = {
    "tournament": lambda: ops.tournament_selection, "random": lambda: ops.random_selection, "naive": lambda: ops.naive_cyclic_selection,
    "cyclic": lambda: ops.cyclic_selection, "proportional": lambda: ops.proportional_selection(offset='pop-min'),
    "sus": lambda: ops.sus_selection(offset='pop-min')}


@CHECK.section(quick=600, thorough=10000, need={"selections": 3000})
def untouched(t):
    """No parent selection operator creates, copies or modifies individuals."""
    rng = t.rng
    mx = rng.random() < .5
    problem = scalar_problem(mx)
    pop = [mkind(problem, rng.choice([rng.randint(-9, 9), rng.uniform(-5, 5)]), genome=np.array([j])) for j in range(some_size(rng, 1, 8))]
    name = rng.choice(list(SELECTORS))
    before, ids = snap_pop(pop), [id(i) for i in pop]
    it = SELECTORS[name]()(pop)
    for _ in range(rng.randint(1, 30)):
        t.check(id(next(it)) in ids, "a selection operator returned a stranger or a copy", op=name)
        t.event("selections")
    t.check(snap_pop(pop) == before and [id(i) for i in pop] == ids, "a selection operator modified the population", op=name)
    t.sig(name, mx, len(pop), pattern(pop, lambda i: rank_key(i.fitness, mx)))
