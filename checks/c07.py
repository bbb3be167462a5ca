"""C07: crossover only rearranges its parents' genes and keeps lineage."""
import collections
import itertools
import uuid
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec import ops

CHECK = Check("C07", boost=3, rule="pairs of individuals whose genes are uniquely tagged (parent, position) are recombined as arrays, lists or "
              "segment lists, equal and unequal lengths, through streams and interrupted calls; distinct by (operator, kind, "
              "lengths, points, observed source pattern)")


def tagged(kind, who, n):
    if kind == "array":
        return np.array([who * 1000 + i for i in range(n)])
    if kind == "float":
        return np.array([who * 1000 + i + .5 for i in range(n)])
    if kind == "list":
        return [who * 1000 + i for i in range(n)]
    return [np.array([who * 1000 + i, i]) for i in range(n)]


def tags(g):
    return [int(x[0]) if isinstance(x, np.ndarray) else int(x) for x in g]


def mk(problem, kind, who, n, rng):
    i = mkind(problem, float(who), genome=tagged(kind, who, n))
    i.parents = {uuid.uuid4() for _ in range(rng.randint(0, 3))}
    return i


def pair_oracle(t, op, kind, a0, b0, ta, tb, d):
    """a0, b0: tags before; ta, tb: tags after. Returns source pattern."""
    n, m = len(a0), len(b0)
    t.check(sorted(ta + tb) == sorted(a0 + b0), "crossover lost or duplicated a gene", before=(a0, b0), after=(ta, tb), **d)
    src = None
    if n == m:
        t.check(len(ta) == n and len(tb) == n, "crossover changed a length", after=(ta, tb), **d)
        src = []
        for i in range(n):
            if (ta[i], tb[i]) == (a0[i], b0[i]):
                src.append(0)
            elif (ta[i], tb[i]) == (b0[i], a0[i]):
                src.append(1)
            else:
                t.check(False, "the genes at a position are not the parents' genes at that position", position=i, before=(a0, b0), after=(ta, tb), **d)
    elif op == "uniform":
        k = min(n, m)
        t.check(len(ta) == n and len(tb) == m and ta[k:] == a0[k:] and tb[k:] == b0[k:],
                "uniform crossover touched the tail that has no counterpart", before=(a0, b0), after=(ta, tb), **d)
        for i in range(k):
            t.check({ta[i], tb[i]} == {a0[i], b0[i]}, "the genes at a position are not the parents' genes at that position",
                    position=i, before=(a0, b0), after=(ta, tb), **d)
    return src


@CHECK.section(quick=3000, thorough=60000, need={"recombined": 2000, "unequal": 300})
def pairs(t):
    rng = t.rng
    name = rng.choice(["uniform", "nary"])
    kind = rng.choice(["array", "float"] if name == "uniform" else ["array", "float", "list", "segments"])
    n = rng.choice([1, 2, 3, 5, 8, 13]) if rng.random() < .97 else rng.randint(14, 200)
    m = n if rng.random() < .6 else some_size(rng, 1, 13, 200)
    problem = scalar_problem(rng.random() < .5)
    a, b = mk(problem, kind, 1, n, rng), mk(problem, kind, 2, m, rng)
    a0, b0, union = tags(a.genome), tags(b.genome), a.parents | b.parents
    u = (a.uuid, b.uuid)
    if name == "uniform":
        op = ops.UniformCrossover(p_swap=rng.choice([0.0, .2, .5, 1.0]))
        par = op.p_swap
    else:
        par = rng.randint(1, min(n, m))
        op = ops.NAryCrossover(num_points=par)
    d = dict(op=name, kind=kind, par=par)
    direct = rng.random() < .3
    if direct:
        x, y = op.recombine(a, b)
    else:
        it = op(iter([a, b]))
        x, y = next(it), next(it)
        t.check(x is a and y is b, "crossover does not hand on the two individuals in order", **d)
        t.check(x.fitness is None and y.fitness is None, "a recombined child kept a fitness", **d)
        t.check(set(x.parents) == union and set(y.parents) == union, "children do not record the union of their parents' lineage",
                got=(len(x.parents), len(y.parents)), expected=len(union), **d)
        t.check((x.uuid, y.uuid) == u, "crossover changed an identity", **d)
    t.check(type(x.genome) is (np.ndarray if kind in ("array", "float") else list), "crossover changed the kind of genome",
            got=type(x.genome).__name__, **d)
    if kind in ("array", "float"):
        t.check(x.genome.dtype == tagged(kind, 1, 1).dtype and y.genome.dtype == x.genome.dtype, "crossover changed the gene type", **d)
    t.check(not share_storage(x.genome, y.genome), "the two children share storage", **d)
    ta, tb = tags(x.genome), tags(y.genome)
    src = pair_oracle(t, name, kind, a0, b0, ta, tb, d)
    if kind == "segments":
        t.check(all(int(s[0]) % 1000 == int(s[1]) for s in list(x.genome) + list(y.genome)), "a segment was torn apart", **d)
    t.event("recombined")
    if n != m:
        t.event("unequal")
    if src is not None:
        if name == "nary":
            ch = sum(p != q for p, q in zip([0] + src, src))
            t.check(ch == par, "n-point crossover does not alternate blocks at the requested number of cut points", blocks=src, **d)
        elif par in (0.0, 1.0):
            t.check(all(s == int(par) for s in src), "uniform crossover with swap probability 0 or 1", pattern=src, **d)
    t.sig(name, kind, n, m, par, tuple(src or ()))
    t.sample(dict(before=(a0, b0), after=(ta, tb), **d))


@CHECK.section(quick=120, thorough=1500, need={"swaps": 20000})
def rates(t):
    """Swap probability, recombination probability, reach of cut points."""
    rng = t.rng
    problem = scalar_problem(True)
    name = rng.choice(["uniform", "nary"])
    n = rng.choice([2, 3, 6, 10])
    px = rng.choice([0.0, .1, .3, .5, .8, 1.0])
    pairs_ = 1500 if t.tier == "quick" else 3000
    if px >= .5:
        pairs_ *= 2
    if name == "uniform":
        ps = rng.choice([None, .1, .2, .5, .8, rng.random(), .002, .998])
        kw = {} if ps is None else {"p_swap": ps}
        op = ops.UniformCrossover(p_xover=px, **kw)
        ps = .2 if ps is None else ps
    else:
        k = rng.choice([None] + list(range(1, min(3, n) + 1)))
        kw = {} if k is None else {"num_points": k}
        op = ops.NAryCrossover(p_xover=px, **kw)
        k = 2 if k is None else k
    inds = [mk(problem, "array", 1 + (j & 1), n, rng) for j in range(2 * pairs_)]
    before = snap_pop(inds)
    it = op(iter(inds))
    out = [next(it) for _ in inds]
    t.check([id(i) for i in out] == [id(i) for i in inds], "a stream of pairs does not come out complete and in order", op=name)
    rec, swaps, pos, cuts, sets = 0, 0, np.zeros(n), np.zeros(n), collections.Counter()
    d = dict(op=name, p_xover=px, length=n, **kw)
    for j in range(0, len(out), 2):
        x, y = out[j], out[j + 1]
        if x.fitness is None or y.fitness is None:
            t.check(x.fitness is None and y.fitness is None, "only one child of a pair lost its fitness", **d)
            rec += 1
            s = np.array([int(g) // 1000 == 2 for g in x.genome])
            swaps += s.sum()
            pos += s
            if name == "nary":
                c = np.diff(np.concatenate([[0], s.astype(int)])) != 0
                t.check(c.sum() == k, "n-point crossover does not use the requested (or default) number of cut points", blocks=s.tolist(), **d)
                cuts += c
                sets[tuple(np.flatnonzero(c))] += 1
        else:
            t.check([snap(x), snap(y)] == before[j:j + 2], "a pair that was not recombined was changed", **d)
    t.binom(rec, pairs_, px, "pairs are not recombined at the requested rate", **d)
    if name == "uniform" and rec > 50:
        t.binom(int(swaps), rec * n, ps, "genes are not swapped with the requested probability", **d)
        for i in range(n):
            t.binom(int(pos[i]), rec, ps, "a position is not swapped with the requested probability", position=i, **d)
    if name == "nary" and rec >= 700:
        t.check(all(cuts[1:] > 0), "some cut points are never used", cuts=cuts, **d)
    if name == "nary" and rec:
        every = list(itertools.combinations(range(n), k))
        t.chisq([sets[s] for s in every], np.full(len(every), 1 / len(every)), "sets of cut points are not equally likely", **d)
    t.event("swaps", rec * n)
    t.sig(name, n, px, *kw.values())
    t.sample(dict(recombined=rec, pairs=pairs_, **d))


@CHECK.section(quick=1500, thorough=20000, need={"calls": 2000, "held_back": 300})
def streams(t):
    """Interrupted calls: every individual comes out once, in order; a held-back
    second child appears first in the next call when children persist."""
    rng = t.rng
    persist = rng.random() < .7
    px = rng.choice([0.0, .5, 1.0])
    name = rng.choice(["uniform", "nary"])
    kw = dict(p_xover=px)
    if persist or rng.random() < .5:
        kw["persist_children"] = persist
    op = ops.UniformCrossover(**kw) if name == "uniform" else ops.NAryCrossover(num_points=1, **kw)
    problem = scalar_problem(True)
    total = [mk(problem, "array", k + 1, 4, rng) for k in range(40)]
    genes0 = sorted(x for i in total for x in tags(i.genome))
    shared = rng.random() < .5
    upstream = iter(total)
    used, held, pulls = 0, None, []
    for _ in range(rng.randint(1, 6)):
        k = rng.randint(0, 5)
        it = op(upstream if shared else iter(total[used:]))
        exp, second, start = [], None, True
        for _ in range(k):
            if start and held is not None and persist:
                exp.append(held)        # held back by the previous call
                t.event("held_back")
            elif second is not None:
                exp.append(second)
                second = None
            else:
                exp.append(total[used])
                second = total[used + 1]
                used += 2
            start = False
        out = [next(it) for _ in range(k)]
        t.check([id(i) for i in out] == [id(i) for i in exp],
                "an individual was lost, repeated or reordered between calls", pulls=pulls + [k], persist=persist, shared=shared,
                got=[tags(i.genome) for i in out])
        if k:
            held = second
        pulls.append(k)
        t.event("calls")
    t.check(sorted(x for i in total for x in tags(i.genome)) == genes0, "genes were lost or duplicated in the stream", pulls=pulls)
    t.sig(name, persist, px, tuple(pulls), shared)
    t.sample(dict(op=name, persist=persist, p_xover=px, pulls=pulls))


@CHECK.section(quick=600, thorough=8000, need={"rounds": 1500})
def lineage(t):
    """A pool recombined again and again, in changing pairs and positions: after
    every round each individual's recorded lineage is the union over its own
    pairs only, whoever recombines elsewhere in between."""
    rng = t.rng
    problem = scalar_problem(True)
    pool = [mk(problem, "array", k + 1, 4, rng) for k in range(rng.randint(2, 6))]
    model = {id(i): set(i.parents) for i in pool}
    ops_ = [rng.choice([ops.UniformCrossover(p_xover=rng.choice([.5, 1.0])), ops.NAryCrossover(num_points=1, p_xover=rng.choice([.5, 1.0]))])
            for _ in range(2)]
    for r in range(rng.randint(1, 6)):
        i, j = rng.sample(range(len(pool)), 2)
        a, b = pool[i], pool[j]
        if rng.random() < .2:           # a clone starts a line of its own
            c = a.clone()
            t.check(set(c.parents) == {a.uuid}, "a clone does not name its parent", got=len(c.parents))
            pool[i], a = c, c
            model[id(c)] = {next(iter(c.parents))}
        a.fitness = b.fitness = 1.0
        it = rng.choice(ops_)(iter([a, b]))
        x, y = next(it), next(it)
        if x.fitness is None:
            u = model[id(a)] | model[id(b)]
            model[id(a)], model[id(b)] = set(u), set(u)
        for k in pool:
            t.check(set(k.parents) == model[id(k)], "an individual's recorded lineage is not the union over its own recombinations",
                    round=r, in_pair=k in (a, b), got=len(k.parents), expected=len(model[id(k)]))
        t.event("rounds")
    t.sig(len(pool), tuple(len(model[id(k)]) for k in pool))


@CHECK.section(quick=100, thorough=1000, need={"errors": 100})
def misuse(t):
    rng = t.rng
    problem = scalar_problem(True)
    n = rng.randint(1, 5)
    m = rng.randint(1, 5)
    k = min(n, m) + rng.randint(1, 3)
    kind = rng.choice(["array", "list"])
    a, b = mk(problem, kind, 1, n, rng), mk(problem, kind, 2, m, rng)
    e = t.raises(Exception, lambda: next(ops.NAryCrossover(num_points=k)(iter([a, b]))), "more cut points than genes were accepted", n=n, m=m, points=k)
    t.check(not isinstance(e, StopIteration), "more cut points than genes ended the stream silently")
    t.event("errors")
    t.sig(n, m, k)
