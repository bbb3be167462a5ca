"""C10: pipelines deliver each individual exactly once, lazily, and reject misuse."""
import collections
import io
import itertools
import random
import numpy as np
import toolz
from vlib.harness import Check
from vlib.gen import *
from vlib.kits import KITS, BinaryKit, RealKit, IntKit, SegmentedKit
from leap_ec import ops, util, probe
from leap_ec.segmented_rep.ops import apply_mutation, add_segment, remove_segment, copy_segment, segmented_mutate
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.multiobjective import ops as mops

CHECK = Check("C10", boost=4, rule="a counting source feeds random chains of real streaming operators drained one item at a time, in bursts or by "
              "pooling; every operator is also given every wrong kind of input, run fully and partly applied under the same "
              "seed, and the counters and birth brander run through random histories; distinct by (chain, sizes, calls)")


class Source:
    """Infinite (or finite) source that counts and remembers what was taken."""

    def __init__(self, make):
        self.make, self.taken = make, []

    def __iter__(self):
        return self

    def __next__(self):
        i = self.make()
        self.taken.append(i)
        return i


def streaming(rng, kit, problem):
    """[(name, operator, arity)] of operators that may follow each other."""
    out = [("clone", lambda: ops.clone, 1), ("evaluate", lambda: ops.evaluate, 1),
           ("print", lambda: probe.print_individual(stream=io.StringIO()), 1),
           ("brand", lambda: util.birth_brander(), 1)]
    out += [(n, f, 1) for n, f in kit.unary()]
    out += [(n, f, 2) for n, f in kit.crossovers() if not n.startswith("nary") or kit.persistent_length]
    return out


@CHECK.section(quick=2500, thorough=40000, need={"items": 10000, "pooled": 1000})
def streams(t):
    rng = t.rng
    kit = rng.choice(KITS)(rng)
    problem = RecordingProblem(hash_fitness, True)
    src = Source(lambda: mkind(problem, genome=kit.genome()))
    menu = streaming(rng, kit, problem)
    chain, it, arities = [], src, []
    traces, par = [], {}          # what every operator handed on, by identity

    def tap(it, log):
        for x in it:
            log.append(x)
            par[id(log), len(log)] = set(x.parents)
            yield x
    for _ in range(rng.randint(1, 5)):
        n, mk, a = rng.choice(menu)
        chain.append(n)
        arities.append(a)
        it = mk()(it)
        log = []
        traces.append(log)
        it = tap(it, log)
    t.check(len(src.taken) == 0, "an operator consumed its input before anything was asked for", chain=chain)

    def needed(m):
        for a in reversed(arities):
            m = -(-m // a) * a
        return m
    got = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .5:
            k = rng.randint(0, 7)
            if rng.random() < .5:
                r = ops.pool(it, k) if rng.random() < .5 else ops.pool(it, size=k)
            else:
                r = ops.pool(size=k)(it)
            t.check(isinstance(r, list) and len(r) == k, "pool did not return the requested number", asked=k, got=len(r), chain=chain)
            got += r
            t.event("pooled", k)
            t.check(len(src.taken) == needed(len(got)), "the pipeline pulled more (or less) from upstream than it needed",
                    pulled=len(src.taken), delivered=len(got), needed=needed(len(got)), chain=chain)
        else:
            for _ in range(rng.randint(1, 5)):
                got.append(next(it))
                t.check(len(src.taken) == needed(len(got)), "the pipeline pulled more (or less) from upstream than it needed",
                        pulled=len(src.taken), delivered=len(got), needed=needed(len(got)), chain=chain)
    t.event("items", len(got))
    prev = src.taken
    for n, a, log in zip(chain, arities, traces):
        if n == "clone":
            t.check(all(par[id(log), k + 1] == {p.uuid} and c is not p for k, (c, p) in enumerate(zip(log, prev))),
                    "cloning lost the order of the stream or an individual", chain=chain)
        else:
            t.check(all(c is p for c, p in zip(log, prev)), "an operator did not hand on the individuals it received, in order", op=n, chain=chain)
        t.check(len({id(c) for c in log}) == len(log), "an operator delivered an individual twice", op=n, chain=chain)
        t.check(len(log) <= len(prev) <= -(-len(log) // a) * a, "an operator took more than it needed", op=n, chain=chain)
        prev = log
    t.sig(kit.name, tuple(chain), len(got))
    t.sample(dict(chain=chain, delivered=len(got), pulled=len(src.taken)))


# --------------------------------------------------------------------- misuse
def all_ops(rng, problem):
    """(name, operator ready for its stream/population argument, kind)"""
    par = [mkind(problem, float(k), genome=np.arange(4)) for k in range(4)]
    sio = io.StringIO()
    it = [("evaluate", ops.evaluate), ("clone", ops.clone), ("uniform crossover", ops.UniformCrossover()),
          ("n-ary crossover", ops.NAryCrossover()), ("bitflip", mutate_bitflip(expected_num_mutations=1)),
          ("randint", mutate_randint(bounds=[(0, 1)] * 4, expected_num_mutations=1)),
          ("binomial", mutate_binomial(std=1, bounds=[(0, 1)] * 4, expected_num_mutations=1)),
          ("gaussian", mutate_gaussian(std=1, expected_num_mutations=1)),
          ("apply_mutation", apply_mutation(mutator=lambda g, expected_num_mutations: g)),
          ("segmented_mutate", segmented_mutate(mutator_functions=[lambda g: g])),
          ("add_segment", add_segment(seq_initializer=lambda: np.zeros(2), probability=.5)),
          ("remove_segment", remove_segment(probability=.5)), ("copy_segment", copy_segment(probability=.5)),
          ("pool", ops.pool(size=2)), ("print_individual", probe.print_individual(stream=sio))]
    li = [("grouped_evaluate", ops.grouped_evaluate), ("const_evaluate", ops.const_evaluate(value=1.0)),
          ("truncation", ops.truncation_selection(size=2)), ("elitist", ops.elitist_survival(parents=par)),
          ("insertion", ops.insertion_selection(parents=par)), ("proportional", ops.proportional_selection),
          ("sus", ops.sus_selection), ("tournament", ops.tournament_selection), ("naive cyclic", ops.naive_cyclic_selection),
          ("cyclic", ops.cyclic_selection), ("random", ops.random_selection), ("print_probe", probe.print_probe(probe=len, stream=sio)),
          ("rank sort", mops.rank_ordinal_sort), ("fast sort", mops.fast_nondominated_sort),
          ("crowding", mops.crowding_distance_calc), ("sort_by_dominance", mops.sort_by_dominance)]
    return [(n, o, "iterator") for n, o in it] + [(n, o, "list") for n, o in li]


def wrong_inputs(rng, kind, pop):
    partly = [("ops.pool without size", lambda: ops.pool(iter(pop))),
              ("truncation without size", lambda: ops.truncation_selection(pop)),
              ("mutate_randint without bounds", lambda: mutate_randint(iter(pop), expected_num_mutations=1))]
    out = [(n, f) for n, f in partly]
    out += [("tuple", lambda: tuple(pop)), ("array", lambda: np.array([1, 2])), ("None", lambda: None),
            ("individual", lambda: pop[0]), ("dict", lambda: {1: pop[0]}), ("range", lambda: range(3))]
    if kind == "iterator":
        out.append(("list", lambda: list(pop)))
    else:
        out += [("iterator", lambda: iter(pop)), ("generator", lambda: (i for i in pop))]
    return out


@CHECK.section(quick=60, thorough=400, need={"rejected": 5000})
def misuse(t):
    rng = t.rng
    problem = scalar_problem(rng.random() < .5)
    pop = [mkind(problem, float(k), genome=np.arange(4)) for k in range(some_size(rng, 1, 5, 60))]
    before = snap_pop(pop)
    for n, o, kind in all_ops(rng, problem):
        for w, f in wrong_inputs(rng, kind, pop):
            x = f()
            t.raises((ValueError, TypeError, AssertionError), lambda: o(x), "a wrong kind of input was not rejected at once", op=n, input=w)
            t.check(snap_pop(pop) == before, "a rejected call changed an individual", op=n, input=w)
            t.event("rejected")
    # operators of one's own, declared with the decorators
    lst, nxt = list(pop), lambda: iter(list(pop))
    good = {"list": lambda x: list(x), "iter": lambda x: iter(list(x))}
    for name, deco, i, o in (("iteriter", ops.iteriter_op, "iter", "iter"), ("listlist", ops.listlist_op, "list", "list"),
                             ("listiter", ops.listiter_op, "list", "iter"), ("iterlist", ops.iterlist_op, "iter", "list")):
        ran = []

        def right(x, extra=0):
            ran.append(extra)
            return good[o](x)

        def wrong(x):
            return rng.choice([good["iter" if o == "list" else "list"](x), tuple(x), None, 7])
        arg = (lambda: lst) if i == "list" else nxt
        bad = nxt if i == "list" else (lambda: lst)
        r = deco(right)(arg(), extra=5)
        t.check([id(x) for x in r] == [id(x) for x in pop] and ran == [5], "a declared operator does not do what its function does", decorator=name)
        t.raises(ValueError, lambda: deco(wrong)(arg()), "an operator that produces the wrong kind of output was not stopped", decorator=name)
        t.raises(ValueError, lambda: deco(right)(bad()), "a declared operator accepted the wrong kind of input", decorator=name)
        t.raises(ValueError, lambda: deco(right)(ops.pool), "a declared operator accepted a partly applied operator", decorator=name)
        t.check(ran == [5], "an operator ran on a rejected input", decorator=name)
        t.event("declared")
    # a stream that ends before the pool is full
    short = rng.randint(0, len(pop))
    for up in (lambda: iter(pop[:short]), lambda: ops.clone(iter(pop[:short])), lambda: (i for i in pop[:short])):
        t.raises(Exception, lambda: ops.pool(up(), size=short + rng.randint(1, 3)), "a pool returned fewer individuals than requested", have=short)
    # the same inside a pipeline
    for pipeline in ([ops.tournament_selection, ops.pool], [ops.evaluate, ops.pool(size=2)],
                     [ops.tournament_selection, ops.clone, ops.truncation_selection(size=1)],
                     [ops.tournament_selection, ops.pool(size=2), ops.clone],
                     [ops.random_selection, ops.pool, ops.grouped_evaluate]):
        def run():
            r = toolz.pipe(pop, *pipeline)
            if not isinstance(r, list):
                raise ValueError("did not produce a population")
            return r
        t.raises((ValueError, TypeError), run, "a pipeline with a misplaced operator produced a population")
        t.event("rejected")
    t.sig(len(pop), t.index % 7)


@CHECK.section(quick=400, thorough=6000, need={"pairs": 3000})
def curried(t):
    """Partly applied operators behave the same as fully applied ones."""
    rng = t.rng
    mx = rng.random() < .5
    problem = RecordingProblem(hash_fitness, mx)
    n = rng.randint(2, 6)

    def population():
        r = random.Random(t.s)
        return [mkind(problem, float(r.randint(1, 9)), genome=np.array([r.randint(0, 1) for _ in range(5)])) for _ in range(n)]

    def reals():
        return [mkind(problem, genome=np.array([float(x) for x in i.genome])) for i in population()]

    def segs():
        return [mkind(problem, genome=[i.genome, i.genome.copy()]) for i in population()]

    def lists(r):
        return [(freeze(i.genome), freeze_fit(i.fitness)) for i in r]
    par = population()
    size = rng.randint(1, n)
    kk = rng.randint(1, 3)
    b5 = [(0, 1)] * 5
    e = rng.choice([1, 2])
    p = rng.choice([0.0, .3, 1.0])
    std = rng.choice([.1, 2.0])
    # name, operator, source maker, kwargs, streaming?
    cases = [("tournament", ops.tournament_selection, population, dict(k=kk, select_worst=rng.random() < .5), "sel"),
             ("proportional", ops.proportional_selection, population, dict(offset=1, exponent=kk), "sel"),
             ("sus", ops.sus_selection, population, dict(n=size, offset="pop-min"), "sel"),
             ("random", ops.random_selection, population, dict(), "sel"),
             ("cyclic", ops.cyclic_selection, population, dict(), "sel"),
             ("naive", ops.naive_cyclic_selection, population, dict(), "sel"),
             ("truncation", ops.truncation_selection, population, dict(size=size), "list"),
             ("truncation+parents", ops.truncation_selection, population, dict(size=size, parents=par), "list"),
             ("elitist", ops.elitist_survival, population, dict(parents=par, k=kk), "list"),
             ("insertion", ops.insertion_selection, population, dict(parents=par), "list"),
             ("const", ops.const_evaluate, population, dict(value=3.5), "list"),
             ("grouped", ops.grouped_evaluate, population, dict(max_individuals_per_chunk=kk), "list"),
             ("bitflip", mutate_bitflip, population, dict(probability=p), "iter"),
             ("bitflip-e", mutate_bitflip, population, dict(expected_num_mutations=e), "iter"),
             ("randint", mutate_randint, population, dict(bounds=b5, probability=p), "iter"),
             ("binomial", mutate_binomial, population, dict(std=std, bounds=b5, expected_num_mutations=e), "iter"),
             ("gaussian", mutate_gaussian, reals, dict(std=std, expected_num_mutations=e, bounds=(0, 1)), "iter"),
             ("add", add_segment, segs, dict(seq_initializer=lambda: np.zeros(3), probability=p), "iter"),
             ("remove", remove_segment, segs, dict(probability=p), "iter"),
             ("copy", copy_segment, segs, dict(probability=p, append=True), "iter"),
             ("clone", ops.clone, population, dict(), "iter"), ("evaluate", ops.evaluate, population, dict(), "iter"),
             ("pool", ops.pool, population, dict(size=size), "pool")]
    for name, op, make, kw, kind in cases:
        res = []
        keys = list(kw)
        rng.shuffle(keys)
        half = rng.randint(0, len(keys))
        forms = [("full", lambda x: op(x, **kw)), ("applied later", lambda x: op(**kw)(x)),
                 ("in two steps", lambda x: op(**{k: kw[k] for k in keys[:half]})(x, **{k: kw[k] for k in keys[half:]})),
                 ("pipe", lambda x: toolz.pipe(x, op(**kw)))]
        for fname, f in forms:
            random.seed(t.s % 2 ** 31)
            np.random.seed(t.s % 2 ** 31)
            pop = make()
            if kind == "sel":
                it = f(pop)
                r = [next(it) for _ in range(7)]
            elif kind == "iter":
                it = f(iter(pop))
                r = [next(it) for _ in range(n)]
            elif kind == "pool":
                r = f(iter(pop))
            else:
                r = f(pop)
            t.check(not callable(r), "a fully specified operator is still waiting for arguments", op=name, form=fname)
            res.append(lists(r))
            t.event("pairs")
        t.check(all(x == res[0] for x in res), "partly applied and fully applied operator differ", op=name, kw=repr(kw))
    t.sig(mx, n, size, kk, e, p, std)


@CHECK.section(quick=1500, thorough=20000, need={"branded": 5000})
def branding(t):
    """One brander, interleaved populations and streams."""
    rng = t.rng
    problem = scalar_problem(True)
    brander = util.birth_brander()
    births = []
    hist = []
    old = []
    src = Source(lambda: mkind(problem) if rng.random() < .7 or not old else rng.choice(old))
    stream = None
    pre = {}

    def fresh():
        i = mkind(problem)
        if rng.random() < .15:
            i.birth = "pre%d" % len(pre)
            pre[id(i)] = (i, i.birth)
        return i
    for _ in range(rng.randint(1, 8)):
        k = rng.choice(["pop", "stream", "resume", "short"])
        if k == "pop":
            p = [fresh() if rng.random() < .7 or not old else rng.choice(old) for _ in range(rng.randint(0, 5))]
            want = list(p)
            was = {id(i): i.birth for i in p if hasattr(i, "birth")}
            r = brander.brand_population(p)
            got = list(r)
        elif k == "short":
            p = [fresh() for _ in range(rng.randint(0, 4))]
            want = list(p)
            was = {id(i): i.birth for i in p if hasattr(i, "birth")}
            got = list(brander(iter(p)))
        else:
            if stream is None or k == "stream":
                src = Source(src.make)
                stream = brander(src)
            a = len(src.taken)
            m = rng.randint(1, 4)
            old_births = {id(i): i.birth for i in old}
            got = [next(stream) for _ in range(m)]
            t.check(len(src.taken) == a + m, "branding pulled more than it handed on")
            want = src.taken[a:]
            was = {id(i): old_births[id(i)] for i in want if id(i) in old_births}
        hist.append((k, len(got)))
        t.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "branding does not hand on the same individuals", history=hist)
        seen = set()
        for i in got:
            t.check(hasattr(i, "birth"), "an individual came through unbranded", history=hist)
            if id(i) in was:
                t.check(i.birth == was[id(i)], "a branded individual was branded again", history=hist)
            elif id(i) not in seen:
                births.append(i.birth)
            seen.add(id(i))
            old.append(i)
            t.event("branded")
    for i, b in pre.values():
        t.check(not hasattr(i, "birth") or i.birth == b, "a branded individual was branded again")
    if births:
        t.check(births == list(range(births[0], births[0] + len(births))), "birth numbers are not unique and consecutive in order of arrival",
                births=births, history=hist)
    t.sig(tuple(hist), len(births))
    t.sample(dict(history=hist, births=births))


@CHECK.section(quick=1500, thorough=20000, need={"ticks": 5000})
def counters(t):
    rng = t.rng
    from leap_ec.global_vars import context as gctx
    own = rng.random() < .6
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own else gctx
    g0, b0 = rng.choice([0, 0, 3, 10]), rng.choice([0, 0, 5])
    log = []
    kw = dict(context=ctx) if own else {}
    gcb, bcb = [], []
    ncb = rng.randint(0, 3)
    if ncb or rng.random() < .5:
        gen = util.inc_generation(start_generation=g0, callbacks=[lambda g, j=j: gcb.append((j, g, ctx["leap"]["generation"])) for j in range(ncb)], **kw)
    else:
        gen = util.inc_generation(g0, **kw)
    t.check(gen.generation() == g0 == ctx["leap"]["generation"], "the generation counter does not start where asked", start=g0)
    if rng.random() < .3:
        b0 = 0
        births = util.inc_births(callbacks=[lambda b, j=j: bcb.append((j, b, ctx["leap"]["births"])) for j in range(ncb)], **kw)
    else:
        births = util.inc_births(start=b0, callbacks=[lambda b, j=j: bcb.append((j, b, ctx["leap"]["births"])) for j in range(ncb)], **kw)
    t.check(births.births() == b0 == ctx["leap"]["births"], "the birth counter does not start where asked", start=b0)
    g, b = g0, b0
    eg, eb = [], []
    hist = []
    for _ in range(rng.randint(1, 12)):
        k = rng.choice(["gen", "birth", "births", "inc", "dec"])
        hist.append(k)
        if k == "gen":
            g += 1
            t.eq(gen(), g, "incrementing the generation returns a wrong number", history=hist)
            eg += [(j, g, g) for j in range(ncb)]
        elif k == "dec":
            b -= 1
            t.eq(births.do_decrement(), b, "decrementing births returns a wrong number", history=hist)
        else:
            s = 1 if k != "births" else rng.randint(0, 5)
            b += s
            r = births() if k == "birth" else births.do_increment() if k == "inc" else rng.choice([lambda: births(s), lambda: births(size=s)])()
            t.eq(r, b, "incrementing births returns a wrong number", history=hist)
            eb += [(j, b, b) for j in range(ncb)]
        t.event("ticks")
        t.check(gen.generation() == g == ctx["leap"]["generation"], "generation counter and context are out of step", history=hist,
                counter=gen.generation(), in_context=ctx["leap"]["generation"], expected=g)
        t.check(births.births() == b == ctx["leap"]["births"], "birth counter and context are out of step", history=hist,
                counter=births.births(), in_context=ctx["leap"]["births"], expected=b)
        t.eq(util.get_step(context=ctx, use_generation=True, use_births=False), g, "get_step returns a wrong generation", history=hist)
        t.eq(util.get_step(context=ctx, use_births=True, use_generation=False), b, "get_step returns a wrong birth count", history=hist)
    t.eq(gcb, eg, "generation callbacks did not see every generation exactly once, in order", history=hist)
    t.eq(bcb, eb, "birth callbacks did not see every count exactly once, in order", history=hist)
    if own:
        t.check("generation" not in gctx["leap"] and "births" not in gctx["leap"], "a counter wrote into another context")
    t.raises(AssertionError, lambda: util.get_step(context=ctx), "an ambiguous step was not rejected")
    t.sig(own, g0, b0, ncb, tuple(hist))


@CHECK.section(quick=400, thorough=6000, need={"replaced": 200})
def rejoined(t):
    """Held-back children: a crossover operator object reused over several streams
    delivers the second child exactly once when it persists children, and drops it otherwise."""
    rng = t.rng
    problem = scalar_problem(True)
    persist = rng.random() < .6
    op = rng.choice([ops.UniformCrossover, ops.NAryCrossover])(p_xover=rng.choice([0.0, .5, 1.0]), persist_children=persist)
    owed = None
    taken_all, given = [], []
    hist = []
    for _ in range(rng.randint(1, 6)):
        src = Source(lambda: mkind(problem, genome=np.arange(4)))
        it = op(src)
        m = rng.randint(0, 5)
        got = [next(it) for _ in range(m)]
        it.close()
        hist.append(m)
        exp_owed = [owed] if (persist and owed is not None and m > 0) else []
        fresh = m - len(exp_owed)
        t.eq(len(src.taken), fresh + fresh % 2, "crossover pulled a wrong number of parents", history=hist, persist=persist)
        want = exp_owed + src.taken[:fresh]
        t.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                "crossover lost, repeated or reordered a child between calls", history=hist, persist=persist)
        if m:
            owed = src.taken[fresh] if fresh % 2 else None
        t.event("replaced", len(exp_owed))
    t.sig(persist, tuple(hist), type(op).__name__)


@CHECK.section(quick=800, thorough=15000, need={"items": 3000})
def side_by_side(t):
    """One operator at work on several streams at a time, in any interleaving, keeps them apart."""
    rng = t.rng
    kit = rng.choice(KITS)(rng)
    problem = RecordingProblem(hash_fitness, True)
    name, mk, arity = rng.choice([x for x in streaming(rng, kit, problem) if x[2] == 1])
    persist = None
    if rng.random() < .5 and kit.crossovers() and kit.persistent_length:
        persist, arity = rng.random() < .4, 2
        name, cls = rng.choice([("uniform", ops.UniformCrossover)] * isinstance(kit.genome(), np.ndarray) + [("nary", ops.NAryCrossover)])
        kw = dict(num_points=1) if name == "nary" else {}
        mk = lambda: cls(p_xover=rng.choice([0.0, .5, 1.0]), persist_children=persist, **kw)  # noqa
    op = mk()
    m = rng.choice([2, 2, 3, 4])
    srcs = [Source(lambda: mkind(problem, genome=kit.genome())) for _ in range(m)]
    its = [op(s) for s in srcs]
    got = [[] for _ in range(m)]
    lineage = [[] for _ in range(m)]
    order = [rng.randrange(m) for _ in range(rng.randint(4, 24))]
    for k in order:
        x = next(its[k])
        got[k].append(x)
        lineage[k].append(set(x.parents) if x is not None else None)
    if persist:
        # a child held back by one stream may be delivered by another one, but only once
        flat, taken = [x for g in got for x in g], {id(x) for s in srcs for x in s.taken}
        t.check(all(id(x) in taken for x in flat) and len({id(x) for x in flat}) == len(flat),
                "an operator serving several streams lost or repeated individuals", op=name, order=order)
        t.check(len(taken) - len(flat) <= m, "an operator serving several streams lost individuals", op=name, order=order,
                pulled=len(taken), delivered=len(flat))
        t.event("items", len(flat))
        t.sig(name, kit.name, tuple(order), True)
        return
    for k in range(m):
        d = dict(op=name, order=order, stream=k)
        t.check(len(srcs[k].taken) == -(-len(got[k]) // arity) * arity, "an operator serving several streams pulled a wrong number from one of them",
                pulled=len(srcs[k].taken), delivered=len(got[k]), **d)
        if name == "clone":
            t.check(all(c is not p and lin == {p.uuid} for c, p, lin in zip(got[k], srcs[k].taken, lineage[k])),
                    "an operator serving several streams mixed them up", **d)
        else:
            t.check(all(c is p for c, p in zip(got[k], srcs[k].taken)), "an operator serving several streams mixed them up", **d)
        t.event("items", len(got[k]))
    t.sig(name, kit.name, tuple(order))
