"""C14: cooperative evaluation scores an individual only through real collaborations."""
import csv
import io
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec import ops
from leap_ec.algorithm import multi_population_ea
from leap_ec.decoder import Decoder, IdentityDecoder
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.problem import CooperativeProblem
from leap_ec.representation import Representation
from leap_ec.global_vars import context as GLOBAL

CHECK = Check("C14", boost=3, rule="sub-populations with globally unique genomes are evaluated through both cooperative interfaces with every "
              "selector; the wrapped problem and the selector are tapped, each complete solution is taken apart again and compared "
              "with the collaborators drawn, the fitness with the mean, and the log with both; distinct by (interface, shape, trials, selector)")


class Neg(Decoder):
    def decode(self, genome, *args, **kwargs):
        return -np.asarray(genome)


class World:
    def __init__(self, t, mx=None, vector=False):
        rng = self.rng = t.rng
        self.t = t
        self.ctx = {"leap": {}} if rng.random() < .6 else GLOBAL
        self.own_ctx = self.ctx is not GLOBAL
        self.n = rng.randint(1, 4)
        self.lens = [rng.randint(1, 4) for _ in range(self.n)]
        self.calls = []
        self.mx = rng.random() < .5 if mx is None else mx
        self.counter = 0
        self.scale = rng.choice([1.0, 1e-3, 1e6])
        # counting fitness functions return (numpy) integers; several objectives are averaged one by one
        self.kind = rng.choice([float, float, float, int, np.int64, np.uint32] + (['vector'] * 2 if vector else []))
        # some complete solutions have no value: then there is no mean either
        self.holes = vector and self.kind is float and rng.random() < .25
        w = self

        class Wrapped(ScalarProblem):
            def evaluate(self, phenome, *args, **kwargs):
                w.calls.append(np.array(phenome, copy=True))
                return w.f(phenome)
        self.problem = Wrapped(self.mx)
        self.draws = []
        sel = self.sel_name, self.sel = rng.choice([
            ("random", ops.random_selection), ("tournament", ops.tournament_selection), ("tournament5", ops.tournament_selection(k=5)),
            ("cyclic", ops.cyclic_selection), ("naive", ops.naive_cyclic_selection), ("worst", ops.tournament_selection(select_worst=True))])

    def f(self, phenome):
        p = np.asarray(phenome, float)
        v = float(np.sum(p * np.arange(1, len(p) + 1)))
        if self.holes and int(abs(v)) % 4 == 0:
            return math.nan
        if self.kind == 'vector':
            return np.array([v, 1 - v * self.scale])
        return v * self.scale if self.kind is float else self.kind(abs(v))

    def selector(self, pop):
        pop_ = pop
        for ind in self.sel(pop):
            self.draws.append((pop_, ind))
            yield ind

    def genome(self, k):
        self.counter += 1
        return np.array([self.counter * 10.0 + j for j in range(self.lens[k])])

    def split(self, phenome):
        self.t.eq(len(phenome), sum(self.lens), "a complete solution has a wrong length")
        parts, a = [], 0
        for l in self.lens:
            parts.append(phenome[a:a + l])
            a += l
        return parts

    def judge(self, ind, cur, subpops, calls, draws, trials, fitness, neg, d):
        """calls, draws: what happened while ind was evaluated."""
        t = self.t
        t.eq(len(calls), trials, "the wrapped problem was not asked once per trial", **d)
        used = [[] for _ in subpops]
        for c in calls:
            parts = self.split(-c if neg else c)
            for k, part in enumerate(parts):
                if k == cur:
                    t.check(np.array_equal(part, ind.genome), "the individual's own genome is not at its own position", part=part, own=ind.genome, **d)
                else:
                    m = [i for i in subpops[k] if np.array_equal(i.genome, part)]
                    t.check(len(m) >= 1, "a part of a complete solution is not a member of the current sub-population", subpopulation=k, part=part, **d)
                    used[k].append(m)
        for k, pop in enumerate(subpops):
            if k == cur:
                continue
            dr = [i for p, i in draws if any(i is x for x in pop)]
            t.eq(len(dr), trials, "not exactly one collaborator per trial was selected", subpopulation=k, **d)
            t.check(all(any(i is x for x in m) for i, m in zip(dr, used[k])), "the collaborator used is not the one selected", subpopulation=k, **d)
        t.close(fitness, np.mean([np.asarray(self.f(c), float) for c in calls], axis=0), "fitness is not the mean over the trials", rtol=1e-12, **d)
        t.event("trials", trials)

    def judge_log(self, stream, expected, d):
        rows = list(csv.reader(io.StringIO(stream.getvalue())))
        self.t.eq(rows[0], ["generation", "subpopulation", "individual_type", "collaborator_subpopulation", "genome", "fitness"], "log columns", **d)
        exp = [[str(g), str(s), ty, "" if c is None else str(c), str(gen), "" if f is None else str(f)] for g, s, ty, c, gen, f in expected]
        self.t.eq(rows[1:], exp, "the log does not hold exactly the trials made", **d)
        self.t.event("log_rows", len(exp))


@CHECK.section(quick=1500, thorough=25000, need={"trials": 5000, "log_rows": 3000})
def evaluation(t):
    rng = t.rng
    w = World(t, vector=True)
    iface = rng.choice(["operator", "problem", "problem-grouped"])
    cls = rng.choice([Individual, RobustIndividual]) if iface == "operator" else WholeEvaluatedIndividual
    trials = some_size(rng, 1, 4, 30)
    stream = io.StringIO() if rng.random() < .6 else None
    neg = rng.random() < .3
    kw = {}
    if stream is not None:
        kw["log_stream"] = stream
    if w.own_ctx:
        kw["context"] = w.ctx
    combined = []
    if iface == "operator":
        dec = Neg() if neg else IdentityDecoder()
        mode = rng.choice(["default", "custom", "other"])
        if mode == "other":
            from leap_ec.problem import concat_combine
            kw["combine"] = concat_combine
        if mode == "custom":
            def combine(collabs):
                i = Individual(np.concatenate([c.genome for c in collabs]), decoder=Neg() if neg else IdentityDecoder(), problem=w.problem)
                return i
            kw["combine"] = combine
        problem = w.problem
        op = ops.CooperativeEvaluate(trials, w.selector, **kw)
    else:
        dec = IdentityDecoder()
        if neg:
            kw["combined_decoder"] = Neg()
        problem = CooperativeProblem(w.problem, trials, w.selector, **kw)
    grid = rng.choice([3, 30])
    subs = [[mkind(problem, fitness=float(rng.randint(0, grid)), genome=w.genome(k), cls=cls, decoder=dec) for _ in range(some_size(rng, 1, 4, 40))]
            for k in range(w.n)]
    w.ctx["leap"]["subpopulations"] = subs
    expected = []
    d = dict(iface=iface, islands=w.n, lengths=w.lens, num_trials=trials, selector=w.sel_name, decoder="neg" if neg else "identity")
    gen = rng.randint(0, 5)
    for _ in range(rng.randint(1, 4)):
        cur = rng.randrange(w.n)
        w.ctx["leap"]["generation"] = gen
        w.ctx["leap"]["current_subpopulation"] = cur
        todo = [mkind(problem, fitness=rng.choice([None, 3.25]), genome=w.genome(cur), cls=cls, decoder=dec) for _ in range(some_size(rng, 1, 3, 40))]
        if iface != "problem-grouped" and w.kind != 'vector' and rng.random() < .2:
            todo.append(rng.choice(subs[cur]))          # a current member is evaluated again
        before = {id(i): snap(i) for p in subs for i in p}
        own_before = {id(i): snap(i) for i in todo}
        w.calls.clear()
        w.draws.clear()
        pre = [i.fitness for i in todo]
        marks = []
        if iface == "operator":
            it = op(iter(todo))
            out = []
            for _ in todo:
                a, b = len(w.calls), len(w.draws)
                out.append(next(it))
                marks.append((a, len(w.calls), b, len(w.draws)))
        elif iface == "problem":
            out = []
            it = ops.evaluate(iter(todo))
            for _ in todo:
                a, b = len(w.calls), len(w.draws)
                out.append(next(it))
                marks.append((a, len(w.calls), b, len(w.draws)))
        else:
            out = ops.grouped_evaluate(list(todo), max_individuals_per_chunk=rng.choice([None, 1, 2]))
            m = len(todo)
            t.eq(len(w.calls), m * trials, "the wrapped problem was not asked once per trial", **d)
            per = len(w.draws) // m
            marks = [(j * trials, (j + 1) * trials, j * per, (j + 1) * per) for j in range(m)]
        t.check(len(out) == len(todo) and all(a is b for a, b in zip(out, todo)), "evaluation did not hand on the same individuals", **d)
        for ind, (a, b, x, y), p in zip(todo, marks, pre):
            w.judge(ind, cur, subs, w.calls[a:b], w.draws[x:y], trials, ind.fitness, neg, d)
            s = snap(ind)
            o = own_before[id(ind)]
            t.check(s[:2] == o[:2] and s[3:] == o[3:], "evaluation changed more than the fitness of the individual", **d)
            for c in w.calls[a:b]:
                c = -c if neg else c
                for k, part in enumerate(w.split(c)):
                    coll = ind if k == cur else [i for i in subs[k] if np.array_equal(i.genome, part)][0]
                    expected.append((gen, cur, "Collaborator", k, coll.genome, p if coll is ind else coll.fitness))
                expected.append((gen, cur, "Combined Individual", None, c, w.f(-c if neg else c)))
        ids = set(map(id, todo))
        for pop in subs:
            for i in pop:
                if id(i) not in ids:
                    t.check(snap(i) == before[id(i)], "a collaborator was modified", **d)
        # evolution goes on: the sub-population is replaced in the context
        if rng.random() < .6:
            k = rng.randrange(w.n)
            subs[k] = [mkind(problem, fitness=float(rng.randint(0, grid)), genome=w.genome(k), cls=cls, decoder=dec) for _ in range(some_size(rng, 1, 4, 40))]
            if rng.random() < .5:
                subs = list(subs)
                w.ctx["leap"]["subpopulations"] = subs
            gen += 1
    if stream is not None:
        w.judge_log(stream, expected, d)
    t.sig(iface, w.n, tuple(w.lens), trials, w.sel_name, neg, stream is not None)
    t.sample(dict(d, evaluations=len(expected)))


@CHECK.section(quick=150, thorough=2500, need={"trials": 3000})
def runs(t):
    """A whole cooperative run: every evaluation uses the sub-populations current at that moment."""
    rng = t.rng
    w = World(t)
    trials = rng.randint(1, 3)
    iface = rng.choice(["operator", "problem"])
    kw = dict(context=w.ctx) if w.own_ctx else {}
    stream = io.StringIO() if rng.random() < .5 else None
    if stream is not None:
        kw["log_stream"] = stream
    ps = some_size(rng, 1, 4, 30)
    maxg = rng.randint(1, 3)
    d = dict(iface=iface, islands=w.n, lengths=w.lens, num_trials=trials, selector=w.sel_name, pop=ps, maxg=maxg)
    seen = []
    if iface == "operator":
        problem, cls = w.problem, Individual
        inner = ops.CooperativeEvaluate(trials, w.selector, **kw)
    else:
        problem, cls = CooperativeProblem(w.problem, trials, w.selector, **kw), WholeEvaluatedIndividual
        inner = ops.evaluate

    def tapped(stream_):
        box = []

        def feed():
            for i in stream_:
                box.append(i)
                yield i
        it = inner(feed())
        while True:
            a, b = len(w.calls), len(w.draws)
            # the current members by our own record, and the context must agree
            subs = [list(p) for p in current]
            c = w.ctx["leap"]["subpopulations"]
            t.check(len(c) == len(subs) and all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(c, subs)),
                    "the context's sub-populations are not the current ones", **d)
            cur = w.ctx["leap"]["current_subpopulation"]
            ind = next(it)
            w.judge(ind, cur, subs, w.calls[a:], w.draws[b:], trials, ind.fitness, False, d)
            seen.append((w.ctx["leap"]["generation"], cur))
            yield ind

    current = []

    def first(pop):
        current.append(list(pop))
        return ops.const_evaluate(pop, value=-1e9 if w.mx else 1e9)

    def record(pop):
        current[w.ctx["leap"]["current_subpopulation"]] = list(pop)
        return pop

    def mutate(stream_):
        for i in stream_:
            w.counter += 1
            k = w.ctx["leap"]["current_subpopulation"]
            i.genome = np.array([w.counter * 10.0 + j for j in range(w.lens[k])])
            i.fitness = None
            yield i
    reps = [Representation(initialize=lambda k=k: w.genome(k), individual_cls=cls) for k in range(w.n)]
    final = multi_population_ea(max_generations=maxg, num_populations=w.n, pop_size=ps, problem=problem if iface == "operator" else [problem] * w.n,
                                representation=reps, init_evaluate=first,
                                shared_pipeline=[ops.tournament_selection, ops.clone, mutate, tapped, ops.pool(size=ps), record],
                                **(dict(context=w.ctx) if w.own_ctx else {}))
    t.eq(seen, [(g, k) for g in range(maxg) for k in range(w.n) for _ in range(ps)], "individuals were not evaluated once each in their own sub-population", **d)
    t.check(all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(final, current)), "the result is not the last sub-populations", **d)
    t.check(all(len(p) == ps for p in final), "a sub-population changed its size", **d)
    if stream is not None:
        rows = list(csv.reader(io.StringIO(stream.getvalue())))[1:]
        t.eq(len(rows), len(w.calls) * (w.n + 1), "the log does not hold one line per collaborator and one per combined solution", **d)
    t.sig(iface, w.n, tuple(w.lens), trials, w.sel_name, ps, maxg)
