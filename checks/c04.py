"""C04: a failing evaluation is contained to the individual that failed."""
import itertools
import numpy as np
from toolz import pipe
from vlib.harness import Check
from vlib.gen import *
from vlib.kits import take
from leap_ec import ops
from leap_ec.algorithm import generational_ea
from leap_ec.representation import Representation
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.real_rep.ops import mutate_gaussian

CHECK = Check("C04", boost=4, level="fault_enumeration",
              rule="fault plans over (individual, stage decode/evaluate, exception type): every subset of failing individuals for "
              "populations of up to 5, random plans beyond, over several evaluation rounds and in whole runs; distinct by "
              "(class, path, stage pattern, exception types)")


class Custom(Exception):
    pass


class CustomDeep(ValueError):
    def __init__(self, a, b):
        super().__init__(a, b)


EXC = [lambda: ValueError("v"), lambda: RuntimeError("r"), lambda: ZeroDivisionError(), lambda: KeyError("k"),
       lambda: IndexError(3), lambda: TypeError("t"), lambda: AttributeError("a"), lambda: AssertionError(),
       lambda: OSError(5, "io"), lambda: MemoryError(), lambda: RecursionError("deep"), lambda: StopIteration(1),
       lambda: NotImplementedError(), lambda: TimeoutError("slow"), lambda: FloatingPointError(), lambda: OverflowError(),
       lambda: UnicodeError("u"), lambda: Custom("c"), lambda: CustomDeep(1, 2), lambda: Exception("plain"),
       lambda: ConnectionError(), lambda: EOFError(), lambda: ImportError("x"), lambda: NameError("n"),
       lambda: StopAsyncIteration(), lambda: LookupError(), lambda: PermissionError(1, "no"), lambda: SystemError("s"),
       lambda: Warning("w"), lambda: ArithmeticError()]


class Faulty(ScalarProblem):
    """plan: {gene id: exception}; fitness = gene value."""

    def __init__(self, maximize):
        super().__init__(maximize)
        self.plan = {}
        self.seen = []

    def evaluate(self, phenome, *args, **kwargs):
        k = int(phenome[0])
        self.seen.append(k)
        if k in self.plan:
            raise self.plan[k]
        return float(phenome[1])


class FaultyDecoder(Decoder):
    def __init__(self):
        self.plan = {}

    def decode(self, genome, *args, **kwargs):
        k = int(genome[0])
        if k in self.plan:
            raise self.plan[k]
        return genome


def population(rng, n, cls, problem, dec):
    return [cls(np.array([k, rng.randint(-40, 40) / 4.0]), decoder=dec, problem=problem) for k in range(n)]


def evaluate_all(t, rng, pop, path):
    if path == "op":
        out = take(ops.evaluate, pop)
    elif path == "population":
        out = type(pop[0]).evaluate_population(list(pop))
    else:
        out = []
        for i in pop:
            r = i.evaluate()
            t.check(r is i.fitness or r == i.fitness or (isnan(r) and isnan(i.fitness)),
                    "evaluate() returns something else than the fitness it stored", returned=repr(r), stored=repr(i.fitness))
            out.append(i)
    t.check([id(i) for i in out] == [id(i) for i in pop], "evaluation with failures changed the population or its order")
    return out


def verify(t, pop, plan, mx, **d):
    for i in pop:
        k = int(i.genome[0])
        if k in plan:
            t.check(isinstance(i.fitness, float) and isnan(i.fitness), "a failed individual has no NaN fitness",
                    fitness=repr(i.fitness), exc=repr(plan[k]), **d)
            t.check(i.is_viable is False, "a failed individual is not marked not viable", **d)
            t.check(i.exception is plan[k], "a failed individual does not carry its exception", got=repr(i.exception),
                    expected=repr(plan[k]), **d)
            t.event("failures")
        else:
            t.check(i.fitness == i.genome[1], "an individual that did not fail has a wrong fitness", fitness=repr(i.fitness),
                    expected=i.genome[1], **d)
            t.check(i.is_viable is True, "an individual that did not fail is not viable", **d)
            t.event("successes")
    probe = [mkind(pop[0].problem, f) for f in (-math.inf, math.inf, 0.0, -1e300, 1e300)]
    numeric = [i for i in pop if int(i.genome[0]) not in plan] + probe
    for i in pop:
        if int(i.genome[0]) in plan:
            for j in numeric:
                t.check(i < j and j > i and not (i > j) and not (j < i) and not (i >= j) and i != j,
                        "a failed individual does not compare worse than a number", other=repr(j.fitness), maximize=mx, **d)
    if any(int(i.genome[0]) not in plan for i in pop):
        t.check(not isnan(max(pop).fitness), "the best of a partly failed population is a failed individual", **d)
    if any(int(i.genome[0]) in plan for i in pop):
        t.check(isnan(min(pop).fitness), "the worst of a partly failed population is not a failed individual", **d)


SMALL = [(n, s) for n in range(1, 6) for s in range(2 ** n)]
CONFIGS = [(n, s, stage, cls, path) for (n, s) in SMALL for stage in ("decode", "evaluate")
           for cls in (RobustIndividual, DistributedIndividual) for path in ("op", "population", "method")]


@CHECK.section(quick=len(CONFIGS), thorough=10 * len(CONFIGS), need={"failures": 500, "successes": 500})
def subsets(t):
    rng = t.rng
    n, s, stage, cls, path = CONFIGS[t.index % len(CONFIGS)]
    mx = rng.random() < .5
    problem, dec = Faulty(mx), FaultyDecoder()
    pop = population(rng, n, cls, problem, dec)
    plan = {k: rng.choice(EXC)() for k in range(n) if s >> k & 1}
    (dec if stage == "decode" else problem).plan = plan
    evaluate_all(t, rng, pop, path)
    exp = [k for k in range(n) if not (stage == "decode" and k in plan)]
    t.check(problem.seen == exp, "a failure kept another individual from being evaluated (or evaluated it twice)",
            seen=problem.seen, expected=exp)
    verify(t, pop, plan, mx, stage=stage, cls=cls.__name__, path=path)
    t.sig(n, s, stage, cls.__name__, path)
    t.sample(dict(n=n, failing=sorted(plan), stage=stage, cls=cls.__name__, path=path, exceptions=[repr(e) for e in plan.values()]))


@CHECK.section(quick=600, thorough=15000, need={"rounds": 500})
def rounds(t):
    """Repeated evaluations: an individual recovers, and may fail again."""
    rng = t.rng
    cls = rng.choice([RobustIndividual, DistributedIndividual])
    mx = rng.random() < .5
    problem, dec = Faulty(mx), FaultyDecoder()
    pop = population(rng, some_size(rng, 1, 12, 120), cls, problem, dec)
    trace = []
    for r in range(rng.randint(2, 5)):
        p = rng.choice([0, .2, .5, 1])
        plan = {k: rng.choice(EXC)() for k in range(len(pop)) if rng.random() < p}
        dec.plan = {k: e for k, e in plan.items() if rng.random() < .4}
        problem.plan = {k: e for k, e in plan.items() if k not in dec.plan}
        path = rng.choice(["op", "population", "method"])
        if rng.random() < .3:
            pop = take(ops.clone, pop)
        evaluate_all(t, rng, pop, path)
        verify(t, pop, plan, mx, round=r, path=path)
        trace.append((path, tuple(sorted(plan)), tuple(sorted(dec.plan))))
        t.event("rounds")
    t.sig(cls.__name__, tuple(trace))
    t.sample(dict(cls=cls.__name__, rounds=trace))


@CHECK.section(quick=300, thorough=3000, need={"escaped": 200})
def ordinary(t):
    """The ordinary classes let the exception through, and keep working afterwards."""
    rng = t.rng
    cls = rng.choice([Individual, WholeEvaluatedIndividual])
    problem, dec = Faulty(True), FaultyDecoder()
    pop = population(rng, 3, cls, problem, dec)
    e = rng.choice(EXC[:11] + EXC[12:24] + EXC[25:])()
    bad = rng.randrange(3)
    (dec if rng.random() < .5 else problem).plan = {bad: e}
    path = rng.choice(["method", "population"])
    try:
        if path == "method":
            for i in pop:
                i.evaluate()
        else:
            cls.evaluate_population(pop)
        t.check(False, "an ordinary individual swallowed the exception of its evaluation", exc=repr(e), cls=cls.__name__)
    except type(e) as got:
        t.check(got is e, "another exception came through", got=repr(got))
    t.event("escaped")
    t.check(all(pop[k].fitness == pop[k].genome[1] for k in range(bad)), "individuals before the failing one lost their fitness")
    t.sig(cls.__name__, type(e).__name__, bad, path)


@CHECK.section(quick=120, thorough=2000, need={"runs": 60, "failures": 200})
def runs(t):
    """Whole runs in which a deterministic part of the search space fails."""
    rng = t.rng
    mx = rng.random() < .5
    cls = rng.choice([RobustIndividual, DistributedIndividual])
    mod, res = rng.randint(2, 5), rng.randint(0, 1)
    salt = rng.randint(0, 10 ** 6)
    log = []

    def bad(x):
        import zlib
        return zlib.crc32(repr((salt, [float(v) for v in x])).encode()) % mod <= res

    def f(x):
        if bad(x):
            log.append(("fail", freeze(x)))
            raise rng.choice(EXC)()
        v = float(sum(x))
        log.append(("ok", freeze(x)))
        return v
    problem = FunctionProblem(f, mx)
    dec = IdentityDecoder()
    n, gens = some_size(rng, 2, 10, 60), rng.randint(1, 6)
    rep = Representation(initialize=lambda: np.array([rng.uniform(-1, 1) for _ in range(3)]), decoder=dec, individual_cls=cls)
    hist = []

    def probe(pop):
        hist.append([i.fitness for i in pop])
        return pop
    final = generational_ea(max_generations=gens, pop_size=n, problem=problem, representation=rep, k_elites=rng.choice([0, 1, 2]) or 1,
                            pipeline=[ops.tournament_selection, ops.clone,
                                      mutate_gaussian(std=.3, expected_num_mutations=1), ops.evaluate, ops.pool(size=n), probe])
    t.check(len(final) == n, "a run with failures lost individuals", size=len(final))
    t.check(len(log) == n * (gens + 1), "a run with failures made a wrong number of evaluations", got=len(log), expected=n * (gens + 1))
    for i in final:
        if bad(i.genome):
            t.check(isnan(i.fitness) and i.is_viable is False and isinstance(i.exception, Exception),
                    "a failed individual of the final population is not marked as such")
        else:
            t.close(i.fitness, float(sum(i.genome)), "wrong fitness after a run with failures")
            t.check(i.is_viable is True, "viable individual marked not viable")
    if any(k == "ok" for k, _ in log):
        t.check(not isnan(max(final).fitness), "a run lost its best viable individual to failed ones")
    t.event("runs")
    t.event("failures", sum(k == "fail" for k, _ in log))
    t.sig(cls.__name__, mx, n, gens, mod, res, sum(k == "fail" for k, _ in log))


@CHECK.section(quick=60, thorough=600, need={"returned_nan": 60})
def returned_nan(t):
    """An evaluation that returns, whatever it returns, did not fail."""
    rng = t.rng
    cls = rng.choice([RobustIndividual, DistributedIndividual])
    mx = rng.random() < .5
    values = [rng.choice([math.nan, math.inf, -math.inf, 0, 0.0, 2.5, False, np.float32(1.5), np.int64(-3)]) for _ in range(rng.randint(1, 8))]

    class Returns(ScalarProblem):
        def evaluate(self, phenome, *args, **kwargs):
            return values[int(phenome[0])]
    problem = Returns(mx)
    pop = [cls(np.array([k]), decoder=IdentityDecoder(), problem=problem) for k in range(len(values))]
    if rng.random() < .3:               # after a failure
        for i in pop:
            i.fitness, i.is_viable, i.exception = math.nan, False, ValueError("earlier")
    evaluate_all(t, rng, pop, rng.choice(["op", "population", "method"]))
    for i, v in zip(pop, values):
        t.check(i.fitness == v or (isnan(i.fitness) and isnan(v)), "an individual that did not fail has a wrong fitness", value=repr(v), fitness=repr(i.fitness))
        t.check(i.is_viable is True, "an individual that did not fail is not viable", value=repr(v), cls=cls.__name__)
        t.event("returned_nan", int(isnan(v)))
    t.sig(cls.__name__, mx, tuple(map(repr, values)))
