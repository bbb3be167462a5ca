"""C03: a recorded fitness always belongs to the individual's current genome."""
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib.kits import KITS, take
from leap_ec import ops
from leap_ec.individual import Individual
from leap_ec.problem import AverageFitnessProblem, FitnessOffsetProblem

CHECK = Check("C03", boost=4, rule="histories of evaluation, cloning, mutation, crossover and segment operators on populations of a "
              "random representation with a non-identity decoder and a fitness that identifies the phenome; after every "
              "operator each individual's fitness is recomputed; distinct by (kit, class, history)")

CLASSES = INDIVIDUAL_CLASSES


def invariant(t, pop, hist, kit):
    for i in pop:
        if i.fitness is not None:
            t.check(i.fitness == hash_fitness([i.decoder.tag, i.genome]),
                    "fitness does not belong to the current genome", history=hist, kit=kit, genome=repr(i.genome))
            t.event("fitness_checked")
        else:
            t.event("fitness_none")


@CHECK.section(quick=2500, thorough=50000, need={"operators": 2000, "fitness_checked": 2000})
def histories(t):
    rng = t.rng
    kit = rng.choice(KITS)(rng)
    problem = RecordingProblem(hash_fitness, rng.random() < .5)
    decs = [TagDecoder("t%d" % k) for k in range(rng.choice([1, 1, 2]))]
    cls = rng.choice(CLASSES)
    pop = [cls(kit.genome(), decoder=rng.choice(decs), problem=problem) for _ in range(2 * some_size(rng, 1, 3, 40))]
    hist = []
    for _ in range(rng.randint(2, 10)):
        menu = kit.unary() + kit.crossovers() + [("evaluate", None), ("clone", None), ("grouped", None),
                                                 ("evaluate_population", None), ("phenome", None), ("reorder", None), ("methods", None)]
        name, mk = rng.choice(menu)
        if name == "nary" and min(len(i.genome) for i in pop) < kit.max_points:
            continue
        hist.append(name)
        ids = [id(i) for i in pop]
        genomes = [freeze(i.genome) for i in pop]
        problem.calls.clear()
        problem.groups.clear()
        if name in ("evaluate", "grouped", "evaluate_population", "methods"):
            if name == "evaluate":
                out = take(ops.evaluate, pop)
            elif name == "methods":
                for i in pop:
                    r = i.evaluate()
                    t.check(r == i.fitness, "evaluate() returns something else than the fitness")
                out = pop
            elif name == "grouped":
                k = rng.choice([None, 1, 2, 3, len(pop), len(pop) + 3, max(1, len(pop) - 1)])
                hist[-1] = "grouped(%s)" % k
                out = ops.grouped_evaluate(list(pop), max_individuals_per_chunk=k) if rng.random() < .5 else \
                    ops.grouped_evaluate(max_individuals_per_chunk=k)(list(pop))
                if k is not None:
                    t.check(all(g <= k for g in problem.groups), "a group larger than allowed was evaluated",
                            groups=list(problem.groups), k=k)
            else:
                out = type(pop[0]).evaluate_population(list(pop))
            t.check([id(i) for i in out] == ids, "evaluation changed the individuals or their order", history=hist)
            t.check([freeze(i.genome) for i in out] == genomes, "evaluation changed a genome", history=hist)
            t.check(all(i.fitness is not None for i in out), "an individual was left without fitness", history=hist)
            exp = [freeze([i.decoder.tag, i.genome]) for i in out]
            t.check(problem.calls == exp,
                    "evaluation did not evaluate every individual's current phenome exactly once, in order", history=hist,
                    calls=len(problem.calls), individuals=len(exp))
            t.event("evaluations", len(out))
            pop = list(out)
        elif name == "clone":
            pop = take(ops.clone, pop)
            t.check(all(i.fitness is None for i in pop), "a clone has a fitness")
        elif name == "phenome":
            [i.phenome for i in pop]
        elif name == "reorder":
            rng.shuffle(pop)
        else:
            p0 = [(freeze(i.genome), i.fitness) for i in pop]
            pop = take(mk(), pop)
            t.check(sorted(map(id, pop)) == sorted(ids), "an operator lost or replaced an individual", history=hist)
            for i in pop:
                g, f = p0[ids.index(id(i))]
                if freeze(i.genome) != g:
                    t.check(i.fitness is None, "a changed genome kept its old fitness", history=hist, kit=kit.name)
            t.check(not problem.calls, "a variation operator evaluated an individual", history=hist)
        t.event("operators")
        invariant(t, pop, hist, kit.name)
    t.sig(kit.name, cls.__name__, tuple(hist))
    t.sample(dict(kit=kit.name, cls=cls.__name__, history=hist))


@CHECK.section(quick=600, thorough=10000, need={"groups": 300})
def grouped(t):
    """Grouped evaluation through problems with their own group semantics."""
    rng = t.rng
    base = RecordingProblem(lambda p: float(p[0]) * 3 + 1, True)
    n = rng.randint(1, 4)
    problem, k = rng.choice([(base, 1), (AverageFitnessProblem(base, n), n), (FitnessOffsetProblem(base, 5.0), 1)])
    off = 5.0 if isinstance(problem, FitnessOffsetProblem) else 0.0
    pop = [Individual(np.array([rng.randint(-99, 99), j]), problem=problem) for j in range(some_size(rng, 1, 9, 150))]
    chunk = rng.choice([None, 1, 2, 3, 4, 7, len(pop)])
    out = ops.grouped_evaluate(pop, max_individuals_per_chunk=chunk)
    t.check([id(i) for i in out] == [id(i) for i in pop], "grouped evaluation changed the order")
    for i in pop:
        t.close(i.fitness, float(i.genome[0]) * 3 + 1 + off, "grouped evaluation stored a fitness on the wrong individual",
                chunk=chunk, problem=type(problem).__name__)
    exp = [freeze(i.genome) for i in pop for _ in range(k)]
    t.check(base.calls == exp, "grouped evaluation did not evaluate each phenome once (n times when averaging), in order",
            chunk=chunk, n=k, calls=len(base.calls))
    t.event("groups")
    t.sig(type(problem).__name__, k, len(pop), chunk)
    t.sample(dict(problem=type(problem).__name__, n=k, size=len(pop), chunk=chunk))


@CHECK.section(quick=300, thorough=4000, need={"const": 200})
def constant(t):
    rng = t.rng
    problem = RecordingProblem(hash_fitness)
    pop = [mkind(problem, rng.choice([None, 3.0]), genome=np.array([rng.random()])) for _ in range(rng.randint(0, 8))]
    v = rng.choice([0, 0.0, -1.5, 7, np.float64(2), math.inf])
    before = [(id(i), freeze(i.genome), i.uuid) for i in pop]
    out = ops.const_evaluate(pop, value=v) if rng.random() < .5 else ops.const_evaluate(value=v)(pop)
    t.check([(id(i), freeze(i.genome), i.uuid) for i in out] == before, "constant evaluation changed the population")
    t.check(all(i.fitness == v for i in out), "constant evaluation did not assign the constant to everyone", value=v)
    t.check(not problem.calls, "constant evaluation evaluated the problem")
    t.event("const")
    t.sig(len(pop), repr(v))


@CHECK.section(quick=400, thorough=4000, need={"evaluated": 800})
def defaults(t):
    """Individuals made without naming a decoder are evaluated as they are."""
    rng = t.rng
    kit = rng.choice(KITS)(rng)
    problem = RecordingProblem(hash_fitness, rng.random() < .5)
    cls = rng.choice(CLASSES)
    late = rng.random() < .3
    pop = [cls(kit.genome()) if late else cls(kit.genome(), problem=problem) for _ in range(some_size(rng, 1, 4, 20))]
    for i in pop:
        i.problem = problem
    exp = [hash_fitness(i.genome) for i in pop]
    how = rng.choice(["evaluate", "grouped", "evaluate_population", "methods"])
    if rng.random() < .3:
        pop = take(ops.clone, pop)
    if how == "evaluate":
        out = take(ops.evaluate, pop)
    elif how == "grouped":
        out = ops.grouped_evaluate(list(pop))
    elif how == "methods":
        out = [i.evaluate() for i in pop] and pop
    else:
        out = cls.evaluate_population(list(pop))
    t.check([i.fitness for i in out] == exp, "an individual without an explicit decoder is not evaluated as it is",
            how=how, individual_cls=cls.__name__, got=[i.fitness for i in out][:5], expected=exp[:5])
    t.event("evaluated", len(out))
    t.sig(cls.__name__, how, kit.__class__.__name__, late)
