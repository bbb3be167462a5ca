"""Scenarios whose complete trace must depend on the two seeded random sources only.

A scenario is a function (cfg, out): `cfg` is a private random generator that picks
the configuration, `out(label, value)` records the trace.  Both global sources are
seeded before it is called.  Run as a program it reads a JSON list of [name, seed]
and prints the digests, so that another process (with another hash seed, another
memory layout, another order of scenarios) can be compared."""
import contextlib
import hashlib
import io
import json
import os
import random
import sys
import tempfile

import numpy as np

SCENARIOS = {}


def scenario(f):
    SCENARIOS[f.__name__] = f
    return f


def trace(name, seed, config=None):
    """[(label, digest)] of one run."""
    from vlib.gen import freeze
    parts = []

    def out(label, value):
        parts.append((label, hashlib.blake2b(repr(freeze(value)).encode(), digest_size=8).hexdigest()))
    cfg = random.Random("%s-%d" % (name, seed if config is None else config))
    random.seed(seed)
    np.random.seed(seed)
    SCENARIOS[name](cfg, out)
    # the sources themselves must have been used in the same way
    out("random", random.random())
    out("numpy", float(np.random.random()))
    return parts


# ------------------------------------------------------------------ scenarios
from leap_ec import ops, Representation                                             # noqa: E402
from leap_ec.algorithm import generational_ea, multi_population_ea, random_search   # noqa: E402
from leap_ec.binary_rep.initializers import create_binary_sequence                  # noqa: E402
from leap_ec.binary_rep.ops import mutate_bitflip                                   # noqa: E402
from leap_ec.binary_rep.problems import MaxOnes, DeceptiveTrap, LeadingOnes         # noqa: E402
from leap_ec.decoder import IdentityDecoder                                         # noqa: E402
from leap_ec.global_vars import context as GLOBAL                                   # noqa: E402
from leap_ec.individual import Individual, WholeEvaluatedIndividual                 # noqa: E402
from leap_ec.int_rep.initializers import create_int_vector                          # noqa: E402
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial                     # noqa: E402
from leap_ec.multiobjective import ops as mops                                      # noqa: E402
from leap_ec.multiobjective.asynchronous import ENLUInserter                        # noqa: E402
from leap_ec.multiobjective.nsga2 import generalized_nsga_2                         # noqa: E402
from leap_ec.multiobjective.problems import SCHProblem, ZDT1Problem, ZDT5Problem, MultiObjectiveProblem  # noqa: E402
from leap_ec.parsimony import koza_parsimony, lexical_parsimony                     # noqa: E402
from leap_ec.problem import FunctionProblem, CooperativeProblem, AverageFitnessProblem  # noqa: E402
from leap_ec.real_rep import problems as R                                          # noqa: E402
from leap_ec.real_rep.initializers import create_real_vector                        # noqa: E402
from leap_ec.real_rep.ops import mutate_gaussian                                    # noqa: E402
from leap_ec.segmented_rep.initializers import create_segmented_sequence            # noqa: E402
from leap_ec import probe                                                           # noqa: E402
from leap_ec.util import get_step, inc_generation, inc_births                       # noqa: E402
from vlib.kits import KITS, take                                                    # noqa: E402


def pop_out(out, label, pop):
    out(label, [(i.genome, None if i.fitness is None else np.asarray(i.fitness).tolist()) for i in pop])


def kit_scenario(K):
    def f(cfg, out):
        kit = K(cfg)
        prob = FunctionProblem(lambda x: 0.0, True)
        for name, make in kit.unary() + kit.crossovers():
            pop = [Individual(kit.genome(), problem=prob) for _ in range(8)]
            res = take(make(), pop)
            out(name, [i.genome for i in res])
    f.__name__ = "op_" + kit_name(K)
    return f


def kit_name(K):
    return K.name.replace("-", "_") if K.name != "?" else K.__name__


for _K in KITS:
    SCENARIOS["op_" + kit_name(_K)] = kit_scenario(_K)


def tied_population(cfg, n=14):
    prob = FunctionProblem(lambda x: 0.0, cfg.random() < .5)
    pop = []
    for k in range(n):
        i = Individual(np.array([k]), problem=prob)
        i.fitness = float(cfg.randint(0, 3))
        pop.append(i)
    return pop


@scenario
def selections(cfg, out):
    pop = tied_population(cfg)
    from itertools import islice
    for name, op in [("tournament", ops.tournament_selection), ("tournament3", ops.tournament_selection(k=3)),
                     ("worst", ops.tournament_selection(k=2, select_worst=True)), ("random", ops.random_selection), ("cyclic", ops.cyclic_selection),
                     ("naive", ops.naive_cyclic_selection), ("proportional", ops.proportional_selection(offset=1)), ("sus", ops.sus_selection(offset=1)),
                     ("koza", ops.tournament_selection(key=koza_parsimony(penalty=.1))), ("lexical", ops.tournament_selection(key=lexical_parsimony))]:
        out(name, [int(i.genome[0]) for i in islice(op(pop), 25)])
    a, b = pop[:7], pop[7:]
    out("truncation", [int(i.genome[0]) for i in ops.truncation_selection(list(a), size=4)])
    out("truncation+", [int(i.genome[0]) for i in ops.truncation_selection(list(a), size=5, parents=list(b))])
    out("insertion", [int(i.genome[0]) for i in ops.insertion_selection(list(a), list(b))])
    out("elitist", [int(i.genome[0]) for i in ops.elitist_survival(list(a), list(b), k=3)])
    # two missing values are compared by a coin
    nan = [Individual(np.array([k]), problem=pop[0].problem) for k in range(3)]
    for i in nan:
        i.fitness = float("nan")
    out("coin", [bool(pop[0].problem.worse_than(float("nan"), float("nan"))) for _ in range(30)])


@scenario
def initialisers(cfg, out):
    d = cfg.randint(1, 6)
    for name, init in [("bits", create_binary_sequence(d)), ("reals", create_real_vector([(-1, 1)] * d)), ("ints", create_int_vector([(0, 9)] * d)),
                       ("segments", create_segmented_sequence(lambda: random.randint(1, 4), create_binary_sequence(d)))]:
        out(name, [init() for _ in range(10)])
    pop = Representation(initialize=create_real_vector([(-1, 1)] * d)).create_population(5, SCHProblem())
    out("population", [i.genome for i in pop])


@scenario
def ga_binary(cfg, out):
    n = cfg.choice([4, 9])
    stream, attrs = io.StringIO(), io.StringIO()
    prob = cfg.choice([MaxOnes, DeceptiveTrap, LeadingOnes])()
    bsf = probe.BestSoFarProbe(stream=io.StringIO(), header=False)
    with contextlib.redirect_stdout(io.StringIO()) as text:
        final = generational_ea(6, n, prob, Representation(initialize=create_binary_sequence(10)),
                                [ops.tournament_selection(k=2), ops.clone, mutate_bitflip(expected_num_mutations=1), ops.UniformCrossover(p_swap=.3),
                                 ops.evaluate, ops.pool(size=n), probe.FitnessStatsCSVProbe(stream=stream),
                                 probe.AttributesCSVProbe(stream=attrs, do_fitness=True, do_genome=True)], k_elites=1)
    pop_out(out, "final", final)
    out("stats", stream.getvalue())
    out("attributes", attrs.getvalue())
    out("stdout", text.getvalue())


@scenario
def ga_real(cfg, out):
    n, d = cfg.choice([4, 7]), cfg.choice([1, 3])
    cls = cfg.choice([R.SpheroidProblem, R.RastriginProblem, R.NoisyQuarticProblem, R.AckleyProblem])
    prob = cls()
    if cfg.random() < .4:
        prob = AverageFitnessProblem(prob, 3)
    bounds = [cls.bounds] * d
    hist = []

    def tap(pop):
        hist.append([(i.genome.copy(), float(i.fitness)) for i in pop])
        return pop
    final = generational_ea(8, n, prob, Representation(initialize=create_real_vector(bounds)),
                            [ops.tournament_selection, ops.clone, ops.NAryCrossover(num_points=1),
                             mutate_gaussian(std=.3, expected_num_mutations=cfg.choice([1, "isotropic"]), bounds=bounds), ops.evaluate, ops.pool(size=n), tap])
    out("history", hist)
    pop_out(out, "final", final)


@scenario
def ga_int(cfg, out):
    n, b = 6, [(0, 20)] * 4
    prob = FunctionProblem(lambda x: float(np.sum(x)), True)
    final = generational_ea(6, n, prob, Representation(initialize=create_int_vector(b)),
                            [ops.proportional_selection(offset=1), ops.clone, mutate_randint(bounds=b, expected_num_mutations=1),
                             mutate_binomial(std=1.5, bounds=b, expected_num_mutations=1), ops.evaluate, ops.pool(size=2 * n), ops.truncation_selection(size=n)])
    pop_out(out, "final", final)


@scenario
def ga_segmented(cfg, out):
    from leap_ec.segmented_rep.ops import apply_mutation, add_segment, remove_segment, copy_segment
    from leap_ec.binary_rep.ops import genome_mutate_bitflip
    init = create_binary_sequence(4)
    n = 6
    prob = FunctionProblem(lambda x: float(sum(np.sum(s) for s in x)) - len(x), True)
    final = generational_ea(6, n, prob, Representation(initialize=create_segmented_sequence(lambda: random.randint(1, 4), init)),
                            [ops.cyclic_selection, ops.clone, apply_mutation(mutator=genome_mutate_bitflip, expected_num_mutations=1),
                             add_segment(seq_initializer=init, probability=.3, append=False), remove_segment(probability=.2), copy_segment(probability=.3, append=False),
                             ops.evaluate, ops.pool(size=n)])
    pop_out(out, "final", final)


@scenario
def simple(cfg, out):
    from leap_ec.simple import ea_solve
    s = io.StringIO()
    best = ea_solve(lambda x: float(np.sum(np.asarray(x) ** 2)), [(-5.12, 5.12)] * 3, generations=6, pop_size=5, mutation_std=.5, stream=s)
    out("best", best)
    out("text", s.getvalue())


@scenario
def search(cfg, out):
    tr = random_search(15, R.SpheroidProblem(), Representation(initialize=create_real_vector([(-1, 1)] * 2)), [])
    pop_out(out, "random search", tr)


@scenario
def islands(cfg, out):
    import networkx as nx
    n, k = 5, 3
    top = cfg.choice([nx.complete_graph(k), nx.cycle_graph(k), nx.cycle_graph(k, create_using=nx.DiGraph)])
    log = io.StringIO()
    csvs = [io.StringIO() for _ in range(k)]
    final = multi_population_ea(8, k, n, MaxOnes(), Representation(initialize=create_binary_sequence(12)),
                                [ops.tournament_selection, ops.clone, mutate_bitflip(expected_num_mutations=1), ops.evaluate, ops.pool(size=n),
                                 ops.migrate(top, emigrant_selector=ops.tournament_selection, replacement_selector=ops.random_selection, migration_gap=2,
                                             metric=ops.migration_metric(stream=log))],
                                subpop_pipelines=[[probe.FitnessStatsCSVProbe(stream=csvs[i], notes={"island": i})] for i in range(k)])
    for i, p in enumerate(final):
        pop_out(out, "island %d" % i, p)
    out("migrations", [",".join(c for j, c in enumerate(line.split(",")) if "uuid" not in c) for line in log.getvalue().splitlines()])
    out("stats", [c.getvalue() for c in csvs])


@scenario
def cooperation(cfg, out):
    n, k = 4, 3
    log = io.StringIO()
    rep = Representation(initialize=create_binary_sequence(4))
    if cfg.random() < .5:
        ev = ops.CooperativeEvaluate(num_trials=2, collaborator_selector=ops.random_selection, log_stream=log)
        final = multi_population_ea(4, k, n, MaxOnes(), rep,
                                    [ops.tournament_selection, ops.clone, mutate_bitflip(expected_num_mutations=1), ev, ops.pool(size=n)], init_evaluate=ops.const_evaluate(value=-1))
    else:
        prob = CooperativeProblem(MaxOnes(), 2, ops.random_selection, log_stream=log)
        rep = Representation(initialize=create_binary_sequence(4), individual_cls=WholeEvaluatedIndividual)
        final = multi_population_ea(4, k, n, prob, rep,
                                    [ops.tournament_selection, ops.clone, mutate_bitflip(expected_num_mutations=1), ops.evaluate, ops.pool(size=n)], init_evaluate=ops.const_evaluate(value=-1))
    for i, p in enumerate(final):
        pop_out(out, "subpopulation %d" % i, p)
    out("log", log.getvalue())


class Grid(MultiObjectiveProblem):
    """Few distinct values, so that ranks and distances are full of ties."""

    def __init__(self, m=2):
        super().__init__((True,) * m)
        self.m = m

    def evaluate(self, phenome, *a, **k):
        return np.array([float(np.sum(phenome[i::self.m])) for i in range(self.m)])


def nsga(cfg, out, rank):
    n = cfg.choice([6, 10])
    if cfg.random() < .5:
        prob, rep, mut = Grid(cfg.choice([2, 3])), Representation(initialize=create_binary_sequence(8)), mutate_bitflip(expected_num_mutations=1)
    else:
        prob = ZDT1Problem(n=3, check_phenome=False)
        rep, mut = Representation(initialize=create_real_vector(prob.bounds)), mutate_gaussian(std=.2, expected_num_mutations=1, bounds=prob.bounds)
    hist = []

    def tap(pop):
        hist.append([(i.genome.copy(), np.asarray(i.fitness).tolist(), getattr(i, "rank", None)) for i in pop])
        return pop
    final = generalized_nsga_2(5, n, prob, rep, [ops.tournament_selection, ops.clone, mut, ops.UniformCrossover(p_swap=.2), ops.evaluate, ops.pool(size=n), tap], rank_func=rank)
    out("history", hist)
    out("final", [(i.genome, np.asarray(i.fitness).tolist(), int(i.rank), float(i.distance)) for i in final])


@scenario
def nsga2_fast(cfg, out):
    nsga(cfg, out, mops.fast_nondominated_sort)


@scenario
def nsga2_ordinal(cfg, out):
    nsga(cfg, out, mops.rank_ordinal_sort)


@scenario
def enlu(cfg, out):
    prob, ins, pop = Grid(2), ENLUInserter(), []
    size = cfg.choice([4, 8])
    for k in range(25):
        i = Individual(np.random.randint(0, 2, size=8), problem=prob)
        i.evaluate()
        i.k = k
        ins(i, pop, size)
        out("population", [(x.k, int(x.rank), float(x.distance)) for x in pop])


@scenario
def cartesian_programs(cfg, out):
    from leap_ec.executable_rep import cgp
    from leap_ec.executable_rep.problems import TruthTableProblem
    dec = cgp.CGPDecoder([cgp.NAND(), cgp.NotX()], num_inputs=2, num_outputs=1, num_layers=6, nodes_per_layer=1, max_arity=2)
    prob = TruthTableProblem(lambda x: [int(bool(x[0]) != bool(x[1]))], 2, 1)
    n = 5
    final = generational_ea(5, n, prob, Representation(decoder=dec, initialize=cgp.create_cgp_vector(dec)),
                            [ops.tournament_selection, ops.clone, cgp.cgp_mutate(dec, expected_num_mutations=1), ops.evaluate, ops.pool(size=n)])
    pop_out(out, "final", final)
    out("graphs", [sorted(map(str, i.decode().graph.edges(data=True))) for i in final])


class Walk:
    """A small deterministic environment that draws from the seeded sources."""
    class _S:
        def __init__(self, shape):
            self.shape = shape
    observation_space, action_space = _S((2,)), _S(())

    def reset(self, **kw):
        self.t, self.x = 0, np.random.uniform(-1, 1, size=2)
        return self.x.copy(), {}

    def step(self, action):
        self.t += 1
        self.x = self.x + (float(np.ravel(action)[0]) - 1) * .1 + random.uniform(-.1, .1)
        return self.x.copy(), -float(np.abs(self.x).sum()), self.t > 6, False, {}


@scenario
def rule_systems(cfg, out):
    import gymnasium as gym
    from leap_ec.executable_rep.rules import PittRulesDecoder
    from leap_ec.executable_rep.problems import EnvironmentProblem
    from leap_ec.int_rep.ops import individual_mutate_randint
    from leap_ec.real_rep.ops import genome_mutate_gaussian
    dec = PittRulesDecoder(gym.spaces.Box(-1.0, 1.0, shape=(2,), dtype=np.float64), gym.spaces.Discrete(3))
    prob = EnvironmentProblem(2, 6, Walk(), "reward", False)
    rule = lambda: np.concatenate([np.random.uniform(-1, 1, size=4), [float(random.randint(0, 2))]])     # noqa
    n = 5
    final = generational_ea(4, n, prob, Representation(decoder=dec, initialize=create_segmented_sequence(3, rule)),
                            [ops.tournament_selection, ops.clone,
                             dec.mutator(condition_mutator=genome_mutate_gaussian(std=.3, expected_num_mutations=1, bounds=dec.condition_bounds),
                                         action_mutator=individual_mutate_randint(bounds=dec.action_bounds, probability=.5)), ops.evaluate, ops.pool(size=n)])
    pop_out(out, "final", final)
    ex = dec.decode([np.array([-1., 1., -1., 1., float(a)]) for a in (0, 1, 2, 1)])       # all rules match equally well
    out("ties", [int(np.ravel(ex(np.zeros(2)))[0]) for _ in range(25)])


@scenario
def neural_networks(cfg, out):
    from leap_ec.executable_rep.neural_network import SimpleNeuralNetworkDecoder
    from leap_ec.executable_rep.executable import ArgmaxExecutable, WrapperDecoder
    from leap_ec.executable_rep.problems import EnvironmentProblem
    dec = SimpleNeuralNetworkDecoder(shape=(2, 3, 3))
    prob = EnvironmentProblem(2, 5, Walk(), "reward", False)
    n = 4
    w = dec.wrapped_decoder.length if hasattr(dec, "wrapped_decoder") else 3 * 3 + 4 * 3
    final = generational_ea(4, n, prob, Representation(decoder=WrapperDecoder(dec, ArgmaxExecutable), initialize=create_real_vector([(-1, 1)] * w)),
                            [ops.tournament_selection, ops.clone, mutate_gaussian(std=.3, expected_num_mutations=2), ops.evaluate, ops.pool(size=n)])
    pop_out(out, "final", final)


@scenario
def random_problems(cfg, out):
    d = cfg.choice([2, 3, 5])
    x = np.linspace(-1, 1, d)
    out("matrix", R.random_orthonormal_matrix(d))
    out("translated", float(R.TranslatedProblem.random(R.SpheroidProblem(), (-2, 2), d).evaluate(x)))
    out("transformed", float(R.MatrixTransformedProblem.random_orthonormal(R.RosenbrockProblem(), d).evaluate(x)))
    out("noise", [float(R.NoisyQuarticProblem().evaluate(x)) for _ in range(5)])
    p = R.QuadraticFamilyProblem.generate(d, 3)
    out("basins", [float(p.evaluate(x * s)) for s in (0, 1, 3)])


@scenario
def features(cfg, out):
    from leap_ec.landscape_features.exploratory import ELAConvexity
    prob = R.RastriginProblem()
    rep = Representation(initialize=create_real_vector([(-5, 5)] * 2))
    pop = rep.create_population(6, prob)
    for i in pop:
        i.evaluate()
    e = ELAConvexity(prob, rep, pop, 20)
    out("deltas", [float(v) for v in e.deltas])


@scenario
def counters(cfg, out):
    """Counters start where they are told to, whatever ran before."""
    ctx = GLOBAL
    g = inc_generation(context=ctx)
    b = inc_births(context=ctx)
    out("generations", [g() for _ in range(3)])
    out("births", [b() for _ in range(3)])
    out("step", get_step(context=ctx, use_generation=True))


@scenario
def branded(cfg, out):
    """Runs with counters and attribute tables."""
    from leap_ec.util import birth_brander
    n = 4
    attrs = io.StringIO()
    tab = probe.AttributesCSVProbe(attributes=["birth"], do_dataframe=True, stream=attrs, do_genome=True, do_fitness=True)
    brand = birth_brander()
    final = generational_ea(4, n, MaxOnes(), Representation(initialize=create_binary_sequence(6)),
                            [ops.random_selection, ops.clone, mutate_bitflip(expected_num_mutations=1), ops.evaluate, brand, ops.pool(size=n), tab])
    pop_out(out, "final", final)
    out("table", attrs.getvalue())
    out("frame", tab.dataframe.to_csv())


class Stop(Exception):
    pass


def interrupted(rng):
    """A run that ends with an exception in the middle."""
    left = [rng.randint(1, 40)]

    def f(x):
        left[0] -= 1
        if left[0] < 0:
            raise Stop
        return float(np.sum(x))
    prob = FunctionProblem(f, True)
    rep = Representation(initialize=create_real_vector([(-1, 1)] * 2))
    pipe = [rng.choice([ops.tournament_selection, ops.cyclic_selection]), ops.clone, mutate_gaussian(std=.1, expected_num_mutations=1), ops.evaluate, ops.pool(size=4)]
    try:
        if rng.random() < .5:
            generational_ea(20, 4, prob, rep, pipe)
        else:
            multi_population_ea(20, 2, 4, prob, rep, pipe)
    except Stop:
        return True
    return False


NONRANDOM = {"counters", "op_list"} # traces that may well be equal for different seeds


def main():
    import warnings
    import logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    real = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    jobs = json.load(sys.stdin)
    # another memory layout: objects that stay
    junk = [object() for _ in range(random.Random(os.getpid()).randint(0, 5000))]
    res = [trace(n, s) for n, s in jobs]
    json.dump(res, real)
    real.flush()
    del junk


if __name__ == "__main__":
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    main()
