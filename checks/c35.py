"""C35: runs that are under way at the same time do not disturb each other."""
import copy
import hashlib
import io
import random
import sys
import threading

import numpy as np

from leap_ec import ops, probe, Representation
from leap_ec.algorithm import generational_ea, multi_population_ea, random_search, stop_at_generation
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.binary_rep.decoders import BinaryToRealDecoder, BinaryToIntDecoder, BinaryToRealGreyDecoder
from leap_ec.binary_rep.ops import mutate_bitflip, genome_mutate_bitflip
from leap_ec.binary_rep.problems import MaxOnes, DeceptiveTrap, LeadingOnes
from leap_ec.decoder import IdentityDecoder
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.global_vars import context as GLOBAL
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial
from leap_ec.multiobjective import ops as mops
from leap_ec.multiobjective.asynchronous import ENLUInserter
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective.problems import SCHProblem, ZDT1Problem, ZDT2Problem, ZDT3Problem
from leap_ec.parsimony import koza_parsimony, lexical_parsimony
from leap_ec.problem import FunctionProblem, CooperativeProblem, AverageFitnessProblem, AlternatingProblem, FitnessOffsetProblem
from leap_ec.real_rep import problems as R
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from leap_ec.segmented_rep.ops import apply_mutation, add_segment, remove_segment, copy_segment
from leap_ec.util import inc_generation, inc_births, get_step, birth_brander
from vlib.gen import freeze
from vlib.harness import Check

CHECK = Check("C35", rule="complete traces of runs of every algorithm advanced in random interleavings (switched at evaluations, initialisations, decodings and between operators, "
              "each with its own context and its own view of the random sources, with or without shared problems, decoders, representations and operators) against the same "
              "runs alone, plus runs in free-running threads; distinct by (algorithms, shared, schedule)")


# ------------------------------------------------------------------ interleaving
class Alone:
    switches = 0

    def tick(self):
        pass


class Turns:
    """Hands control, and the state of the two random sources, from run to run."""

    def __init__(self, jobs, rng, eagerness):
        self.jobs, self.rng, self.q = jobs, rng, eagerness
        self.locks = [threading.Semaphore(0) for _ in jobs]
        self.state = []
        for j in jobs:
            random.seed(j.seed)
            np.random.seed(j.seed)
            self.state.append((random.getstate(), np.random.get_state()))
        self.live = list(range(len(jobs)))
        self.now = None
        self.switches = 0
        self.done = threading.Semaphore(0)
        self.ids = {}

    def _go(self, k):
        self.now = k
        random.setstate(self.state[k][0])
        np.random.set_state(self.state[k][1])
        self.locks[k].release()

    def _park(self):
        self.state[self.now] = (random.getstate(), np.random.get_state())

    def tick(self):
        me = self.ids.get(threading.get_ident())
        if me is None or len(self.live) < 2 or self.rng.random() > self.q:
            return
        k = self.rng.choice([x for x in self.live if x != me])
        self._park()
        self.switches += 1
        self._go(k)
        self.locks[me].acquire()

    def _body(self, k):
        self.ids[threading.get_ident()] = k
        self.locks[k].acquire()
        try:
            self.jobs[k].run()
        finally:
            self.live.remove(k)
            self._park()
            if self.live:
                self._go(self.rng.choice(self.live))
            else:
                self.done.release()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(k,), daemon=True) for k in range(len(self.jobs))]
        for th in ts:
            th.start()
        self._go(self.rng.choice(self.live))
        while not self.done.acquire(timeout=.5):
            pass
        for th in ts:
            th.join()


NOW = Alone()


def tick():
    NOW.tick()


class Job:
    """One run: `kind` with a configuration, a seed and a context."""

    def __init__(self, kind, config, seed, ctx, bag):
        self.kind, self.config, self.seed, self.ctx, self.bag = kind, config, seed, ctx, bag
        self.parts, self.error = [], None
        self.stats = {}

    def shared(self, name, make):
        """An object that the runs of one configuration may use together."""
        if self.bag is None:
            return make()
        if name not in self.bag:
            self.bag[name] = make()
        return self.bag[name]

    def out(self, label, value):
        self.parts.append((label, hashlib.blake2b(repr(freeze(value)).encode(), digest_size=8).hexdigest()))

    def run(self):
        cfg = random.Random("%s-%d" % (self.kind, self.config))
        try:
            KINDS[self.kind](cfg, self)
            self.out("random", random.random())
            self.out("numpy", float(np.random.random()))
        except Exception as e:          # noqa
            import traceback
            self.error = "%s: %s" % (type(e).__name__, str(e)[:200]) + traceback.format_exc()[-600:]


def ticking(problem):
    """The problem itself, with a switching point in its evaluation."""
    f = problem.evaluate

    def evaluate(phenome, *a, **k):
        tick()
        r = f(phenome, *a, **k)
        tick()
        return r
    problem.evaluate = evaluate
    return problem


def ticking_init(f):
    def init():
        tick()
        return f()
    return init


def tap(next_individual):
    while True:
        x = next(next_individual)
        tick()
        yield x


def tap_list(pop):
    tick()
    return pop


class TickDecoder:
    def __init__(self, inner):
        self.inner = inner

    def decode(self, genome, *a, **k):
        tick()
        x = self.inner.decode(genome, *a, **k)
        tick()
        return x


def with_ticks(rep):
    rep.decoder = TickDecoder(rep.decoder)
    return rep


KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def pop_out(job, label, pop):
    job.out(label, [(i.genome, None if i.fitness is None else np.asarray(i.fitness).tolist()) for i in pop])


def lineage(pop, known):
    """Lineage with the random identifiers replaced by numbers in order of arrival."""
    res = []
    for i in pop:
        known.setdefault(i.uuid, len(known))
        res.append((known[i.uuid], len(i.parents)))
    return res


def flat_parts(cfg, job):
    """problem, representation, selection, crossover, mutation of a scalar run"""
    d = cfg.randint(3, 6)
    rep = cfg.choice(["bin", "bin-dec", "real", "real", "int"])
    maxi = cfg.random() < .5
    pk, w = cfg.randrange(6), cfg.randrange(4)
    cls = cfg.choice([Individual, Individual, DistributedIndividual, RobustIndividual])
    bits = [cfg.randint(2, 5) for _ in range(d)]
    dk = cfg.randrange(3)
    offset = cfg.uniform(-2, 2)

    def real_problem():
        p = [R.SpheroidProblem, R.RastriginProblem, R.AckleyProblem, R.GriewankProblem, R.RosenbrockProblem, R.NoisyQuarticProblem][pk](maximize=maxi)
        if w == 1:
            p = R.TranslatedProblem(p, np.linspace(-1, 1, d))
        elif w == 2:
            p = R.MatrixTransformedProblem(p, np.eye(d)[::-1])
        elif w == 3:
            p = AverageFitnessProblem(ticking(FitnessOffsetProblem(ticking(p), offset)), 3)
        return ticking(p)
    if rep == "bin":
        prob = job.shared("problem", lambda: ticking([MaxOnes, DeceptiveTrap, LeadingOnes][pk % 3](maximize=maxi)))
        r = job.shared("rep", lambda: Representation(initialize=ticking_init(create_binary_sequence(2 * d)), individual_cls=cls))
        mut = lambda: mutate_bitflip(expected_num_mutations=1)          # noqa
    elif rep == "bin-dec":
        prob = job.shared("problem", real_problem)
        segs = [(b, -2.0, 3.0) for b in bits]
        dec = job.shared("decoder", lambda: BinaryToRealDecoder(*segs) if dk == 0 else BinaryToRealGreyDecoder(*segs) if dk == 1 else BinaryToIntDecoder(*bits))
        r = job.shared("rep", lambda: Representation(initialize=ticking_init(create_binary_sequence(sum(bits))), decoder=dec, individual_cls=cls))
        mut = lambda: mutate_bitflip(expected_num_mutations=1)          # noqa
    elif rep == "real":
        prob = job.shared("problem", real_problem)
        bounds = [(-3.0, 3.0)] * d
        r = job.shared("rep", lambda: Representation(initialize=ticking_init(create_real_vector(bounds)), individual_cls=cls))
        iso = cfg.choice([1, "isotropic"])
        mut = lambda: mutate_gaussian(std=.4, expected_num_mutations=iso, bounds=bounds)        # noqa
    else:
        b = [(-9, 9)] * d
        prob = job.shared("problem", lambda: ticking(FunctionProblem(lambda x: float(np.sum(x)), maxi)))
        r = job.shared("rep", lambda: Representation(initialize=ticking_init(create_int_vector(b)), individual_cls=cls))
        mk = cfg.random() < .5
        mut = lambda: mutate_randint(bounds=b, expected_num_mutations=1) if mk else mutate_binomial(std=1.5, bounds=b, expected_num_mutations=1)      # noqa
    sk = cfg.randrange(9)
    if w == 3 and sk in (5, 6):      # parsimony needs to know the direction, which an averaging problem does not tell
        sk = 0
    sel = job.shared("select", lambda: [ops.tournament_selection, ops.tournament_selection(k=3), ops.random_selection, ops.cyclic_selection, ops.naive_cyclic_selection,
                                        ops.tournament_selection(key=koza_parsimony(penalty=.1)), ops.tournament_selection(key=lexical_parsimony),
                                        ops.proportional_selection(offset="pop-min"), ops.sus_selection(offset="pop-min")][sk])
    xk, px = cfg.randrange(3), cfg.choice([1.0, .5])
    xo = job.shared("xover", lambda: ops.UniformCrossover(p_swap=.3, p_xover=px) if xk == 0 else ops.NAryCrossover(num_points=1 + xk, p_xover=px))
    r = job.shared("rep with ticks", lambda: with_ticks(r))
    return prob, r, sel, xo, job.shared("mutate", mut), cls


@kind
def generational(cfg, job):
    prob, rep, sel, xo, mut, cls = flat_parts(cfg, job)
    n, gens, elites, start = cfg.randint(2, 6), cfg.randint(1, 5), cfg.randint(0, 2), cfg.choice([0, 0, 3])
    grouped = cfg.random() < .25 and cls is not RobustIndividual
    known = {}
    streams = [io.StringIO() for _ in range(4)]
    hist = []

    def watch(pop):
        hist.append((job.ctx["leap"]["generation"], [(i.genome.copy(), float(i.fitness)) for i in pop], lineage(pop, known)))
        return pop
    probes = [probe.FitnessStatsCSVProbe(stream=streams[0], context=job.ctx, modulo=cfg.choice([1, 2])), probe.BestSoFarProbe(stream=streams[1], context=job.ctx),
              probe.AttributesCSVProbe(stream=streams[2], do_fitness=True, do_genome=True, best_only=cfg.random() < .5, context=job.ctx)]
    end = cfg.choice([None, start + 2])
    # the pipeline itself belongs to the run, its operators may not
    middle = [ops.clone, tap, xo, tap, mut, tap] if cfg.random() < .5 else [tap, ops.clone, mut, tap, xo]
    ev = [ops.pool(size=n), tap_list, ops.grouped_evaluate(max_individuals_per_chunk=cfg.choice([None, 1, 2]))] if grouped else \
        [job.shared("evaluate", lambda: ops.evaluate), probe.BestSoFarIterProbe(stream=streams[3], context=job.ctx), tap, ops.pool(size=n)]
    kw = {} if end is None else dict(stop=stop_at_generation(end, context=job.ctx))
    if cfg.random() < .3:
        kw["init_evaluate"] = ops.grouped_evaluate if cls is not RobustIndividual else Individual.evaluate_population
    final = generational_ea(start + gens, n, prob, rep, [sel, *middle, *ev, tap_list, *probes, watch, tap_list], k_elites=elites, start_generation=start, context=job.ctx, **kw)
    job.out("history", hist)
    pop_out(job, "final", final)
    for k, s in enumerate(streams):
        job.out("stream %d" % k, s.getvalue())
    job.out("step", (get_step(context=job.ctx, use_generation=True, use_births=False), job.ctx["leap"]["generation"]))


@kind
def switching_problem(cfg, job):
    """A problem that follows the generation of its own run."""
    n = cfg.randint(2, 5)
    mod = cfg.choice([1, 2])
    prob = AlternatingProblem([ticking(MaxOnes()), ticking(LeadingOnes()), ticking(MaxOnes(maximize=False))], modulo=mod, context=job.ctx)
    rep = job.shared("rep", lambda: Representation(initialize=ticking_init(create_binary_sequence(8))))
    xo, mut = job.shared("x", lambda: ops.UniformCrossover(p_swap=.3)), job.shared("m", lambda: mutate_bitflip(expected_num_mutations=1))
    s = io.StringIO()
    final = generational_ea(6, n, prob, rep, [ops.tournament_selection, ops.clone, tap, xo, mut, tap, ops.evaluate, tap, ops.pool(size=n),
                                              probe.FitnessStatsCSVProbe(stream=s, context=job.ctx)], context=job.ctx)
    pop_out(job, "final", final)
    job.out("stats", s.getvalue())


@kind
def segmented(cfg, job):
    init = job.shared("init", lambda: ticking_init(create_binary_sequence(4)))
    n = cfg.randint(3, 6)
    prob = job.shared("problem", lambda: ticking(FunctionProblem(lambda x: float(sum(np.sum(s) for s in x)) - len(x), True)))
    rep = job.shared("rep", lambda: Representation(initialize=create_segmented_sequence(lambda: random.randint(1, 4), init)))
    ms = job.shared("mutators", lambda: [apply_mutation(mutator=genome_mutate_bitflip, expected_num_mutations=1), add_segment(seq_initializer=init, probability=.3, append=False),
                                         remove_segment(probability=.2), copy_segment(probability=.3, append=False)])
    brand = birth_brander()
    births = []

    def watch(pop):
        births.append([i.birth for i in pop])
        return pop
    final = generational_ea(5, n, prob, rep, [job.shared("s", lambda: ops.cyclic_selection), ops.clone, tap, ms[0], ms[1], tap, ms[2], ms[3], brand, ops.evaluate, tap,
                                              ops.pool(size=n), watch], context=job.ctx)
    pop_out(job, "final", final)
    job.out("births", births)


@kind
def islands(cfg, job):
    import networkx as nx
    n, k = cfg.randint(2, 5), 3
    tk = cfg.randrange(3)
    top = job.shared("topology", lambda: [nx.complete_graph(k), nx.cycle_graph(k), nx.cycle_graph(k, create_using=nx.DiGraph)][tk])
    gap = cfg.choice([1, 2])
    log = io.StringIO()
    csvs = [io.StringIO() for _ in range(k)]
    prob = job.shared("problem", lambda: ticking(MaxOnes()))
    rep = job.shared("rep", lambda: Representation(initialize=ticking_init(create_binary_sequence(10))))
    pre = [job.shared("sel", lambda: ops.tournament_selection), ops.clone, tap, job.shared("x", lambda: ops.UniformCrossover(p_swap=.2)),
           job.shared("mut", lambda: mutate_bitflip(expected_num_mutations=1)), ops.evaluate, tap, ops.pool(size=n)]
    final = multi_population_ea(cfg.randint(2, 6), k, n, prob, rep,
                                pre + [ops.migrate(top, emigrant_selector=ops.tournament_selection, replacement_selector=ops.random_selection, migration_gap=gap,
                                                   metric=ops.migration_metric(stream=log), context=job.ctx)],
                                subpop_pipelines=[[probe.FitnessStatsCSVProbe(stream=csvs[i], notes={"island": i}, context=job.ctx)] for i in range(k)], context=job.ctx)
    for i, p in enumerate(final):
        pop_out(job, "island %d" % i, p)
    job.out("migrations", log.getvalue())
    job.out("stats", [c.getvalue() for c in csvs])
    job.out("context", (job.ctx["leap"]["generation"], job.ctx["leap"]["current_subpopulation"], [len(p) for p in job.ctx["leap"]["subpopulations"]]))


@kind
def cooperation(cfg, job):
    n, k = cfg.randint(2, 4), 3
    log = io.StringIO()
    trials = cfg.randint(1, 3)
    inner = job.shared("problem", lambda: ticking(MaxOnes()))
    mut = job.shared("mut", lambda: mutate_bitflip(expected_num_mutations=1))
    if cfg.random() < .5:
        rep = job.shared("rep", lambda: Representation(initialize=ticking_init(create_binary_sequence(4))))
        ev = ops.CooperativeEvaluate(num_trials=trials, collaborator_selector=ops.random_selection, log_stream=log, context=job.ctx)
        prob = inner
    else:
        rep = job.shared("rep", lambda: Representation(initialize=ticking_init(create_binary_sequence(4)), individual_cls=WholeEvaluatedIndividual))
        prob = CooperativeProblem(inner, trials, ops.random_selection, log_stream=log, context=job.ctx)
        ev = ops.evaluate
    final = multi_population_ea(3, k, n, prob, rep, [ops.tournament_selection, ops.clone, tap, mut, tap, ev, tap, ops.pool(size=n)],
                                init_evaluate=ops.const_evaluate(value=-1), context=job.ctx)
    for i, p in enumerate(final):
        pop_out(job, "subpopulation %d" % i, p)
    job.out("log", log.getvalue())


@kind
def multiobjective(cfg, job):
    n = cfg.choice([4, 6, 9])
    pk = cfg.randrange(4)
    rank = cfg.choice([mops.fast_nondominated_sort, mops.rank_ordinal_sort])

    def make():
        if pk == 0:
            return ticking(SCHProblem())
        return ticking([ZDT1Problem, ZDT2Problem, ZDT3Problem][pk - 1](n=3, check_phenome=False))
    prob = job.shared("problem", make)
    bounds = [(-4.0, 4.0)] if pk == 0 else list(prob.bounds)
    rep = job.shared("rep", lambda: Representation(initialize=ticking_init(create_real_vector(bounds))))
    mut = job.shared("mut", lambda: mutate_gaussian(std=.2, expected_num_mutations=1, bounds=bounds))
    xo = job.shared("x", lambda: ops.UniformCrossover(p_swap=.2))
    hist = []

    def watch(pop):
        tick()
        hist.append((job.ctx["leap"]["generation"], [(i.genome.copy(), np.asarray(i.fitness).tolist(), getattr(i, "rank", None)) for i in pop]))
        return pop
    final = generalized_nsga_2(4, n, prob, rep, [ops.tournament_selection, ops.clone, tap, mut, xo, tap, ops.evaluate, tap, ops.pool(size=n), watch],
                               rank_func=job.shared("rank", lambda: rank), context=job.ctx)
    job.out("history", hist)
    job.out("final", [(i.genome, np.asarray(i.fitness).tolist(), int(i.rank), float(i.distance)) for i in final])


@kind
def steady_layers(cfg, job):
    """The incremental non-dominated sorting of an asynchronous run."""
    prob = job.shared("problem", lambda: ticking(SCHProblem()))
    ins, pop = ENLUInserter(), []
    size = cfg.choice([3, 6])
    births = inc_births(job.ctx)
    for k in range(14):
        i = Individual(np.random.uniform(-3, 3, size=1), problem=prob)
        i.evaluate()
        i.k = k
        tick()
        ins(i, pop, size)
        births()
        job.out("population", [(x.k, int(x.rank), float(x.distance)) for x in pop])
    job.out("births", (births.births(), job.ctx["leap"]["births"]))


@kind
def searching(cfg, job):
    prob = job.shared("problem", lambda: ticking(R.SpheroidProblem()))
    rep = job.shared("rep", lambda: Representation(initialize=ticking_init(create_real_vector([(-1, 1)] * 2))))
    mut = job.shared("mut", lambda: mutate_gaussian(std=.2, expected_num_mutations="isotropic"))
    tr = random_search(cfg.randint(1, 10), prob, rep, [ops.naive_cyclic_selection, ops.clone, tap, mut, ops.evaluate, tap, ops.pool(size=1)], context=job.ctx)
    pop_out(job, "trajectory", tr)


@kind
def programs(cfg, job):
    from leap_ec.executable_rep import cgp
    from leap_ec.executable_rep.problems import TruthTableProblem

    class TickNAND(cgp.NAND):
        def __call__(self, *a):
            tick()
            return super().__call__(*a)
    layers, fk = cfg.randint(2, 6), cfg.randrange(3)
    fn = [lambda x: [int(bool(x[0]) != bool(x[1]))], lambda x: [int(x[0] and x[1])], lambda x: [int(x[0] or not x[1])]][fk]
    dec = job.shared("decoder", lambda: cgp.CGPDecoder([TickNAND(), cgp.NotX()], num_inputs=2, num_outputs=1, num_layers=layers, nodes_per_layer=1, max_arity=2))
    prob = job.shared("problem", lambda: ticking(TruthTableProblem(fn, 2, 1)))
    n = cfg.randint(2, 5)
    rep = job.shared("rep", lambda: Representation(decoder=dec, initialize=ticking_init(cgp.create_cgp_vector(dec))))
    mut = job.shared("mut", lambda: cgp.cgp_mutate(dec, expected_num_mutations=1))
    final = generational_ea(4, n, prob, rep, [ops.tournament_selection, ops.clone, tap, mut, tap, ops.evaluate, ops.pool(size=n)], context=job.ctx)
    pop_out(job, "final", final)
    res = []
    for i in final:
        ex = i.decode()
        for x in ([0, 0], [0, 1], [1, 0], [1, 1]):
            tick()
            res.append(int(ex(x)[0]))
    job.out("outputs", res)


class Walk:
    """A small environment that draws from the random sources."""
    class _S:
        def __init__(self, shape):
            self.shape = shape
    observation_space, action_space = _S((2,)), _S(())

    def reset(self, **kw):
        tick()
        self.t, self.x = 0, np.random.uniform(-1, 1, size=2)
        return self.x.copy(), {}

    def step(self, action):
        tick()
        self.t += 1
        self.x = self.x + (float(np.ravel(action)[0]) - 1) * .1 + random.uniform(-.1, .1)
        return self.x.copy(), -float(np.abs(self.x).sum()), self.t > 5, False, {}


@kind
def controllers(cfg, job):
    """Decoders shared, environments not."""
    import gymnasium as gym
    from leap_ec.executable_rep.rules import PittRulesDecoder
    from leap_ec.executable_rep.neural_network import SimpleNeuralNetworkDecoder
    from leap_ec.executable_rep.executable import ArgmaxExecutable, WrapperDecoder
    from leap_ec.executable_rep.problems import EnvironmentProblem
    from leap_ec.int_rep.ops import individual_mutate_randint
    from leap_ec.real_rep.ops import genome_mutate_gaussian
    prob = EnvironmentProblem(2, 4, Walk(), cfg.choice(["reward", "survival"]), False)
    n = cfg.randint(2, 4)
    if cfg.random() < .5:
        dec = job.shared("decoder", lambda: PittRulesDecoder(gym.spaces.Box(-1.0, 1.0, shape=(2,), dtype=np.float64), gym.spaces.Discrete(3)))
        rule = lambda: np.concatenate([np.random.uniform(-1, 1, size=4), [float(random.randint(0, 2))]])     # noqa
        rep = job.shared("rep", lambda: Representation(decoder=dec, initialize=create_segmented_sequence(3, ticking_init(rule))))
        mut = job.shared("mut", lambda: dec.mutator(condition_mutator=genome_mutate_gaussian(std=.3, expected_num_mutations=1, bounds=dec.condition_bounds),
                                                    action_mutator=individual_mutate_randint(bounds=dec.action_bounds, probability=.5)))
    else:
        dec = job.shared("decoder", lambda: WrapperDecoder(SimpleNeuralNetworkDecoder(shape=(2, 3, 3)), ArgmaxExecutable))
        rep = job.shared("rep", lambda: Representation(decoder=dec, initialize=ticking_init(create_real_vector([(-1, 1)] * 21))))
        mut = job.shared("mut", lambda: mutate_gaussian(std=.3, expected_num_mutations=2))
    final = generational_ea(3, n, prob, rep, [ops.tournament_selection, ops.clone, tap, mut, tap, ops.evaluate, tap, ops.pool(size=n)], context=job.ctx)
    pop_out(job, "final", final)


@kind
def counting(cfg, job):
    g, b = inc_generation(context=job.ctx, start_generation=cfg.randint(0, 5)), inc_births(context=job.ctx)
    for _ in range(cfg.randint(3, 12)):
        k = cfg.randrange(4)
        tick()
        if k == 0:
            g()
        elif k == 1:
            b(cfg.randint(1, 3))
        elif k == 2:
            b.do_decrement()
        tick()
        job.out("counters", (g.generation(), b.births(), job.ctx["leap"]["generation"], job.ctx["leap"]["births"]))


NAMES = sorted(KINDS)


def fresh_context():
    return {"leap": {"distrib": {"non_viable": 0}}}


def mark(ctx):
    return repr(freeze({k: v for k, v in ctx.get("leap", {}).items()}))


@CHECK.section(quick=900, thorough=14000, wall=120, need={"runs": 800, "switches": 8000, "compared": 4000, "shared": 100})
def interleaved(t):
    """Every run gives what it gives alone, whatever the others do in between."""
    global NOW
    rng = t.rng
    m = rng.choice([2, 2, 3])
    share = rng.random() < .6
    first, config = NAMES[t.index % len(NAMES)], rng.randrange(2 ** 31)
    spec = []
    for k in range(m):
        if k and not share:
            first, config = (first if rng.random() < .4 else rng.choice(NAMES)), rng.randrange(2 ** 31)
        spec.append((first, config, rng.randrange(2 ** 31)))
    # at most one of them may work in the global context
    who = rng.choice([None, None] + list(range(m)))
    alone = []
    for k, (kd, cf, seed) in enumerate(spec):
        if who == k:
            GLOBAL.clear()
            GLOBAL.update(fresh_context())
        j = Job(kd, cf, seed, GLOBAL if who == k else fresh_context(), None)
        random.seed(seed)
        np.random.seed(seed)
        j.run()
        t.check(j.error is None, "a run fails", kind=kd, config=cf, seed=seed, error=j.error)
        alone.append(j)
    GLOBAL.clear()
    GLOBAL.update(fresh_context())
    before = mark(GLOBAL)
    bag = {} if share else None
    jobs = [Job(kd, cf, seed, GLOBAL if who == k else fresh_context(), bag) for k, (kd, cf, seed) in enumerate(spec)]
    turns = Turns(jobs, random.Random(rng.random()), rng.choice([.1, .5, 1.0]))
    NOW = turns
    try:
        turns.run()
    finally:
        NOW = Alone()
    d = dict(runs=spec, shared=share, in_global_context=who, switches=turns.switches)
    for a, j in zip(alone, jobs):
        t.check(j.error is None, "a run fails when others are under way", run=(j.kind, j.config, j.seed), error=j.error, **d)
        for x, y in zip(a.parts, j.parts):
            t.check(x == y, "a run gives another result when others are under way at the same time", run=(j.kind, j.config, j.seed), first_difference=x[0], **d)
        t.eq(len(a.parts), len(j.parts), "a run gives another number of results when others are under way", run=(j.kind, j.config, j.seed), **d)
        t.event("compared", len(a.parts))
        t.event("runs")
    if who is None:
        t.eq(mark(GLOBAL), before, "runs with contexts of their own changed the global context", **d)
    t.event("switches", turns.switches)
    t.event("shared", int(share))
    t.sig(tuple(s[0] for s in spec), share, who, turns.switches)
    t.sample(dict(runs=spec, shared=share, switches=turns.switches))


@CHECK.section(quick=60, thorough=900, wall=120, need={"threads": 120, "evaluations": 4000})
def threads(t):
    """Runs in threads that are switched anywhere: nobody gets into another run, and every run keeps its counts."""
    rng = t.rng
    m = rng.choice([2, 3, 4])
    d, n, gens = rng.randint(3, 6), rng.randint(3, 8), rng.randint(3, 10)
    nk = rng.random() < .5
    xo = ops.NAryCrossover(num_points=2) if nk else ops.UniformCrossover(p_swap=.4)
    mut = mutate_gaussian(std=.01, expected_num_mutations=1)
    sel = rng.choice([ops.tournament_selection, ops.random_selection, ops.cyclic_selection, ops.naive_cyclic_selection])
    problem = FunctionProblem(lambda x: float(x[0]), True)
    dec = IdentityDecoder()
    kw = rng.choice([Individual, DistributedIndividual, RobustIndividual])

    class Run:
        def __init__(self, k):
            self.k, self.ctx, self.error = k, fresh_context(), None
            self.evals, self.gens, self.ids, self.made = 0, [], set(), 0
            self.stream = io.StringIO()

        def init(self):
            self.made += 1
            return np.random.uniform(-1, 1, size=d) + 1000.0 * self.k

        def evaluated(self, it):
            while True:
                x = next(it)
                self.evals += 1
                yield x

        def watch(self, pop):
            self.gens.append(self.ctx["leap"]["generation"])
            for i in pop:
                if i is None or not np.all(np.abs(i.genome - 1000.0 * self.k) < 100):
                    raise RuntimeError("an individual from elsewhere in run %d" % self.k)
                if i.fitness != i.genome[0]:
                    raise RuntimeError("a fitness from elsewhere in run %d" % self.k)
                self.ids.add(i.uuid)
            return pop

        def run(self):
            try:
                self.final = generational_ea(gens, n, problem, Representation(initialize=self.init, decoder=dec, individual_cls=kw),
                                             [sel, ops.clone, xo, mut, ops.evaluate, self.evaluated, ops.pool(size=n), probe.BestSoFarProbe(stream=self.stream, context=self.ctx),
                                              self.watch], context=self.ctx)
            except Exception as e:      # noqa
                import traceback
                self.error = "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-500:])
    runs = [Run(k) for k in range(m)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=r.run, daemon=True) for r in runs]
        for th in ts:
            th.start()
        for th in ts:
            while th.is_alive():
                th.join(.5)
    finally:
        sys.setswitchinterval(old)
    info = dict(m=m, size=n, generations=gens, crossover=type(xo).__name__)
    seen = set()
    for r in runs:
        t.check(r.error is None, "a run in a thread of its own is disturbed by another", run=r.k, error=r.error, **info)
        t.eq(r.gens, list(range(gens)), "the generations of a run in a thread are not counted one by one", run=r.k, **info)
        t.eq((r.made, r.evals, len(r.final)), (n, n * gens, n), "a run in a thread makes, evaluates or returns a wrong number of individuals", run=r.k, **info)
        t.check(not (r.ids & seen), "two runs share an individual", run=r.k, **info)
        seen |= r.ids
        rows = r.stream.getvalue().split()
        t.eq(len(rows), gens + 1, "the probe of a run in a thread wrote a wrong number of rows", run=r.k, **info)
        t.check(all(abs(float(x.split(",")[1]) - 1000 * r.k) < 100 for x in rows[1:]), "the probe of a run reports another run", run=r.k, **info)
        t.event("evaluations", r.evals)
        t.event("threads")
    t.sig(m, n, gens, d, info["crossover"])
