"""C36: copies, transported objects and resumed runs behave like the originals."""
import copy
import os
import random
import subprocess
import sys

import cloudpickle
import numpy as np

from leap_ec import ops, Representation
from leap_ec.algorithm import generational_ea
from leap_ec.binary_rep.decoders import (BinaryToIntDecoder, BinaryToRealDecoder, BinaryToIntGreyDecoder, BinaryToRealGreyDecoder)
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.binary_rep import problems as B
from leap_ec.decoder import IdentityDecoder
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.executable_rep import cgp
from leap_ec.executable_rep.executable import ArgmaxExecutable, RandomExecutable, WrapperDecoder
from leap_ec.executable_rep.neural_network import SimpleNeuralNetworkDecoder, relu, softmax, sigmoid
from leap_ec.executable_rep.problems import TruthTableProblem, EnvironmentProblem
from leap_ec.executable_rep.rules import PittRulesDecoder
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial
from leap_ec.multiobjective import problems as M, ops as mops
from leap_ec.multiobjective.asynchronous import ENLUInserter
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.problem import (AlternatingProblem, AverageFitnessProblem, ConstantProblem, FitnessOffsetProblem, FunctionProblem)
from leap_ec.real_rep import problems as R
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.segmented_rep.decoders import SegmentedDecoder
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from vlib.gen import freeze
from vlib.harness import Check
from vlib.kits import KITS, take

CHECK = Check("C36", rule="objects of every kind (problems, decoders, programs, representations, operators, individuals, populations) copied by deepcopy and through the pickling used "
              "between processes, at random points of their history, then driven side by side with the original under the same random draws; runs cut at a random generation "
              "and resumed from the pickled population against the uncut run, also in another process; distinct by (kind, configuration, history)")


def through(x):
    return cloudpickle.loads(cloudpickle.dumps(x))


HOW = [("deepcopy", copy.deepcopy), ("pickle", through), ("pickle twice", lambda x: through(through(x))), ("copy of pickle", lambda x: copy.deepcopy(through(x)))]


def call(f, seed):
    """result or error of f under a given state of both random sources"""
    random.seed(seed)
    np.random.seed(seed)
    try:
        r = f()
    except Exception as e:      # noqa
        return ("error", type(e).__name__)
    return ("value", repr(freeze(r)), random.random(), float(np.random.random()))


# ------------------------------------------------------------------ problems
def real_problem(rng, d):
    name = rng.choice(["Spheroid", "Rastrigin", "Rosenbrock", "Step", "NoisyQuartic", "Griewank", "Ackley", "Weierstrass", "Schwefel", "Gaussian", "Lunacek", "Cosine",
                       "Quadratic", "Parabaloid", "Constant", "Function", "Langermann", "Shekel"])
    mx = rng.random() < .5
    if name == "Lunacek":
        return name, R.LunacekProblem(N=d, maximize=mx)
    if name == "Cosine":
        return name, R.CosineFamilyProblem(alpha=1.0, global_optima_counts=[2] * d, local_optima_counts=[3] * d, maximize=mx)
    if name == "Quadratic":
        random.seed(1)
        np.random.seed(rng.randrange(1000))
        return name, R.QuadraticFamilyProblem.generate(d, 2)
    if name == "Parabaloid":
        return name, R.ParabaloidProblem(diagonal_matrix=np.diag(np.arange(1.0, d + 1)), rotation_matrix=np.eye(d), maximize=mx)
    if name == "Constant":
        return name, ConstantProblem(mx, c=rng.uniform(-3, 3))
    if name == "Function":
        k = rng.uniform(-2, 2)
        return name, FunctionProblem(lambda x: float(k * np.sum(x)), mx)
    return name, getattr(R, name + "Problem")(maximize=mx)


def some_problem(rng):
    """(name, problem, phenome factory)"""
    r = rng.random()
    if r < .2:
        n = rng.randint(2, 9)
        target = np.array([rng.randint(0, 1) for _ in range(n)]) if rng.random() < .4 else None
        k = rng.choice(["MaxOnes", "LeadingOnes", "DeceptiveTrap", "TwoMax"])
        kw = dict(target_string=target) if k in ("MaxOnes", "LeadingOnes") and target is not None else {}
        return k, getattr(B, k)(maximize=rng.random() < .5, **kw), lambda: np.array([rng.randint(0, 1) for _ in range(n)])
    if r < .35:
        k = rng.choice(["SCH", "ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6"])
        if k == "SCH":
            return k, M.SCHProblem(), lambda: np.array([rng.uniform(-5, 5)])
        return k, getattr(M, k + "Problem")(n=4), lambda: np.array([rng.random() for _ in range(4)])
    if r < .42:
        tab = rng.randrange(16)
        fn = lambda x: [(tab >> (2 * int(x[0]) + int(x[1]))) & 1]      # noqa
        p = TruthTableProblem(fn, 2, 1)
        dec = cgp.CGPDecoder([cgp.NAND(), cgp.NotX()], num_inputs=2, num_outputs=1, num_layers=4, nodes_per_layer=1, max_arity=2)
        return "TruthTable", p, lambda: dec.decode(np.array([rng.randint(int(a), int(b)) for a, b in dec.bounds()]))
    d = rng.randint(2, 5)
    name, p = real_problem(rng, d)
    if name in ("Langermann", "Shekel"):
        d = 2
    path = [name]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        w = rng.choice(["translated", "scaled", "matrix", "offset", "average", "alternating"])
        if w in ("translated", "scaled", "matrix") and not (hasattr(p, "bounds") and hasattr(p, "maximize")):
            continue
        path.append(w)
        if w == "translated":
            p = R.TranslatedProblem(p, [rng.uniform(-1, 1) for _ in range(d)])
        elif w == "scaled":
            p = R.ScaledProblem(p, (-1.5, 2.5))
        elif w == "matrix":
            np.random.seed(rng.randrange(1000))
            p = R.MatrixTransformedProblem(p, R.random_orthonormal_matrix(d))
        elif w == "offset" and hasattr(p, "maximize"):
            p = FitnessOffsetProblem(p, rng.uniform(-3, 3))
        elif w == "average":
            p = AverageFitnessProblem(p, rng.randint(1, 3))
        else:
            p = AlternatingProblem([p, R.SpheroidProblem(maximize=True)], modulo=2, context={"leap": {"generation": rng.randint(0, 5)}})
    return "/".join(path), p, lambda: np.array([rng.uniform(-2, 2) for _ in range(d)])


@CHECK.section(quick=1500, thorough=40000, need={"compared": 8000, "value": 2500})
def problems(t):
    rng = t.rng
    name, p, phen = some_problem(rng)
    xs = [phen() for _ in range(rng.randint(1, 4))]
    for x in xs[:rng.randint(0, len(xs))]:
        call(lambda: p.evaluate(x), rng.randrange(10 ** 6))
    how, f = rng.choice(HOW)
    p2 = f(p)
    d = dict(problem=name, how=how)
    t.check(type(p2) is type(p), "a copied problem is of another type", **d)
    fits = []
    for x in xs:
        s = rng.randrange(10 ** 6)
        a = call(lambda: p.evaluate(x), s)
        t.eq(call(lambda: p2.evaluate(x), s), a, "a copied problem evaluates differently", phenome=repr(x), **d)
        t.eq(call(lambda: p.evaluate(x), s), a, "copying a problem changed the original", phenome=repr(x), **d)
        t.event("compared")
        t.event(a[0])
        if a[0] == "value":
            random.seed(s)
            np.random.seed(s)
            fits.append(p.evaluate(x))
    for a in fits:
        for b in fits:
            t.check(bool(np.all(p.worse_than(a, b) == p2.worse_than(a, b))) and bool(np.all(p.equivalent(a, b) == p2.equivalent(a, b))),
                    "a copied problem compares differently", first=repr(a), second=repr(b), **d)
            t.event("compared")
    t.sig(name, how, repr(freeze([x for x in xs if isinstance(x, np.ndarray)])))


# ------------------------------------------------------------------ decoders and programs
class Walk:
    class _S:
        def __init__(self, shape):
            self.shape = shape
    observation_space, action_space = _S((2,)), _S(())

    def reset(self, **kw):
        self.t, self.x = 0, np.random.uniform(-1, 1, size=2)
        return self.x.copy(), {}

    def step(self, action):
        self.t += 1
        self.x = self.x + (float(np.ravel(action)[0]) - 1) * .1
        return self.x.copy(), -float(np.abs(self.x).sum()), self.t > 5, False, {}


def some_decoder(rng):
    """(name, decoder, genome factory, input factory or None)"""
    import gymnasium as gym
    k = rng.choice(["int", "real", "intgrey", "realgrey", "segmented", "cgp", "cgp", "cgp-params", "pitt", "nn", "argmax", "identity"])
    bits = lambda n: (lambda: np.array([rng.randint(0, 1) for _ in range(n)]))      # noqa
    ws = [rng.randint(1, 6) for _ in range(rng.randint(1, 4))]
    rs = [(w, rng.uniform(-5, 0), rng.uniform(1, 5)) for w in ws]
    if k == "identity":
        return k, IdentityDecoder(), bits(4), None
    if k in ("int", "intgrey"):
        return k, (BinaryToIntDecoder if k == "int" else BinaryToIntGreyDecoder)(*ws), bits(sum(ws)), None
    if k in ("real", "realgrey"):
        return k, (BinaryToRealDecoder if k == "real" else BinaryToRealGreyDecoder)(*rs), bits(sum(ws)), None
    if k == "segmented":
        return k, SegmentedDecoder(BinaryToRealDecoder(*rs)), lambda: [bits(sum(ws))() for _ in range(rng.randint(1, 3))], None
    if k.startswith("cgp"):
        if k == "cgp":
            dec = cgp.CGPDecoder([cgp.NAND(), cgp.NotX(), cgp.FunctionPrimitive(lambda a, b: a + 2 * b, 2)], num_inputs=2, num_outputs=2, num_layers=rng.randint(1, 5),
                                 nodes_per_layer=rng.randint(1, 2), max_arity=2, levels_back=rng.choice([None, 1]))
            g = lambda: np.array([rng.randint(int(a), int(b)) for a, b in dec.bounds()])        # noqa
        else:
            dec = cgp.CGPWithParametersDecoder([lambda x, y, p: x + y * p, lambda x, y, p: x - p], num_inputs=2, num_outputs=1, num_layers=3, nodes_per_layer=1, max_arity=2,
                                               num_parameters_per_node=1)
            g = lambda: [np.array([rng.randint(int(a), int(b)) for a, b in dec.bounds()]), np.array([rng.uniform(-1, 1) for _ in range(3)])]        # noqa
        return k, dec, g, lambda: [rng.randint(0, 1), rng.randint(0, 1)]
    if k == "pitt":
        kw = {}
        dec = PittRulesDecoder(gym.spaces.Box(-1.0, 1.0, shape=(2,), dtype=np.float64), gym.spaces.Discrete(3), **kw)
        g = lambda: [np.array([rng.uniform(-1, 1) for _ in range(4)] + [float(rng.randint(0, 2))]) for _ in range(rng.randint(1, 5))]       # noqa
        return k, dec, g, lambda: np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)])
    act = rng.choice([relu, softmax, sigmoid, np.tanh, lambda x: 2 * np.asarray(x)])
    dec = SimpleNeuralNetworkDecoder((2, 3, 3), activation=act)
    if k == "argmax":
        dec = WrapperDecoder(dec, ArgmaxExecutable)
    return k, dec, lambda: np.array([rng.gauss(0, 2) for _ in range(21)]), lambda: np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)])


@CHECK.section(quick=1200, thorough=30000, need={"programs": 1500, "decodings": 1500})
def decoders(t):
    rng = t.rng
    name, dec, genome, inputs = some_decoder(rng)
    gs = [genome() for _ in range(3)]
    used = rng.randint(0, 3)
    for g in gs[:used]:
        x = dec.decode(g)
        if inputs:
            x(inputs())
    how, f = rng.choice(HOW)
    dec2 = f(dec)
    d = dict(decoder=name, how=how, used=used)
    for g in gs:
        s = rng.randrange(10 ** 6)
        if inputs is None:
            t.eq(call(lambda: dec2.decode(g), s), call(lambda: dec.decode(g), s), "a copied decoder decodes differently", genome=repr(g), **d)
            t.event("decodings")
            continue
        a = dec.decode(g)
        xs = [inputs() for _ in range(4)]
        if rng.random() < .5:
            a(xs[0])
        h2, f2 = rng.choice(HOW)
        for label, b in (("decoded by the copied decoder", dec2.decode(g)), ("copied itself by " + h2, f2(a))):
            for x in xs:
                t.eq(call(lambda: b(x), s), call(lambda: a(x), s), "a program behaves differently after transport", which=label, genome=repr(g), input=repr(x), **d)
                t.event("programs")
        # the copy does not hang on to the original
        c = f2(a)
        want = [call(lambda: c(x), s) for x in xs]
        for part in (g if isinstance(g, list) else [g]):
            part *= -2 if part.dtype == float else 0       # programs may read the genome's own arrays; a copy may not
        t.eq([call(lambda: c(x), s) for x in xs], want, "a copied program changes with the genome of the original", genome=repr(g), **d)
    t.sig(name, how, used, repr(freeze(gs)))


# ------------------------------------------------------------------ individuals and populations
@CHECK.section(quick=1200, thorough=30000, need={"individuals": 3000, "operators": 800})
def populations(t):
    rng = t.rng
    kit = rng.choice(KITS)(rng)
    cls = rng.choice([Individual, RobustIndividual, DistributedIndividual])
    prob = FunctionProblem(lambda x: float(len(repr(x)) % 7), rng.random() < .5)
    dec = IdentityDecoder()
    pop = [cls(kit.genome(), decoder=dec, problem=prob) for _ in range(rng.randint(2, 6))]
    for i in pop:
        if rng.random() < .8:
            i.evaluate()
        if rng.random() < .3:
            i.tag = rng.randint(0, 9)
    if rng.random() < .4:
        for i in rng.sample(pop, 2):
            c = i.clone()
            if rng.random() < .5:
                c.evaluate()
            pop.append(c)
    if rng.random() < .3:
        pop.append(pop[0])
    how, f = rng.choice(HOW)
    marks = [freeze(i) for i in pop]
    state = [(i.uuid, set(i.parents), repr(freeze(i.genome)), i.fitness, getattr(i, "tag", None), getattr(i, "birth_id", None)) for i in pop]
    pop2 = f(pop)
    d = dict(how=how, kit=kit.name, cls=cls.__name__)
    got = [(i.uuid, set(i.parents), repr(freeze(i.genome)), i.fitness, getattr(i, "tag", None), getattr(i, "birth_id", None)) for i in pop2]
    t.eq(got, state, "individuals lose or change something when they are copied", **d)
    t.check(all(type(a) is type(b) for a, b in zip(pop, pop2)), "copied individuals are of another class", **d)
    t.check(all((pop2[i] is pop2[j]) == (pop[i] is pop[j]) for i in range(len(pop)) for j in range(i)), "copied populations merge or split individuals", **d)
    t.check(len({id(i.problem) for i in pop2}) == 1, "the individuals of a copied population no longer share their problem", **d)
    for i, a in enumerate(pop):
        for j, b in enumerate(pop):
            if a.fitness is not None and b.fitness is not None:
                t.check((a < b, a == b, a > b) == (pop2[i] < pop2[j], pop2[i] == pop2[j], pop2[i] > pop2[j]), "copied individuals compare differently", **d)
    # what is done to the copies does not reach the originals
    steps = kit.unary() + kit.crossovers()
    name, make = rng.choice(steps)
    op = make()
    how2, f2 = rng.choice(HOW)
    op2 = f2(op)
    n = 2 * (len(pop2) // 2)
    if not (kit.crossovers() and name in ("nary", "uniform") and not kit.persistent_length):
        # the operator itself may be transported, too (its own draws included)
        src = [i.clone() for i in pop2[:n]]
        src2 = f(src)
        s = rng.randrange(10 ** 6)
        krng = kit.rng.getstate()
        a = call(lambda: [(i.genome, i.fitness, len(i.parents)) for i in take(op, src)], s)
        kit.rng.setstate(krng)
        b = call(lambda: [(i.genome, i.fitness, len(i.parents)) for i in take(op2, src2)], s)
        if name != "add":           # its initialiser draws from the workload's own source, which was copied, too
            t.eq(b, a, "a copied operator does something else", op=name, copied=how2, **d)
        t.event("operators")
    for i in pop2:
        i.fitness = -1.0
        i.parents.add("x")
        for part in (i.genome if isinstance(i.genome, list) else [i.genome]):
            if isinstance(part, np.ndarray):
                part[:] = 1
    t.eq([freeze(i) for i in pop], marks, "changing copied individuals changed the originals", **d)
    c = f(pop[0])
    k = c.clone()
    t.check(k.parents == {pop[0].uuid} and k.uuid != c.uuid and k.fitness is None, "a copied individual is cloned wrongly", **d)
    t.event("individuals", len(pop))
    t.sig(kit.name, cls.__name__, how, name, len(pop), repr(state)[-80:])


# ------------------------------------------------------------------ resuming
class Saved:
    """Stands in for a representation: the population of an earlier part of the run."""

    def __init__(self, pop):
        self.pop = pop

    def create_population(self, pop_size, problem):
        assert pop_size == len(self.pop)
        return self.pop


def parts(config):
    """algorithm, problem, representation, pipeline of a run, from a number"""
    cfg = random.Random("resume-%d" % config)
    n = cfg.randint(3, 7)
    k = cfg.choice(["bin", "real", "int", "mo", "mo", "segmented"])
    cls = cfg.choice([Individual, Individual, DistributedIndividual, RobustIndividual])
    sel = cfg.choice([ops.tournament_selection, ops.tournament_selection(k=3), ops.random_selection, ops.cyclic_selection, ops.naive_cyclic_selection])
    xo = cfg.choice([ops.UniformCrossover(p_swap=.3), ops.NAryCrossover(num_points=2), ops.UniformCrossover(p_swap=.5, p_xover=.6)])
    if k == "bin":
        prob, rep, mut = cfg.choice([B.MaxOnes, B.DeceptiveTrap, B.TwoMax])(), Representation(initialize=create_binary_sequence(10), individual_cls=cls), mutate_bitflip(expected_num_mutations=1)
    elif k == "real":
        b = [(-3, 3)] * 4
        prob = cfg.choice([R.SpheroidProblem, R.RastriginProblem, R.NoisyQuarticProblem])()
        rep, mut = Representation(initialize=create_real_vector(b), individual_cls=cls), mutate_gaussian(std=.4, expected_num_mutations=1, bounds=b)
    elif k == "int":
        b = [(-9, 9)] * 4
        prob, rep = FunctionProblem(lambda x: float(np.sum(x)), True), Representation(initialize=create_int_vector(b), individual_cls=cls)
        mut = cfg.choice([mutate_randint(bounds=b, expected_num_mutations=1), mutate_binomial(std=1.5, bounds=b, expected_num_mutations=1)])
    elif k == "segmented":
        from leap_ec.segmented_rep.ops import apply_mutation
        from leap_ec.binary_rep.ops import genome_mutate_bitflip
        prob = FunctionProblem(lambda x: float(sum(np.sum(s) for s in x)), True)
        rep = Representation(initialize=create_segmented_sequence(3, create_binary_sequence(4)), individual_cls=cls)
        mut, xo = apply_mutation(mutator=genome_mutate_bitflip, expected_num_mutations=1), ops.NAryCrossover(num_points=1)
    else:
        prob = cfg.choice([M.SCHProblem(), M.ZDT1Problem(n=3, check_phenome=False)])
        b = [(-4.0, 4.0)] if isinstance(prob, M.SCHProblem) else list(prob.bounds)
        rep, mut, xo = Representation(initialize=create_real_vector(b)), mutate_gaussian(std=.2, expected_num_mutations=1, bounds=b), ops.UniformCrossover(p_swap=.3)
        if sel is not ops.random_selection:
            sel = ops.tournament_selection
    rank = cfg.choice([mops.fast_nondominated_sort, mops.rank_ordinal_sort])
    return k, n, prob, rep, [sel, ops.clone, xo, mut, ops.evaluate, ops.pool(size=n)], cfg.randint(0, 2), rank


def advance(config, saved, start, end):
    """Run from `start` to `end` generations; the trace and the final population."""
    k, n, prob, rep, pipeline, elites, rank = parts(config)
    hist = []
    ctx = {"leap": {}}

    def watch(pop):
        hist.append((ctx["leap"]["generation"], repr(freeze([(i.genome, np.asarray(i.fitness).tolist(), len(i.parents)) for i in pop]))))
        return pop
    kw = dict(context=ctx, start_generation=start)
    if saved is not None:
        rep, kw["init_evaluate"] = Saved(saved), lambda pop: pop
    if k == "mo":
        final = generalized_nsga_2(end, n, prob, rep, pipeline + [watch], rank_func=rank, **kw)
    else:
        final = generational_ea(end, n, prob, rep, pipeline + [watch], k_elites=elites, **kw)
    return hist, final


def summary(final):
    return repr(freeze([(i.genome, np.asarray(i.fitness).tolist(), i.__dict__.get("rank"), i.__dict__.get("distance")) for i in final]))


def resumed(config, blob, cut, end):
    pop, r, n = cloudpickle.loads(blob)
    random.setstate(r)
    np.random.set_state(n)
    hist, final = advance(config, pop, cut, end)
    return hist, summary(final)


def cut_run(rng):
    config, seed = rng.randrange(10 ** 9), rng.randrange(2 ** 31)
    end = rng.randint(2, 8)
    cut = rng.randint(0, end)
    random.seed(seed)
    np.random.seed(seed)
    whole, final = advance(config, None, 0, end)
    random.seed(seed)
    np.random.seed(seed)
    head, pop = advance(config, None, 0, cut)
    blob = cloudpickle.dumps((pop, random.getstate(), np.random.get_state()))
    return config, seed, cut, end, whole, summary(final), head, blob


@CHECK.section(quick=500, thorough=9000, need={"resumed": 400, "generations": 800})
def resume(t):
    """A run that is saved after any generation and resumed goes on as if it had not been interrupted."""
    rng = t.rng
    config, seed, cut, end, whole, final, head, blob = cut_run(rng)
    random.seed(rng.random())
    np.random.seed(rng.randrange(10 ** 6))
    if rng.random() < .5:
        advance(rng.randrange(10 ** 9), None, 0, 2)        # something else in between
    tail, final2 = resumed(config, blob, cut, end)
    d = dict(config=config, kind=parts(config)[0], seed=seed, cut=cut, end=end)
    t.eq(head + tail, whole, "a resumed run takes another course", **d)
    t.eq(final2, final, "a resumed run gives another result", **d)
    t.event("resumed")
    t.event("generations", len(tail))
    t.sig(config, seed, cut, end)
    t.sample(d)


CHILD = """
import sys, pickle
import warnings; warnings.simplefilter("ignore")
import cloudpickle
from checks import c36
jobs = pickle.load(sys.stdin.buffer)
out = [c36.resumed(*j) for j in jobs]
sys.stdout.buffer.write(b"<<<" + pickle.dumps(out))
"""


@CHECK.section(quick=4, thorough=40, wall=200, need={"resumed": 40})
def elsewhere(t):
    """The same in another process."""
    import pickle
    rng = t.rng
    jobs = [cut_run(rng) for _ in range(25)]
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 2 ** 32 - 1)), MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env["PYTHONPATH"] = os.pathsep.join([env.get("VERIF_REPO", "/repo"), here])
    p = subprocess.run([sys.executable, "-c", CHILD], input=pickle.dumps([(j[0], j[7], j[2], j[3]) for j in jobs]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=t.tmp)
    t.check(p.returncode == 0, "saved runs cannot be resumed in another process", error=p.stderr.decode()[-1500:])
    for (config, seed, cut, end, whole, final, head, blob), (tail, final2) in zip(jobs, pickle.loads(p.stdout[p.stdout.index(b"<<<") + 3:])):
        d = dict(config=config, kind=parts(config)[0], seed=seed, cut=cut, end=end)
        t.eq(head + tail, whole, "a run resumed in another process takes another course", **d)
        t.eq(final2, final, "a run resumed in another process gives another result", **d)
        t.event("resumed")
        t.sig(config, seed, cut, end)
