"""C15: parallel synchronous evaluation evaluates everyone exactly once."""
import collections
import io
import math
import os
import platform
import random
import time
import networkx as nx
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib import cluster
from leap_ec import ops, probe
from leap_ec.algorithm import generational_ea, multi_population_ea
from leap_ec.decoder import IdentityDecoder
from leap_ec.distrib import synchronous
from leap_ec.distrib.evaluate import is_viable
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.problem import AlternatingProblem, AverageFitnessProblem, CooperativeProblem, FunctionProblem, ScalarProblem
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective.ops import fast_nondominated_sort, rank_ordinal_sort
from leap_ec.multiobjective.problems import MultiObjectiveProblem
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.binary_rep.ops import genome_mutate_bitflip, mutate_bitflip
from leap_ec.binary_rep.decoders import BinaryToRealDecoder, BinaryToRealGreyDecoder
from leap_ec.segmented_rep import ops as seg
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from leap_ec.executable_rep.cgp import CGPDecoder, NAND, NotX, cgp_mutate
from leap_ec.executable_rep.neural_network import SimpleNeuralNetworkDecoder
from leap_ec.executable_rep.problems import TruthTableProblem
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.representation import Representation
from leap_ec.global_vars import context as GLOBAL

CHECK = Check("C15", rule="real dask clusters (thread workers, a few with worker processes) evaluate random populations and streams under random "
              "delays, duplicated genomes and failing evaluations; the workers log every start and end, and the log, the returned "
              "individuals and the context are compared; distinct by (form, size, workers, completion order)")
WALL = 200


def judge(t, ins, before, outs, log, beh, d, t0, t1, classes=None, same=True):
    t.eq(len(outs), len(ins), "a wrong number of individuals came back", **d)
    t.eq([o.uuid for o in outs], [b["uuid"] for b in before], "the individuals came back in another order or with another identity", **d)
    starts = collections.Counter(e[1] for e in log if e[0] == "start")
    ends = collections.Counter(e[1] for e in log if e[0] == "end")
    want = collections.Counter(cluster.key_of(b["g"]) for b in before)
    t.check(starts == want and ends == want, "individuals were not evaluated exactly once each", started=sum(starts.values()), expected=sum(want.values()), **d)
    fails = 0
    pids = collections.defaultdict(set)
    for e in log:
        pids[e[1]].add(e[3])
    for o, b in zip(outs, before):
        t.check(freeze(o.genome) == b["genome"], "an individual came back with another genome", **d)
        t.check(o.parents == b["parents"], "an individual came back with another lineage", **d)
        t.check(type(o) is b["cls"], "an individual came back as another class", **d)
        t.check(getattr(o, "tag", None) == b["tag"], "an individual lost an attribute on the way", **d)
        if beh.fails(b["g"]):
            fails += 1
            t.check(isnan(o.fitness) and o.is_viable is False and not is_viable(o), "a failed individual is not marked", fitness=o.fitness, **d)
            t.check(beh.brings(cluster.key_of(b["g"]), o.exception), "a failed individual does not carry its exception", got=repr(o.exception), **d)
            if isinstance(beh.failure(cluster.key_of(b["g"])), (cluster.Picky, cluster.Holding)):
                t.event("untransportable")
            t.event("failures")
        else:
            v = beh.value(b["g"])
            t.check(o.fitness == v or isnan(v) and isnan(o.fitness), "an individual came back with a wrong fitness", got=o.fitness, expected=v, **d)
            t.check(is_viable(o), "a successfully evaluated individual is not viable", **d)
        if sum(b["uuid"] == x["uuid"] for x in before) > 1:
            continue                                                  # two workers may have stamped the same object
        a, z = o.start_eval_time, o.stop_eval_time
        t.check(t0 - 1 <= a <= z <= t1 + 1, "inconsistent evaluation times", start=a, stop=z, interval=[t0, t1], **d)
        ev = [e[4] for e in log if e[1] == cluster.key_of(b["g"])]
        t.check(any(a <= x + 1e-4 and x <= z + 1e-4 for x in ev), "evaluation times do not enclose the evaluation", start=a, stop=z, logged=ev, **d)
        t.eq(o.hostname, platform.node(), "wrong host", **d)
        t.check(o.pid in pids[cluster.key_of(b["g"])], "the process recorded is not the one that evaluated the individual", pid=o.pid, **d)
        t.event("evaluated")
    return fails


def remember(inds):
    return [dict(uuid=i.uuid, g=np.array(i.genome, copy=True), genome=freeze(i.genome), parents=set(i.parents), cls=type(i), tag=getattr(i, "tag", None))
            for i in inds]


def once(t, client, where):
    rng = t.rng
    rid = cluster.new_run("c15")
    path = os.path.join(t.tmp, "log") if where == "processes" else None
    beh = cluster.Behaviour(rid, rng.randint(0, 10 ** 9), delay=rng.choice([0, 0, .002, .01]), fail=rng.choice([0, 0, .3, 1.0]),
                            levels=rng.choice([2, 1000, 10 ** 6]), path=path, nan=rng.choice([0, 0, 0, .3]))
    problem = cluster.TraceProblem(beh, rng.random() < .5)
    cls = rng.choice([DistributedIndividual, RobustIndividual]) if beh.fail else rng.choice([DistributedIndividual, RobustIndividual, Individual])
    own = rng.random() < .6
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own else GLOBAL
    c0 = ctx["leap"]["distrib"]["non_viable"] = rng.choice([0, 0, 5])
    kw = dict(context=ctx) if own else {}
    fails = 0
    orders = []
    forms = []

    def fresh():
        g = np.array([rng.choice([rng.random(), float(rng.randint(0, 2))]) for _ in range(rng.choice([1, 3]))])
        i = cls(g, decoder=IdentityDecoder(), problem=problem)
        if rng.random() < .5:
            i = i.clone()
            i.tag = rng.randint(0, 9)
        if rng.random() < .3:                   # left over from an evaluation long ago, somewhere else
            i.start_eval_time, i.stop_eval_time, i.hostname, i.pid = 5.0, 6.0, "elsewhere", 1
            if cls is not Individual:
                i.is_viable, i.exception = False, ValueError("long ago")
        return i
    carried = []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 10)
        form = rng.choice(["pop", "pop-curried", "pool", "pool-curried", "pool-stream"])
        inds = [fresh() if not carried or rng.random() < .8 else rng.choice(carried) for _ in range(n)]
        if rng.random() < .2:
            inds += [rng.choice(inds) for _ in range(rng.randint(1, 3))]      # the same object twice, as selection without cloning leaves it
            n = len(inds)
            t.event("same_object_twice")
        elif len({id(i) for i in inds}) != n:
            inds = list({id(i): i for i in inds}.values())
            n = len(inds)
        before = remember(inds)
        mark = len(cluster.events(rid)) if path is None else len(cluster.read_log(path))
        t0 = time.time()
        if form == "pop":
            out = synchronous.eval_population(inds, client, **kw)
        elif form == "pop-curried":
            out = synchronous.eval_population(client=client, **kw)(inds)
        else:
            extra = [fresh() for _ in range(3)]
            feed = iter(inds + extra)
            taken = []

            def stream():
                for i in feed:
                    taken.append(i)
                    yield i
            s = stream()
            if form == "pool":
                out = synchronous.eval_pool(s, client, n, **kw)
            else:
                out = synchronous.eval_pool(client=client, size=n, **kw)(s)
            t.eq(len(taken), n, "the pool took a wrong number from the stream", form=form)
        t1 = time.time()
        log = (cluster.events(rid) if path is None else cluster.read_log(path))[mark:]
        d = dict(form=form, size=n, cls=cls.__name__, where=where, fail=beh.fail, delay=beh.delay)
        t.check(isinstance(out, list), "no list came back", **d)
        fails += judge(t, inds, before, out, log, beh, d, t0, t1)
        t.eq(ctx["leap"]["distrib"]["non_viable"], c0 + fails, "non-viable individuals are not counted", **d)
        pos = {cluster.key_of(b["g"]): j for j, b in enumerate(before)}
        orders.append(tuple(pos[e[1]] for e in log if e[0] == "end"))
        if orders[-1] != tuple(sorted(orders[-1])):
            t.event("out_of_order")
        forms.append(form)
        carried = list(out)
    cluster.drop(rid)
    t.sig(tuple(forms), tuple(orders), where, cls.__name__)
    t.sample(dict(forms=forms, completion_orders=orders, failures=fails, where=where))


@CHECK.section(quick=110, thorough=1500, serial=True, wall=WALL, need={"evaluated": 500, "failures": 50, "out_of_order": 20})
def threads(t):
    w, th = t.rng.choice([(1, 1), (1, 4), (3, 1), (4, 2)])
    once(t, cluster.client(w, th), "threads %dx%d" % (w, th))


@CHECK.section(quick=10, thorough=60, serial=True, wall=WALL, need={"evaluated": 20})
def processes(t):
    once(t, cluster.client(2, 1, processes=True), "processes")


class Member(ScalarProblem):
    """One of the alternating problems; its number is part of the fitness."""
    def __init__(self, number, maximize):
        super().__init__(maximize)
        self.number = number

    def evaluate(self, phenome, *args, **kwargs):
        return 1000.0 * self.number + float(phenome[0])


@CHECK.section(quick=30, thorough=300, serial=True, wall=WALL, need={"scheduled": 150, "switched": 30, "compared": 100})
def scheduled(t):
    """A problem that follows the run's generation keeps following it when the evaluations are done elsewhere."""
    rng = t.rng
    client = cluster.client(rng.choice([1, 3]), 1)
    own = rng.random() < .6
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own else GLOBAL
    kw = dict(context=ctx) if own else {}
    count, mod = rng.randint(2, 3), rng.choice([1, 1, 2])
    subs = [Member(i, rng.random() < .5) for i in range(count)]
    problem = AlternatingProblem(subs, mod, **kw)
    cls = rng.choice([Individual, RobustIndividual, DistributedIndividual])
    n, gens = rng.randint(2, 5), rng.randint(3, 6)

    def fresh(stream):
        for i in stream:
            i.genome = np.array([float(rng.randint(0, 99))])
            i.fitness = None
            yield i

    def tap(pop):
        g = ctx["leap"]["generation"]
        cur = g // mod % count
        for i in pop:
            t.eq(float(i.fitness), 1000.0 * cur + float(i.genome[0]), "evaluated with another problem than the one scheduled for this generation", generation=g, modulo=mod, problems=count)
            t.event("scheduled")
            if cur:
                t.event("switched")
        for a in kept[-6:] + pop:
            for b in pop:
                if a is not b and a.fitness != b.fitness:
                    t.eq(a > b, (a.fitness > b.fitness) == subs[cur].maximize, "compared by another problem than the one scheduled for this generation", generation=g)
                    t.event("compared")
        kept.extend(pop)
        return pop
    kept = []
    old = GLOBAL["leap"].get("generation")
    try:
        seen = generational_ea(gens, n, problem, Representation(lambda: np.array([float(rng.randint(0, 99))]), individual_cls=cls),
                               [rng.choice([ops.random_selection, ops.naive_cyclic_selection, ops.tournament_selection]), ops.clone, fresh,
                                synchronous.eval_pool(client=client, size=n, **kw), tap],
                               init_evaluate=rng.choice([synchronous.eval_population(client=client, **kw), Individual.evaluate_population]), k_elites=rng.choice([0, 1]), **kw)
        t.eq(len(seen), n, "wrong size")
    finally:
        if not own:
            GLOBAL["leap"]["generation"] = old
    t.eq(len(kept), n * gens, "individuals are missing")
    t.sig("scheduled", own, count, mod, cls.__name__, n, gens)


class Code(ScalarProblem):
    """Complete solutions of unique genes below 1000, readable from the fitness."""
    def evaluate(self, phenome, *args, **kwargs):
        return float(sum(int(x) * 1000 ** i for i, x in enumerate(phenome)))


@CHECK.section(quick=20, thorough=200, serial=True, wall=WALL, need={"collaborations": 150})
def cooperative(t):
    """Cooperative evaluation on a cluster meets the collaborators of the moment."""
    rng = t.rng
    client = cluster.client(rng.choice([1, 3]), 1)
    own = rng.random() < .6
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own else GLOBAL
    kw = dict(context=ctx) if own else {}
    islands, n, gens = rng.randint(2, 3), rng.randint(1, 3), rng.randint(2, 4)
    selector = rng.choice([ops.random_selection, ops.naive_cyclic_selection])
    problem = CooperativeProblem(Code(True), 1, selector, **kw)
    ids = iter(range(1, 1000))

    def fresh(stream):
        for i in stream:
            i.genome = np.array([next(ids)])
            i.fitness = None
            yield i

    def tap(pop):
        pops, mine = ctx["leap"]["subpopulations"], ctx["leap"]["current_subpopulation"]
        t.eq(len(pop), n, "wrong size")
        for i in pop:
            v, parts = int(i.fitness), []
            for _ in range(islands):
                v, r = divmod(v, 1000)
                parts.append(r)
            t.check(v == 0 and parts[mine] == int(i.genome[0]), "the combined solution does not hold the individual at its own place", parts=parts, mine=mine, genome=i.genome)
            for k in range(islands):
                if k != mine:
                    now = [int(x.genome[0]) for x in pops[k]]
                    t.check(parts[k] in now, "a collaborator is not a member of the current sub-population", collaborator=parts[k], members=now, generation=ctx["leap"]["generation"])
                    t.event("collaborations")
        return pop
    old = {k: GLOBAL["leap"].get(k) for k in ("generation", "subpopulations", "current_subpopulation")}
    try:
        multi_population_ea(gens, islands, n, problem, Representation(lambda: np.array([next(ids)]), individual_cls=WholeEvaluatedIndividual),
                            [rng.choice([ops.random_selection, ops.naive_cyclic_selection]), ops.clone, fresh, synchronous.eval_pool(client=client, size=n, **kw), tap],
                            init_evaluate=ops.const_evaluate(value=-1.0), **kw)
    finally:
        if not own:
            for k, v in old.items():
                if v is None:
                    GLOBAL["leap"].pop(k, None)
                else:
                    GLOBAL["leap"][k] = v
    t.sig("cooperative", own, islands, n, gens)


# ------------------------------------------------------------------ parallel and serial runs are the same run
class Fragile(FunctionProblem):
    """Fails for some phenomes, always the same ones."""
    def evaluate(self, phenome, *args, **kwargs):
        if int(sum(np.asarray(phenome, float) * 1000)) % 4 == 0:
            raise ValueError("no")
        return super().evaluate(phenome)


def xor(x):
    return [bool(x[0]) != bool(x[1])]


def quadratic(x):
    return float(sum((np.asarray(x, float) - .25) ** 2))


def seglen(x):
    return float(sum(len(s) * (i + 1) + float(np.sum(s)) for i, s in enumerate(x)))


def netsum(f):
    return float(np.sum(f([.5, -1.0])))


class TwoGoals(MultiObjectiveProblem):
    def __init__(self, maximize):
        super().__init__(maximize)

    def evaluate(self, phenome, *args, **kwargs):
        x = np.asarray(phenome, float)
        return np.array([float(x[0] ** 2 + x[-1]), float((x[0] - 2) ** 2 - x[-1])])


KINDS = ["real", "coded", "segments", "circuit", "network", "islands", "nsga2", "nsga2", "fragile", "average"]


def whole_run(kind, cfg, init_evaluate, evaluating, t):
    """One complete run; everything random comes from the two seeded sources, evaluation is a pure function."""
    rng = random.Random(cfg["seed"])
    random.seed(cfg["seed"])
    np.random.seed(cfg["seed"])
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    n, gens, cls = cfg["n"], cfg["gens"], cfg["cls"]
    trace, names = [], {}
    out = io.StringIO()

    def name(u):
        return names.setdefault(u, len(names))

    def tap(pop):
        for i in pop:
            trace.append((ctx["leap"]["generation"], ctx["leap"].get("current_subpopulation"), name(i.uuid), tuple(sorted(name(u) for u in i.parents)) if len(i.parents) < 2 else len(i.parents),
                          str(freeze(i.genome)), str(np.asarray(i.fitness, float).tolist()), str(getattr(i, "is_viable", None))))
        return pop
    kw = dict(context=ctx)
    select = rng.choice([ops.tournament_selection, ops.random_selection, ops.cyclic_selection])
    if kind in ("real", "fragile", "average", "islands"):
        b = (-2.0, 2.0)
        problem = FunctionProblem(quadratic, rng.random() < .5)
        if kind == "fragile":
            problem = Fragile(quadratic, problem.maximize)
            cls = DistributedIndividual
        if kind == "average":
            problem = AverageFitnessProblem(problem, 2)
        rep = Representation(create_real_vector([b] * 3), individual_cls=cls)
        vary = [mutate_gaussian(std=.5, bounds=b, expected_num_mutations=rng.choice([1, "isotropic"])), ops.UniformCrossover(p_swap=.4)]
    elif kind == "coded":
        problem = FunctionProblem(quadratic, False)
        rep = Representation(create_binary_sequence(10), decoder=rng.choice([BinaryToRealDecoder, BinaryToRealGreyDecoder])((5, -1.0, 1.0), (5, 0.0, 4.0)), individual_cls=cls)
        vary = [mutate_bitflip(expected_num_mutations=1), ops.NAryCrossover(2)]
    elif kind == "segments":
        problem = FunctionProblem(seglen, True)
        rep = Representation(create_segmented_sequence(2, create_binary_sequence(3)), individual_cls=cls)
        vary = [seg.apply_mutation(mutator=genome_mutate_bitflip), seg.add_segment(seq_initializer=create_binary_sequence(3), probability=.3), seg.remove_segment(probability=.3)]
    elif kind == "circuit":
        dec = CGPDecoder([NAND(), NotX()], 2, 1, 3, 2, 2)
        problem = TruthTableProblem(xor, 2, 1)
        rep = Representation(dec.initializer(), decoder=dec, individual_cls=cls)
        vary = [cgp_mutate(dec, expected_num_mutations=2)]
    elif kind == "network":
        dec = SimpleNeuralNetworkDecoder((2, 3, 2))
        problem = FunctionProblem(netsum, True)
        rep = Representation(create_real_vector([(-1.0, 1.0)] * dec.length), decoder=dec, individual_cls=cls)
        vary = [mutate_gaussian(std=.5, expected_num_mutations=1)]
    else:
        problem = TwoGoals(np.array([rng.choice([-1, 1]), rng.choice([-1, 1])]) if rng.random() < .5 else (rng.random() < .5, rng.random() < .5))
        rep = Representation(create_real_vector([(-1.0, 3.0)] * 2), individual_cls=cls)
        vary = [mutate_gaussian(std=.5, expected_num_mutations="isotropic"), ops.UniformCrossover()]
    if kind == "nsga2":
        pop = generalized_nsga_2(gens, n, problem, rep, [select, ops.clone, *vary, *evaluating(n, ctx), tap], rank_func=rng.choice([rank_ordinal_sort, fast_nondominated_sort]),
                                 init_evaluate=init_evaluate(ctx), **kw)
        trace.append([(int(i.rank), float(i.distance)) for i in pop])
    elif kind == "islands":
        ctx["leap"]["current_subpopulation"] = None
        top = nx.complete_graph(2)
        pops = multi_population_ea(gens, 2, n, problem, rep,
                                   [select, ops.clone, *vary, *evaluating(n, ctx), tap,
                                    ops.migrate(top, ops.tournament_selection, ops.random_selection, rng.choice([1, 2]), metric=ops.migration_metric(out), context=ctx)],
                                   init_evaluate=init_evaluate(ctx), **kw)
        pop = [i for p in pops for i in p]
    else:
        stats = [probe.FitnessStatsCSVProbe(stream=out, context=ctx)] if kind != "average" else []
        pop = generational_ea(gens, n, problem, rep, [select, ops.clone, *vary, *evaluating(n, ctx), tap, *stats], init_evaluate=init_evaluate(ctx), k_elites=rng.choice([0, 1, 2]), **kw)
    tap(pop)
    trace.append(out.getvalue())
    trace.append((random.random(), float(np.random.random())))
    return trace, ctx["leap"]["distrib"]["non_viable"]


@CHECK.section(quick=60, thorough=600, serial=True, wall=WALL, need={"same": 600})
def as_serial(t):
    """A run evaluated on a cluster is, draw by draw, the run that evaluates by itself."""
    rng = t.rng
    kind = rng.choice(KINDS)
    client = cluster.client(rng.choice([1, 3]), 1)
    cfg = dict(seed=rng.randint(0, 10 ** 6), n=rng.randint(2, 6), gens=rng.randint(1, 4), cls=rng.choice([Individual, RobustIndividual, DistributedIndividual]))
    state = random.getstate(), np.random.get_state()

    def aside(f):
        # the cluster shares this process: its own draws are not the run's
        def g(x):
            r, s = random.getstate(), np.random.get_state()
            try:
                return f(x)
            finally:
                random.setstate(r)
                np.random.set_state(s)
        return g
    how = rng.choice(["pool", "population"])

    def remote(n, ctx):
        if how == "population":
            return [ops.pool(size=n), aside(synchronous.eval_population(client=client, context=ctx))]
        return [ops.pool(size=n), iter, aside(synchronous.eval_pool(client=client, size=n, context=ctx))]
    try:
        one, _ = whole_run(kind, cfg, lambda ctx: Individual.evaluate_population, lambda n, ctx: [ops.pool(size=n), iter, ops.evaluate, ops.pool(size=n)], t)
        two, _ = whole_run(kind, cfg, lambda ctx: aside(synchronous.eval_population(client=client, context=ctx)), remote, t)
    finally:
        random.setstate(state[0])
        np.random.set_state(state[1])
    t.eq(len(two), len(one), "the parallel run has another length than the serial run", kind=kind)
    for x, y in zip(one, two):
        t.check(x == y, "the parallel run differs from the serial run", kind=kind, serial=str(x)[:300], parallel=str(y)[:300], how=how)
        t.event("same")
    t.sig(kind, how, cfg["n"], cfg["gens"], cfg["cls"].__name__)


@CHECK.section(quick=25, thorough=300, serial=True, wall=WALL, need={"generations": 40})
def runs(t):
    """The pool as the evaluating end of a whole generational run."""
    rng = t.rng
    client = cluster.client(rng.choice([1, 3]), 1)
    rid = cluster.new_run("c15r")
    beh = cluster.Behaviour(rid, rng.randint(0, 10 ** 9), delay=rng.choice([0, .003]), fail=rng.choice([0, .3]))
    problem = cluster.TraceProblem(beh, rng.random() < .5)
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    n, gens = rng.randint(1, 6), rng.randint(1, 4)
    produced = []

    def fresh(stream):
        for i in stream:
            i.genome = np.array([rng.random(), rng.random()])
            i.fitness = None
            produced.append((i.uuid, cluster.key_of(i.genome)))
            yield i
    seen = []

    def tap(pop):
        seen.append([(i.uuid, cluster.key_of(i.genome)) for i in pop])
        for i in pop:
            ok = isnan(i.fitness) if beh.fails(i.genome) else i.fitness == beh.value(i.genome)
            t.check(ok, "an offspring carries a wrong fitness", fitness=i.fitness)
        t.event("generations")
        return pop
    kw = dict(context=ctx)
    r = generational_ea(gens, n, problem, Representation(initialize=lambda: np.array([rng.random(), rng.random()]), individual_cls=DistributedIndividual),
                        [ops.tournament_selection, ops.clone, fresh, synchronous.eval_pool(client=client, size=n, context=ctx), tap],
                        init_evaluate=synchronous.eval_population(client=client, context=ctx), context=ctx)
    log = cluster.events(rid)
    t.eq(len([e for e in log if e[0] == "start"]), n * (1 + gens), "the run evaluated a wrong number of individuals")
    t.eq([x for s in seen for x in s], produced, "offspring were lost, repeated or reordered")
    t.check(max(collections.Counter(e[1] for e in log if e[0] == "end").values()) == 1, "an individual was evaluated twice")
    t.eq(len(r), n, "population size")
    t.check(all(i.fitness is not None for i in r), "an unevaluated individual in the result")
    failed = sum(beh.fails_key(e[1]) for e in log if e[0] == "end")
    t.eq(ctx["leap"]["distrib"]["non_viable"], failed, "non-viable individuals are not counted")
    cluster.drop(rid)
    t.sig(n, gens, beh.fail, beh.delay, tuple(e[1][:4] for e in log)[:20])


@CHECK.section(quick=4, thorough=30, serial=True, wall=WALL, need={"evaluated": 5})
def logged(t):
    """With the logging worker plugin installed nothing else changes."""
    from leap_ec.distrib import logger as lg
    lg.logger.disabled = True
    c = cluster.client(2, 2)
    if not getattr(c, "_plugged", False):
        c.register_worker_plugin(lg.WorkerLoggerPlugin(verbose=True))
        c._plugged = True
    once(t, c, "logged")
