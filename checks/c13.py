"""C13: island migration only moves copies between neighbouring islands."""
import collections
import csv
import io
import math
import networkx as nx
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib.kits import BinaryKit, RealKit, IntKit, SegmentedKit, ListKit
from leap_ec import ops
from leap_ec.algorithm import multi_population_ea
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.representation import Representation
from leap_ec.global_vars import context as GLOBAL

CHECK = Check("C13", boost=4, rule="the migration operator is driven through random processing orders over random (un)directed topologies, gaps and "
              "selectors, and inside real multi-population runs; emigrant selector, replacement selector, customs and metric are tapped "
              "and every migrant is followed from its donor to the slot it competes for; distinct by (topology, gap, order, outcome)")


def topology(rng, n):
    k = rng.choice(["cycle", "complete", "dicycle", "star", "path", "loops", "random"])
    if n == 1 or k == "loops":
        g = nx.cycle_graph(n) if n > 1 else nx.Graph()
        g.add_nodes_from(range(n))
        g.add_edges_from([(i, i) for i in range(n)])
        return "loops", g
    if k == "cycle":
        return k, nx.cycle_graph(n)
    if k == "complete":
        return k, nx.complete_graph(n)
    if k == "dicycle":
        return k, nx.cycle_graph(n, create_using=nx.DiGraph)
    if k == "star":
        return k, nx.star_graph(n - 1)
    if k == "path":
        return k, nx.path_graph(n)
    g = nx.DiGraph()
    g.add_nodes_from(range(n))
    for i in range(n):
        for j in rng.sample(range(n), rng.randint(1, n)):
            g.add_edge(i, j)
    return k, g


class Monitor:
    """Follows migrants through taps around the real operator."""

    def __init__(self, t, rng, n, ctx, problems, gap=None, customs=None, want_metric=True, kind_topo=None):
        self.t, self.ctx, self.problems, self.n = t, ctx, problems, n
        self.tname, self.topo = kind_topo or topology(rng, n)
        self.gap = gap or rng.choice([1, 1, 2, 3, 5])
        self.pending = []           # dicts: sponsor snapshot, source, time
        self.last = [-1] * n        # when an island was processed last
        self.clock = 0
        self.sel_calls, self.rep_calls, self.cust, self.metric_calls = [], [], [], []
        self.outcomes = []
        esel = rng.choice([ops.tournament_selection, ops.random_selection, ops.tournament_selection(k=4),
                           ops.cyclic_selection, ops.naive_cyclic_selection])
        rsel = rng.choice([ops.random_selection, ops.tournament_selection(select_worst=True), ops.tournament_selection,
                           ops.naive_cyclic_selection])
        mon = self

        def emigrant_selector(pop):
            it = esel(pop)
            while True:
                i = next(it)
                mon.sel_calls.append((i, snap(i)))
                yield i

        def replacement_selector(pop, indices):
            it = rsel(pop, indices=indices)
            while True:
                i = next(it)
                mon.rep_calls.append((i, indices[0] if indices else None, list(pop)))
                yield i

        def customs_stamp(ind, island):
            mon.cust.append((ind, island, snap(ind)))
            if customs == "reject":
                return ind
            if customs == "passport":
                ind.stamped = island
                return ind
            ind.problem = problems[island]      # naturalise: new problem, new fitness
            ind.evaluate()
            return ind

        def metric(generation, imm, contestant, success):
            mon.metric_calls.append((generation, imm, contestant, success, imm.fitness, contestant.fitness))
            if mon.csv_metric:
                mon.csv_metric(generation, imm, contestant, success)
        self.customs = customs
        kw = {}
        if customs:
            kw["customs_stamp"] = customs_stamp
        self.notes = rng.choice([None, {}, {"run": 3}, {"run": 3, "algo": "x"}])
        self.header = rng.random() < .7
        self.stream = io.StringIO() if rng.random() < .8 else None
        self.csv_metric = ops.migration_metric(self.stream, notes=self.notes, **({} if self.header and rng.random() < .5 else {"header": self.header})) if want_metric else None
        self.metric = want_metric
        if want_metric:
            kw["metric"] = metric
        if ctx is not GLOBAL:
            kw["context"] = ctx
        self.op = ops.migrate(self.topo, emigrant_selector, replacement_selector, self.gap, **kw)

    def __call__(self, pop):
        t, ctx = self.t, self.ctx
        i, g = ctx["leap"]["current_subpopulation"], ctx["leap"]["generation"]
        before, snaps = list(pop), {id(x): snap(x) for x in pop}
        ncust, nrep, nsel, nmet = len(self.cust), len(self.rep_calls), len(self.sel_calls), len(self.metric_calls)
        out = self.op(pop)
        d = dict(island=i, generation=g, gap=self.gap, topology=self.tname, edges=list(self.topo.edges), customs=self.customs)
        t.check(isinstance(out, list) and len(out) == len(before), "migration changed the size of an island", before=len(before), after=len(out), **d)
        for x in before:
            t.check(snap(x) == snaps[id(x)], "migration modified a resident", **d)
        # ---- arrivals
        reps = self.rep_calls[nrep:]
        mets = self.metric_calls[nmet:]
        custs = self.cust[ncust:]
        if self.customs:
            t.eq(len(custs), len(reps), "customs did not see every arriving migrant exactly once", **d)
            t.check(all(c[1] == i for c in custs), "customs was told a wrong island", **d)
        if self.metric:
            t.eq(len(mets), len(reps), "the migration log did not see every arriving migrant exactly once", **d)
        cur = list(before)
        for j, (contestant, idx, seen) in enumerate(reps):
            t.check(len(seen) == len(cur) and all(a is b for a, b in zip(seen, cur)), "a migrant did not compete against the current residents", **d)
            imm = mets[j][1] if self.metric else custs[j][0] if self.customs else None
            if self.metric:
                t.check(mets[j][0] == g, "the migration log holds a wrong generation", logged=mets[j][0], **d)
                t.check(mets[j][2] is contestant, "the migration log holds a wrong contestant", **d)
            if imm is None:
                break
            arrived = custs[j][2] if self.customs else snap(imm)
            m = [p for p in self.pending if p["uuid"] in arrived[4]]
            # a migrant is a clone of its sponsor, so its parent is the sponsor
            m = [p for p in m if i in p["dests"] and p["time"] > self.last[i] and p["genome"] == arrived[1] and p["fitness"] == arrived[2]]
            t.check(len(m) >= 1, "an arriving individual is not an unprocessed copy of an individual selected on a neighbouring island since this island was last processed",
                    pending=[(p["island"], p["time"]) for p in self.pending], **d)
            self.pending.remove(m[0])
            t.check(imm is not m[0]["ind"] and not share_storage(imm.genome, m[0]["ind"].genome), "a migrant is not a copy of its own", **d)
            mx = contestant.problem.maximize
            ok = rank_key(imm.fitness, mx) >= rank_key(contestant.fitness, mx)
            if self.metric and isnan(imm.fitness) and isnan(contestant.fitness):
                ok = bool(mets[j][3])       # two failed evaluations: either may stay
            if self.metric:
                t.check(bool(mets[j][3]) == ok, "a migrant's success is reported wrongly", migrant=imm.fitness, contestant=contestant.fitness, **d)
            if ok:
                cur[idx] = imm
            self.outcomes.append(bool(ok))
            t.event("arrivals")
            t.event("admitted" if ok else "turned_away")
        else:
            t.check(len(cur) == len(out) and all(a is b for a, b in zip(cur, out)),
                    "the island is not its old residents with admitted migrants in the contestants' places", **d)
        if not self.metric and not self.customs:
            # arrivals are anonymous: newcomers must be copies of pending sponsors
            new = [x for x in out if id(x) not in snaps]
            t.check(len(new) <= len(reps), "an island received more individuals than it processed", **d)
            for x in new:
                m = [p for p in self.pending if p["uuid"] in x.parents and i in p["dests"] and p["time"] > self.last[i]
                     and p["genome"] == freeze(x.genome) and p["fitness"] == freeze_fit(x.fitness)]
                t.check(len(m) >= 1, "a newcomer is not a copy of an individual selected on a neighbouring island", **d)
                t.event("arrivals")
        # ---- departures
        sels = self.sel_calls[nsel:]
        t.eq(len(sels), 1 if g % self.gap == 0 else 0, "an island sent a wrong number of emigrants", **d)
        self.clock += 1
        self.last[i] = self.clock
        self.clock += 1
        for ind, s in sels:
            t.check(any(ind is x for x in out), "a donor lost its individual", **d)
            t.check(snap(ind) == s, "a donor's individual was modified", **d)
            self.pending.append(dict(ind=ind, uuid=ind.uuid, genome=s[1], fitness=s[2], island=i, time=self.clock,
                                     dests=set(self.topo.neighbors(i))))
            t.event("departures")
        if self.metric or self.customs:
            # a migrant has been considered once all its possible destinations have been processed
            for p in self.pending:
                t.check(any(self.last[dst] < p["time"] for dst in p["dests"]),
                        "a migrant was never considered at any of its possible destinations", sent_from=p["island"], **d)
        return out

    def finish(self):
        if self.metric and self.stream is not None:
            keys = list((self.notes or {}).keys()) + ["generation", "migrant_fitness", "contestant_fitness", "success"]
            rows = list(csv.reader(io.StringIO(self.stream.getvalue())))
            if self.header:
                self.t.eq(rows[0], keys, "the migration log has wrong columns")
                rows = rows[1:]
            exp = [[str(v) for v in (self.notes or {}).values()] + [str(g), str(a), str(b), str(s)] for g, _, _, s, a, b in self.metric_calls]
            self.t.eq(rows, exp, "the migration log does not hold exactly the migration events")


@CHECK.section(quick=900, thorough=15000, need={"arrivals": 3000, "admitted": 500, "turned_away": 200})
def operator(t):
    rng = t.rng
    n = some_size(rng, 1, 5, 14)
    ctx = {"leap": {}} if rng.random() < .6 else GLOBAL
    mx = rng.random() < .5
    shared = rng.random() < .5
    problems = [RecordingProblem(hash_fitness, mx) for _ in range(1 if shared else n)]
    if shared:
        problems = problems * n
    customs = rng.choice([None, None, "reject", "passport", "naturalise"])
    mon = Monitor(t, rng, n, ctx, problems, customs=customs, want_metric=rng.random() < .75)
    kit = rng.choice([BinaryKit, RealKit, IntKit, SegmentedKit, ListKit])(rng)
    cls = rng.choice([Individual, RobustIndividual, DistributedIndividual])
    grid = rng.choice([2, 6, 50])
    nanp = rng.choice([0, 0, .15]) if mon.metric else 0
    pops = [[mkind(problems[i], fitness=math.nan if rng.random() < nanp else float(rng.randint(0, grid)), genome=kit.genome(), cls=cls)
             for _ in range(some_size(rng, 1, 4, 40))] for i in range(n)]
    g = rng.choice([0, 0, 1, 4])
    order_kind = rng.choice(["round", "round", "shuffled", "arbitrary"])
    hist = []
    for _ in range(some_size(rng, 2, 9, 40)):
        ctx["leap"]["generation"] = g
        order = list(range(n))
        if order_kind == "shuffled":
            rng.shuffle(order)
        elif order_kind == "arbitrary":
            order = [rng.randrange(n) for _ in range(n)]
        for i in order:
            ctx["leap"]["current_subpopulation"] = i
            hist.append((g, i))
            pops[i] = mon(pops[i])
        # breeding in between: individuals get replaced by evaluated fresh ones
        if rng.random() < .4:
            i = rng.randrange(n)
            k = rng.randrange(len(pops[i]))
            pops[i] = list(pops[i])
            pops[i][k] = mkind(problems[i], fitness=float(rng.randint(0, grid)), genome=kit.genome(), cls=cls)
        # or residents are changed in place (their emigrated copies must not be)
        if rng.random() < .4:
            for _ in range(rng.randint(1, 3)):
                x = rng.choice(rng.choice(pops))
                if rng.random() < .5:
                    x.fitness = float(rng.randint(0, grid))
                elif isinstance(x.genome, np.ndarray) and rng.random() < .5 and len(x.genome):
                    x.genome[:] = kit.genome()[:1]
                else:
                    x.genome = kit.genome()
            t.event("residents_changed")
        g += 1
    mon.finish()
    t.sig(n, mon.tname, mon.gap, order_kind, customs, mx, tuple(mon.outcomes)[:20], kit.name)
    t.sample(dict(topology=mon.tname, gap=mon.gap, order=hist[:12], arrivals=len(mon.outcomes), admitted=sum(mon.outcomes)))


@CHECK.section(quick=250, thorough=4000, need={"island_generations": 800, "arrivals": 300})
def runs(t):
    """Inside the real multi-population algorithm."""
    rng = t.rng
    n = rng.randint(1, 4)
    own = rng.random() < .6
    ctx = {"leap": {}} if own else GLOBAL
    mx = rng.random() < .5
    hetero = rng.random() < .5
    kits = [rng.choice([BinaryKit, RealKit, IntKit])(rng)] * n
    problems = [RecordingProblem(lambda p, k=k: float(int(hash_fitness(p)) % 97 + k * (1 if hetero else 0)), mx) for k in range(n if hetero else 1)]
    plist = problems if hetero else problems * n
    cls = rng.choice([Individual, RobustIndividual, DistributedIndividual])
    made = [0] * n

    def initial(k):
        def f():
            made[k] += 1
            return kits[k].genome()
        return f
    reps_list = [Representation(initialize=initial(k), individual_cls=cls) for k in range(n)]
    many_reps = rng.random() < .5 or n == 1
    ps = some_size(rng, 2, 5, 40)
    maxg = some_size(rng, 0, 6, 40)
    customs = "naturalise" if hetero else rng.choice([None, "reject"])
    mon = Monitor(t, rng, n, ctx, plist, customs=customs)
    log = []

    def tap(where):
        def f(pop):
            i = ctx["leap"]["current_subpopulation"]
            log.append((where, ctx["leap"]["generation"], i, list(pop)))
            subs = ctx["leap"]["subpopulations"]
            t.check(len(subs) == n, "the context does not hold all sub-populations")
            if where == "start":
                t.check(len(subs[i]) == len(pop) and all(a is b for a, b in zip(subs[i], pop)),
                        "the context's sub-population is not the one being processed", island=i)
            return pop
        return f
    mut = rng.choice(kits[0].unary())[1]
    shared = [tap("start"), ops.tournament_selection, ops.clone, mut(), ops.evaluate, ops.pool(size=ps), tap("bred")]
    sub = None
    if rng.random() < .5:
        sub = [[tap("sub%d" % k), mon, tap("end")] for k in range(n)]
    else:
        shared = shared + [mon, tap("end")]
    stops = []
    stop_at = rng.choice([None, None, rng.randint(0, 5)])

    def stop(pops):
        stops.append([list(p) for p in pops])
        return stop_at is not None and len(stops) > stop_at
    kw = dict(stop=stop)
    if own:
        kw["context"] = ctx
    if sub is not None:
        kw["subpop_pipelines"] = sub
    firsts = []
    if rng.random() < .5:
        def first(pop):
            firsts.append(cls.evaluate_population(copies(pop) if elsewhere else pop))
            return list(firsts[-1])
        elsewhere = rng.random() < .6
        kw["init_evaluate"] = first
    d = dict(islands=n, pop=ps, maxg=maxg, hetero=hetero, sub=sub is not None, cls=cls.__name__, stop_at=stop_at)
    final = multi_population_ea(max_generations=maxg, num_populations=n, pop_size=ps, problem=problems if hetero else problems[0],
                                representation=reps_list if many_reps or hetero else reps_list[0], shared_pipeline=shared, **kw)
    G = maxg if stop_at is None else min(maxg, stop_at)
    starts = [l for l in log if l[0] == "start"]
    ends = [l for l in log if l[0] == "end"]
    t.eq([(g, i) for _, g, i, _ in starts], [(g, i) for g in range(G) for i in range(n)], "islands were not processed once per generation, in order", **d)
    if sub is not None:
        t.eq([(w, g) for w, g, _, _ in log if w.startswith("sub")], [("sub%d" % i, g) for g in range(G) for i in range(n)],
             "an island did not run its own pipeline", **d)
    t.eq(ctx["leap"]["generation"], G, "the context does not hold the generation reached", **d)
    t.eq(sum(made), n * ps, "a wrong number of initial individuals", **d)
    if many_reps or hetero:
        t.check(all(m == ps for m in made), "an island did not use its own representation", **d)
    t.check(len(final) == n and all(len(p) == ps for p in final), "an island changed its size", **d)
    for k, p in enumerate(final):
        t.check(all(i.problem is plist[k] for i in p), "an individual is on an island of another problem", island=k, **d)
        t.check(all(i.fitness == plist[k].f(i.genome) for i in p), "an individual's fitness is not the one of its island's problem", island=k, **d)
    # continuity: what an island ends with is what it starts the next generation with
    for a, b in zip(ends, starts[n:]):
        pass
    if "init_evaluate" in kw:
        p0 = [p for _, g, i, p in starts[:n]] if G else final
        t.check(len(firsts) == n and all(len(a) == len(b) and all(x is y for x, y in zip(a, b)) for a, b in zip(p0, firsts)),
                "an island does not start from its evaluated initial population", **d)
    by = {(g, i): p for _, g, i, p in ends}
    for _, g, i, p in starts:
        if g:
            q = by[(g - 1, i)]
            t.check(len(p) == len(q) and all(x is y for x, y in zip(p, q)), "an island did not continue with its own population", generation=g, island=i, **d)
        t.event("island_generations")
    if G:
        t.check(all(all(x is y for x, y in zip(final[i], by[(G - 1, i)])) for i in range(n)), "the result is not the last populations", **d)
    migr = sum(1 for c in mon.cust)
    if hetero:
        exp = {id(p): 0 for p in problems}
        for p in problems:
            exp[id(p)] = ps + G * ps
        t.check(sum(len(p.calls) for p in problems) >= sum(exp.values()) - 0 and sum(len(p.calls) for p in problems) == sum(exp.values()) + len(mon.cust),
                "a wrong number of evaluations", **d)
    else:
        t.eq(len(problems[0].calls), n * ps * (1 + G), "a wrong number of evaluations", **d)
    if stop_at is not None:
        t.check(len(stops) == (G + 1 if stop_at < maxg else G), "the stop condition was not consulted before every generation", calls=len(stops), **d)
    mon.finish()
    t.sig(n, ps, G, hetero, mon.tname, mon.gap, tuple(mon.outcomes)[:16])
    t.sample(dict(d, generations=G, arrivals=len(mon.outcomes), admitted=sum(mon.outcomes)))


@CHECK.section(quick=40, thorough=300, need={"journeys": 20000})
def destinations(t):
    """Over many migrations every neighbour is chosen equally often, whatever was chosen before."""
    rng = t.rng
    n = rng.randint(2, 6)
    name, topo = topology(rng, n)
    ctx = {"leap": {}}
    problem = scalar_problem(True)
    gap = rng.choice([1, 1, 2, 3])
    went = [[] for _ in range(n)]           # destinations in the order of departure
    where = {}                              # serial number of a migrant -> island it reached

    def customs(imm, island):
        where[int(imm.genome[1])] = island
        return imm
    serial = [0]

    def emigrant(population):
        while True:
            serial[0] += 1
            yield mkind(problem, 1.0, genome=np.array([ctx["leap"]["current_subpopulation"], serial[0]]))
    op = ops.migrate(topo, emigrant, ops.random_selection, gap, customs_stamp=customs, context=ctx)
    pops = [[mkind(problem, 2.0, genome=np.array([i, 0]))] for i in range(n)]
    rounds = 600 if t.tier == "quick" else 1500
    for g in range(rounds * gap + 1):
        ctx["leap"]["generation"] = g
        for i in range(n):
            ctx["leap"]["current_subpopulation"] = i
            before = serial[0]
            pops[i] = op(pops[i])
            if serial[0] > before:
                went[i].append(serial[0])
    for i in range(n):
        nb = sorted(topo.neighbors(i))
        dest = [where[s] for s in went[i] if s in where]
        d = dict(topology=name, island=i, neighbours=nb, gap=gap)
        t.check(set(dest) <= set(nb), "a migrant reached an island that is not a neighbour", **d)
        t.check(len(dest) >= rounds - 1, "migrants were lost", arrived=len(dest), **d)
        t.event("journeys", len(dest))
        if len(nb) < 2:
            continue
        t.chisq([dest.count(j) for j in nb], np.full(len(nb), 1 / len(nb)), "neighbours are not chosen equally often", **d)
        pairs = collections.Counter(zip(dest[::2], dest[1::2]))
        every = [(a, b) for a in nb for b in nb]
        t.chisq([pairs[e] for e in every], np.full(len(every), 1 / len(every)), "the next destination depends on the previous one", **d)
    t.sig(n, name, gap, tuple(sorted(topo.edges())))
    t.sample(dict(topology=name, islands=n, gap=gap, journeys=sum(len(w) for w in went)))
