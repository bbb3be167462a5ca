"""C16: the asynchronous steady-state run spends its budget exactly and never regresses."""
import collections
import csv
import io
import math
import os
import threading
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib import cluster
from leap_ec import ops
from leap_ec.distrib import asynchronous
from leap_ec.distrib.asynchronous import steady_state, greedy_insert_into_pop, tournament_insert_into_pop
from leap_ec.distrib.probe import log_worker_location, log_pop
from leap_ec.distrib.evaluate import is_viable
from leap_ec.individual import RobustIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.representation import Representation
from leap_ec.global_vars import context as GLOBAL

CHECK = Check("C16", rule="real asynchronous runs on dask clusters with random delays (hence completion orders), worker counts, failures, budgets and "
              "population sizes; initialiser, workers, both probes and the inserter are tapped and the event log is checked for "
              "exactly-once delivery, budget and monotonicity; the inserters also run alone on random histories; distinct by (configuration, completion order)")
WALL = 200
LOCK = threading.Lock()


def judge_greedy(t, new, before, after, cap, mx, d):
    k = lambda i: rank_key(i.fitness, mx)  # noqa
    if len(before) < cap:
        t.check(len(after) == len(before) + 1 and all(a is b for a, b in zip(before, after)) and after[-1] is new,
                "an individual was not simply added although there was room", **d)
        return "added"
    t.eq(len(after), len(before), "a full population changed its size", **d)
    ch = [j for j in range(len(before)) if after[j] is not before[j]]
    worst = min(map(k, before))
    if not ch:
        t.check(not (k(new) > worst), "an individual better than the worst was turned away", new=new.fitness, population=[i.fitness for i in before], **d)
        return "rejected"
    t.check(len(ch) == 1 and after[ch[0]] is new, "more than one member of a full population changed", **d)
    old = before[ch[0]]
    t.check(not is_viable(old) or k(old) == worst, "not the worst member was replaced", replaced=old.fitness, population=[i.fitness for i in before], **d)
    t.check(not is_viable(old) or k(new) > k(old), "a member was replaced by something not better", new=new.fitness, old=old.fitness, **d)
    t.check(max(map(k, after)) >= max(map(k, before)) and min(map(k, after)) >= worst, "best or worst fitness got worse", **d)
    return "replaced"


def judge_tournament(t, new, before, after, cap, mx, d):
    k = lambda i: rank_key(i.fitness, mx)  # noqa
    if len(before) < cap:
        t.check(len(after) == len(before) + 1 and all(a is b for a, b in zip(before, after)) and after[-1] is new,
                "an individual was not simply added although there was room", **d)
        return "added"
    t.eq(len(after), len(before), "a full population changed its size", **d)
    ch = [j for j in range(len(before)) if after[j] is not before[j]]
    if not ch:
        t.check(not all(k(new) > k(b) for b in before), "an individual better than everyone was turned away", **d)
        return "rejected"
    t.check(len(ch) == 1 and after[ch[0]] is new, "more than one member of a full population changed", **d)
    old = before[ch[0]]
    t.check(not is_viable(old) or k(new) > k(old), "a viable member was replaced by something not better", new=new.fitness, old=old.fitness, **d)
    return "replaced"


def run(t, client, where, multi=False, alone=True):
    rng = t.rng
    with LOCK:
        rid = cluster.new_run("c16" if alone else "c16-%d" % t.index)
    path = os.path.join(t.tmp, "log") if where == "processes" else None
    beh = cluster.Behaviour(rid, rng.randint(0, 10 ** 9), delay=rng.choice([0, .001, .003, .008]), fail=rng.choice([0, 0, .2, .5]),
                            levels=rng.choice([3, 10 ** 6]), path=path, slow_fail=rng.random() < .3)
    mx = rng.random() < .5
    problem = cluster.TraceProblem(beh, mx)
    cls = rng.choice([DistributedIndividual, DistributedIndividual, RobustIndividual])
    n0, ps, births = some_size(rng, 1, 7, 40), some_size(rng, 1, 7, 40, .05), some_size(rng, 0, 16, 120, .05)
    count = rng.random() < .4
    own = rng.random() < .6 or not alone
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own else GLOBAL
    kw = dict(context=ctx) if own else {}
    if count or rng.random() < .5:
        kw["count_nonviable"] = count
    k = rng.randint(2, 3) if multi else 1
    made, created = [], []

    def init():
        g = np.array([rng.random(), rng.random()])
        created.append(cluster.key_of(g))
        return g

    def vary(stream):
        for i in stream:
            i.genome = np.array([rng.random(), rng.random()])
            i.fitness = None
            made.append((cluster.key_of(i.genome), i.uuid))
            yield i
    log = []
    state = {"pop": []}
    ins_name, ins, judge = rng.choice([("default", None, judge_greedy), ("greedy", greedy_insert_into_pop, judge_greedy),
                                       ("tournament", tournament_insert_into_pop, judge_tournament)])
    d = dict(inserter=ins_name, init=n0, size=ps, births=births, count=count, fail=beh.fail, where=where, maximize=mx, per_pipeline=k)

    def inserter(ind, pop, size):
        t.check(size == ps, "the inserter was told a wrong population size", **d)
        before = list(pop)
        ins(ind, pop, size)
        log.append(("insert", ind, judge(t, ind, before, list(pop), ps, mx, d)))
    if ins is not None:
        kw["inserter"] = inserter
    sio1, sio2 = io.StringIO(), io.StringIO()
    csv1 = log_worker_location(sio1) if cls is DistributedIndividual else None
    interval = rng.randint(1, 4)
    csv2 = log_pop(interval, sio2) if cls is DistributedIndividual else None
    rows1, rows2 = [], []

    def evaluated_probe(ind):
        log.append(("evaluated", ind))
        if csv1:
            csv1(ind)
            rows1.append([ind.hostname, str(ind.pid), str(ind.uuid), str(ind.birth_id), str(ind.start_eval_time), str(ind.stop_eval_time), str(ind.fitness)])

    def pop_probe(pop):
        if ins is None:
            judge(t, log[-1][1], state["pop"], list(pop), ps, mx, d)
        state["pop"] = list(pop)
        log.append(("pop", list(pop)))
        t.check(len(pop) <= ps, "the population exceeded its size", got=len(pop), **d)
        if csv2:
            csv2(pop)
            m = sum(1 for e in log if e[0] == "pop") - 1
            if m % interval == 0:
                rows2.extend([str(m), str(i.uuid), str(i.birth_id), str(i.start_eval_time), str(i.stop_eval_time), str(i.fitness)] for i in pop)
    sel = rng.choice([ops.random_selection, ops.tournament_selection])
    with client.as_current():
        final = steady_state(client, max_births=births, init_pop_size=n0, pop_size=ps,
                             representation=Representation(initialize=init, individual_cls=cls), problem=problem,
                             offspring_pipeline=[sel, ops.clone, vary, ops.pool(size=k)],
                             evaluated_probe=evaluated_probe, pop_probe=pop_probe, **kw)
    ev = cluster.events(rid) if path is None else cluster.read_log(path)
    cluster.drop(rid)
    starts = [e[1] for e in ev if e[0] == "start"]
    ends = [e[1] for e in ev if e[0] == "end"]
    submitted = created + [m[0] for m in made]
    t.eq(len(created), n0, "a wrong number of initial individuals", **d)
    failed = sum(beh.fails_key(e) for e in ends)
    t.check(sorted(starts) == sorted(submitted) == sorted(ends), "not every submitted individual was evaluated exactly once",
            submitted=len(submitted), evaluated=len(starts), **d)
    nb = len(made)
    net = nb - (0 if count else failed)
    if k == 1:
        t.eq(net, births, "the run did not spend exactly its budget of births", offspring=nb, failed=failed, **d)
    else:
        t.check(births <= net < births + k or (births == 0 and net <= 0) or net == births, "the run did not spend its budget of births", offspring=nb, failed=failed, **d)
    t.eq(ctx["leap"]["births"], net, "the birth count in the context is wrong", **d)
    t.eq(ctx["leap"]["distrib"]["non_viable"], failed, "failed evaluations are not counted", **d)
    evald = [e[1] for e in log if e[0] == "evaluated"]
    t.check(sorted(cluster.key_of(i.genome) for i in evald) == sorted(submitted), "not every individual was probed exactly once", **d)
    t.check(len({i.uuid for i in evald}) == len(evald), "an individual was probed twice", **d)
    pops = [e[1] for e in log if e[0] == "pop"]
    t.eq(len(pops), len(evald), "the population was not probed once per evaluation", **d)
    inserted = [e[1] for e in log if e[0] == "insert"]
    if ins is not None:
        t.check(len(inserted) == len(evald) and all(a is b for a, b in zip(inserted, evald)), "not every individual was offered to the population exactly once", **d)
    for i in evald:
        ok = (isnan(i.fitness) and not i.is_viable) if beh.fails(i.genome) else (i.fitness == beh.value(i.genome) and i.is_viable)
        t.check(ok, "an evaluated individual carries a wrong fitness", fitness=i.fitness, **d)
    t.check(all(any(i is e for e in evald) for i in final), "the result holds an individual that was not evaluated in the run", **d)
    t.check(len(final) == len(state["pop"]) and all(a is b for a, b in zip(final, state["pop"])), "the result is not the final population", **d)
    t.eq(len(final), min(ps, len(evald)), "the result has a wrong size", **d)
    if csv1:
        t.eq(list(csv.reader(io.StringIO(sio1.getvalue())))[1:], rows1, "the worker log does not hold every evaluation once, in order", **d)
        t.eq(list(csv.reader(io.StringIO(sio2.getvalue())))[1:], rows2, "the population log does not hold every interval", **d)
    t.event("evaluations", len(ends))
    t.event("failures", failed)
    outcomes = collections.Counter(e[2] for e in log if e[0] == "insert")
    for o, c in outcomes.items():
        t.event(o, c)
    order = tuple(submitted.index(e) for e in ends)
    if order != tuple(sorted(order)):
        t.event("out_of_order_runs")
    t.sig(where, ins_name, n0, ps, births, count, order)
    t.sample(dict(d, completion_order=order, outcomes=dict(outcomes), final=[repr(i.fitness) for i in final]))


@CHECK.section(quick=90, thorough=1500, serial=True, wall=WALL, need={"evaluations": 400, "failures": 50, "out_of_order_runs": 20, "replaced": 50})
def threads(t):
    w, th = t.rng.choice([(1, 1), (1, 4), (3, 1), (4, 2)])
    run(t, cluster.client(w, th), "threads %dx%d" % (w, th))


@CHECK.section(quick=15, thorough=200, serial=True, wall=WALL, need={"evaluations": 60})
def several_offspring(t):
    run(t, cluster.client(3, 1), "threads 3x1", multi=True)


@CHECK.section(quick=3, thorough=40, serial=True, wall=WALL, need={"evaluations": 10})
def processes(t):
    run(t, cluster.client(2, 1, processes=True), "processes")


@CHECK.section(quick=15, thorough=250, serial=True, wall=WALL, need={"evaluations": 100, "together": 20})
def together(t):
    """Runs that share a cluster, each with a context of its own."""
    c = cluster.client(*t.rng.choice([(1, 1), (3, 1), (4, 2)]))
    subs = [type(t)(t.check_obj, t.section, t.index * 8 + 1 + k, t.seed, t.tier) for k in range(t.rng.choice([2, 2, 3]))]
    errors = []

    def body(s):
        try:
            run(s, c, "shared cluster", multi=s.rng.random() < .3, alone=False)
        except BaseException as e:      # noqa
            errors.append(e)
    ths = [threading.Thread(target=body, args=(s,), daemon=True) for s in subs]
    for th in ths:
        th.start()
    for th in ths:
        while th.is_alive():
            th.join(.5)
    for s in subs:
        t.events.update(s.events)
        t.nchecks += s.nchecks
        t.sigs |= s.sigs
    if errors:
        raise errors[0]
    t.event("together", len(subs))


@CHECK.section(quick=2500, thorough=60000, need={"replaced": 2000, "rejected": 2000})
def inserters(t):
    """The inserters alone, over long random histories."""
    rng = t.rng
    mx = rng.random() < .5
    problem = scalar_problem(mx)
    cap = some_size(rng, 1, 6, 60)
    name, ins, judge = rng.choice([("greedy", greedy_insert_into_pop, judge_greedy), ("tournament", tournament_insert_into_pop, judge_tournament)])
    pop = []
    nan = rng.choice([0, 0, .2, .5])
    grid = rng.choice([3, 100])
    res = []
    for _ in range(some_size(rng, 1, 25, 200, .05)):
        bad = rng.random() < nan
        cls = rng.choice([RobustIndividual, DistributedIndividual])
        i = mkind(problem, math.nan if bad else rng.choice([float, int, np.float64])(rng.randint(-grid, grid)), cls=cls)
        i.is_viable = not bad
        before, sn = list(pop), snap_pop(pop + [i])
        r = ins(i, pop, cap)
        t.check(snap_pop(before + [i]) == sn, "insertion modified an individual")
        res.append(judge(t, i, before, list(pop), cap, mx, dict(inserter=name, size=cap, maximize=mx)))
        t.event(res[-1])
    t.sig(name, cap, mx, tuple(res))


@CHECK.section(quick=40, thorough=300, need={"draws": 20000})
def slots(t):
    """Random-slot insertion tries every slot equally often."""
    rng = t.rng
    mx = rng.random() < .5
    problem = scalar_problem(mx)
    cap = rng.randint(1, 6)
    c = np.zeros(cap)
    R = 1500
    for r in range(R):
        pop = [mkind(problem, 0.0, cls=DistributedIndividual) for _ in range(cap)]
        for i in pop:
            i.is_viable = True
        new = mkind(problem, 1.0 if mx else -1.0, cls=DistributedIndividual)
        tournament_insert_into_pop(new, pop, cap)
        c[[j for j in range(cap) if pop[j] is new][0]] += 1
    t.chisq(c, np.full(cap, 1 / cap), "random-slot insertion does not try the slots equally often", size=cap)
    t.event("draws", R)
    t.sig(cap, mx)
