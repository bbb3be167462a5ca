"""C02: clones are independent, newly identified and unevaluated copies."""
import copy as _copy
import uuid
import numpy as np
from toolz import pipe
from vlib.harness import Check
from vlib.gen import *
from vlib.kits import KITS, take
from leap_ec import ops

CHECK = Check("C02", boost=4, rule="a genome of a random representation kit (flat, segmented, nested, object arrays, programs, rules) in a "
              "random individual class is cloned, then random histories of in-place operators run on one side while "
              "snapshots of the other are compared; distinct by (kit, class, operator history)")


class ExtraIndividual(Individual):
    """A user's subclass with its own state."""
    def __init__(self, genome, decoder=IdentityDecoder(), problem=None):
        super().__init__(genome, decoder=decoder, problem=problem)
        self.note = "n"


CLASSES = INDIVIDUAL_CLASSES + [ExtraIndividual]


def nested_genome(rng, depth=0):
    k = rng.randint(0, 5)
    if depth > 2 or k == 0:
        return np.array([rng.randint(0, 9) for _ in range(rng.randint(1, 4))], dtype=rng.choice([int, float]))
    if k == 1:
        return [rng.randint(0, 9) for _ in range(rng.randint(1, 4))]
    if k == 2:
        a = np.empty(rng.randint(1, 3), dtype=object)
        for i in range(len(a)):
            a[i] = nested_genome(rng, depth + 1)
        return a
    if k == 3:
        return {"a": nested_genome(rng, depth + 1), "b": [1, 2]}
    return [nested_genome(rng, depth + 1) for _ in range(rng.randint(1, 3))]


def make(rng, genome, cls, problem, decoder):
    ind = cls(genome, decoder=decoder, problem=problem)
    st = rng.randint(0, 3)
    if st == 1:
        ind.evaluate()
    elif st == 2:
        ind.phenome
    elif st == 3:
        ind.evaluate()
        ind.parents = {uuid.uuid4() for _ in range(rng.randint(0, 3))}      # as after crossover
    return ind


def check_clone(t, src, c, before, problem, decoder):
    t.event("clones")
    t.check(c is not src and type(c) is type(src), "a clone is a new object of the same class")
    t.check(freeze(c.genome) == before[1], "a clone's genome differs from its source's", source=repr(src.genome), clone=repr(c.genome))
    t.check(not share_storage(c.genome, src.genome), "clone and source share genome storage", genome=repr(src.genome))
    t.check(c.problem is problem and c.decoder is decoder, "a clone lost its problem or decoder")
    t.check(c.fitness is None, "a clone carries a fitness", fitness=repr(c.fitness))
    t.check(c.uuid != src.uuid, "a clone has its source's identity")
    t.check(set(c.parents) == {src.uuid}, "a clone's parents are not exactly its source", parents=repr(c.parents))
    t.check(c.parents is not src.parents, "clone and source share the set of parents")
    t.check(snap(src) == before, "cloning changed the source")


def problem_for(rng):
    return RecordingProblem(hash_fitness, rng.random() < .5)


@CHECK.section(quick=2500, thorough=40000, need={"clones": 2000})
def structure(t):
    rng = t.rng
    problem, decoder = problem_for(rng), TagDecoder()
    cls = rng.choice(CLASSES)
    kitname = "nested"
    if rng.random() < .5:
        g = nested_genome(rng)
        if not isinstance(g, (np.ndarray, list)):
            g = [g]
    else:
        kit = rng.choice(KITS)(rng)
        kitname = kit.name
        g = kit.genome()
    src = make(rng, g, cls, problem, decoder)
    uuids = {src.uuid}
    chain = [src]
    for _ in range(rng.randint(1, 4)):
        s = rng.choice(chain)
        before = snap(s)
        c = s.clone() if rng.random() < .6 else next(ops.clone(iter([s])))
        check_clone(t, s, c, before, problem, decoder)
        t.check(c.uuid not in uuids, "identity is not unique")
        uuids.add(c.uuid)
        for o in chain:
            t.check(not share_storage(c.genome, o.genome), "clones of one family share storage")
        if hasattr(s, "birth_id"):
            t.check(c.birth_id not in {o.birth_id for o in chain}, "birth id of a clone is not fresh")
        chain.append(c)
        if rng.random() < .5:
            c.evaluate()
    # a clone never shows its source's phenome
    s = rng.choice(chain)
    s.evaluate()
    c = s.clone()
    other = nested_genome(rng)
    c.genome = other
    t.check(freeze(c.phenome) == freeze(["t", other]), "a clone shows a phenome that is not decoded from its genome",
            phenome=repr(c.phenome), genome=repr(other))
    c2 = s.clone()
    c2.genome = other
    t.eq(c2.evaluate(), hash_fitness(["t", other]), "a changed clone is evaluated on its source's phenome")
    t.check(s.fitness == hash_fitness(["t", s.genome]), "evaluating a clone changed the source's fitness")
    # sets of parents are independent
    n = len(s.parents)
    c2.parents.add("x")
    t.check(len(s.parents) == n, "clone and source share the set of parents")
    t.sig(cls.__name__, kitname, freeze(g))
    t.sample(dict(cls=cls.__name__, kit=kitname, genome=repr(g)))


@CHECK.section(quick=1500, thorough=30000, need={"operators": 1500})
def histories(t):
    """In-place operators on one side never show on the other."""
    rng = t.rng
    kit = rng.choice(KITS)(rng)
    problem, decoder = problem_for(rng), TagDecoder()
    cls = rng.choice(CLASSES)
    srcs = [make(rng, kit.genome(), cls, problem, decoder) for _ in range(2)]
    clones = [s.clone() for s in srcs]
    active, still = (clones, srcs) if rng.random() < .6 else (srcs, clones)
    before = snap_pop(still)
    hist = []
    for _ in range(rng.randint(1, 6)):
        menu = kit.unary() + kit.crossovers() + [("evaluate", lambda: ops.evaluate), ("clone", lambda: ops.clone)]
        name, mk = rng.choice(menu)
        hist.append(name)
        if name == "nary" and min(len(a.genome) for a in active) < kit.max_points:
            continue
        active = take(mk(), active)
        t.event("operators")
        t.check(snap_pop(still) == before, "an operator on a clone changed its source (or vice versa)",
                history=hist, kit=kit.name)
        for a in active:
            for s in still:
                t.check(not share_storage(a.genome, s.genome), "an operator made two individuals share storage",
                        history=hist, kit=kit.name)
        t.check(not share_storage(active[0].genome, active[1].genome), "two individuals share storage",
                history=hist, kit=kit.name)
    t.sig(kit.name, cls.__name__, tuple(hist))
    t.sample(dict(kit=kit.name, cls=cls.__name__, history=hist))


@CHECK.section(quick=500, thorough=8000, need={"parents": 1000})
def breeding(t):
    """Parents survive a whole breeding pipeline unchanged."""
    rng = t.rng
    kit = rng.choice(KITS)(rng)
    problem, decoder = problem_for(rng), TagDecoder()
    cls = rng.choice(CLASSES)
    pop = [cls(kit.genome(), decoder=decoder, problem=problem) for _ in range(some_size(rng, 2, 6, 60))]
    for i in pop:
        i.evaluate()
    select = rng.choice([ops.tournament_selection, ops.random_selection, ops.naive_cyclic_selection,
                         ops.cyclic_selection, ops.sus_selection(offset='pop-min'), ops.proportional_selection(offset='pop-min')])
    before = snap_pop(pop)
    stages = [("clone", ops.clone)]
    if kit.unary():
        for _ in range(rng.randint(1, 2)):
            n, mk = rng.choice(kit.unary())
            stages.append((n, mk()))
    if kit.crossovers() and kit.persistent_length and rng.random() < .7:
        n, mk = rng.choice(kit.crossovers())
        stages.insert(rng.randint(1, len(stages)), (n, mk()))
    stages.append(("evaluate", ops.evaluate))
    n = 2 * some_size(rng, 1, 4, 60)
    off = pipe(pop, select, *[s for _, s in stages], ops.pool(size=n))
    names = [s for s, _ in stages]
    t.check(snap_pop(pop) == before, "parents changed while breeding", stages=names, kit=kit.name)
    t.event("parents", len(pop))
    puu = {p.uuid for p in pop}
    t.check(len({o.uuid for o in off} | puu) == len(off) + len(pop), "identities of offspring are not unique", stages=names)
    for o in off:
        t.check(o.parents and set(o.parents) <= puu, "an offspring's recorded parents are not among its parents",
                stages=names, parents=repr(o.parents))
        for p in pop:
            t.check(not share_storage(o.genome, p.genome), "offspring and parent share storage", stages=names)
        t.event("offspring")
    if cls is DistributedIndividual:
        ids = [i.birth_id for i in pop + off]
        t.check(len(set(ids)) == len(ids), "birth ids are not unique", ids=ids)
    t.sig(kit.name, cls.__name__, tuple(names), n)
