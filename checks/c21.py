"""C21: segmented genomes keep their segments whole."""
import collections
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib.kits import BinaryKit, RealKit, IntKit, take
from leap_ec.decoder import IdentityDecoder
from leap_ec.binary_rep.decoders import BinaryToIntDecoder
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.representation import Representation
from leap_ec.segmented_rep.decoders import SegmentedDecoder
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from leap_ec.segmented_rep.ops import apply_mutation, segmented_mutate, add_segment, remove_segment, copy_segment

CHECK = Check("C21", boost=4, rule="genomes of uniquely tagged segments go through random histories of segment operators, mutators and cloning; after each step "
              "the change is explained as exactly one insertion, copy or removal (or as mutations within segments) and storage is "
              "checked for sharing; distinct by (history, sizes)")


class Tags:
    """Every created segment is globally unique."""

    def __init__(self, rng):
        self.rng, self.n, self.made = rng, 0, []

    def segment(self):
        self.n += 1
        style = self.rng.choice([1, 2, 3])
        s = np.array([float(self.n)] + [self.rng.random() for _ in range(style)])
        self.made.append(freeze(s))
        return s


def private(t, pop, d):
    """no two segments of no two individuals share storage"""
    segs = [(a, s) for a, i in enumerate(pop) for s in i.genome]
    for x in range(len(segs)):
        for y in range(x):
            t.check(segs[x][1] is not segs[y][1] and not np.shares_memory(segs[x][1], segs[y][1]), "two segments share storage", **d)
    t.check(len({id(i.genome) for i in pop}) == len(pop), "two individuals share a genome", **d)


def subsequence(short, long):
    """positions k such that long without k is short"""
    return [k for k in range(len(long)) if long[:k] + long[k + 1:] == short]


@CHECK.section(quick=1500, thorough=25000, need={"steps": 2500, "add": 800, "copy": 800, "remove": 500})
def histories(t):
    rng = t.rng
    tags = Tags(rng)
    problem = scalar_problem(True)
    cls = rng.choice([Individual, RobustIndividual])
    pop = [mkind(problem, 1.0, genome=[tags.segment() for _ in range(some_size(rng, 1, 4, 60))], cls=cls) for _ in range(rng.randint(1, 3))]
    hist = []
    for _ in range(rng.randint(1, 8)):
        k = rng.choice(["add", "copy", "remove", "clone", "mutate"])
        p = rng.choice([0.0, .5, 1.0, 1.0])
        app = rng.choice([None, True, False])
        kw = {} if app is None else {"append": app}
        before = [[freeze(s) for s in i.genome] for i in pop]
        for i in pop:
            i.fitness = 1.0
        d = dict(history=hist + [(k, p, app)])
        made0 = len(tags.made)
        if k == "add":
            out = take(add_segment(seq_initializer=tags.segment, probability=p, **kw), pop)
        elif k == "copy":
            out = take(copy_segment(probability=p, **kw), pop)
        elif k == "remove":
            out = take(remove_segment(probability=p), pop)
        elif k == "clone":
            out = [i.clone() for i in pop]
            private(t, pop + out, d)
            pop = out if rng.random() < .5 else pop
            hist.append(("clone",))
            continue
        else:
            for i in pop:
                s = rng.choice(i.genome)
                s[rng.randrange(len(s))] += rng.random()
            hist.append(("mutate",))
            continue
        t.check(all(a is b for a, b in zip(out, pop)), "a segment operator did not hand on the same individuals", **d)
        after = [[freeze(s) for s in i.genome] for i in pop]
        fresh = tags.made[made0:]
        used = []
        for i, b, a in zip(pop, before, after):
            t.check(isinstance(i.genome, list), "a genome is not a list of segments any more", **d)
            if a == b:
                if k == "remove" and len(b) == 1:
                    t.check(True, "")
                else:
                    t.check(p < 1, "a segment operator with probability one did nothing", **d)
                continue
            t.check(p > 0, "a segment operator with probability zero changed a genome", **d)
            t.check(i.fitness is None, "a changed individual kept its fitness", **d)
            if k == "remove":
                t.check(len(b) > 1 and len(a) == len(b) - 1 and subsequence(a, b), "removal did not delete exactly one segment", before=len(b), after=len(a), **d)
            else:
                pos = subsequence(b, a) if len(a) == len(b) + 1 else []
                t.check(pos, "not exactly one segment was inserted (or others changed)", before=len(b), after=len(a), **d)
                if app:
                    t.check(len(a) - 1 in pos, "the new segment is not at the end although append was asked for", positions=pos, **d)
                new = a[pos[0]]
                if k == "add":
                    t.check(new in fresh, "the added segment was not freshly created", **d)
                    used.append(new)
                else:
                    t.check(new in b, "the copied segment is not a duplicate of an existing one", **d)
            t.event(k)
        if k == "add":
            t.check(len(set(used)) == len(used) == len(fresh), "created segments and added segments do not correspond", created=len(fresh), added=len(used), **d)
        private(t, pop, d)
        hist.append((k, p, app))
        t.event("steps")
    t.sig(tuple(hist), tuple(len(i.genome) for i in pop))
    t.sample(dict(history=hist, segments=[len(i.genome) for i in pop]))


@CHECK.section(quick=1200, thorough=20000, need={"mutated": 3000})
def per_segment(t):
    """Each mutator is applied to its own segment, once, and to nothing else."""
    rng = t.rng
    problem = scalar_problem(True)
    n = some_size(rng, 1, 5, 60)
    pop = [mkind(problem, 2.0, genome=[np.array([float(rng.randint(0, 9)) for _ in range(rng.randint(1, 4))]) for _ in range(n)]) for _ in range(rng.randint(1, 3))]
    log = []

    def mutator(k):
        def f(seg, **kw):
            log.append((k, freeze(seg), kw))
            inplace = (k % 2 == 0)
            r = seg if inplace else seg.copy()
            r[0] += 100 * (k + 1)
            return r
        return f
    before = [[s.copy() for s in i.genome] for i in pop]
    if rng.random() < .5:
        ms = [mutator(k) for k in range(n)]
        out = take(segmented_mutate(mutator_functions=ms), pop)
        for i, b in zip(pop, before):
            for k in range(n):
                exp = b[k].copy()
                exp[0] += 100 * (k + 1)
                t.check(np.array_equal(i.genome[k], exp), "a segment was not changed by exactly its own mutator", segment=k, got=i.genome[k], expected=exp)
        t.eq([(k, g) for k, g, _ in log], [(k, freeze(b[k])) for b in before for k in range(n)], "mutators were not applied once each, to their own segment")
        bad = mkind(problem, genome=[np.zeros(2)] * (n + 1))
        t.raises(Exception, lambda: next(segmented_mutate(iter([bad]), ms)), "a wrong number of mutators was accepted")
        kind = "segmented"
    else:
        e = rng.choice([None, 1.0, 2.0, .5])
        kw = {} if e is None else dict(expected_num_mutations=e)
        out = take(apply_mutation(mutator=mutator(1), **kw), pop)
        for i, b in zip(pop, before):
            t.check(len(i.genome) == n, "the number of segments changed")
            for k in range(n):
                exp = b[k].copy()
                exp[0] += 200
                t.check(np.array_equal(i.genome[k], exp), "a segment was not mutated exactly once", segment=k, got=i.genome[k], expected=exp)
        for k, _, kw_ in log:
            t.check(set(kw_) == {"expected_num_mutations"} and abs(kw_["expected_num_mutations"] - (e or 1.0) / n) < 1e-12,
                    "the expected number of mutations is not spread over the segments", told=kw_, asked=e, segments=n)
        t.eq(len(log), n * len(pop), "not every segment was mutated exactly once")
        kind = "apply"
    t.check(all(a is b for a, b in zip(out, pop)) and all(i.fitness is None for i in pop), "individuals lost or fitness kept")
    private(t, pop, dict(op=kind))
    t.event("mutated", n * len(pop))
    t.sig(kind, n, len(pop), tuple(len(s) for s in pop[0].genome))


class Rec:
    def __init__(self):
        self.seen = []

    def decode(self, seg, *a, **k):
        self.seen.append(freeze(seg))
        return ("dec", len(self.seen), freeze(seg))


@CHECK.section(quick=1200, thorough=20000, need={"created": 3000, "decoded": 3000})
def creation(t):
    rng = t.rng
    kit = rng.choice(["binary", "real", "int", "own"])
    ln = some_size(rng, 1, 5, 60)
    if kit == "binary":
        init = create_binary_sequence(ln)
    elif kit == "real":
        init = create_real_vector([(0, 1)] * ln)
    elif kit == "int":
        init = create_int_vector([(0, 9)] * ln)
    else:
        init = Tags(rng).segment
    calls = []

    def counted():
        s = init()
        calls.append(freeze(s))
        return s
    nums = []
    if rng.random() < .5:
        def length():
            nums.append(rng.randint(1, 5))
            return nums[-1]
        arg = length
    else:
        arg = some_size(rng, 1, 5, 60)
    create = create_segmented_sequence(arg, counted)
    n = rng.randint(1, 5)
    rec = Rec()
    real_dec = BinaryToIntDecoder(ln) if kit == "binary" and rng.random() < .5 else None
    dec = SegmentedDecoder(real_dec or rec)
    pop = Representation(initialize=create, decoder=dec).create_population(n, problem=scalar_problem(True))
    want = nums if callable(arg) else [arg] * n
    t.eq([len(i.genome) for i in pop], want, "created genomes do not have the requested number of segments")
    t.check([freeze(s) for i in pop for s in i.genome] == calls, "segments were not created freshly, one by one, in order")
    if kit != "own":
        t.check(all(len(s) == ln for i in pop for s in i.genome), "a segment has a wrong length")
    private(t, pop, dict(kit=kit))
    t.event("created", len(calls))
    for i in pop:
        before = freeze(i.genome)
        rec.seen.clear()
        ph = i.decode()
        t.check(freeze(i.genome) == before, "decoding modified the genome")
        t.eq(len(ph), len(i.genome), "decoding did not return one value per segment")
        if real_dec is None:
            t.eq(list(ph), [("dec", k + 1, freeze(s)) for k, s in enumerate(i.genome)], "segments were not decoded once each, in order")
        else:
            t.check(all(np.array_equal(p, real_dec.decode(s)) for p, s in zip(ph, i.genome)), "a segment is decoded wrongly")
        t.event("decoded", len(ph))
    t.sig(kit, ln, tuple(want))
