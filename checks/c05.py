"""C05: mutation keeps every genome legal."""
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib.kits import (KITS, take, PittKit, CGPKit, CGPParamKit, FixedSegmentsKit, SegmentedKit)
from leap_ec import ops
from leap_ec.binary_rep.ops import mutate_bitflip, genome_mutate_bitflip
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial, individual_mutate_randint, genome_mutate_binomial
from leap_ec.real_rep.ops import mutate_gaussian, genome_mutate_gaussian, apply_hard_bounds
from leap_ec.segmented_rep.ops import apply_mutation, segmented_mutate
from leap_ec.executable_rep import cgp

CHECK = Check("C05", boost=4, rule="every mutation operator and genome-level mutator on random genomes under hostile bounds (degenerate, negative, "
              "one-sided infinite, per gene as lists/tuples/arrays), strengths (0..1e6) and rates (0..1); distinct by "
              "(operator, bounds layout, strength, rate, length)")


def real_bounds(rng, n):
    kind = rng.choice(["scalar", "list", "tuple", "array", "inf", "none"])

    def one():
        a = rng.choice([0.0, -1.0, 1.0, -1e6, 1e-9, rng.uniform(-10, 10)])
        w = rng.choice([0.0, 1e-12, 1.0, 5.0, 1e6, rng.uniform(0, 3)])
        return (a, a + w)
    if kind == "none":
        return kind, None, [(-math.inf, math.inf)] * n
    if kind == "scalar":
        b = one()
        return kind, rng.choice([tuple, list])(b), [b] * n
    if kind == "inf":
        b = rng.choice([(-math.inf, 2.0), (-2.0, math.inf)])
        return kind, b, [b] * n
    bs = [one() for _ in range(n)]
    if kind == "list":
        return kind, list(bs), bs
    if kind == "tuple":
        return kind, tuple(bs), bs
    return kind, np.array(bs), bs


def inside(rng, b):
    lo, hi = max(b[0], -1e3) if math.isinf(b[0]) else b[0], min(b[1], 1e3) if math.isinf(b[1]) else b[1]
    v = rng.choice([lo, hi, lo + (hi - lo) * rng.random()])
    return min(max(v, lo), hi)


def wrap(rng, gm_op, it_op, problem, genomes):
    """Apply either as operator on a stream or as genome mutator; returns mutated genomes and identity verdict."""
    inds = [mkind(problem, 1.0, genome=g) for g in genomes]
    out = take(it_op, inds)
    return out, inds


def stream_ok(t, out, inds, d):
    t.check([id(i) for i in out] == [id(i) for i in inds], "mutation did not hand on the same individuals in order", **d)
    t.check(all(i.fitness is None for i in out), "a mutated individual kept its fitness", **d)


@CHECK.section(quick=3000, thorough=60000, need={"genes": 5000})
def gaussian(t):
    rng = t.rng
    n = some_size(rng, 1, 9, 300)
    kind, b, per = real_bounds(rng, n)
    std = rng.choice([0.0, 1e-3, 1.0, 100.0, 1e6])
    stdv = rng.choice([std, std, [std] * n, np.array([std] * n), tuple([std] * n)])
    rate = rng.choice(['isotropic', 0, 1, n, n / 2.0, 0.1])
    kw = {} if b is None else {"bounds": b}
    slope, inter = 1.0, 0.0
    if rng.random() < .3:
        slope, inter = rng.choice([2.0, -1.0, 0.5, 0.0]), rng.choice([0.0, 3.0, -1.5])
        kw.update(transform_slope=slope, transform_intercept=inter)
    genomes = [np.array([inside(rng, p) for p in per], dtype=float) for _ in range(3)]
    old = [g.copy() for g in genomes]
    d = dict(std=repr(stdv), rate=rate, bounds=repr(b), slope=slope, intercept=inter)
    if rng.random() < .7:
        inds = [mkind(scalar_problem(True), 1.0, genome=g) for g in genomes]
        out = take(mutate_gaussian(std=stdv, expected_num_mutations=rate, **kw), inds)
        stream_ok(t, out, inds, d)
        new = [i.genome for i in out]
    else:
        gm = genome_mutate_gaussian(std=stdv, expected_num_mutations=rate, **kw)
        new = [gm(g) for g in genomes]
    low = np.array([p[0] for p in per])
    high = np.array([p[1] for p in per])
    for o, g in zip(old, new):
        t.check(isinstance(g, np.ndarray) and g.shape == o.shape and g.dtype == o.dtype, "mutation changed length or type", got=repr(g), **d)
        t.check(bool(np.all(g >= low) and np.all(g <= high)), "a mutated gene left its bounds", genome=g, low=low, high=high, **d)
        t.check(bool(np.all(np.isfinite(g))), "a mutated gene is not finite", genome=g, **d)
        clip = lambda v: np.clip(v, low, high)  # noqa
        if rate == 0:
            t.check(np.array_equal(g, o), "rate 0 changed a gene", before=o, after=g, **d)
            t.event("rate0")
        elif std == 0.0:
            tr = clip(slope * o + inter)
            same = np.isclose(g, o, rtol=1e-12, atol=1e-12) | np.isclose(g, tr, rtol=1e-12, atol=1e-12)
            if rate in ('isotropic', n):
                same = np.isclose(g, tr, rtol=1e-12, atol=1e-12)
            t.check(bool(same.all()), "strength 0 changed a gene by something else than the transform", before=o, after=g, **d)
            t.event("std0")
        elif rate in ('isotropic', n) and slope != 0.0:
            free = (g > low) & (g < high)
            t.check(bool(np.all(g[free] != o[free])), "rate 1 left a gene untouched", before=o, after=g, **d) if std >= 1 and kind == "none" else None
            t.event("rate1")
        t.event("genes", n)
    t.sig("gauss", kind, std, rate, n, slope, type(stdv).__name__)
    t.sample(dict(op="mutate_gaussian", before=old[0], after=new[0], **d))


@CHECK.section(quick=600, thorough=10000, need={"genes": 1000})
def hard_bounds(t):
    rng = t.rng
    n = some_size(rng, 1, 8, 300)
    kind, b, per = real_bounds(rng, n)
    if b is None:
        b = (-math.inf, math.inf)
    g = np.array([rng.choice([rng.uniform(-20, 20), 1e9, -1e9, inside(rng, p)]) for p in per])
    o = g.copy()
    r = apply_hard_bounds(g, b)
    exp = np.array([min(max(x, p[0]), p[1]) for x, p in zip(o, per)])
    t.check(np.array_equal(np.asarray(r), exp), "clipping to bounds is wrong", genome=o, bounds=repr(b), got=r, expected=exp)
    t.event("genes", n)
    t.sig(kind, n, tuple(exp == o))


def int_bounds(rng, n, dt=int):
    bs = []
    info = np.iinfo(dt)
    narrow = info.bits <= 32
    for _ in range(n):
        a = rng.choice([0, -1, 1, -1000, 7, rng.randint(-50, 50)])
        b = a + rng.choice([0, 0, 1, 2, 9, 1000])
        if narrow and rng.random() < .3:      # up to the limits of the genes' own number type
            a, b = rng.choice([(info.min, info.max), (info.min, info.min + 1), (info.max - 1, info.max), (info.max, info.max), (0, info.max)])
        bs.append((max(a, info.min), min(max(b, info.min), info.max)))
    form = rng.choice(["list", "tuple", "array", "lists"])
    b = {"list": bs, "tuple": tuple(bs), "array": np.array(bs), "lists": [list(x) for x in bs]}[form]
    return form, b, bs


@CHECK.section(quick=2500, thorough=50000, need={"genes": 5000})
def integers(t):
    rng = t.rng
    n = some_size(rng, 1, 9, 300)
    dt = rng.choice([int, int, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.int64])
    form, b, bs = int_bounds(rng, n, dt)
    genomes = [np.array([rng.choice([lo, hi, rng.randint(lo, hi)]) for lo, hi in bs], dtype=dt) for _ in range(3)]
    old = [g.copy() for g in genomes]
    rates = [("probability", p) for p in (0, 0.0, .5, 1, 1.0)] + [("expected_num_mutations", e) for e in (0, 1, n, n / 2.0)]
    rk, rv = rng.choice(rates)
    which = rng.choice(["randint", "binomial"])
    std = rng.choice([0, 0.5, 3.0, 40.0])
    stdv = rng.choice([std, [std] * n, np.array([float(std)] * n)])
    N = rng.choice([10000, 10000, 6400, 50000])
    d = dict(op=which, rate=(rk, rv), bounds=repr(b), std=repr(stdv))
    stream = rng.random() < .7
    if which == "randint":
        it, gm = mutate_randint(bounds=b, **{rk: rv}), individual_mutate_randint(bounds=b, **{rk: rv})
    else:
        kw = {} if N == 10000 else {"n": N}
        it, gm = mutate_binomial(std=stdv, bounds=b, **{rk: rv}, **kw), genome_mutate_binomial(stdv, b, **{rk: rv}, **kw)
    if stream:
        inds = [mkind(scalar_problem(True), 1.0, genome=g) for g in genomes]
        out = take(it, inds)
        stream_ok(t, out, inds, d)
        new = [i.genome for i in out]
    else:
        new = [gm(g) for g in genomes]
    low, high = np.array([x[0] for x in bs]), np.array([x[1] for x in bs])
    for o, g in zip(old, new):
        t.check(isinstance(g, np.ndarray) and g.shape == o.shape and g.dtype == o.dtype, "mutation changed length or number type",
                got=repr(g), before=repr(o), **d)
        t.check(bool(np.all(g >= low) and np.all(g <= high)), "a mutated gene left its inclusive bounds", before=o, after=g, **d)
        if which == "binomial":
            far = np.abs(g.astype(object) - o.astype(object))
            t.check(all(x <= 12 * std + 25 for x in far), "a gene moved much further than the requested strength allows", before=o, after=g, **d)
        if rv == 0 or (which == "binomial" and std == 0):
            t.check(np.array_equal(g, o), "rate or strength 0 changed a gene", before=o, after=g, **d)
        t.event("genes", n)
    t.sig(which, form, n, rk, rv, std, np.dtype(dt).name)
    t.sample(dict(before=old[0], after=new[0], **d))


@CHECK.section(quick=1500, thorough=30000, need={"genes": 3000})
def bits(t):
    rng = t.rng
    n = some_size(rng, 1, 12, 300)
    dt = rng.choice([int, bool, np.uint8, np.int32, float])
    genomes = [np.array([rng.randint(0, 1) for _ in range(n)], dtype=dt) for _ in range(3)]
    old = [g.copy() for g in genomes]
    rates = [("probability", p) for p in (0, 0.0, .5, 1, 1.0)] + [("expected_num_mutations", e) for e in (0, 1, n, n / 2.0)]
    rk, rv = rng.choice(rates)
    d = dict(op="bitflip", rate=(rk, rv), dtype=np.dtype(dt).name)
    if rng.random() < .7:
        inds = [mkind(scalar_problem(True), 1.0, genome=g) for g in genomes]
        out = take(mutate_bitflip(**{rk: rv}), inds)
        stream_ok(t, out, inds, d)
        new = [i.genome for i in out]
    else:
        new = [genome_mutate_bitflip(g, **{rk: rv}) for g in genomes]
    for o, g in zip(old, new):
        t.check(isinstance(g, np.ndarray) and g.shape == o.shape and g.dtype == o.dtype, "mutation changed length or type", got=repr(g), **d)
        t.check(all(v in (0, 1) for v in g.tolist()), "a bit is neither 0 nor 1", genome=g, **d)
        full = (rk == "probability" and rv == 1) or (rk != "probability" and rv == n)
        if rv == 0:
            t.check(np.array_equal(o, g), "rate 0 flipped a bit", **d)
        elif full:
            t.check(np.array_equal(g.astype(int), 1 - o.astype(int)), "rate 1 did not flip every bit", before=o, after=g, **d)
        t.event("genes", n)
    t.sig(n, np.dtype(dt).name, rk, rv)


@CHECK.section(quick=800, thorough=15000, need={"segments": 1000})
def structured(t):
    """Segmented genomes, graph programs and rules."""
    rng = t.rng
    kit = rng.choice([PittKit, CGPKit, CGPParamKit, FixedSegmentsKit, SegmentedKit])(rng)
    menu = [u for u in kit.unary() if u[0] not in ("add", "remove", "copy")]
    name, mk = rng.choice(menu)
    inds = [mkind(scalar_problem(True), 1.0, genome=kit.genome()) for _ in range(3)]
    if rng.random() < .3:
        for _ in range(10):
            inds = take(mk(), inds)
            for i in inds:
                i.fitness = 1.0
    old = [copy.deepcopy(i.genome) for i in inds]
    out = take(mk(), inds)
    d = dict(kit=kit.name, op=name)
    stream_ok(t, out, inds, d)
    for o, i in zip(old, out):
        g = i.genome
        if kit.name == "cgp":
            segs = [(o, g, kit.decoder.bounds())]
        else:
            t.check(isinstance(g, list) and len(g) == len(o), "mutation changed the number of segments", **d)
            if kit.name == "pitt":
                sb = [kit.decoder.condition_bounds + kit.decoder.action_bounds] * len(o)
            elif kit.name == "cgp-params":
                sb = [kit.decoder.bounds(), [(-1, 1)] * len(o[1])]
            elif kit.name == "fixed-segments":
                sb = [getattr(k, "bounds", [(0, 1)] * len(s)) for k, s in zip(kit.kits, o)]
            else:
                sb = [getattr(kit.inner, "bounds", [(0, 1)] * len(s)) for s in o]
            segs = list(zip(o, g, sb))
        for a, b, bnds in segs:
            t.check(isinstance(b, np.ndarray) and len(a) == len(b) and a.dtype == b.dtype, "mutation changed a segment's length or type",
                    before=repr(a), after=repr(b), **d)
            for k, (lo, hi) in enumerate(bnds):
                t.check(lo <= b[k] <= hi, "a mutated gene is illegal", gene=k, value=b[k], bounds=(lo, hi), **d)
                if kit.name in ("cgp",) or (kit.name == "pitt" and k == len(b) - 1):
                    t.check(float(b[k]) == int(b[k]), "a discrete gene is not an integer", value=b[k], **d)
            t.event("segments")
    t.sig(kit.name, name, freeze(out[0].genome))


@CHECK.section(quick=200, thorough=2000, need={"errors": 1000})
def misuse(t):
    rng = t.rng
    n = some_size(rng, 1, 5, 60)
    bs = [(0, 5)] * n
    ind = lambda: iter([mkind(scalar_problem(True), 1.0, genome=np.zeros(n, dtype=int))])  # noqa
    ind_r = lambda: iter([mkind(scalar_problem(True), 1.0, genome=np.zeros(n))])  # noqa
    lst = lambda: iter([mkind(scalar_problem(True), 1.0, genome=[0] * n)])  # noqa
    bad = rng.choice([-.1, 1.5, -1, 2])
    E = Exception
    cases = [
        ("bitflip both", lambda: next(mutate_bitflip(ind(), expected_num_mutations=1, probability=.5))),
        ("bitflip none", lambda: next(mutate_bitflip(ind()))),
        ("bitflip range", lambda: next(mutate_bitflip(ind(), probability=bad))),
        ("randint both", lambda: next(mutate_randint(ind(), bounds=bs, expected_num_mutations=1, probability=.5))),
        ("randint none", lambda: next(mutate_randint(ind(), bounds=bs))),
        ("randint range", lambda: next(mutate_randint(ind(), bounds=bs, probability=bad))),
        ("binomial both", lambda: next(mutate_binomial(ind(), std=1, bounds=bs, expected_num_mutations=1, probability=.5))),
        ("binomial none", lambda: next(mutate_binomial(ind(), std=1, bounds=bs))),
        ("binomial range", lambda: next(mutate_binomial(ind(), std=1, bounds=bs, probability=bad))),
        ("binomial n too low", lambda: next(mutate_binomial(ind(), std=100, bounds=bs, probability=1, n=100))),
        ("gaussian none", lambda: next(mutate_gaussian(ind_r(), std=1.0))),
        ("gaussian negative std", lambda: next(mutate_gaussian(ind_r(), std=-1.0, expected_num_mutations=1))),
        ("gaussian too many", lambda: next(mutate_gaussian(ind_r(), std=1.0, expected_num_mutations=n + 1))),
        ("bitflip too many", lambda: next(mutate_bitflip(ind(), expected_num_mutations=n + 1))),
        ("bitflip list genome", lambda: next(mutate_bitflip(lst(), expected_num_mutations=1))),
        ("randint list genome", lambda: next(mutate_randint(lst(), bounds=bs, expected_num_mutations=1))),
        ("gaussian list genome", lambda: next(mutate_gaussian(lst(), std=1.0, expected_num_mutations=1))),
        ("binomial list genome", lambda: next(mutate_binomial(lst(), std=1.0, bounds=bs, expected_num_mutations=1))),
    ]
    for name, fn in cases:
        e = t.raises(E, fn, "illegal mutation parameters or genome were accepted: " + name)
        t.check(not isinstance(e, StopIteration), "illegal mutation parameters ended the stream silently: " + name)
        t.event("errors")
    t.sig(n, bad)


@CHECK.section(quick=600, thorough=10000, need={"strays": 1500})
def strays(t):
    """Clipping operators bring every gene inside, also one that came from outside (another operator, other bounds)."""
    rng = t.rng
    n = rng.randint(1, 8)
    if rng.random() < .5:
        kind, b, per = real_bounds(rng, n)
        if b is None:
            b, per = (-1.0, 1.0), [(-1.0, 1.0)] * n
        g = np.array([inside(rng, p) + rng.choice([0, 0, 5.0, -5.0, 1e4]) for p in per], dtype=float)
        rate = rng.choice([.1, .5, 1, n, 'isotropic'])
        op = mutate_gaussian(std=rng.choice([.01, 1.0]), expected_num_mutations=min(rate, n) if rate != 'isotropic' else rate, bounds=b)
        what = "gaussian"
    else:
        per = [(lo, lo + rng.randint(0, 6)) for lo in (rng.randint(-9, 9) for _ in range(n))]
        b = rng.choice([list, tuple, np.array])(per)
        g = np.array([rng.randint(lo, hi) + rng.choice([0, 0, 12, -12]) for lo, hi in per])
        op = mutate_binomial(std=1.0, bounds=b, probability=rng.choice([.1, .5, 1.0]))
        what = "binomial"
    low, high = np.array([p[0] for p in per]), np.array([p[1] for p in per])
    old = g.copy()
    t.event("strays", int(((g < low) | (g > high)).sum()))
    new = take(op, [mkind(scalar_problem(True), 1.0, genome=g)])[0].genome
    t.check(bool(np.all(new >= low) and np.all(new <= high)), "a gene lies outside the bounds after mutation", op=what, before=old, after=new, low=low, high=high)
    t.sig(what, n, tuple((old < low).tolist()), tuple((old > high).tolist()))
