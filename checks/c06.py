"""C06: mutation changes as many genes, and by as much, as requested."""
import numpy as np
from scipy.stats import norm, binom as binomdist
from vlib.harness import Check
from vlib.gen import *
from leap_ec import ops
from leap_ec.binary_rep.ops import mutate_bitflip, genome_mutate_bitflip
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial, individual_mutate_randint, genome_mutate_binomial
from leap_ec.real_rep.ops import mutate_gaussian, genome_mutate_gaussian
from leap_ec.segmented_rep.ops import (apply_mutation, segmented_mutate, add_segment, remove_segment, copy_segment)
from leap_ec.executable_rep import cgp

CHECK = Check("C06", rule="one trial = one operator setting (length, rate, strength, bounds) applied to thousands of recorded individuals; "
              "distinct by setting; decisions are exact-binomial / chi-square / moment / KS tests with p < 1e-10",
              assumptions=["deviations smaller than the resolution of the sample (about 5 % of a rate per trial) are not detected"])


def M(t, base):
    return base * (1 if t.tier == "quick" else 4)


def run(op, genomes):
    """Stream through one operator; one operator call for the whole stream."""
    p = scalar_problem(True)
    it = op((mkind(p, 1.0, genome=g) for g in genomes))
    return [next(it).genome for _ in range(len(genomes))]


def rate_setting(rng, L):
    if rng.random() < .5:
        p = rng.choice([.05, .1, .25, .5, .75, .9, rng.uniform(.05, .95)])
        return {"probability": p}, p
    e = rng.choice([1, 1, 2, L / 2.0, L / 4.0, rng.uniform(.3, L * .9)])
    e = min(e, L)
    return {"expected_num_mutations": e}, e / L


def rates(t, changed, p, d):
    """changed: M x L boolean matrix of independent Bernoulli(p) decisions."""
    m, L = changed.shape
    k = int(changed.sum())
    t.event("gene_decisions", m * L)
    t.binom(k, m * L, p, "number of mutated genes does not match the requested rate", **d)
    if 0 < p < 1:
        t.chisq(changed.sum(0), np.full(L, 1.0 / L), "some loci are mutated more often than others", **d)
        per = np.bincount(changed.sum(1), minlength=L + 1)
        t.chisq(per, binomdist.pmf(np.arange(L + 1), L, p), "number of mutated genes per individual is not binomial (not independent)", **d)


@CHECK.section(quick=70, thorough=400, need={"gene_decisions": 100000})
def bitflip(t):
    rng = t.rng
    L = rng.choice([1, 2, 3, 5, 10, 20])
    kw, p = rate_setting(rng, L)
    m = M(t, 40000) // L // 2
    base = t.np.integers(0, 2, size=L)
    if rng.random() < .7:
        out = run(mutate_bitflip(**kw), [base.copy() for _ in range(m)])
    else:
        out = [genome_mutate_bitflip(base.copy(), **kw) for _ in range(m)]
    ch = np.array(out) != base
    d = dict(op="bitflip", length=L, **kw)
    rates(t, ch, p, d)
    t.sig("bitflip", L, round(p, 3), *kw)
    t.sample(dict(individuals=m, changed=int(ch.sum()), expected=m * L * p, **d))


@CHECK.section(quick=120, thorough=600, need={"gene_decisions": 100000})
def gaussian(t):
    rng = t.rng
    L = rng.choice([1, 2, 3, 5, 10])
    iso = rng.random() < .3
    e = 'isotropic' if iso else min(L, rng.choice([1, 1, 2, L / 2.0, L, rng.uniform(.3, L)]))
    p = 1.0 if iso else e / L
    sd = rng.choice([.01, .5, 1.0, 2.5, 30.0])
    per = rng.random() < .4
    sds = np.array([sd * (1 + k) for k in range(L)]) if per else np.full(L, sd)
    stdv = rng.choice([list, np.array, tuple])(sds) if per else sd
    m = M(t, 30000) // L // 2
    base = np.array([rng.uniform(-5, 5) for _ in range(L)])
    kw = {}
    slope, inter = 1.0, 0.0
    if rng.random() < .3:
        slope, inter = rng.choice([2.0, .5, -1.0]), rng.choice([0.0, 100.0])
        kw = dict(transform_slope=slope, transform_intercept=inter)
    if rng.random() < .4:
        kw["bounds"] = rng.choice([(-1e6, 1e6), [(-1e6, 1e6)] * L])
    if rng.random() < .7:
        out = run(mutate_gaussian(std=stdv, expected_num_mutations=e, **kw), [base.copy() for _ in range(m)])
    else:
        gm = genome_mutate_gaussian(std=stdv, expected_num_mutations=e, **kw)
        out = [gm(base.copy()) for _ in range(m)]
    out = np.array(out)
    ch = out != base
    d = dict(op="gaussian", length=L, rate=e, std=repr(stdv), slope=slope, intercept=inter)
    rates(t, ch, p, d)
    allz = []
    for k in range(L):
        x = out[ch[:, k], k]
        if len(x) < 200:
            continue
        noise = (x - inter) / slope - base[k]
        t.mean(noise, 0.0, sds[k], "Gaussian noise does not have mean zero", gene=k, **d)
        t.sd(noise, sds[k], "Gaussian noise does not have the requested standard deviation", gene=k, **d)
        allz.append(noise / sds[k])
        t.event("noise", len(x))
    if allz:
        t.ks(np.concatenate(allz), norm.cdf, "noise is not Gaussian", **d)
    # genes draw independent noise
    both = ch[:, 0] & ch[:, -1]
    if L > 1 and both.sum() > 500:
        a = (out[both, 0] - inter) / slope - base[0]
        b = (out[both, -1] - inter) / slope - base[-1]
        r = float(np.corrcoef(a, b)[0, 1])
        t.check(abs(r) < 7 / math.sqrt(both.sum()), "noise of different genes is correlated", r=r, **d)
    t.sig("gauss", L, repr(e), repr(stdv), slope, inter, "bounds" in kw)
    t.sample(dict(individuals=m, **d))


@CHECK.section(quick=80, thorough=400, need={"gene_decisions": 100000})
def randint(t):
    rng = t.rng
    L = rng.choice([1, 2, 3, 5, 8])
    sizes = [rng.choice([2, 3, 4, 7]) for _ in range(L)]
    lows = [rng.choice([0, -5, 3]) for _ in range(L)]
    bounds = [(lo, lo + s - 1) for lo, s in zip(lows, sizes)]
    bounds = rng.choice([bounds, np.array(bounds)])
    kw, p = rate_setting(rng, L)
    m = M(t, 40000) // L // 2
    which = rng.choice(["op", "genome", "cgp"])
    # the parent's genes lie outside the bounds, so every mutated gene shows
    base = np.full(L, 999)
    if which == "genome":
        gm = individual_mutate_randint(bounds=bounds, **kw)
        out = np.array([gm(base.copy()) for _ in range(m)])
    else:
        out = np.array(run(mutate_randint(bounds=bounds, **kw), [base.copy() for _ in range(m)]))
    ch = out != 999
    d = dict(op="randint", length=L, bounds=repr(bounds), **kw)
    rates(t, ch, p, d)
    for k in range(L):
        x = out[ch[:, k], k] - lows[k]
        t.check(len(x) == 0 or (x.min() >= 0 and x.max() < sizes[k]), "a reset gene left its bounds", gene=k, **d)
        t.chisq(np.bincount(x, minlength=sizes[k])[:sizes[k]], np.full(sizes[k], 1 / sizes[k]),
                "random reset is not uniform over the inclusive bounds", gene=k, **d)
        t.event("values", len(x))
    # the reset genes of one individual are independent of each other
    both = ch[:, 0] & ch[:, -1]
    if L > 1 and both.sum() > 500:
        c = (out[both, 0] - lows[0]) * sizes[-1] + out[both, -1] - lows[-1]
        n2 = sizes[0] * sizes[-1]
        t.chisq(np.bincount(c, minlength=n2), np.full(n2, 1 / n2), "values of genes reset together are not independent", **d)
    t.sig("randint", L, tuple(sizes), round(p, 3), which)


@CHECK.section(quick=60, thorough=300, need={"noise": 20000})
def binomial(t):
    rng = t.rng
    L = rng.choice([1, 2, 4])
    sd = rng.choice([.5, 1.0, 2.0, 5.0, 20.0])
    per = rng.random() < .4
    sds = [sd * (1 + .3 * k) for k in range(L)] if per else [sd] * L
    stdv = rng.choice([list, np.array])(sds) if per else sd
    kw, p = rate_setting(rng, L)
    if rng.random() < .5:
        kw, p = rng.choice([({"probability": 1.0}, 1.0), ({"expected_num_mutations": L}, 1.0)])
    m = M(t, 40000) // L // 2
    N = rng.choice([None, 20000])
    nk = {} if N is None else {"n": N}
    base = np.array([rng.randint(-5, 5) for _ in range(L)])
    bounds = [(-10 ** 6, 10 ** 6)] * L
    if rng.random() < .6:
        out = np.array(run(mutate_binomial(std=stdv, bounds=bounds, **kw, **nk), [base.copy() for _ in range(m)]))
    else:
        gm = genome_mutate_binomial(stdv, bounds, **kw, **nk)
        out = np.array([gm(base.copy()) for _ in range(m)])
    diff = out - base
    d = dict(op="binomial", length=L, std=repr(stdv), n=N, **kw)
    for k in range(L):
        n = N or 10000
        q = (1 - math.sqrt(1 - 4 * sds[k] ** 2 / n)) / 2
        x = diff[:, k].astype(float)
        # second moment of p*noise, noise with sd sds[k] and a mean of at most one (rounding)
        m2 = float((x ** 2).mean())
        kurt = 3 + (1 - 6 * q * (1 - q)) / (n * q * (1 - q))
        tol = 8 * sds[k] ** 2 * math.sqrt(kurt * p / len(x)) * 1.3
        t.check(p * sds[k] ** 2 - tol <= m2 <= p * (sds[k] ** 2 + 1) + tol * (1 + 1 / sds[k] ** 2) * 2,
                "binomial noise does not have the requested standard deviation", gene=k, second_moment=m2,
                expected=p * sds[k] ** 2, tol=tol, **d)
        if p == 1.0:
            t.sd(x, sds[k], "binomial noise does not have the requested standard deviation", kurt=max(kurt, 3), gene=k, **d)
        mu = float(x.mean())
        tolm = 8 * math.sqrt(p * (sds[k] ** 2 + 1) / len(x))
        t.check(-tolm - 1e-9 <= abs(mu) <= p * 1.0 + tolm, "binomial noise is not zero-mean (up to rounding)", gene=k, mean=mu, **d)
        if sds[k] >= 5:
            # a mutated gene is left in place only when the draw is zero
            z = binomdist.pmf(int(n * q), n, q)
            r = float((x != 0).mean())
            exp = p * (1 - z)
            tolr = 7 * math.sqrt(exp * (1 - exp) / len(x)) + .3 * z * p + 1e-9
            t.check(abs(r - exp) <= tolr, "share of mutated genes does not match the requested rate", gene=k, rate=r, expected=exp, **d)
        t.event("noise", len(x))
    # genes draw independent noise
    both = (diff[:, 0] != 0) & (diff[:, -1] != 0)
    if L > 1 and sd >= 5 and both.sum() > 500:
        r = float(np.corrcoef(diff[both, 0], diff[both, -1])[0, 1])
        t.check(abs(r) < 7 / math.sqrt(both.sum()), "noise of different genes is correlated", r=r, **d)
    t.sig("binomial", L, repr(stdv), round(p, 3), N)


@CHECK.section(quick=60, thorough=300, need={"gene_decisions": 100000})
def segmented(t):
    """apply_mutation spreads the expected number over the segments."""
    rng = t.rng
    S, L = rng.choice([1, 2, 3, 5]), rng.choice([2, 4, 7])
    e = rng.choice([1.0, 1.0, .5, 2.0, S * L / 2.0, None])
    kw = {} if e is None else {"expected_num_mutations": e}
    ee = 1.0 if e is None else e
    if ee / S > L:
        return
    m = M(t, 30000) // (S * L)
    kind = rng.choice(["bit", "gauss", "int"])
    mut, base = {"bit": (genome_mutate_bitflip, np.zeros(L, dtype=int)),
                 "gauss": (genome_mutate_gaussian(std=1.0), np.zeros(L)),
                 "int": (individual_mutate_randint(bounds=[(1, 9)] * L), np.zeros(L, dtype=int))}[kind]
    out = run(apply_mutation(mutator=mut, **kw), [[base.copy() for _ in range(S)] for _ in range(m)])
    ch = np.array([np.concatenate([s != base for s in g]) for g in out])
    rates(t, ch, ee / (S * L), dict(op="apply_mutation", kind=kind, segments=S, length=L, expected=ee))
    t.sig("apply", S, L, ee, kind)


@CHECK.section(quick=40, thorough=200, need={"gene_decisions": 10000})
def mixed_streams(t):
    """One operator call serving individuals of different lengths: the rate is
    each individual's own."""
    rng = t.rng
    shapes = [(rng.randint(1, 5), rng.randint(2, 6)) for _ in range(3)]
    kind = rng.choice(["bit", "gauss", "int", "apply-bit", "apply-gauss"])
    e = rng.choice([.5, 1.0, 2.0])
    m = M(t, 1500)
    order = [k for k in range(3) for _ in range(m)]
    if rng.random() < .7:
        rng.shuffle(order)
    if kind.startswith("apply"):
        mut = genome_mutate_bitflip if kind == "apply-bit" else genome_mutate_gaussian(std=1.0)
        dt = int if kind == "apply-bit" else float
        e = min(e, min(s * l for s, l in shapes))
        op, g = apply_mutation(mutator=mut, expected_num_mutations=e), lambda s, l: [np.zeros(l, dtype=dt) for _ in range(s)]
        if any(e / s > l for s, l in shapes):
            return
    else:
        e = min(e, min(l for s, l in shapes))
        op = {"bit": lambda: mutate_bitflip(expected_num_mutations=e), "gauss": lambda: mutate_gaussian(std=1.0, expected_num_mutations=e),
              "int": lambda: mutate_randint(bounds=[(1, 9)] * 6, expected_num_mutations=e)}[kind]()
        if kind == "int":       # bounds fix the length here
            shapes = [(s, 6) for s, _ in shapes]
        g = lambda s, l: np.zeros(l, dtype=float if kind == "gauss" else int)  # noqa
    out = run(op, [g(*shapes[k]) for k in order])
    for k, (s, l) in enumerate(shapes):
        mine = [np.concatenate(o) if kind.startswith("apply") else o for o, w in zip(out, order) if w == k]
        ch = np.array(mine) != 0
        t.check(ch.shape == (m, (s * l if kind.startswith("apply") else l)), "mutation changed a length", op=kind)
        rates(t, ch, e / ch.shape[1], dict(op=kind, mixed=shapes, this=(s, l), expected_num_mutations=e))
    t.sig(kind, tuple(shapes), e)


@CHECK.section(quick=40, thorough=200, need={"gene_decisions": 10000})
def per_segment_mutators(t):
    rng = t.rng
    ls = [rng.randint(1, 5) for _ in range(rng.randint(1, 3))]
    ps = [rng.choice([.2, .5, .9]) for _ in ls]
    m = M(t, 3000)
    out = run(segmented_mutate(mutator_functions=[genome_mutate_bitflip(probability=p) for p in ps]),
              [[np.zeros(l, dtype=int) for l in ls] for _ in range(m)])
    for k, (l, p) in enumerate(zip(ls, ps)):
        rates(t, np.array([g[k] for g in out]) == 1, p, dict(op="segmented_mutate", segment=k, probability=p, lengths=ls))
    t.sig(tuple(ls), tuple(ps))


@CHECK.section(quick=40, thorough=200, need={"gene_decisions": 10000})
def programs(t):
    """cgp mutation hits every gene with the requested rate, uniformly over its legal values."""
    rng = t.rng
    dec = cgp.CGPDecoder([cgp.NAND(), cgp.NotX(), cgp.NAND()], num_inputs=3, num_outputs=rng.randint(1, 2), num_layers=rng.randint(1, 3),
                         nodes_per_layer=rng.randint(1, 2), max_arity=2, levels_back=rng.choice([None, 1]))
    b = dec.bounds()
    L = len(b)
    kw, p = rate_setting(rng, L)
    m = M(t, 20000) // L
    base = np.full(L, 999)
    if rng.random() < .5:
        out = np.array(run(cgp.cgp_mutate(dec, **kw), [base.copy() for _ in range(m)]))
    else:
        gm = cgp.cgp_genome_mutate(dec, **kw)
        out = np.array([gm(base.copy()) for _ in range(m)])
    ch = out != 999
    rates(t, ch, p, dict(op="cgp_mutate", genes=L, **kw))
    for k in range(L):
        lo, hi = int(b[k][0]), int(b[k][1])
        x = out[ch[:, k], k] - lo
        t.check(len(x) == 0 or (x.min() >= 0 and x.max() <= hi - lo), "a mutated program gene is illegal", gene=k)
        t.chisq(np.bincount(x, minlength=hi - lo + 1)[:hi - lo + 1], np.full(hi - lo + 1, 1 / (hi - lo + 1)),
                "mutated program genes are not uniform over their legal values", gene=k)
    t.sig(L, tuple(b), round(p, 3))


@CHECK.section(quick=90, thorough=500, need={"segment_ops": 50000})
def segment_ops(t):
    """Insertions, copies and removals: rate and places."""
    rng = t.rng
    S = rng.choice([1, 2, 3, 4, 4, 7, 9])
    p = rng.choice([0.0, .1, .5, .9, 1.0, rng.random()])
    append = rng.random() < .4
    m = M(t, 3000 if S < 7 else 6000)
    which = rng.choice(["add", "copy", "remove"])
    genomes = [[np.array([k]) for k in range(S)] for _ in range(m)]
    ap = {} if not append and rng.random() < .5 else {"append": append}
    if which == "add":
        op = add_segment(seq_initializer=lambda: np.array([99]), probability=p, **ap)
        full = [tuple(list(range(j)) + [99] + list(range(j, S))) for j in ([S] if append else range(S + 1))]
    elif which == "copy":
        op = copy_segment(probability=p, **ap)
        full = [tuple(list(range(j)) + [s] + list(range(j, S))) for s in range(S) for j in ([S] if append else range(S + 1))]
    else:
        op = remove_segment(probability=p)
        full = [tuple(x for x in range(S) if x != j) for j in range(S)]
    out = [tuple(int(s[0]) for s in g) for g in run(op, genomes)]
    same = tuple(range(S))
    hit = [o for o in out if o != same]
    d = dict(op=which, segments=S, probability=p, append=append)
    t.event("segment_ops", m)
    if which == "remove" and S == 1:
        t.check(not hit, "the last segment was removed", **d)
    else:
        t.binom(len(hit), m, p, "segment operator does not act with the requested probability", **d)
        outcomes = sorted(set(full))
        probs = [full.count(o) / len(full) for o in outcomes]
        t.check(set(hit) <= set(outcomes), "segment operator produced an impossible genome", examples=list(set(hit) - set(outcomes))[:3], **d)
        if hit:
            t.chisq([hit.count(o) for o in outcomes], probs, "segments are not chosen or placed uniformly", outcomes=outcomes, **d)
    t.sig(which, S, p, append)
    t.sample(d)


@CHECK.section(quick=30, thorough=200, need={"gene_decisions": 10000})
def bernoulli(t):
    rng = t.rng
    p = rng.choice([0.0, 1.0, .5, rng.random(), rng.choice([.0005, .002, .01, .03]), 1 - rng.choice([.0005, .002, .01])])
    shape = rng.choice([200000, (200000,), (2000, 100), (10, 200, 100)])
    v = ops.random_bernoulli_vector(shape, p) if rng.random() < .5 else ops.random_bernoulli_vector(shape=shape, p=p)
    exp = (shape,) if isinstance(shape, int) else tuple(shape)
    t.check(v.shape == exp, "wrong shape", got=v.shape, expected=exp)
    t.check(set(np.unique(np.asarray(v).astype(float)).tolist()) <= {0.0, 1.0}, "not a 0/1 vector")
    t.binom(int(v.sum()), 200000, p, "Bernoulli vector has a wrong rate", prob=p)
    L, e = rng.randint(1, 50), rng.uniform(0, 5)
    t.close(ops.compute_expected_probability(e, [0] * L), e / L, "per-gene probability is not expected number over length", e=e, L=L)
    t.event("gene_decisions", 200000)
    t.sig(round(p, 4), exp)
