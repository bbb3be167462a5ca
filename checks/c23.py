"""C23: rule systems fire the rule that best matches the input."""
import copy
import numpy as np
import gymnasium as gym
from vlib.harness import Check
from vlib.gen import *
from vlib.kits import take
from leap_ec.individual import Individual
from leap_ec.executable_rep.rules import PittRulesDecoder, PittRulesExecutable

CHECK = Check("C23", boost=3, rule="random rule sets (wildcards, point intervals, nested, duplicated and far-away conditions) and inputs on a dyadic grid, so that "
              "every squared distance is exact; the fired action is compared with a reference match; distinct by (rules, input)")


def box(rng, shape=None):
    shape = shape if shape is not None else rng.choice([(1,), (2,), (3,), (5,), (2, 2), (1, 3), (2, 1, 2)])
    n = int(np.prod(shape))
    lo = [rng.choice([-4.0, -1.0, 0.0, -10.0, 2.0]) for _ in range(n)]
    hi = [a + rng.choice([.5, 1.0, 4.0, 20.0]) for a in lo]
    dt = rng.choice([np.float32, np.float64])
    sp = gym.spaces.Box(np.array(lo, dtype=dt).reshape(shape), np.array(hi, dtype=dt).reshape(shape), dtype=dt)
    sp.seed(rng.randrange(10**6))
    return sp


def grid(rng, lo, hi):
    r = rng.random()
    if r < .15:
        return lo
    if r < .3:
        return hi
    return lo + (hi - lo) * rng.randint(-2, 10) / 8.0


def ruleset(rng, sp, n_act, n_out):
    lo, hi = sp.low.flatten().astype(float), sp.high.flatten().astype(float)
    rules = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 14])):
        r = rng.random()
        if rules and r < .12:
            seg = list(rules[rng.randrange(len(rules))])
            if rng.random() < .7:
                seg[-1] = float(rng.randrange(n_act))
            rules.append(seg)
            continue
        seg = []
        for a, b in zip(lo, hi):
            x, y = grid(rng, a, b), grid(rng, a, b)
            k = rng.random()
            if k < .2:
                x, y = max(x, y), min(x, y)
                if x == y:
                    x += 1.0
            elif k < .35:
                y = x
            elif k < .85:
                x, y = min(x, y), max(x, y)
            seg += [x, y]
        for _ in range(n_out):
            a = float(rng.randrange(n_act))
            if rng.random() < .3:
                a += rng.choice([-.375, .25, .4375])
            seg.append(a)
        rules.append(seg)
    return rules


def scores(rules, x):
    out = []
    for seg in rules:
        s = 0.0
        for c, v in enumerate(x):
            l, h = seg[2 * c], seg[2 * c + 1]
            if l <= h and not l <= v <= h:
                s += min(abs(v - l), abs(v - h)) ** 2
        out.append(s)
    return out


def actions(seg, d, n_out):
    a = [int(round(v)) for v in seg[2 * d:]]
    return a if n_out > 1 else a[0]


def as_genome(rng, rules):
    k = rng.random()
    if k < .6:
        return [np.array(r) for r in rules]
    if k < .8:
        return np.array(rules)
    return [list(r) for r in rules]


@CHECK.section(quick=2500, thorough=60000, need={"exact": 1500, "inexact": 1500, "tie-exact": 200, "tie-inexact": 50, "wild": 2000, "calls": 8000})
def firing(t):
    rng = t.rng
    sp = box(rng)
    d = int(np.prod(sp.shape))
    n_out = rng.choice([1, 1, 1, 2, 3])
    n_act = rng.randint(1, 5)
    out_sp = gym.spaces.Discrete(n_act) if n_out == 1 else gym.spaces.Box(0.0, float(n_act), shape=(n_out,))
    kw = {} if rng.random() < .5 else {"priority_metric": PittRulesExecutable.PriorityMetric.RULE_ORDER}
    dec = PittRulesDecoder(sp, out_sp, **kw)
    t.eq((dec.num_inputs, dec.num_outputs, dec.num_genes_per_rule), (d, n_out, 2 * d + n_out), "the decoder counts its genes wrongly")
    lo, hi = sp.low.flatten().astype(float), sp.high.flatten().astype(float)
    progs = []
    for _ in range(rng.randint(1, 2)):
        rules = ruleset(rng, sp, n_act, n_out)
        g = as_genome(rng, rules)
        f0 = freeze(g)
        ex = dec.decode(g)
        t.eq(freeze(g), f0, "decoding a rule set changed its genome")
        got = dec.genome_to_rules(g)
        t.eq([[float(v) for v in np.array(r.conditions).ravel()] + [float(v) for v in r.actions] for r in got], [[float(v) for v in r] for r in rules],
             "decoding changes the rules or their order")
        t.event("wild", sum(1 for r in rules for c in range(d) if r[2 * c] > r[2 * c + 1]))
        progs.append((rules, ex, g, f0))
    for _ in range(6):
        rules, ex, g, f0 = rng.choice(progs)
        x = [grid(rng, a, b) for a, b in zip(lo, hi)]
        if rng.random() < .3:                 # exactly on a bound of a rule
            r = rng.choice(rules)
            for c in range(d):
                if rng.random() < .7:
                    x[c] = r[2 * c + rng.randint(0, 1)]
        sc = scores(rules, x)
        m = min(sc)
        best = [k for k, s in enumerate(sc) if s == m]
        obs = np.array(x).reshape(sp.shape)
        if len(sp.shape) == 1 and rng.random() < .3:
            obs = rng.choice([list(x), tuple(x)])
        if m == 0:
            best = best[:1]
            t.event("exact")
            if sum(s == 0 for s in sc) > 1:
                t.event("tie-exact")
            n_calls = 3
        else:
            t.event("inexact")
            n_calls = 3
            if len(best) > 1:
                t.event("tie-inexact")
                n_calls = 40 * len(best)
        seen = set()
        for _ in range(n_calls):
            got = ex(obs)
            t.check(any(got == actions(rules[k], d, n_out) for k in best), "the fired rule is not a best match", rules=rules, input=x, got=got,
                    scores_=sc, best=best)
            seen.add(str(got))
            t.event("calls")
        if m > 0 and len(best) > 1:
            t.eq(seen, {str(actions(rules[k], d, n_out)) for k in best}, "an equally close rule is never chosen", rules=rules, input=x, best=best)
        t.eq(freeze(g), f0, "running a rule set changed its genome")
        t.sig(str(rules), str(x))
    t.sample(dict(rules=progs[0][0], shape=list(sp.shape)))


@CHECK.section(quick=1200, thorough=20000, need={"inexact": 2000})
def random_floats(t):
    """arbitrary floats; only inputs with a clear winner are judged"""
    rng = t.rng
    d = rng.randint(1, 4)
    sp = gym.spaces.Box(-1.0, 1.0, shape=(d,), dtype=np.float64)
    dec = PittRulesDecoder(sp, gym.spaces.Discrete(1000))
    rules = []
    for k in range(rng.randint(2, 10)):
        seg = []
        for _ in range(d):
            a, b = sorted((rng.uniform(-1, 1), rng.uniform(-1, 1)))
            if rng.random() < .1:
                a, b = b, a
            seg += [a, a + (b - a) * .3]
        rules.append(seg + [float(k)])
    ex = dec.decode([np.array(r) for r in rules])
    for _ in range(6):
        x = [rng.uniform(-1.5, 1.5) for _ in range(d)]
        sc = sorted((s, k) for k, s in enumerate(scores(rules, x)))
        if sc[0][0] == 0:
            exp = min(k for s, k in sc if s == 0)
        elif sc[1][0] - sc[0][0] > 1e-6:
            exp = sc[0][1]
            t.event("inexact")
        else:
            continue
        t.eq(ex(np.array(x)), exp, "the fired rule is not the best match", rules=rules, input=x)
        t.sig(str(rules), str(x))


@CHECK.section(quick=800, thorough=12000, need={"near": 2000, "nearly_exact": 800, "near_twins": 500})
def near_ties(t):
    """one rule is missed by a little more than another one, or by very little while another one matches"""
    rng = t.rng
    d = rng.randint(1, 3)
    sp = gym.spaces.Box(-2.0, 2.0, shape=(d,), dtype=np.float64)
    dec = PittRulesDecoder(sp, gym.spaces.Discrete(100))
    for _ in range(4):
        x = [rng.uniform(-1, 1) for _ in range(d)]
        delta = 10.0 ** rng.uniform(-6, 0)
        eps = 10.0 ** rng.uniform(-5.5, 0)
        exact = rng.random() < .4
        gaps = [0.0 if exact else delta] + [delta * (1 + eps * (k + 1)) for k in range(rng.randint(1, 4))]
        order = list(range(len(gaps)))
        rng.shuffle(order)
        rules = []
        for k in order:
            seg = []
            at = rng.randrange(d)
            for c in range(d):
                if c == at and gaps[k] > 0:
                    low = rng.random() < .5
                    seg += [x[c] + gaps[k], x[c] + gaps[k] + 1.0] if low else [x[c] - gaps[k] - 1.0, x[c] - gaps[k]]
                elif rng.random() < .2:
                    seg += [1.0, -1.0]
                else:
                    seg += [x[c] - rng.random(), x[c] + rng.random()]
            rules.append(seg + [float(k)])
        ex = dec.decode([np.array(r) for r in rules])
        for _ in range(3):
            t.eq(ex(np.array(x)), 0, "a rule fires although another one matches better", rules=rules, input=x, gaps=gaps)
        t.event("nearly_exact" if exact else "near")
        if not exact and rng.random() < .3:       # the same conditions twice: equally close, however close that is
            twin = rules[order.index(0)][:-1] + [50.0]
            rules.insert(rng.randint(0, len(rules)), twin)
            ex = dec.decode([np.array(r) for r in rules])
            t.eq({int(ex(np.array(x))) for _ in range(60)}, {0, 50}, "an equally close rule is never chosen (or another one is)", rules=rules, input=x, gaps=gaps)
            t.event("near_twins")
        t.sig(str(rules), str(x))


@CHECK.section(quick=600, thorough=12000, need={"rules": 4000})
def creation(t):
    rng = t.rng
    sp = box(rng)
    d = int(np.prod(sp.shape))
    n_act = rng.randint(1, 5)
    dec = PittRulesDecoder(sp, gym.spaces.Discrete(n_act))
    lo, hi = sp.low.flatten(), sp.high.flatten()
    cb = dec.condition_bounds
    t.check(len(cb) == 2 * d and all(cb[2 * c + j][0] == lo[c] and cb[2 * c + j][1] == hi[c] for c in range(d) for j in (0, 1)),
            "condition bounds are not those of the input space", got=cb, low=lo, high=hi)
    t.eq([tuple(b) for b in dec.action_bounds], [(0, n_act - 1)], "action bounds are not those of the output space")
    n = some_size(rng, 1, 6, 60)
    bs = dec.bounds(n)
    t.check(len(bs) == n and all(len(b) == 2 * d + 1 for b in bs) and all([tuple(x) for x in b] == [tuple(x) for x in cb] + [(0, n_act - 1)] for b in bs),
            "the rule bounds are wrong", got=bs)
    init = dec.initializer(n)
    gs = [init() for _ in range(4)]
    for g in gs:
        t.eq(len(g), n, "a created rule set has a wrong number of rules")
        for seg in g:
            t.event("rules")
            t.eq(len(seg), 2 * d + 1, "a created rule has a wrong number of genes")
            for c in range(d):
                for j in (0, 1):
                    t.check(lo[c] <= seg[2 * c + j] <= hi[c], "a created condition gene is outside its dimension's bounds", dim=c, value=seg[2 * c + j],
                            low=lo[c], high=hi[c])
            t.check(seg[-1] in range(n_act), "a created rule has an illegal action", action=seg[-1])
        ex = dec.decode(g)
        t.check(ex(sp.sample()) in range(n_act), "a created rule set fires an illegal action")
    segs = [s for g in gs for s in g]
    t.check(not any(np.shares_memory(segs[a], segs[b]) for a in range(len(segs)) for b in range(a)), "created rules share storage")
    t.sig(str(sp), n, n_act)


@CHECK.section(quick=24, thorough=300)
def creation_spread(t):
    rng = t.rng
    sp = box(rng)
    sp.seed(rng.randrange(10**6))
    out = gym.spaces.Discrete(rng.randint(2, 4))
    out.seed(rng.randrange(10**6))
    d = int(np.prod(sp.shape))
    dec = PittRulesDecoder(sp, out)
    M = np.array([dec.initializer(1)()[0] for _ in range(600)])
    lo, hi = sp.low.flatten(), sp.high.flatten()
    for c in range(d):
        for j in (0, 1):
            u = (M[:, 2 * c + j] - lo[c]) / (hi[c] - lo[c])
            t.ks(u, "uniform", "condition bounds are not spread over their dimension", dim=c)
        t.check(abs(np.corrcoef(M[:, 2 * c], M[:, 2 * c + 1])[0, 1]) < .3, "low and high of a created rule are not independent")
    t.chisq([(M[:, -1] == a).sum() for a in range(out.n)], [1 / out.n] * int(out.n), "created actions are not uniform")
    t.sig(str(sp))


@CHECK.section(quick=1200, thorough=20000, need={"mutated": 3000})
def mutation(t):
    rng = t.rng
    sp = box(rng)
    d = int(np.prod(sp.shape))
    n_out = rng.choice([1, 1, 2])
    out_sp = gym.spaces.Discrete(5) if n_out == 1 else gym.spaces.Box(0.0, 5.0, shape=(n_out,))
    dec = PittRulesDecoder(sp, out_sp)
    kind = rng.choice(["both", "condition", "action", "none"])
    seen = []

    def cond(genes):
        t.check(len(genes) == 2 * d, "the condition mutator gets other genes than the conditions", got=len(genes))
        seen.append(("c", [float(v) for v in genes]))
        return [v + 1000.0 for v in genes] if kind in ("both", "condition") else genes

    def act(genes):
        t.check(len(genes) == n_out, "the action mutator gets other genes than the actions", got=len(genes))
        seen.append(("a", [float(v) for v in genes]))
        return [v + 500.0 for v in genes] if kind in ("both", "action") else genes

    inds = []
    for _ in range(rng.randint(1, 3)):
        ind = Individual(as_genome(rng, ruleset(rng, sp, 5, n_out)))
        ind.fitness = 3.0
        inds.append(ind)
    before = [[[float(v) for v in s] for s in i.genome] for i in inds]
    out = take(dec.mutator(cond, act), inds)
    t.check(all(a is b for a, b in zip(inds, out)), "rule mutation does not hand on the individuals")
    for i, b in zip(out, before):
        t.check(i.fitness is None, "rule mutation keeps the fitness")
        exp = [[v + (1000.0 if k < 2 * d and kind in ("both", "condition") else 500.0 if k >= 2 * d and kind in ("both", "action") else 0.0)
                for k, v in enumerate(s)] for s in b]
        t.eq([[float(v) for v in s] for s in i.genome], exp, "rule mutation changed other genes than its mutators did", kind=kind)
        t.event("mutated", len(b))
    cs = sorted(s for k, s in seen if k == "c")
    as_ = sorted(s for k, s in seen if k == "a")
    t.eq(cs, sorted(s[:2 * d] for b in before for s in b), "the condition mutator is not applied once per rule")
    t.eq(as_, sorted(s[2 * d:] for b in before for s in b), "the action mutator is not applied once per rule")
    t.sig(kind, str(before))


@CHECK.section(quick=300, thorough=3000)
def rejects(t):
    rng = t.rng
    sp = box(rng)
    d = int(np.prod(sp.shape))
    dec = PittRulesDecoder(sp, gym.spaces.Discrete(3))
    rules = ruleset(rng, sp, 3, 1)
    g = [np.array(r) for r in rules]
    k = rng.randrange(len(g))
    g[k] = g[k][:-1] if rng.random() < .5 else np.append(g[k], 0.0)
    t.raises(Exception, lambda: dec.decode(g), "a rule with a wrong number of genes is decoded")
    t.raises(Exception, lambda: dec.decode([]), "an empty rule set is decoded")
    t.raises(Exception, lambda: take(dec.mutator(lambda x: x, lambda x: x), [Individual(g)]), "a rule with a wrong number of genes is mutated")
    t.sig(str(rules), k)
