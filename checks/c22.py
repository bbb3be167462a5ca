"""C22: graph programs compute what their genome encodes."""
import copy
import math
import pickle
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib.kits import take
from leap_ec.individual import Individual
from leap_ec.executable_rep import cgp

CHECK = Check("C22", boost=3, rule="random graph program shapes, genomes (legal, extreme, mutated), inputs and call orders; the decoded program runs next to an "
              "interpreter that walks the genome node by node, with order-sensitive primitives; distinct by (shape, genome, input)")

P = 2305843009213693951


class Mix:
    """An order-sensitive primitive: a different input list gives a different value."""

    def __init__(self, k):
        self.k, self.calls = k, 0

    def __call__(self, *args):
        self.calls += 1
        h = 1000003 * (self.k + 1) + len(args)
        for a in args:
            h = (h * 1000000007 + int(a) * 31 + 17) % P
        return h


def make_primitives(rng, max_arity, n=None):
    """(primitive handed to LEAP, number of inputs it takes, plain function)"""
    out = []
    for k in range(n or rng.randint(1, 4)):
        ar = rng.choice(list(range(0, max_arity + 1)) + [max_arity, None])
        f = Mix(k)
        if ar is None:
            out.append((f, max_arity, f))       # no arity: takes all
        elif ar == 2 and rng.random() < .2:
            out.append((cgp.NAND(), 2, lambda a, b: not (a and b)))
        elif ar == 1 and rng.random() < .3:
            out.append((cgp.NotX(), 1, lambda a: not a))
        else:
            out.append((cgp.FunctionPrimitive(f, ar), ar, f))
    return out


class Shape:
    def __init__(self, rng, params=None, prims=None, max_arity=None):
        self.ni, self.no = some_size(rng, 1, 5, 14), some_size(rng, 1, 5, 14)
        self.nl, self.npl = some_size(rng, 1, 6, 16), some_size(rng, 1, 4, 12)
        self.ma = max_arity or rng.randint(1, 4)
        self.lb = rng.choice([None, None, 1, 2, self.nl, self.nl + 2])
        self.prims = prims or make_primitives(rng, self.ma)
        self.params = params
        self.prune = rng.choice([True, False, None])
        kw = {} if self.prune is None else {"prune": self.prune}
        if self.lb is not None:
            kw["levels_back"] = self.lb
        a = ([p[0] for p in self.prims],)
        kw.update(num_inputs=self.ni, num_outputs=self.no, num_layers=self.nl, nodes_per_layer=self.npl, max_arity=self.ma)
        if params is None:
            self.decoder = cgp.CGPDecoder(*a, **kw)
        else:
            self.decoder = cgp.CGPWithParametersDecoder(*a, num_parameters_per_node=params, **kw)

    def desc(self):
        return dict(ni=self.ni, no=self.no, nl=self.nl, npl=self.npl, ma=self.ma, lb=self.lb, params=self.params, prune=self.prune,
                    arities=[p[1] for p in self.prims])

    def allowed(self):
        """per gene: the list of legal values, from the layer structure alone"""
        lb = self.lb if self.lb is not None else self.nl
        out = []
        for layer in range(self.nl):
            src = []
            if layer - lb <= -1:
                src += list(range(self.ni))
            for l2 in range(max(0, layer - lb), layer):
                src += [self.ni + l2 * self.npl + k for k in range(self.npl)]
            for _ in range(self.npl):
                out.append(list(range(len(self.prims))))
                out += [src] * self.ma
        return out + [list(range(self.ni + self.nl * self.npl))] * self.no

    def genome(self, rng):
        al = self.allowed()
        kind = rng.choice(["uniform", "uniform", "low", "high", "dup"])
        if kind == "low":
            g = [a[0] if rng.random() < .8 else rng.choice(a) for a in al]
        elif kind == "high":
            g = [a[-1] if rng.random() < .8 else rng.choice(a) for a in al]
        elif kind == "dup":
            r = rng.random()
            g = [a[int(r * len(a))] for a in al]
        else:
            g = [rng.choice(a) for a in al]
        return np.array(g) if rng.random() < .6 else g

    def used(self, genome):
        """the primitives of the nodes that feed an output"""
        w = self.ma + 1
        todo, seen = [int(x) for x in genome[self.nl * self.npl * w:]], set()
        while todo:
            k = todo.pop() - self.ni
            if k >= 0 and k not in seen:
                seen.add(k)
                todo += [int(x) for x in genome[k * w + 1:k * w + 1 + self.prims[int(genome[k * w])][1]]]
        return {int(genome[k * w]) for k in seen}

    def interpret(self, genome, inputs, params=None):
        v = list(inputs)
        w = self.ma + 1
        for k in range(self.nl * self.npl):
            _, ar, f = self.prims[int(genome[k * w])]
            args = [v[int(s)] for s in genome[k * w + 1:k * w + 1 + ar]]
            if params is not None:
                args += [p for p in params[k * self.params:(k + 1) * self.params]]
            v.append(f(*args))
        return [v[int(s)] for s in genome[self.nl * self.npl * w:]]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind == "f")
                                    for x, y in zip(a, b))


def rand_inputs(rng, n):
    if rng.random() < .5:
        return [rng.randint(0, 1) for _ in range(n)]
    return [rng.randint(-10**6, 10**6) for _ in range(n)]


@CHECK.section(quick=2200, thorough=60000, need={"call": 8000, "unused": 300, "reused-source": 300, "pruned": 500})
def programs(t):
    rng = t.rng
    sh = Shape(rng)
    execs = []
    for _ in range(rng.randint(1, 3)):
        g = sh.genome(rng)
        f0 = freeze(g)
        ex = sh.decoder.decode(g)
        t.eq(freeze(g), f0, "decoding a graph program changed its genome", **sh.desc())
        gp = [int(x) for x in g]
        if rng.random() < .15:
            ex = copy.deepcopy(ex)
        execs.append((gp, ex))
        w = sh.ma + 1
        outs = gp[sh.nl * sh.npl * w:]
        if len(set(outs)) < sh.nl * sh.npl:
            t.event("unused")
        if len(set(outs)) < len(outs):
            t.event("reused-source")
        d = sh.desc()
        t.check(ex.num_inputs == sh.ni and ex.num_outputs == sh.no, "a program has a wrong number of inputs or outputs", **d)
        t.eq(sh.decoder.num_genes(), len(gp), "num_genes is wrong", **d)
        t.eq(sh.decoder.num_cgp_nodes(), sh.ni + sh.nl * sh.npl + sh.no, "num_cgp_nodes is wrong", **d)
        la, no = rng.randrange(sh.nl), rng.randrange(sh.npl)
        base = (la * sh.npl + no) * w
        t.check(sh.decoder.get_primitive(g, la, no) is sh.prims[gp[base]][0], "get_primitive returns a wrong primitive", **d)
        t.eq([int(x) for x in sh.decoder.get_input_sources(g, la, no)], gp[base + 1:base + w], "get_input_sources is wrong", **d)
        t.eq([int(x) for x in sh.decoder.get_output_sources(g)], outs, "get_output_sources is wrong", **d)
    # calls of several programs of the same decoder, interleaved and repeated
    pool = [rand_inputs(rng, sh.ni) for _ in range(2)]
    for _ in range(rng.randint(3, 7)):
        gp, ex = rng.choice(execs)
        x = rng.choice(pool)
        y = list(x)
        xin = np.array(y) if rng.random() < .2 else (tuple(y) if rng.random() < .2 else y)
        n0 = [getattr(p[2], "calls", 0) for p in sh.prims]
        got = ex(xin)
        if sh.prune is not False:
            used = sh.used(gp)
            for k, p in enumerate(sh.prims):
                if k not in used and isinstance(p[2], Mix):
                    t.check(p[2].calls == n0[k], "a pruned program evaluates nodes that feed no output", genome=gp, **sh.desc())
                    t.event("pruned")
        exp = sh.interpret(gp, x)
        t.check([int(v) for v in got] == [int(v) for v in exp], "a graph program returns something else than its genome encodes",
                genome=gp, input=x, got=got, expected=exp, **sh.desc())
        t.check([int(v) for v in xin] == x, "a graph program changed its input", **sh.desc())
        t.event("call")
        t.sig(str(sh.desc()), tuple(gp), tuple(x))
    t.sample(dict(sh.desc(), genome=execs[0][0], input=pool[0]))


@CHECK.section(quick=1200, thorough=30000, need={"call": 3000, "params": 3000})
def parameters(t):
    rng = t.rng
    sh = Shape(rng, params=rng.randint(0, 3))
    if any(isinstance(p[0], (cgp.NAND, cgp.NotX)) for p in sh.prims) and sh.params:
        return
    n = sh.nl * sh.npl * sh.params
    progs = []
    for _ in range(2):
        g = sh.genome(rng)
        ps = [rng.randint(-1000, 1000) for _ in range(n)]
        pg = np.array(ps) if rng.random() < .6 else list(ps)
        genome = [g, pg] if rng.random() < .8 else (g, pg)
        f0 = freeze(genome)
        ex = sh.decoder.decode(genome)
        t.eq(freeze(genome), f0, "decoding a graph program with parameters changed its genome", **sh.desc())
        progs.append(([int(v) for v in g], ps, ex))
        t.event("params", n)
        bad = ps + [1]
        t.raises(Exception, lambda: sh.decoder.decode([g, bad]), "too many parameters are accepted", **sh.desc())
    for _ in range(4):
        g, ps, ex = rng.choice(progs)
        x = rand_inputs(rng, sh.ni)
        got, exp = ex(x), sh.interpret(g, x, ps)
        t.check([int(v) for v in got] == [int(v) for v in exp], "a graph program with parameters returns something else than its genome encodes",
                genome=g, parameters=ps, input=x, got=got, expected=exp, **sh.desc())
        t.event("call")
        t.sig(str(sh.desc()), tuple(g), tuple(x))


@CHECK.section(quick=300, thorough=6000, need={"art": 500})
def art(t):
    """vectorised inputs: the whole image at once"""
    rng = t.rng
    prims = [(f, 2, f) for f in cgp.cgp_art_primitives()]
    t.check(len(prims) >= 10, "art primitives are missing", n_prims=len(prims))
    sh = Shape(rng, params=1, prims=prims, max_arity=2)
    g = sh.genome(rng)
    ps = np.array([rng.uniform(0, 255) for _ in range(sh.nl * sh.npl)])
    ex = sh.decoder.decode([g, ps])
    m = rng.randint(1, 6)
    xs = [np.array([float(rng.randint(0, 20)) for _ in range(m)]) for _ in range(sh.ni)]
    try:
        with np.errstate(all="ignore"):
            exp = sh.interpret(g, xs, list(ps))
    except Exception as e:
        t.raises(type(e), lambda: ex(xs), "a program returns a result although its primitive fails", **sh.desc())
        return
    got = ex(xs)
    t.check(same(got, exp), "a vectorised graph program returns something else than its genome encodes", **sh.desc())
    t.event("art", len(exp))
    t.sig(str(sh.desc()), freeze(g))


ART = [  # the function set of Ashmore and Miller (2004), in the order the genes number it; one pixel at a time
    lambda x, y, p: int(x) | int(y),
    lambda x, y, p: int(p) & int(x),
    lambda x, y, p: x / (1 + y + p),
    lambda x, y, p: 255 * x * y,
    lambda x, y, p: 255 * (x + y),
    lambda x, y, p: abs(x - y),
    lambda x, y, p: 255 - x,
    lambda x, y, p: 255 * abs(math.cos(x)),
    lambda x, y, p: abs(math.tan(math.radians(math.fmod(x, 45)) * 255)),
    lambda x, y, p: math.fmod(255 * abs(math.tan(x)), 255),
    lambda x, y, p: min(math.hypot(x - p, y - p), 255),
    lambda x, y, p: math.fmod(x, p + 1) + 255 - p,
    lambda x, y, p: .5 * x + .5 * y,
    lambda x, y, p: 255 * min((y + 1) / (x + 1), (x + 1) / (y + 1)),
    lambda x, y, p: math.fmod(math.sqrt(abs(x * x + y * y - 2 * p * p)), 255),
]


@CHECK.section(quick=400, thorough=8000, need={"pixels": 6000})
def art_functions(t):
    rng = t.rng
    prims = cgp.cgp_art_primitives()
    t.eq(len(prims), len(ART), "the art function set has another size")
    m = rng.randint(1, 4)
    draw = lambda: np.array([rng.choice([float(rng.randint(0, 255)), rng.uniform(0, 255), rng.uniform(0, 3), 0.0, 255.0]) for _ in range(m)])  # noqa
    x, y, p = draw(), draw(), draw()
    x0 = (x.copy(), y.copy(), p.copy())
    for k, (f, ref) in enumerate(zip(prims, ART)):
        if k == 8 and any(v % 45 == 0 and v for v in x):
            continue
        got = np.broadcast_to(np.asarray(f(x, y, p), float), (m,))
        for j in range(m):
            want = ref(float(x[j]), float(y[j]), float(p[j]))
            g = float(got[j])
            ok = abs(g - want) <= 1e-6 * max(1, abs(want)) or (k in (9, 14) and abs(abs(g - want) - 255) < 1e-6)
            if k in (8, 9):     # tan has poles: compare only away from them
                ok = ok or abs(want) > 1e4 or (k == 9 and abs(math.tan(x[j])) > 1e4)
            t.check(ok, "an art primitive computes another function", primitive=k, x=x[j], y=y[j], p=p[j], got=g, expected=want)
            t.event("pixels")
    t.check(all(np.array_equal(a, b) for a, b in zip(x0, (x, y, p))), "an art primitive changes its inputs")
    t.sig(x.tobytes(), y.tobytes(), p.tobytes())


class _Bag:
    def __init__(self, allowed):
        self.c = [{} for _ in allowed]
        self.allowed = allowed

    def add(self, g):
        for c, v in zip(self.c, g):
            c[int(v)] = c.get(int(v), 0) + 1


@CHECK.section(quick=400, thorough=8000, need={"created": 6000, "mutated": 6000})
def legality(t):
    rng = t.rng
    sh = Shape(rng, params=rng.choice([None, None, 1]))
    dec = sh.decoder
    al = sh.allowed()
    d = sh.desc()
    b = dec.bounds()
    t.eq(len(b), len(al), "the published bounds have a wrong length", **d)
    t.check(all(int(lo) == a[0] and int(hi) == a[-1] and a == list(range(a[0], a[-1] + 1)) for (lo, hi), a in zip(b, al)),
            "the published bounds admit other connections than the layer structure", bounds_=b, **d)
    n = 40

    def legal(g, what):
        t.check(len(g) == len(al), what + ": wrong number of genes", **d)
        t.check(all(isinstance(v, (int, np.integer)) and a[0] <= v <= a[-1] for v, a in zip(g, al)), what + ": illegal gene", genome=g, **d)

    made = []
    for k in range(n):
        how = k % 3
        if how == 0:
            g = dec.initializer()()
        elif how == 1:
            g = cgp.create_cgp_vector(dec)()
        else:
            if sh.params is None:
                g = dec.initializer()()
            else:
                tok = object()
                full = dec.initialize(lambda: tok)()
                t.check(len(full) == 2 and full[1] is tok, "the parameter segment is not what its initialiser made", **d)
                g = full[0]
        legal(g, "created genome")
        made.append(g)
        t.event("created")
    t.check(not any(made[i] is made[j] or np.shares_memory(made[i], made[j]) for i in range(6) for j in range(i)),
            "created genomes share storage", **d)
    # mutation
    g0 = made[0]
    bag = _Bag(al)
    pm = rng.choice([1.0, 1.0, .3])
    gm = cgp.cgp_genome_mutate(dec, probability=pm) if rng.random() < .5 else cgp.cgp_genome_mutate(dec, expected_num_mutations=len(al) * pm)
    im = cgp.cgp_mutate(dec, probability=pm) if rng.random() < .5 else cgp.cgp_mutate(dec, expected_num_mutations=pm * len(al))
    cur = [np.array(x) for x in made[:10]]
    for _ in range(2):
        cur = [gm(x) for x in cur]
        inds = [Individual(np.array(x)) for x in cur]
        out = take(im, inds)
        t.check(all(a is b2 for a, b2 in zip(inds, out)), "mutation hands on other individuals", **d)
        for x in cur + [i.genome for i in out]:
            legal(x, "mutated genome")
            bag.add(x)
            t.event("mutated")
        cur = [i.genome for i in out]
    t.sig(str(d), tuple(int(v) for v in g0))


@CHECK.section(quick=60, thorough=800, need={"loci": 300})
def spread(t):
    """every legal connection is reachable, and equally likely, by creation and by mutation"""
    rng = t.rng
    sh = Shape(rng)
    al = sh.allowed()
    n = 400
    start = cgp.create_cgp_vector(sh.decoder)()
    gm = cgp.cgp_genome_mutate(sh.decoder, probability=1.0)
    made = [sh.decoder.initializer()() for _ in range(n)]
    muts = [gm(np.array(start)) for _ in range(n)]
    for gs, what in ((made, "created"), (muts, "mutated")):
        M = np.array([[int(v) for v in g] for g in gs])
        for k, a in enumerate(al):
            c = np.array([(M[:, k] == v).sum() for v in a])
            t.check(c.sum() == n, what + " genome has an illegal gene", locus=k, **sh.desc())
            t.chisq(c, np.full(len(a), 1 / len(a)), what + " genes are not uniform over the legal values", locus=k, **sh.desc())
            t.event("loci")
    t.sig(str(sh.desc()))


@CHECK.section(quick=1500, thorough=30000, need={"legal": 1500, "illegal": 4000})
def constraints(t):
    rng = t.rng
    sh = Shape(rng)
    al = sh.allowed()
    d = sh.desc()

    def feed(genomes):
        inds = [Individual(g) for g in genomes]
        it = sh.decoder.check_constraints(iter(inds))
        return inds, it

    inds, it = feed([sh.genome(rng) for _ in range(3)])
    snap0 = [freeze(i.genome) for i in inds]
    got = [next(it) for _ in inds]
    t.check(all(a is b for a, b in zip(inds, got)), "the constraint check does not hand on the individuals", **d)
    t.check(snap0 == [freeze(i.genome) for i in inds], "the constraint check changes a genome", **d)
    t.event("legal", 3)
    for _ in range(4):
        g = sh.genome(rng)
        kind = rng.choice(["low", "high", "high", "low", "short", "long", "float", "forward"])
        k = rng.randrange(len(al))
        if kind == "low":
            g[k] = al[k][0] - rng.choice([1, 1, 5])
        elif kind == "high":
            g[k] = al[k][-1] + rng.choice([1, 1, 7])
        elif kind == "short":
            g = g[:-1]
        elif kind == "long":
            g = np.append(g, 0) if isinstance(g, np.ndarray) else g + [0]
        elif kind == "float":
            g = [v for v in g]
            g[k] = float(al[k][0]) + .5
            if rng.random() < .5:
                g = np.array(g, dtype=float)
        else:
            # a connection to its own or a later layer, or before the allowed levels
            w = sh.ma + 1
            node = rng.randrange(sh.nl * sh.npl)
            k = node * w + 1 + rng.randrange(sh.ma)
            bad = [v for v in range(sh.ni + sh.nl * sh.npl + sh.no) if v not in al[k]]
            g[k] = rng.choice(bad)
        inds, it = feed([sh.genome(rng), g])
        next(it)
        t.raises(ValueError, lambda: next(it), "an illegal genome passes the constraint check", kind=kind, locus=k, genome=g, **d)
        t.event("illegal")
        t.sig(str(d), kind, k)
    g = list(sh.genome(rng))
    t.raises(Exception, lambda: sh.decoder.decode(g[:-1]), "a genome with too few genes is decoded", **d)
    t.raises(Exception, lambda: sh.decoder.decode(g + [0]), "a genome with too many genes is decoded", **d)
