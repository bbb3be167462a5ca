"""C26: real-valued benchmark functions equal their published formulas."""
import math
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec.individual import Individual
from leap_ec.real_rep import problems as R

CHECK = Check("C26", boost=4, rule="every real-valued benchmark with random dimension, parameters and points (optima, lattice points, bounds, far away, integers; list or "
              "array) is evaluated next to a plain Python transcription of its documented formula; distinct by (problem, parameters, point)")

fs = math.fsum


def sphere(x):
    return fs(v * v for v in x)


def rastrigin(x, a=1.0):
    return a * len(x) + fs(v * v - a * math.cos(2 * math.pi * v) for v in x)


def rosenbrock(x):
    return fs(100 * (x[i + 1] - x[i] ** 2) ** 2 + (x[i] - 1) ** 2 for i in range(len(x) - 1))


def step(x):
    return fs(math.floor(v) for v in x)


def shekel(x, k=500, c=None):
    c = list(c) if c is not None else list(range(1, 26))
    a = [-32, -16, 0, 16, 32]
    s = 0.0
    for j in range(25):
        s += 1.0 / (c[j] + (x[0] - a[j % 5]) ** 6 + (x[1] - a[j // 5]) ** 6)
    return 1.0 / (1.0 / k + s)


def griewank(x):
    p = 1.0
    for i, v in enumerate(x):
        p *= math.cos(v / math.sqrt(i + 1))
    return fs(v * v / 4000 for v in x) - p + 1


def ackley(x, a=20, b=.2, c=2 * math.pi):
    d = len(x)
    return -a * math.exp(-b * math.sqrt(sphere(x) / d)) - math.exp(fs(math.cos(c * v) for v in x) / d) + a + math.e


def weierstrass(x, kmax=20, a=.5, b=3, terms=None):
    ks = range(terms if terms is not None else kmax)
    t2 = fs(a ** k * math.cos(math.pi * b ** k) for k in ks)
    return fs(fs(a ** k * math.cos(2 * math.pi * b ** k * (v + .5)) for k in ks) - t2 for v in x)


LA, LC = ((3, 5), (5, 2), (2, 1), (1, 4), (7, 9)), (1, 2, 5, 2, 3)


def langermann(x, m=5, c=LC, a=LA):
    out = 0.0
    for i in range(m):
        s = fs((x[j] - a[i][j]) ** 2 for j in range(len(x)))
        out -= c[i] * math.exp(-s / math.pi) * math.cos(math.pi * s)
    return out


def lunacek(x, N, d=1.0, mu_1=2.5, mu_2=None, s=None):
    s = s if s is not None else 1 - 1 / (2 * math.sqrt(N + 20) - 8.2)
    mu_2 = mu_2 if mu_2 is not None else -math.sqrt((mu_1 ** 2 - d) / s)
    s1 = fs((v - mu_1) ** 2 for v in x)
    s2 = d * len(x) + s * fs((v - mu_2) ** 2 for v in x)
    return min(s1, s2) + 10 * fs(1 - math.cos(2 * math.pi * (v - mu_1)) for v in x)


def schwefel(x, alpha=418.982887):
    return fs(-v * math.sin(math.sqrt(abs(v))) for v in x) + alpha * len(x)


def gaussian(x, width=1, height=1):
    return height * math.exp(-fs((v / width) ** 2 for v in x))


def cosine(x, alpha, global_optima_counts, local_optima_counts):
    n = len(x)
    return fs(-math.cos((g - 1) * 2 * math.pi * v) - alpha * math.cos((g - 1) * 2 * math.pi * l * v)
              for v, g, l in zip(x, global_optima_counts, local_optima_counts)) / (2 * n)


NAMES = ["Spheroid", "Rastrigin", "Rosenbrock", "Step", "Shekel", "Griewank", "Ackley", "Weierstrass", "Langermann", "Lunacek", "Schwefel", "Gaussian",
         "CosineFamily"]
REF = dict(Spheroid=sphere, Rastrigin=rastrigin, Rosenbrock=rosenbrock, Step=step, Shekel=shekel, Griewank=griewank, Ackley=ackley,
           Weierstrass=weierstrass, Langermann=langermann, Lunacek=lunacek, Schwefel=schwefel, Gaussian=gaussian, CosineFamily=cosine)
BOUNDS = dict(Spheroid=(-5.12, 5.12), Rastrigin=(-5.12, 5.12), Rosenbrock=(-2.048, 2.048), Step=(-5.12, 5.12), NoisyQuartic=(-1.28, 1.28),
              Shekel=(-65.536, 65.536), Griewank=(-600, 600), Ackley=(-32.768, 32.768), Weierstrass=(-.5, .5), Langermann=(0, 10), Lunacek=(-5, 5),
              Schwefel=(-512, 512), Gaussian=(-3, 3), CosineFamily=(0, 1))
LISTS = {"Spheroid", "Rastrigin", "Rosenbrock", "Step", "Shekel", "NoisyQuartic"}
MAXIMISED = {"Step", "Gaussian"}
HARD = {"Griewank", "Ackley", "Weierstrass", "Langermann", "Lunacek", "Schwefel", "Gaussian", "CosineFamily"}     # arrays only


def make(rng, name, default=None):
    """(dimension, keyword arguments)"""
    d = rng.choice([1, 2, 2, 3, 5, 10, 30]) if rng.random() < .98 else rng.randint(31, 150)
    default = rng.random() < .5 if default is None else default
    kw = {}
    if name == "Shekel":
        d = 2
        if not default:
            kw = dict(k=rng.choice([1, 100, 500, 7.5]), c=[rng.randint(1, 50) for _ in range(25)])
            if rng.random() < .5:
                kw["c"] = np.array(kw["c"])
    elif name == "Rastrigin" and not default:
        kw = dict(a=rng.choice([0.0, 1, 10.0, 2.5]))
    elif name == "Ackley" and not default:
        kw = dict(a=rng.choice([20, 1.5]), b=rng.choice([.2, 1.0]), c=rng.choice([2 * math.pi, 1.0]))
    elif name == "Weierstrass":
        d = min(d, 5)
        if not default:
            kw = dict(kmax=rng.choice([1, 3, 8, 20]), a=rng.choice([.5, .3]), b=rng.choice([3, 5]))
    elif name == "Langermann":
        d = 2
        if not default:
            m, d = rng.randint(1, 7), rng.randint(1, 6)
            kw = dict(m=m, c=[rng.choice([rng.randint(1, 5), rng.gauss(0, 2)]) for _ in range(m)], a=[[rng.uniform(0, 10) for _ in range(d)] for _ in range(m)])
            if rng.random() < .5:
                kw["a"], kw["c"] = np.array(kw["a"]), tuple(kw["c"])
    elif name == "Lunacek":
        d = rng.choice([2, 2, 3, 10, 30])      # the documented default of s is not defined for N = 1
        kw = dict(N=d)
        if not default:
            kw["d"] = rng.choice([1.0, 2.0, .5])
            kw["mu_1"] = rng.choice([2.5, 3.0])
            if rng.random() < .4:
                kw["mu_2"] = rng.choice([-1.5, -2.0, 0.0])
            if rng.random() < .4:
                kw["s"] = rng.choice([.7, 1.0])
    elif name == "Schwefel" and not default:
        kw = dict(alpha=rng.choice([0.0, 418.98, 12]))
    elif name == "Gaussian" and not default:
        kw = dict(width=rng.choice([.5, 2, 3.0]), height=rng.choice([1, 7.5, -2]))
    elif name == "CosineFamily":
        d = rng.randint(1, 5)
        kw = dict(alpha=rng.choice([0.0, 1.0, 3.0]), global_optima_counts=[rng.randint(1, 5) for _ in range(d)],
                  local_optima_counts=[rng.randint(1, 5) for _ in range(d)])
    return d, kw


def point(rng, name, d):
    lo, hi = BOUNDS[name]
    k = rng.choice(["uniform", "uniform", "zero", "lattice", "edge", "far", "int", "ones", "neg", "mixed"])
    if k == "zero":
        return k, [0.0] * d
    if k == "ones":
        return k, [1.0] * d
    if k == "lattice":
        return k, [float(rng.randint(-5, 5)) for _ in range(d)]
    if k == "int":
        return k, [rng.randint(-6, 6) for _ in range(d)]
    if k == "edge":
        return k, [float(rng.choice([lo, hi])) for _ in range(d)]
    if k == "far":
        return k, [rng.uniform(lo, hi) * 3 for _ in range(d)]
    if k == "neg":
        return k, [-abs(rng.uniform(lo, hi)) for _ in range(d)]
    if k == "mixed":
        return k, [rng.choice([0.0, float(lo), float(hi), rng.uniform(lo, hi), -.5, .5]) for _ in range(d)]
    return k, [rng.uniform(lo, hi) for _ in range(d)]


def compare(t, name, kw, x, got, extra):
    exp = REF[name](x, **kw)
    ok = np.allclose(float(got), exp, rtol=1e-8, atol=1e-7)
    if name == "Weierstrass" and not ok:
        # the documentation leaves open whether the k = kmax term belongs to the sum
        ok = np.allclose(float(got), weierstrass(x, terms=kw.get("kmax", 20) + 1, **kw), rtol=1e-8, atol=1e-7)
    t.check(ok, "a benchmark function differs from its formula", problem=name, parameters=kw, point=x, got=got, expected=exp, **extra)


@CHECK.section(quick=9000, thorough=250000, need={"values": 9000, "lists": 2500, "integers": 2000})
def formulas(t):
    rng = t.rng
    name = NAMES[t.index % len(NAMES)]
    d, kw = make(rng, name)
    p = getattr(R, name + "Problem")(**kw)
    for _ in range(2):
        kind, x = point(rng, name, d)
        if name == "Rosenbrock" and rng.random() < .3:
            x = [1.0] * d
        forms = ["array"] + (["list"] if name in LISTS else [])
        vals = []
        for f in forms:
            arg = np.array(x) if f == "array" else list(x)
            f0 = freeze(arg)
            v = p.evaluate(arg)
            t.check(np.ndim(v) == 0, "a benchmark function does not return a number", problem=name)
            compare(t, name, kw, [float(a) for a in x], v, dict(form=f))
            t.eq(freeze(arg), f0, "a benchmark function changes its input", problem=name)
            vals.append(float(v))
            t.event("values")
        if len(vals) > 1:
            t.event("lists")
            t.close(vals[0], vals[1], "a list and an array give different values", rtol=1e-9, atol=1e-9, problem=name, point=x)
        if rng.random() < .3:
            # an integer genome is a legal point, too
            xi = [int(round(a)) for a in x]
            arg = np.array(xi, dtype=rng.choice([int, int, np.int32]))
            f0 = freeze(arg)
            compare(t, name, kw, [float(a) for a in xi], p.evaluate(arg), dict(form="integers"))
            t.eq(freeze(arg), f0, "a benchmark function changes its input", problem=name)
            t.event("integers")
        if name in HARD:
            t.raises(ValueError, lambda: p.evaluate(list(x)), "a list is not rejected", problem=name)
        t.sig(name, str(kw), tuple(x))
    # asked again, and through an individual
    t.check(float(p.evaluate(np.array(x))) == vals[0], "the same point gives another value when asked again", problem=name, point=x)
    ind = Individual(np.array(x), problem=p)
    ind.evaluate()
    t.check(float(ind.fitness) == vals[0], "an individual gets another fitness than the function value", problem=name)
    t.sample(dict(problem=name, parameters=kw, point=x, value=vals[0]))


@CHECK.section(quick=1500, thorough=20000, need={"optimum": 1500})
def optima(t):
    rng = t.rng
    name = rng.choice(["Spheroid", "Rastrigin", "Rosenbrock", "Griewank", "Ackley", "Weierstrass", "Lunacek", "Schwefel", "Gaussian", "CosineFamily"])
    d, kw = make(rng, name, default=name not in ("Gaussian", "Rastrigin", "CosineFamily"))
    if name == "Gaussian":
        kw["height"] = abs(kw.get("height", 1))
    p = getattr(R, name + "Problem")(**kw)
    tol = 1e-9
    opt, val = [0.0] * d, 0.0
    if name == "Rosenbrock":
        opt = [1.0] * d
    elif name == "Lunacek":
        opt = [2.5] * d
    elif name == "Schwefel":
        opt, tol = [420.968746] * d, 1e-4 * d
    elif name == "Gaussian":
        val = kw.get("height", 1)
    elif name == "CosineFamily":
        val = -(1 + kw["alpha"]) / 2
        opt = [rng.randrange(g) / (g - 1) if g > 1 else 0.0 for g in kw["global_optima_counts"]]
    got = float(p.evaluate(np.array(opt)))
    t.check(abs(got - val) <= max(tol, 1e-8), "the known optimum does not have its known value", problem=name, parameters=kw, got=got, expected=val)
    t.event("optimum")
    x = point(rng, name, d)[1]
    lo, hi = BOUNDS[name]
    x = [min(max(float(v), lo), hi) for v in x]
    v = float(p.evaluate(np.array(x)))
    better = v > got + max(tol, 1e-8) if p.maximize else v < got - max(tol, 1e-8)
    t.check(not better, "a point beats the known optimum", problem=name, parameters=kw, point=x, got=v, optimum=got)
    t.sig(name, str(kw), tuple(x))


@CHECK.section(quick=300, thorough=3000)
def published(t):
    rng = t.rng
    for name in NAMES + ["NoisyQuartic"]:
        cls = getattr(R, name + "Problem")
        t.check(tuple(float(b) for b in cls.bounds) == tuple(float(b) for b in BOUNDS[name]), "the published bounds are not the documented ones",
                problem=name, got=cls.bounds)
        _, kw = make(rng, name, default=True)
        t.eq(bool(cls(**kw).maximize), name in MAXIMISED, "the default direction is not the documented one", problem=name)
        for mx in (True, False):
            p = cls(**kw, maximize=mx)
            t.eq(bool(p.maximize), mx, "the requested direction is ignored", problem=name)
            t.eq((bool(p.worse_than(1.0, 2.0)), bool(p.worse_than(2.0, 1.0)), bool(p.worse_than(1.5, 1.5))), (mx, not mx, False),
                 "a benchmark compares fitnesses against its direction", problem=name)
    # documented rejections
    x3 = np.array([rng.uniform(0, 5) for _ in range(3)])
    t.raises(ValueError, lambda: R.LangermannProblem().evaluate(x3), "Langermann accepts a point of a wrong dimension")
    t.raises(Exception, lambda: R.ShekelProblem().evaluate(x3), "Shekel accepts a point of a wrong dimension")
    t.raises(ValueError, lambda: R.LangermannProblem(m=4), "Langermann accepts a matrix of a wrong size")
    t.raises(ValueError, lambda: R.LangermannProblem(c=[[1, 2]]), "Langermann accepts coefficients of a wrong shape")
    t.raises(ValueError, lambda: R.LangermannProblem(m=(5,)), "Langermann accepts a number of terms that is no number")
    t.raises(Exception, lambda: R.GaussianProblem(width=0), "a Gaussian without width is accepted")
    t.raises(Exception, lambda: R.CosineFamilyProblem(1.0, [2, 2], [2]), "counts of different length are accepted")
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        n = rng.randint(1, 6)
        R.LunacekProblem(N=n).evaluate(np.zeros(n))
        t.check(not w, "Lunacek warns about a point of the right dimension")
        R.LunacekProblem(N=n).evaluate(np.zeros(n + 1))
        t.check(len(w) == 1, "Lunacek does not warn about a point of a wrong dimension")
    t.sig(t.index)


@CHECK.section(quick=60, thorough=600)
def noisy(t):
    rng = t.rng
    d = rng.choice([1, 1, 2, 5])
    x = [rng.uniform(-1.28, 1.28) for _ in range(d)]
    p = R.NoisyQuarticProblem()
    vals = [float(p.evaluate(np.array(x) if k % 2 else list(x))) for k in range(1500)]
    mu = fs((i + 1) * v ** 4 for i, v in enumerate(x))
    t.mean(vals, mu, math.sqrt(d), "the noisy quartic is biased", point=x)
    v = float(np.var(vals))
    t.check(any(abs(v / s - 1) < 7 * math.sqrt(2 / 1500) * 1.1 for s in (1.0, float(d))), "the noise of the noisy quartic is not unit Gaussian noise",
            variance=v, dimension=d)
    half = [a for a in vals if abs(a - mu) < .2]
    t.check(len(set(vals)) > 1490, "the noise of the noisy quartic repeats")
    t.sig(tuple(x))


@CHECK.section(quick=1500, thorough=20000)
def parabaloids(t):
    rng = t.rng
    d = rng.choice([2, 2, 3, 5])
    D = [rng.choice([1.0, 5.0, -3.0, rng.uniform(.1, 4)]) for _ in range(d)]
    Q = np.linalg.qr(t.np.normal(size=(d, d)))[0] if rng.random() < .7 else np.identity(d)
    p = R.ParabaloidProblem(diagonal_matrix=np.diag(D), rotation_matrix=Q)
    x = np.array([rng.gauss(0, 3) for _ in range(d)])
    f0 = freeze(x)
    y = [fs(Q[i, j] * x[j] for j in range(d)) for i in range(d)]
    t.close(float(p.evaluate(x)), fs(D[i] * y[i] ** 2 for i in range(d)), "a parabaloid differs from its quadratic form", rtol=1e-9, atol=1e-9,
            D=D, Q=Q, point=x)
    t.eq(freeze(x), f0, "a parabaloid changes its input")
    t.check(not p.maximize and R.ParabaloidProblem(np.diag(D), Q, maximize=True).maximize, "a parabaloid has a wrong direction")
    bad = np.diag(D).copy()
    bad[0, 1] = 2.0
    t.raises(Exception, lambda: R.ParabaloidProblem(bad, Q), "a matrix that is not diagonal is accepted")
    t.sig(d, tuple(D), tuple(x))
