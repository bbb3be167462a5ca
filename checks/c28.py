"""C28: discrete and multi-objective benchmarks equal their definitions."""
import math
import os
import numpy as np
from PIL import Image, ImageOps
from vlib.harness import Check
from vlib.gen import *
from leap_ec.individual import Individual
from leap_ec.binary_rep import problems as B
from leap_ec.multiobjective import problems as M

CHECK = Check("C28", boost=4, rule="bit-string benchmarks over whole small domains and random long strings, multi-objective benchmarks at random, optimal, boundary and illegal "
              "points, all next to a plain Python transcription of the definition; distinct by (problem, parameters, phenome)")
fs = math.fsum


# ------------------------------------------------------------------ bit strings
def maxones(x, target=None):
    return sum(1 for i, b in enumerate(x) if b == (1 if target is None else target[i]))


def leading(x, target=None):
    k = 0
    for i, b in enumerate(x):
        if b != (1 if target is None else target[i]):
            break
        k += 1
    return k


def trap(x, target=None):
    ones = sum(x)
    return len(x) if ones == len(x) else len(x) - 1 - ones


def twomax(x, target=None):
    return max(sum(x), len(x) - sum(x))


BITS = dict(MaxOnes=maxones, LeadingOnes=leading, DeceptiveTrap=trap, TwoMax=twomax)
DTYPES = [int, bool, np.uint8, np.int8, float]


def judge(t, name, p, x, target, dtype):
    arg = np.array(x, dtype=dtype)
    f0 = freeze(arg)
    v = p.evaluate(arg)
    t.check(np.ndim(v) == 0 and v == BITS[name](x, target), "a bit-string benchmark differs from its definition", problem=name, phenome=x, target=target,
            dtype=str(dtype), got=v, expected=BITS[name](x, target))
    t.eq(freeze(arg), f0, "a bit-string benchmark changes its input", problem=name)
    t.event("values")


@CHECK.section(quick=400, thorough=4000, need={"values": 15000})
def domains(t):
    """Whole domains {0,1}^n."""
    rng = t.rng
    name = list(BITS)[t.index % 4]
    d = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
    target = None
    if name in ("MaxOnes", "LeadingOnes") and rng.random() < .6:
        target = [rng.randint(0, 1) for _ in range(d)]
    kw = {}
    if target is not None:
        kw["target_string"] = np.array(target, dtype=rng.choice([int, np.uint8]))
        if rng.random() < .3:
            kw["target_string"] = list(target)
    p = getattr(B, name)(**kw)
    dtype = rng.choice(DTYPES)
    for k in range(2 ** d):
        judge(t, name, p, [(k >> i) & 1 for i in range(d)], target, dtype)
    if target is not None:
        t.eq(list(p.target_string), target, "the target string changes during evaluation")
    t.sig(name, d, str(target), str(dtype))
    t.sample(dict(problem=name, length=d, target=target))


@CHECK.section(quick=2500, thorough=60000)
def longer(t):
    rng = t.rng
    name = rng.choice(list(BITS))
    d = rng.choice([9, 16, 31, 64, 100, 255, 256, 257, 300, 1000])
    q = rng.choice([0, 0, .02, .3, .5, .98, 1, 1])
    x = [int(rng.random() < q) for _ in range(d)]
    if rng.random() < .3:
        x[rng.randrange(d)] ^= 1
    target = None
    kw = {}
    if name in ("MaxOnes", "LeadingOnes") and rng.random() < .5:
        target = [int(rng.random() < q) for _ in range(d)] if rng.random() < .5 else list(x)
        if rng.random() < .6:
            target[rng.randrange(d)] ^= 1
        kw["target_string"] = np.array(target)
    mx = rng.choice([None, True, False])
    if mx is not None:
        kw["maximize"] = mx
    p = getattr(B, name)(**kw)
    judge(t, name, p, x, target, rng.choice(DTYPES))
    t.eq(bool(p.maximize), mx is not False, "a bit-string benchmark has a wrong direction", problem=name)
    ind = Individual(np.array(x), problem=p)
    ind.evaluate()
    t.check(ind.fitness == BITS[name](x, target), "an individual gets another fitness than the definition's", problem=name)
    if name in ("MaxOnes", "LeadingOnes"):
        t.raises(ValueError, lambda: p.evaluate(list(x)), "a phenome that is no array is accepted", problem=name)
        if target is not None:
            bad = x[:-1] if rng.random() < .5 else x + [1]
            t.raises(Exception, lambda: p.evaluate(np.array(bad)), "a phenome of another length than the target is accepted", problem=name)
    else:
        t.check(p.evaluate(list(x)) == BITS[name](x), "a list gets another value than the definition's", problem=name, phenome=x)
    t.sig(name, tuple(x), str(target))


@CHECK.section(quick=120, thorough=1500)
def images(t):
    """Matching an image: reference made with Pillow itself, which is not under test."""
    rng = t.rng
    w, h = rng.choice([(8, 8), (5, 9), (12, 4), (20, 20)])
    size = rng.choice([(w, h), (h, w), (4, 4), (7, 3), (1, 5), (10, 10)])
    mode = rng.choice(["1", "L", "RGB"])
    a = (t.np.random((h, w)) * 256).astype(np.uint8)
    if mode == "1":
        img = Image.fromarray(((a > 127) * 255).astype(np.uint8)).convert("1")
    elif mode == "L":
        img = Image.fromarray(a)
    else:
        img = Image.fromarray(np.stack([a, a[::-1], 255 - a], axis=2))
    path = os.path.join(t.tmp, "i.png")
    img.save(path)
    default = rng.random() < .1
    p = B.ImageProblem(path, **({} if default else dict(size=size)), **({} if rng.random() < .5 else dict(maximize=True)))
    if default:
        size = (100, 100)
    ref = np.array(ImageOps.fit(Image.open(path), size).convert("1")).ravel()
    npix = size[0] * size[1]
    t.eq(len(ref), npix, "harness: reference size")
    t.check(bool(p.maximize) and not B.ImageProblem(path, maximize=False, size=size).maximize, "the image problem has a wrong direction")
    t.check(p.evaluate(ref.copy()) == npix and p.evaluate(~ref) == 0, "the image itself is not the optimum of the image problem", size=size, mode=mode)
    for _ in range(6):
        x = ref.copy()
        k = rng.randint(0, npix)
        flip = rng.sample(range(npix), k)
        x[flip] = ~x[flip]
        dtype = rng.choice([bool, int, np.uint8])
        arg = x.astype(dtype)
        f0 = freeze(arg)
        t.check(p.evaluate(arg) == npix - k, "the image problem does not count the matching pixels", size=size, mode=mode, flipped=k, dtype=str(dtype))
        t.eq(freeze(arg), f0, "the image problem changes its input")
        t.event("image")
    for bad in (ref[:-1], np.concatenate([ref, ref[:1]])):
        t.raises(Exception, lambda: p.evaluate(bad), "a phenome of a wrong length is accepted")
    t.sig(size, mode, ref.tobytes())


# ------------------------------------------------------------------ multi-objective
def zdt(k, x, nn):
    x = [float(v) for v in x]
    if k == 5:
        f1 = 1 + fs(x[:30])
        g = 0
        for i in range(nn - 1):
            u = fs(x[30 + 5 * i:35 + 5 * i])
            g += 2 + u if u < 5 else 1
        return f1, g / f1
    s = fs(x[1:])
    f1 = x[0]
    if k == 6:
        f1 = 1 - math.exp(-4 * x[0]) * math.sin(6 * math.pi * x[0]) ** 6
        g = 1 + 9 * (s / (nn - 1)) ** .25
    elif k == 4:
        g = 1 + 10 * (nn - 1) + fs(v * v - 10 * math.cos(4 * math.pi * v) for v in x[1:])
    else:
        g = 1 + 9 * s / (nn - 1)
    r = f1 / g
    if k in (1, 4):
        h = 1 - math.sqrt(r)
    elif k in (2, 6):
        h = 1 - r * r
    else:
        h = 1 - math.sqrt(r) - r * math.sin(10 * math.pi * x[0])
    return f1, g * h


DEFAULT_N = {1: 30, 2: 30, 3: 10, 4: 30, 5: 11, 6: 10}
CLS = {k: getattr(M, f"ZDT{k}Problem") for k in DEFAULT_N}


def legal(rng, k, nn):
    kind = rng.choice(["uniform", "uniform", "front", "corner", "mixed", "one"])
    if k == 5:
        q = {"uniform": .5, "front": 1, "corner": 0, "mixed": .8, "one": .95}[kind]
        x = [int(rng.random() < q) for _ in range(30 + 5 * (nn - 1))]
        if kind == "front":
            x[:30] = [rng.randint(0, 1) for _ in range(30)]
        if rng.random() < .3:     # blocks that are all ones next to blocks that just are not
            for i in range(nn - 1):
                c = rng.choice([0, 1, 4, 5])
                b = [1] * c + [0] * (5 - c)
                rng.shuffle(b)
                x[30 + 5 * i:35 + 5 * i] = b
        return kind, x
    lo, hi = (-5, 5) if k == 4 else (0, 1)
    x0 = rng.choice([rng.random(), rng.random(), 0.0, 1.0, .5])
    if kind == "front":
        rest = [0.0] * (nn - 1)
    elif kind == "corner":
        rest = [float(rng.choice([lo, hi])) for _ in range(nn - 1)]
    elif kind == "mixed":
        rest = [rng.choice([0.0, float(lo), float(hi), rng.uniform(lo, hi), .5]) for _ in range(nn - 1)]
    elif kind == "one":
        rest = [0.0] * (nn - 1)
        rest[rng.randrange(nn - 1)] = rng.uniform(lo, hi)
    else:
        rest = [rng.uniform(lo, hi) for _ in range(nn - 1)]
    return kind, [x0] + rest


@CHECK.section(quick=6000, thorough=150000, need={"zdt": 5500, "sch": 800})
def objectives(t):
    rng = t.rng
    k = t.index % 7
    if k == 0:
        p = M.SCHProblem()
        x = rng.choice([0, 2, 1, 1.0, 0.0, 2.0, rng.gauss(0, 3), rng.uniform(-1000, 1000), rng.randint(-50, 50)])
        arg = x if rng.random() < .4 else np.float64(x)
        f = np.asarray(p.evaluate(arg))
        t.check(f.shape == (2,) and np.allclose(f, [x * x, (x - 2.0) ** 2], rtol=1e-12), "Schaffer's problem differs from its definition", x=x, got=f)
        t.event("sch")
        t.sig("sch", x)
        return
    use_default = rng.random() < .3
    nn = DEFAULT_N[k] if use_default else rng.choice([2, 3, 5, 11, 30])
    args = () if use_default else (nn,)
    chk = rng.choice([None, True, False])
    p = CLS[k](*args, **({} if chk is None else dict(check_phenome=chk)))
    bounds = [tuple(map(float, b)) for b in p.bounds]
    exp = [(0., 1.)] * (30 + 5 * (nn - 1)) if k == 5 else ([(0., 1.)] + [(-5., 5.)] * (nn - 1) if k == 4 else [(0., 1.)] * nn)
    t.eq(bounds, exp, "the published bounds are not the definition's", problem=k)
    if k == 5:
        t.eq(int(p.phenome_length), len(exp), "the phenome length is not the definition's")
    t.check(bool(p.worse_than(np.array([1., 1.]), np.array([.5, 1.]))) and bool(p.worse_than(np.array([1., 1.]), np.array([1., .5])))
            and not bool(p.worse_than(np.array([.5, .5]), np.array([1., 1.]))), "a ZDT problem is not minimised", problem=k)
    for _ in range(3):
        kind, x = legal(rng, k, nn)
        arg = np.array(x)
        f0 = freeze(arg)
        f = np.asarray(p.evaluate(arg), dtype=float)
        e = zdt(k, x, nn)
        t.check(f.shape == (2,) and np.allclose(f, e, rtol=1e-9, atol=1e-9), "a ZDT problem differs from its definition", problem=k, n_=nn, phenome=x,
                got=f, expected=e, kind=kind)
        t.eq(freeze(arg), f0, "a ZDT problem changes its input", problem=k)
        t.check(np.array_equal(np.asarray(p.evaluate(arg)), f), "the same point gives another value when asked again", problem=k)
        if kind == "front" and k in (1, 2, 3, 4):
            g1 = {1: 1 - math.sqrt(x[0]), 2: 1 - x[0] ** 2, 3: 1 - math.sqrt(x[0]) - x[0] * math.sin(10 * math.pi * x[0]), 4: 1 - math.sqrt(x[0])}[k]
            t.close(float(f[1]), g1, "the Pareto-optimal front has other values", rtol=1e-9, atol=1e-9, problem=k, x0=x[0])
        elif kind == "front" and k == 6:
            t.close(float(f[1]), 1 - f[0] ** 2, "the Pareto-optimal front has other values", rtol=1e-9, atol=1e-9, problem=k)
        t.event("zdt")
        t.sig(k, tuple(x))
    ind = Individual(np.array(x), problem=p)
    ind.evaluate()
    t.check(np.array_equal(np.asarray(ind.fitness), f), "an individual gets other fitnesses than the problem's", problem=k)
    # two results are two arrays
    a = p.evaluate(np.array(x))
    b = p.evaluate(np.array(legal(rng, k, nn)[1]))
    t.check(not np.shares_memory(a, b) and np.array_equal(a, f), "a later evaluation overwrites an earlier result", problem=k)
    t.sample(dict(problem=k, n=nn, x0=x[0], value=[float(v) for v in f]))


@CHECK.section(quick=2500, thorough=40000, need={"rejected": 2000, "tolerated": 500})
def illegal(t):
    rng = t.rng
    k = 1 + t.index % 6
    nn = rng.choice([2, 3, 5, 11, 30])
    _, x = legal(rng, k, nn)
    x = [x[i] if k == 5 else float(x[i]) for i in range(len(x))]
    i = rng.choice([0, len(x) - 1, rng.randrange(len(x))])
    fault = rng.choice(["low", "high", "short", "long", "nan"])
    lo, hi = CLS[k](nn).bounds[i]
    x = np.array(x, dtype=float) if fault in ("nan",) or k != 5 else np.array(x)
    if fault == "low":
        x[i] = lo - (1 if k == 5 else rng.choice([1e-6, .5, 3, 1e9]))
    elif fault == "high":
        x[i] = hi + (1 if k == 5 else rng.choice([1e-6, .5, 3, 1e9]))
    elif fault == "nan":
        x[i] = float("nan")
    elif fault == "short":
        x = x[:-1]
    else:
        x = np.append(x, x[-1])
    for p in (CLS[k](nn), CLS[k](nn, True), CLS[k](nn, check_phenome=True)):
        t.raises(Exception, lambda: p.evaluate(x), "a phenome outside the domain is accepted although checking is on", problem=k, fault=fault, index=i, phenome=x)
    t.event("rejected")
    if fault in ("low", "high"):
        p = CLS[k](nn, check_phenome=False)
        with np.errstate(all="ignore"):
            try:
                p.evaluate(x)
            except AssertionError:
                t.check(False, "a phenome is rejected although checking is off", problem=k, fault=fault)
        t.event("tolerated")
    t.sig(k, nn, fault, i, x.tobytes())


@CHECK.section(quick=600, thorough=6000)
def directions(t):
    """Sequences of booleans are the directions, whatever their container."""
    rng = t.rng
    m = rng.choice([1, 2, 3, 5])
    d = [rng.random() < .5 for _ in range(m)]

    class P(M.MultiObjectiveProblem):
        def evaluate(self, phenome):
            return np.asarray(phenome)
    p = P(rng.choice([tuple, list, np.array])(d))
    for _ in range(10):
        a = np.array([float(rng.randint(0, 2)) for _ in range(m)])
        b = np.array([float(rng.randint(0, 2)) for _ in range(m)])
        ge = all((y >= x) if mx else (y <= x) for x, y, mx in zip(a, b, d))
        gt = any((y > x) if mx else (y < x) for x, y, mx in zip(a, b, d))
        t.eq(bool(p.worse_than(a, b)), ge and gt, "dominance differs from its definition", first=a, second=b, directions=d)
        t.sig(tuple(d), tuple(a), tuple(b))
    t.raises(Exception, lambda: P(None), "missing directions are accepted")
    t.raises(Exception, lambda: P(()), "empty directions are accepted")
