"""C20: binary decoders decode every bit string exactly."""
import itertools
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec.binary_rep.decoders import (BinaryToIntDecoder, BinaryToRealDecoder, BinaryToIntGreyDecoder, BinaryToRealGreyDecoder)
from leap_ec.individual import Individual

CHECK = Check("C20", boost=4, rule="all bit strings of small decoders (every width list up to 10 bits in total) and random strings of decoders with groups up to 60 bits, decoded "
              "in random order by reused decoder objects, against integer arithmetic in Python; distinct by (decoder, widths, bounds, genome)")

DTYPES = [int, bool, np.uint8, np.int32, np.int64]


def plain(bits):
    v = 0
    for b in bits:
        v = 2 * v + int(b)
    return v


def gray(bits):
    v, acc = 0, 0
    for b in bits:
        acc ^= int(b)
        v = 2 * v + acc
    return v


def groups(g, widths):
    out, a = [], 0
    for w in widths:
        out.append([int(x) for x in g[a:a + w]])
        a += w
    return out


def expected(g, widths, is_gray, bounds=None):
    vals = [(gray if is_gray else plain)(x) for x in groups(g, widths)]
    if bounds is None:
        return vals
    return [lo + v * (hi - lo) / (2 ** w - 1) for v, w, (lo, hi) in zip(vals, widths, bounds)]


def make(rng, widths, real, is_gray, bounds):
    if real:
        cls = BinaryToRealGreyDecoder if is_gray else BinaryToRealDecoder
        return cls(*[(w, lo, hi) for w, (lo, hi) in zip(widths, bounds)])
    return (BinaryToIntGreyDecoder if is_gray else BinaryToIntDecoder)(*widths)


def judge(t, dec, g, widths, real, is_gray, bounds, d, via):
    before = freeze(g)
    if via:
        ind = Individual(g, decoder=dec)
        got = ind.decode()
        t.check(got is ind.phenome or np.array_equal(got, ind.phenome), "decode and phenome disagree", **d)
    else:
        got = dec.decode(g)
    t.check(freeze(g) == before, "decoding modified the genome", **d)
    t.eq(len(got), len(widths), "a wrong number of values was decoded", **d)
    if not real:
        t.check([int(x) for x in got] == expected(g, widths, is_gray) and all(int(x) == x for x in got), "a bit group is decoded to a wrong integer",
                got=list(got), expected=expected(g, widths, is_gray), genome=g, **d)
    else:
        exp = expected(g, widths, is_gray, bounds)
        for v, e, (lo, hi), grp in zip(got, exp, bounds, groups(g, widths)):
            tol = 1e-9 * (abs(lo) + abs(hi) + (hi - lo))
            t.check(abs(float(v) - e) <= tol, "a bit group is not mapped linearly onto its interval", got=v, expected=e, genome=g, **d)
            t.check(lo - tol <= v <= hi + tol, "a decoded value leaves its bounds", got=v, interval=[lo, hi], genome=g, **d)
    t.event("decoded")
    return [float(x) for x in got]


def bounds_for(rng, widths):
    out = []
    for _ in widths:
        lo = rng.choice([0, 0.0, -1, -5.12, 3, rng.uniform(-100, 100)])
        out.append((lo, lo + rng.choice([1, 2, 10.24, 1e-3, 1000, rng.uniform(.01, 50)])))
    return out


@CHECK.section(quick=250, thorough=4000, need={"decoded": 15000})
def exhaustive(t):
    rng = t.rng
    total = rng.randint(1, 8 if t.tier == "quick" else 10)
    widths = []
    while sum(widths) < total:
        widths.append(rng.randint(1, total - sum(widths)))
    rng.shuffle(widths)
    real, is_gray = rng.random() < .5, rng.random() < .5
    bounds = bounds_for(rng, widths)
    dec = make(rng, widths, real, is_gray, bounds)
    dtype = rng.choice(DTYPES)
    d = dict(widths=widths, real=real, gray=is_gray, bounds=bounds if real else None, dtype=str(dtype))
    gs = [np.array(b, dtype=dtype) for b in itertools.product([0, 1], repeat=total)]
    rng.shuffle(gs)
    seen = {}
    for g in gs:
        v = tuple(judge(t, dec, g, widths, real, is_gray, bounds, d, rng.random() < .3))
        t.check(v not in seen, "two bit strings decode to the same point", one=g, other=seen.get(v), **d)
        seen[v] = g
    if real:
        lo = [min(v[j] for v in seen) for j in range(len(widths))]
        hi = [max(v[j] for v in seen) for j in range(len(widths))]
        for j, (a, b) in enumerate(bounds):
            tol = 1e-9 * (abs(a) + abs(b))
            t.check(abs(lo[j] - a) <= tol and abs(hi[j] - b) <= tol, "the bounds are not the extreme values", lowest=lo[j], highest=hi[j], **d)
        z = dec.decode(np.zeros(total, dtype=dtype))
        t.close(z, [a for a, _ in bounds], "all zeros is not the lower bound", rtol=1e-9, **d)
    for g in rng.sample(gs, min(10, len(gs))):        # history does not matter
        a = dec.decode(g)
        b = make(rng, widths, real, is_gray, bounds).decode(g)
        t.check(np.array_equal(a, b), "decoding depends on earlier calls", genome=g, **d)
    t.sig(tuple(widths), real, is_gray, repr(bounds) if real else 0, str(dtype))
    t.sample(dict(d, genomes=len(gs)))


@CHECK.section(quick=1500, thorough=25000, need={"decoded": 8000})
def wide(t):
    """Wide groups, reused decoder, mixed widths in every order."""
    rng = t.rng
    widths = [rng.choice([1, 2, 3, 5, 8, 10, 16, 20, 31, 32, 33, 48, 52]) for _ in range(rng.randint(1, 6))]
    real, is_gray = rng.random() < .5, rng.random() < .5
    if not real:
        widths = [rng.choice([w, w, 60]) for w in widths]
    bounds = bounds_for(rng, widths)
    dec = make(rng, widths, real, is_gray, bounds)
    d = dict(widths=widths, real=real, gray=is_gray, bounds=bounds if real else None)
    n = sum(widths)
    hist = []
    for _ in range(rng.randint(2, 10)):
        style = rng.choice(["random", "zeros", "ones", "single", "top"])
        if style == "random":
            b = [rng.randint(0, 1) for _ in range(n)]
        else:
            b = [1 if style == "ones" else 0] * n
            if style == "single":
                b[rng.randrange(n)] = 1
            if style == "top":
                b[0] = 1
        judge(t, dec, np.array(b, dtype=rng.choice(DTYPES)), widths, real, is_gray, bounds, d, rng.random() < .3)
        hist.append(style)
    t.sig(tuple(widths), real, is_gray, tuple(hist))


@CHECK.section(quick=800, thorough=12000, need={"neighbours": 3000})
def structure(t):
    """Plain decoding is monotone; codes next to each other in Gray code differ by one in the last group bit sense."""
    rng = t.rng
    w = rng.randint(2, 50)
    plain_dec, gray_dec = BinaryToIntDecoder(w), BinaryToIntGreyDecoder(w)
    lo = rng.uniform(-5, 5)
    hi = lo + rng.uniform(.1, 9)
    pr = BinaryToRealDecoder((w, lo, hi))
    for _ in range(6):
        a, b = sorted([rng.getrandbits(w), rng.getrandbits(w)])
        bits = lambda v: np.array([(v >> (w - 1 - i)) & 1 for i in range(w)])  # noqa
        t.check(int(plain_dec.decode(bits(a))[0]) == a and int(plain_dec.decode(bits(b))[0]) == b, "plain code", width=w, a=a, b=b)
        t.check(float(pr.decode(bits(a))[0]) <= float(pr.decode(bits(b))[0]), "real decoding is not monotone", width=w, a=a, b=b)
        v = rng.randrange(2 ** w - 1)
        g1, g2 = v ^ (v >> 1), (v + 1) ^ ((v + 1) >> 1)
        x, y = int(gray_dec.decode(bits(g1))[0]), int(gray_dec.decode(bits(g2))[0])
        t.check((x, y) == (v, v + 1) and int((bits(g1) != bits(g2)).sum()) == 1, "Gray neighbours do not differ by one", width=w, v=v, got=[x, y])
        t.event("neighbours")
    t.raises((ValueError, IndexError, TypeError), lambda: BinaryToRealDecoder((4, 0.0)), "an incomplete segment description was accepted")
    t.sig(w, t.index)
