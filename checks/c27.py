"""C27: search-space transformations move a landscape without changing it."""
import math
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec.individual import Individual
from leap_ec.problem import FitnessOffsetProblem, FunctionProblem
from leap_ec.real_rep import problems as R
from leap_ec.real_rep.problems import TranslatedProblem, ScaledProblem, MatrixTransformedProblem, QuadraticFamilyProblem, random_orthonormal_matrix

CHECK = Check("C27", boost=3, rule="random nestings (up to 5 deep) of translation, scaling, linear transformation and fitness shift around random problems; the point that "
              "reaches the innermost problem is recorded and compared with the composed inverse mapping, the value with the composed shift; "
              "distinct by (nesting, point)")


class Probe(R.ScalarProblem):
    """records the point it is asked for; its value identifies the point"""

    def __init__(self, bounds=None, maximize=False):
        super().__init__(maximize)
        if bounds is not None:
            self.bounds = bounds
        self.asked = []

    def evaluate(self, phenome):
        self.asked.append(np.array(phenome, dtype=float))
        return float(np.dot(np.arange(1, len(phenome) + 1), phenome)) + 3.0


def orthonormal(t, d):
    return np.linalg.qr(t.np.normal(size=(d, d)))[0]


@CHECK.section(quick=4000, thorough=100000, need={"layers": 8000, "scaled": 1000})
def nesting(t):
    rng = t.rng
    d = rng.choice([1, 2, 2, 3, 6]) if rng.random() < .99 else rng.randint(7, 40)
    bounds = rng.choice([(-1.0, 1.0), (-5.12, 5.12), [0, 10], (2.0, 7.0)])
    mx0 = rng.random() < .5
    inner = Probe(bounds, mx0)
    p, maps, shift, desc, mx, b = inner, [], 0.0, [], mx0, tuple(bounds)
    for _ in range(rng.randint(1, 5)):
        kind = rng.choice(["translate", "scale", "matrix", "offset"])
        kw = {}
        if rng.random() < .2:
            mx = rng.random() < .5
            kw["maximize"] = mx
        if kind == "translate":
            o = [rng.choice([0.0, rng.gauss(0, 3), float(rng.randint(-4, 4))]) for _ in range(d)]
            p = TranslatedProblem(p, rng.choice([list, tuple, np.array])(o), **kw)
            maps.append(lambda x, o=np.array(o): x - o)
        elif kind == "scale":
            lo = rng.uniform(-10, 10)
            nb = (lo, lo + rng.choice([.5, 2.0, 20.0]))
            p = ScaledProblem(p, rng.choice([tuple, list])(nb), **kw)
            maps.append(lambda x, nb=nb, ob=b: ob[0] + (x - nb[0]) * (ob[1] - ob[0]) / (nb[1] - nb[0]))
            b = nb
            t.event("scaled")
        elif kind == "matrix":
            M = orthonormal(t, d) if rng.random() < .5 else t.np.normal(size=(d, d))
            p = MatrixTransformedProblem(p, M if rng.random() < .5 else M.tolist(), **kw)
            maps.append(lambda x, M=M: M @ x)
        else:
            s = rng.choice([0.0, rng.gauss(0, 5), 7])
            p = FitnessOffsetProblem(p, s, **kw)
            maps.append(lambda x: x)
            shift += s
        desc.append(kind)
        t.event("layers")
    t.eq(bool(p.maximize), mx, "a wrapper has another direction than the wrapped problem", nesting=desc)
    t.check(bool(p.worse_than(1.0, 2.0)) == mx, "a wrapper compares against its direction", nesting=desc)
    t.close([float(v) for v in p.bounds], [float(v) for v in b], "a wrapper publishes wrong bounds", nesting=desc)
    for _ in range(2):
        x = np.array([rng.choice([0.0, rng.gauss(0, 4), float(rng.randint(-3, 3))]) for _ in range(d)])
        if rng.random() < .2:
            x = np.array([rng.randint(-5, 5) for _ in range(d)])
        f0 = freeze(x)
        inner.asked.clear()
        got = p.evaluate(x)
        y = np.array(x, dtype=float)
        for m in reversed(maps):
            y = m(y)
        t.eq(freeze(x), f0, "a wrapper changes its input", nesting=desc)
        t.eq(len(inner.asked), 1, "the wrapped problem is asked more or less than once", nesting=desc)
        sc = max(1.0, float(np.abs(y).max()))
        t.close(inner.asked[0], y, "the wrapped problem is asked for another point than the inversely mapped one", rtol=1e-8, atol=1e-8 * sc, nesting=desc, point=x)
        t.close(float(got), float(np.dot(np.arange(1, d + 1), y)) + 3.0 + shift, "a wrapper's value is not the original's (plus the shift)", rtol=1e-7,
                atol=1e-7 * sc, nesting=desc, point=x)
        ind = Individual(np.array(x), problem=p)
        ind.evaluate()
        t.check(float(ind.fitness) == float(got), "evaluating again gives another value", nesting=desc)
        t.sig(tuple(desc), d, tuple(float(v) for v in x))
    if rng.random() < .5 and any(k in ("translate", "matrix") for k in desc) and "matrix" not in desc:
        bad = np.zeros(d + rng.choice([1, 2]))
        t.raises(Exception, lambda: p.evaluate(bad), "a point of a wrong dimension is accepted", nesting=desc)
    t.sample(dict(nesting=desc, bounds=list(map(float, b)), direction=mx))


@CHECK.section(quick=2500, thorough=40000, need={"optimum": 1500})
def optimum_moves(t):
    rng = t.rng
    name = rng.choice(["Spheroid", "Rastrigin", "Griewank", "Ackley", "Gaussian"])
    d = rng.choice([2, 2, 3, 5]) if rng.random() < .97 else rng.randint(6, 30)
    base = getattr(R, name + "Problem")()
    zero = float(base.evaluate(np.zeros(d)))
    o = np.array([rng.gauss(0, 3) for _ in range(d)])
    tr = TranslatedProblem(base, o)
    t.close(float(tr.evaluate(o)), zero, "the optimum does not move to the offset", rtol=1e-9, atol=1e-9, problem=name)
    x = np.array([rng.gauss(0, 4) for _ in range(d)])
    t.close(float(tr.evaluate(x)), float(base.evaluate(x - o)), "a translated value is not the original's", rtol=1e-9, atol=1e-9, problem=name)
    # an orthonormal transformation preserves distances
    mt = MatrixTransformedProblem.random_orthonormal(base, d)
    t.check(mt.maximize == base.maximize and tr.maximize == base.maximize, "a wrapper has another direction than the wrapped problem", problem=name)
    s = MatrixTransformedProblem(R.SpheroidProblem(), mt.matrix)
    t.close(float(s.evaluate(x)), float(np.dot(x, x)), "an orthonormal transformation changes a distance", rtol=1e-8, atol=1e-9)
    t.close(float(mt.evaluate(np.zeros(d))), zero, "an orthonormal transformation moves the origin", rtol=1e-9, atol=1e-9, problem=name)
    rec = Probe()
    rt = MatrixTransformedProblem.random_orthonormal(rec, d, maximize=True)
    t.check(rt.maximize is True, "the requested direction is ignored")
    y = np.array([rng.gauss(0, 4) for _ in range(d)])
    rt.evaluate(x)
    rt.evaluate(y)
    a, b = rec.asked
    t.close(float(np.linalg.norm(a - b)), float(np.linalg.norm(x - y)), "a random orthonormal transformation changes a distance", rtol=1e-8, atol=1e-9)
    q = random_orthonormal_matrix(d)
    t.close(q @ q.T, np.identity(d), "a random orthonormal matrix is not orthonormal", rtol=0, atol=1e-7)
    # bounds map onto bounds
    lo = rng.uniform(-9, 9)
    nb = (lo, lo + rng.choice([.25, 1.0, 30.0]))
    rec = Probe((-3.0, 5.0))
    sp = ScaledProblem(rec, nb)
    fr = rng.random()
    for k, (u, e) in enumerate(((nb[0], -3.0), (nb[1], 5.0), (nb[0] + fr * (nb[1] - nb[0]), -3.0 + fr * 8.0))):
        sp.evaluate(np.full(d, u))
        t.close(rec.asked[-1], np.full(d, e), "the new bounds do not map onto the old ones", rtol=1e-8, atol=1e-8, new=nb, point=u)
    t.event("optimum")
    for w in (tr, mt):
        bad = np.zeros(d + 1) if rng.random() < .5 else np.zeros(d - 1)
        t.raises(Exception, lambda: w.evaluate(bad), "a point of a wrong dimension is accepted")
    for w in (tr, sp):
        t.raises(ValueError, lambda: w.evaluate(list(x)), "a list is accepted")
    t.raises(ValueError, lambda: ScaledProblem(FunctionProblem(lambda p: 0, True), nb), "a problem without bounds is scaled")
    t.sig(name, tuple(x))


@CHECK.section(quick=60, thorough=800)
def random_offsets(t):
    rng = t.rng
    lo = rng.uniform(-10, 5)
    b = (lo, lo + rng.choice([1.0, 10.0]))
    d = rng.randint(1, 4)
    M = np.array([TranslatedProblem.random(R.SpheroidProblem(), b, d).offset for _ in range(400)])
    t.check(M.shape == (400, d) and (M >= b[0]).all() and (M <= b[1]).all(), "a random offset is outside its bounds")
    for k in range(d):
        t.ks((M[:, k] - b[0]) / (b[1] - b[0]), "uniform", "random offsets are not uniform")
    if d > 1:
        t.check(abs(np.corrcoef(M[:, 0], M[:, 1])[0, 1]) < .4, "random offsets are not independent")
    t.check(TranslatedProblem.random(R.SpheroidProblem(), b, d).maximize is False and TranslatedProblem.random(R.SpheroidProblem(), b, d, maximize=True).maximize is True,
            "a random translation has a wrong direction")
    # random rotations: no preferred direction
    q = np.array([random_orthonormal_matrix(3)[0] for _ in range(300)])
    t.mean(q[:, 0], 0.0, 1 / math.sqrt(3), "random rotations have a preferred direction")
    t.sig(lo, d)


@CHECK.section(quick=1500, thorough=20000, need={"basins": 6000})
def basins(t):
    rng = t.rng
    d, n = rng.choice([2, 2, 3, 5]), rng.randint(1, 12)
    g = rng.choice([0, 1, 1, min(2, n), n])
    kw = {}
    wb, ob, fb = (1, 5), (-10, 10), (10, 100)
    if rng.random() < .5:
        wb = (rng.uniform(.5, 2), rng.uniform(2, 6))
        ob = (rng.uniform(-5, 0), rng.uniform(0, 5))
        fb = (rng.uniform(1, 2), rng.uniform(2, 50))
        kw = dict(width_bounds=wb, offset_bounds=ob, fitness_offset_bounds=fb)
    if g != 1 or rng.random() < .5:
        kw["num_global_optima"] = g
    p = QuadraticFamilyProblem.generate(d, n, **kw)
    t.check(p.num_basins == n and p.dimensions == d and not p.maximize, "a generated problem has other basins than requested", got=p.num_basins, want=n)
    t.eq((len(p.diagonal_matrices), len(p.rotation_matrices), len(p.offset_vectors), len(p.fitness_offsets)), (n,) * 4, "a generated problem is incomplete")
    fo = [float(v) for v in p.fitness_offsets]
    t.check(sum(v == 0 for v in fo) == g and all(v == 0 or fb[0] <= v <= fb[1] for v in fo), "the basins' values are not those requested", got=fo, want=g)
    for D, Q, o in zip(p.diagonal_matrices, p.rotation_matrices, p.offset_vectors):
        w = np.diagonal(D)
        t.check((w >= wb[0]).all() and (w <= wb[1]).all() and np.allclose(D, np.diag(w)), "a basin's width is outside its bounds")
        t.check(np.allclose(Q @ Q.T, np.identity(d), atol=1e-7), "a basin's rotation is not orthonormal")
        t.check((np.asarray(o) >= ob[0]).all() and (np.asarray(o) <= ob[1]).all() and len(o) == d, "a basin lies outside its bounds")
        t.event("basins")

    def ref(x):
        out = []
        for D, Q, o, v in zip(p.diagonal_matrices, p.rotation_matrices, p.offset_vectors, fo):
            y = Q @ (x - o)
            out.append(float(np.dot(np.diagonal(D), y * y)) + v)
        return min(out)

    pts = [np.array([rng.uniform(-12, 12) for _ in range(d)]) for _ in range(3)] + [np.array(o, dtype=float) for o in p.offset_vectors]
    for x in pts:
        f0 = freeze(x)
        v = float(p.evaluate(x))
        t.close(v, ref(x), "a multi-basin problem is not the minimum over its basins", rtol=1e-8, atol=1e-8)
        t.eq(freeze(x), f0, "a multi-basin problem changes its input")
        t.check(v >= min(fo) - 1e-9, "a multi-basin problem goes below its best basin")
    if g:
        t.close(float(p.evaluate(np.array(p.global_optimum))), 0.0, "the recorded global optimum is none", atol=1e-9)
        opts = [o for o, v in zip(p.offset_vectors, fo) if v == 0]
        t.check(any(np.array_equal(p.global_optimum, o) for o in opts), "the recorded global optimum is none of the best basins")
    # built by hand, also with a direction
    q = QuadraticFamilyProblem(p.diagonal_matrices, p.rotation_matrices, p.offset_vectors, p.fitness_offsets, maximize=True)
    t.check(q.maximize is True and float(q.evaluate(pts[0])) == float(p.evaluate(pts[0])), "the direction changes the values")
    t.raises(Exception, lambda: QuadraticFamilyProblem(p.diagonal_matrices, p.rotation_matrices, p.offset_vectors, p.fitness_offsets[:-1]),
             "an incomplete multi-basin problem is accepted")
    t.sig(d, n, g, tuple(pts[0]))
