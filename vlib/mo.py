"""Multi-objective workloads and references."""
import math
import numpy as np
from vlib.gen import VecProblem, mkind, pareto_layers, crowding, tie_free, freeze


def vectors(rng, n, m, style=None, tie_free_only=False):
    """n fitness vectors with m objectives."""
    style = style or rng.choice(["grid", "grid", "bits", "float", "front", "chain", "dup", "const", "huge", "zero"])
    if tie_free_only and style not in ("float", "front", "chain", "const", "huge"):
        style = "float"
    if style == "grid":
        k = rng.randint(2, 5)
        v = [[float(rng.randint(0, k)) for _ in range(m)] for _ in range(n)]
    elif style == "bits":
        v = [[float(rng.randint(0, 1)) for _ in range(m)] for _ in range(n)]
    elif style == "float":
        v = [[rng.uniform(-10, 10) for _ in range(m)] for _ in range(n)]
    elif style == "front":
        xs = rng.sample(range(1000), n)
        v = [[float(x)] + [float(-x) if j % 2 == 0 else float(x) * 3 + 1 for j in range(m - 1)] for x in xs]
    elif style == "chain":
        xs = rng.sample(range(1000), n)
        v = [[float(x) + j for j in range(m)] for x in xs]
    elif style == "dup":
        base = [[float(rng.randint(0, 9)) for _ in range(m)] for _ in range(max(1, n // 3))]
        v = [list(rng.choice(base)) for _ in range(n)]
    elif style == "const":
        v = [[rng.uniform(-1, 1) for _ in range(m)] for _ in range(n)]
        for j in range(m):
            if rng.random() < .5:
                for r in v:
                    r[j] = 3.0
    elif style == "huge":
        v = [[rng.uniform(-1, 1) * 10.0 ** rng.choice([-200, -5, 0, 5, 100]) for _ in range(m)] for _ in range(n)]
    else:
        v = [[rng.choice([0.0, -0.0, 1.0, -1.0]) for _ in range(m)] for _ in range(n)]
    return style, v


def individuals(problem, vecs, cls, dtype=float):
    return [mkind(problem, np.array(v, dtype=dtype), genome=np.array(v, dtype=float), cls=cls) for v in vecs]


def check_distances(t, inds, dirs, d):
    """Crowding distances inside one rank: exact without ties, else by invariants."""
    fits = [[float(x) for x in i.fitness] for i in inds]
    F = np.array(fits)
    got = [float(i.distance) for i in inds]
    t.check(all(g >= 0 for g in got), "a crowding distance is negative (or not a number)", distances=got, fitnesses=fits, **d)
    nonconst = [j for j in range(F.shape[1]) if F[:, j].max() != F[:, j].min()]
    if tie_free(fits):
        exp = crowding(fits)
        t.close(got, exp, "crowding distance is not the sum of normalised neighbour gaps", rtol=1e-9, fitnesses=fits, **d)
        t.event("exact_distances", len(inds))
        return
    for j in nonconst:
        lo, hi = F[:, j].min(), F[:, j].max()
        for e in (lo, hi):
            t.check(any(math.isinf(g) for g, f in zip(got, fits) if f[j] == e), "no extreme individual of an objective has an infinite distance",
                    objective=j, distances=got, fitnesses=fits, **d)
    for g, f in zip(got, fits):
        inner = all(F[:, j].min() < f[j] < F[:, j].max() for j in nonconst)
        if inner:
            t.check(not math.isinf(g), "an inner individual has an infinite distance", distances=got, fitnesses=fits, **d)
            # bounds that hold for every order among ties
            lo_b = hi_b = 0.0
            for j in nonconst:
                r = F[:, j].max() - F[:, j].min()
                s = np.sort(F[:, j])
                a, b = s[s < f[j]], s[s > f[j]]
                span = (b[0] - a[-1]) / r
                hi_b += span
                lo_b += 0.0 if (s == f[j]).sum() >= 3 else min(b[0] - f[j], f[j] - a[-1]) / r if (s == f[j]).sum() == 2 else span
            t.check(lo_b - 1e-9 <= g <= hi_b + 1e-9, "a crowding distance is impossible for any order among ties",
                    got=g, bounds=[lo_b, hi_b], fitnesses=fits, **d)
    if not nonconst:
        t.check(all(g == 0 for g in got), "a distance without any spread is not zero", distances=got, **d)
    t.event("tied_distances", len(inds))
