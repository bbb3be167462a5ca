"""Workload generators and reference helpers shared by the checks."""
import copy
import math

import numpy as np

from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.decoder import Decoder, IdentityDecoder
from leap_ec.problem import ScalarProblem, FunctionProblem
from leap_ec.multiobjective.problems import MultiObjectiveProblem


# ------------------------------------------------------------------ snapshots
def freeze(g):
    """A value that is equal iff two genomes are deeply equal (values, nesting
    and, for arrays, dtype and shape)."""
    if isinstance(g, np.ndarray):
        if g.dtype == object:
            return ("ndo", g.shape, tuple(freeze(x) for x in g.ravel()))
        return ("nd", g.shape, str(g.dtype), g.tobytes())
    if isinstance(g, list):
        return ("l", tuple(freeze(x) for x in g))
    if isinstance(g, tuple):
        return ("t", tuple(freeze(x) for x in g))
    if isinstance(g, dict):
        return ("d", tuple(sorted((repr(k), freeze(v)) for k, v in g.items())))
    if isinstance(g, float) and math.isnan(g):
        return "nan"
    if isinstance(g, np.generic):
        return (str(g.dtype), repr(g.item()))
    return (type(g).__name__, repr(g))


def freeze_fit(f):
    return None if f is None else freeze(f)


def snap(ind):
    return (id(ind), freeze(ind.genome), freeze_fit(ind.fitness), ind.uuid,
            frozenset(ind.parents), id(ind.problem), id(ind.decoder))


def snap_pop(pop):
    return [snap(i) for i in pop]


def mutable_parts(g, out=None):
    """All mutable storage reachable in a genome."""
    if out is None:
        out = []
    if isinstance(g, np.ndarray):
        out.append(g)
        if g.dtype == object:
            for x in g.ravel():
                mutable_parts(x, out)
    elif isinstance(g, (list, tuple)):
        if isinstance(g, list):
            out.append(g)
        for x in g:
            mutable_parts(x, out)
    elif isinstance(g, dict):
        out.append(g)
        for x in g.values():
            mutable_parts(x, out)
    return out


def share_storage(g1, g2):
    p1, p2 = mutable_parts(g1), mutable_parts(g2)
    for a in p1:
        for b in p2:
            if a is b:
                return True
            if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b):
                return True
    return False


def genes_equal(a, b):
    return freeze(a) == freeze(b)


# ------------------------------------------------------------------ problems
class RecordingProblem(ScalarProblem):
    """Deterministic problem that records every phenome it is asked for."""

    def __init__(self, f, maximize=True):
        super().__init__(maximize)
        self.f = f
        self.calls = []
        self.groups = []

    def evaluate(self, phenome, *args, **kwargs):
        self.calls.append(freeze(phenome))
        return self.f(phenome)

    def evaluate_multiple(self, phenomes, *args, **kwargs):
        phenomes = list(phenomes)
        self.groups.append(len(phenomes))
        return [self.evaluate(p) for p in phenomes]


def hash_fitness(phenome):
    """A fitness that (practically) identifies the phenome."""
    import hashlib
    h = hashlib.blake2b(repr(freeze(phenome)).encode(), digest_size=6).digest()
    return int.from_bytes(h, "big") / 7.0


class TagDecoder(Decoder):
    """A decoder that is not the identity and does not alias the genome."""

    def __init__(self, tag="t"):
        self.tag = tag
        self.calls = 0

    def decode(self, genome, *args, **kwargs):
        self.calls += 1
        return [self.tag, copy.deepcopy(genome)]


INDIVIDUAL_CLASSES = [Individual, RobustIndividual, WholeEvaluatedIndividual, DistributedIndividual]


def mkind(problem, fitness=None, genome=None, cls=Individual, decoder=None):
    if genome is None:
        genome = np.zeros(2)
    ind = cls(genome, decoder=decoder if decoder is not None else IdentityDecoder(), problem=problem)
    ind.fitness = fitness
    return ind


def scalar_problem(maximize):
    return FunctionProblem(lambda x: 0.0, maximize)


# ------------------------------------------------------------------ fitness
def fitness_values(rng, n, nan=0.0, kinds=("int", "float", "np", "inf", "tie", "near"), lo=-50, hi=50):
    """n fitness values, some of them very close to, but not equal to, others."""
    out = []
    for _ in range(n):
        if nan and rng.random() < nan:
            out.append(rng.choice([math.nan, float("nan"), np.float64("nan")]))
            continue
        k = rng.choice(kinds)
        if k == "int":
            out.append(rng.randint(lo, hi))
        elif k == "float":
            out.append(rng.randint(lo * 64, hi * 64) / 64.0)
        elif k == "np":
            out.append(rng.choice([np.float64, np.float32, np.int64])(rng.randint(lo, hi)))
        elif k == "inf":
            out.append(rng.choice([math.inf, -math.inf, 1e300, -1e300, 1e-300, 0.0, -0.0]))
        elif k == "tie" and out:
            out.append(rng.choice(out))
        elif k == "near" and out and type(out[-1]) in (int, float) and 0 < abs(out[-1]) < 1e4 and float(out[-1]).is_integer():
            # different by down to the last bit but one
            out.append(float(out[-1]) * (1 + rng.choice([-1, 1]) * 2.0 ** -rng.randint(7, 51)))
        else:
            out.append(float(rng.randint(lo, hi)))
    return out


def isnan(f):
    try:
        return math.isnan(f)
    except TypeError:
        return False


def rank_key(f, maximize):
    """Sort key: larger is better, NaN worst."""
    if isnan(f):
        return (0, 0.0)
    return (1, float(f) if maximize else -float(f))


# ------------------------------------------------------------------ multi-objective
class VecProblem(MultiObjectiveProblem):
    """Phenome is the fitness vector itself."""

    def __init__(self, maximize):
        super().__init__(maximize=maximize)
        self.dirs = tuple(bool(m) for m in maximize)

    def evaluate(self, phenome, *args, **kwargs):
        return np.asarray(phenome, dtype=float).copy()


def dominates(a, b, dirs):
    """a Pareto-dominates b."""
    ge, gt = True, False
    for x, y, m in zip(a, b, dirs):
        x, y = float(x), float(y)
        if not m:
            x, y = -x, -y
        if x < y:
            ge = False
        if x > y:
            gt = True
    return ge and gt


def pareto_layers(fits, dirs):
    """Layer number (from 1) of every vector, by peeling."""
    n = len(fits)
    F = np.array([[float(x) for x in f] for f in fits], dtype=float).reshape(n, len(dirs))
    F = F * np.where(np.array(dirs), 1.0, -1.0)
    dom = np.zeros((n, n), dtype=bool)
    for i in range(n):
        dom[i] = (F[i] >= F).all(1) & (F[i] > F).any(1)
    rank = np.zeros(n, dtype=int)
    left = np.ones(n, dtype=bool)
    r = 0
    while left.any():
        r += 1
        front = left & ~(dom[left].any(0))
        rank[front] = r
        left &= ~front
    return rank


def crowding(fits):
    """Crowding distances inside one layer without ties in any non-constant
    objective (then the definition leaves no freedom)."""
    n, m = len(fits), len(fits[0])
    F = np.array([[float(x) for x in f] for f in fits])
    d = np.zeros(n)
    for j in range(m):
        rng_ = F[:, j].max() - F[:, j].min()
        if rng_ == 0:
            continue
        o = np.argsort(F[:, j], kind="stable")
        d[o[0]] = d[o[-1]] = math.inf
        for k in range(1, n - 1):
            d[o[k]] += (F[o[k + 1], j] - F[o[k - 1], j]) / rng_
    return d


def tie_free(fits):
    F = np.array([[float(x) for x in f] for f in fits])
    for j in range(F.shape[1]):
        u = np.unique(F[:, j])
        if len(u) != 1 and len(u) != len(F):
            return False
    return True


def copies(pop):
    """The same individuals as other objects, as they come back from another process."""
    out = []
    for i in pop:
        c = copy.copy(i)
        c.genome = copy.deepcopy(i.genome)
        c.parents = set(i.parents)
        out.append(c)
    return out


def some_size(rng, lo, hi, big=80, p=.02):
    """Mostly a small size, now and then a large one, so that nothing that only happens beyond some size stays unseen."""
    if rng.random() >= p:
        return rng.randint(lo, hi)
    if big >= 60 and rng.random() < .08:
        return rng.randint(257, 330)            # beyond what fits a byte
    return rng.randint(big // 2, big)
