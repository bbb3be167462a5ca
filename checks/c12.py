"""C12: the one-call solver returns the best point it evaluated, within bounds."""
import io
import math
import os
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from vlib import cluster
from leap_ec.simple import ea_solve

CHECK = Check("C12", boost=4, rule="the one-call solver optimises recorded functions (multimodal, plateaus, noisy hashes, failing, at the bounds) "
              "with random dimensions, bounds, directions, sizes and mutation strengths, locally and on a cluster client; the recorded calls "
              "and the written progress are the trace; distinct by (configuration, trace length, progress)")

CALLS = {}


class Fn:
    """Picklable recording function."""

    def __init__(self, rid, kind, seed, dim):
        self.rid, self.kind, self.seed, self.dim = rid, kind, seed, dim

    def value(self, x):
        x = np.asarray(x, float)
        k = self.kind
        if k == "sphere":
            return float(np.sum(x * x))
        if k == "edge":
            return float(np.sum(x))
        if k == "plateau":
            return float(np.floor(np.sum(np.abs(x))))
        if k == "int":
            return int(np.sum(np.round(x)))
        if k == "hash":
            return cluster.unit(self.seed, cluster.key_of(x), "v") * 100 - 50
        if k == "flat":                 # small differences on a large offset
            return 1e7 + cluster.unit(self.seed, cluster.key_of(x), "v") * 1e-3
        if k == "constant":
            return 4.25
        return np.float32(np.sum(np.sin(3 * x)) + 2)

    def fails(self, x):
        return self.kind == "hash" and cluster.unit(self.seed, cluster.key_of(x), "f") < (self.seed % 3) * .2

    def __call__(self, x):
        with cluster.LOCK:
            CALLS.setdefault(self.rid, []).append((np.array(x, dtype=float, copy=True), type(x).__name__))
        v = self.value(x)
        if self.fails(x):
            raise ValueError("no value here")
        return v


def one(t, client=None):
    rng = t.rng
    dim = rng.randint(1, 5)
    bounds = []
    for _ in range(dim):
        lo = rng.choice([-5.12, 0.0, -1.0, 3.0, rng.uniform(-9, 9)])
        bounds.append((lo, lo + rng.choice([.01, 1.0, 10.24, rng.uniform(.1, 20)])))
    kind = rng.choice(["sphere", "edge", "plateau", "int", "hash", "hash", "constant", "sin", "flat"])
    rid = cluster.new_run("c12")
    CALLS[rid] = []
    fn = Fn(rid, kind, rng.randint(0, 10 ** 6), dim)
    mx = rng.random() < .5
    gens = some_size(rng, 0, 6, 60) if client is None else rng.randint(1, 3)
    ps = some_size(rng, 1, 9, 60) if client is None else rng.randint(2, 6)
    hard = rng.random() < .7
    viz = client is None and t.index % 40 == 0
    stream = io.StringIO()
    kw = dict(generations=gens, pop_size=ps, stream=stream, mutation_std=rng.choice([.01, 1.0, 30.0]))
    if mx or rng.random() < .5:
        kw["maximize"] = mx
    if not hard or rng.random() < .5:
        kw["hard_bounds"] = hard
    if client is not None:
        kw["dask_client"] = client
    if viz:
        kw["viz"] = True
    d = dict(kind=kind, dim=dim, bounds=bounds, hard=hard, maximize=mx, gens=gens, pop=ps, cluster=client is not None)
    best = ea_solve(fn, bounds, **kw)
    calls = CALLS.pop(rid)
    cluster.drop(rid)
    t.eq(len(calls), ps * (1 + gens), "the function was evaluated a wrong number of times", **d)
    for x, ty in calls:
        t.check(x.shape == (dim,), "the function was evaluated at a point of a wrong dimension", point=x, **d)
        if hard:
            t.check(all(lo <= v <= hi for v, (lo, hi) in zip(x, bounds)), "the function was evaluated outside the bounds", point=x, **d)
    t.event("evaluations", len(calls))
    keys = [rank_key(math.nan if fn.fails(x) else fn.value(x), mx) for x, _ in calls]
    top = max(keys)
    t.check(np.asarray(best).shape == (dim,), "the solver returned a point of a wrong dimension", got=best, **d)
    bk = rank_key(math.nan if fn.fails(best) else fn.value(best), mx)
    t.check(bk == top, "the solver did not return the best point it evaluated", got=best, value=repr(bk), best=repr(top), **d)
    t.check(any(np.array_equal(x, best) for x, _ in calls), "the solver returned a point it never evaluated", got=best, **d)
    lines = stream.getvalue().split()
    t.eq(lines[:1], ["step,bsf"], "the progress has no header", **d)
    t.eq(len(lines) - 1, gens, "the progress is not one line per generation", lines=lines, **d)
    if client is None:
        running, prev = None, None
        for g in range(gens):
            step, b = lines[1 + g].split(",")
            t.check(int(step) == g, "progress line with a wrong generation", lines=lines, **d)
            for k in keys[ps * (1 + g):ps * (2 + g)]:
                running = k if running is None or k > running else running
            got = rank_key(float(b), mx)
            t.check(got[0] == running[0] and math.isclose(got[1], running[1], rel_tol=1e-14 if kind == "flat" else 1e-6), "best-so-far is not the best offspring fitness seen",
                    generation=g, written=b, expected=repr(running), **d)
            t.event("progress_lines")
    else:
        ks = [rank_key(float(l.split(",")[1]), mx) for l in lines[1:]]
        t.check(all(a <= b for a, b in zip(ks, ks[1:])), "best-so-far got worse", lines=lines, **d)
        # evaluations of one generation finish before the next begins
        running = None
        for g in range(gens):
            for k in keys[ps * (1 + g):ps * (2 + g)]:
                running = k if running is None or k > running else running
            t.check(ks[g][0] == running[0] and math.isclose(ks[g][1], running[1], rel_tol=1e-6),
                    "best-so-far is not the best offspring fitness seen (cluster)", generation=g, lines=lines, **d)
            t.event("progress_lines")
    t.sig(kind, dim, hard, mx, gens, ps, client is not None, repr(lines)[:80])
    t.sample(dict(d, progress=lines, returned=best))


@CHECK.section(quick=700, thorough=12000, need={"evaluations": 5000, "progress_lines": 1000})
def local(t):
    one(t)


@CHECK.section(quick=12, thorough=150, serial=True, wall=200, need={"evaluations": 50})
def on_cluster(t):
    one(t, cluster.client(t.rng.choice([1, 3])))
