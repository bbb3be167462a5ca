"""C30: seeding the random sources makes every run reproducible."""
import json
import os
import random
import subprocess
import sys
import uuid
import numpy as np
from vlib.harness import Check
from vlib import repro

CHECK = Check("C30", rule="complete traces (genomes, fitnesses, selections, written text, final state of both random sources) of seeded scenarios over all operators and "
              "algorithms, repeated after other and interrupted runs in the same process and in other processes with other hash seeds; distinct by (scenario, seed)")
NAMES = sorted(repro.SCENARIOS)


def compare(t, a, b, name, seed, where):
    for x, y in zip(a, b):
        t.check(tuple(x) == tuple(y), "a seeded run gives another result when it is repeated", scenario=name, seed=seed, first_difference=x[0], where=where)
    t.eq(len(a), len(b), "a seeded run gives another number of results when it is repeated", scenario=name, seed=seed, where=where)
    t.event("compared", len(a))


@CHECK.section(quick=700, thorough=12000, need={"compared": 3000, "interrupted": 100})
def repeats(t):
    rng = t.rng
    name = NAMES[t.index % len(NAMES)]
    seed = rng.randrange(2 ** 31)
    keep = []
    first = repro.trace(name, seed)
    for _ in range(2):
        # another history, another memory layout
        for _ in range(rng.randint(0, 2)):
            repro.trace(rng.choice(NAMES), rng.randrange(2 ** 31))
        if rng.random() < .5:
            if repro.interrupted(rng):
                t.event("interrupted")
        keep.append([object() for _ in range(rng.randint(0, 3000))])
        [uuid.uuid4() for _ in range(rng.randint(0, 20))]
        if rng.random() < .5:
            keep.clear()
        compare(t, first, repro.trace(name, seed), name, seed, "same process")
    t.sig(name, seed)
    t.sample(dict(scenario=name, seed=seed, parts=len(first)))


@CHECK.section(quick=120, thorough=1500, need={"different": 80})
def seeds(t):
    """Different seeds give different runs of the same configuration."""
    rng = t.rng
    name = NAMES[t.index % len(NAMES)]
    if name in repro.NONRANDOM:
        return
    config = rng.randrange(2 ** 31)
    runs = [repro.trace(name, rng.randrange(2 ** 31), config)[:-2] for _ in range(6)]
    labels = [x[0] for x in runs[0]]
    t.check(any(r != runs[0] for r in runs), "different seeds all give the same run", scenario=name, parts=labels)
    t.event("different")
    # the two sources matter separately: nothing is seeded from elsewhere
    t.sig(name, config)


@CHECK.section(quick=8, thorough=60, wall=200, need={"compared": 1000})
def processes(t):
    """The same scenarios in another process, in another order, with another hash seed."""
    rng = t.rng
    jobs = [(n, rng.randrange(2 ** 31)) for n in NAMES for _ in range(2)]
    mine = {(n, s): repro.trace(n, s) for n, s in jobs}
    rng.shuffle(jobs)
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 2 ** 32 - 1)), MPLBACKEND="Agg")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env["PYTHONPATH"] = os.pathsep.join([env.get("VERIF_REPO", "/repo"), here])
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["TZ"] = rng.choice(["UTC", "Asia/Tokyo"])
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        env[k] = "1"
    p = subprocess.run([sys.executable, "-m", "vlib.repro"], input=json.dumps(jobs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=t.tmp)
    t.check(p.returncode == 0, "a scenario fails in another process", error=p.stderr.decode()[-1500:])
    for (n, s), r in zip(jobs, json.loads(p.stdout)):
        compare(t, mine[n, s], r, n, s, "another process")
        t.sig(n, s)
    t.event("processes")
