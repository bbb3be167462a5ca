"""Real dask clusters with monitored workloads.

`TraceProblem` is evaluated by the workers.  It is pickled to them, so what it
observes goes to module-level logs (thread workers) or to an append-only file
(process workers).  A *script* gives every evaluation its delay, its failure
and, when gated, the order in which evaluations may finish."""
import hashlib
import json
import logging
import os
import random
import threading
import time

import numpy as np

from leap_ec.problem import ScalarProblem
from leap_ec.multiobjective.problems import MultiObjectiveProblem

LOCK = threading.Lock()
RUNS = {}                       # run id -> list of events
_clients = {}


def quiet():
    import dask
    dask.config.set({"distributed.admin.log-length": 0, "distributed.worker.memory.target": False,
                     "distributed.worker.memory.spill": False, "distributed.worker.memory.pause": False,
                     "distributed.worker.memory.terminate": False, "distributed.diagnostics.computations.max-history": 1,
                     "distributed.worker.profile.enabled": False, "distributed.scheduler.work-stealing": True})
    for n in ("distributed", "distributed.worker", "distributed.scheduler", "distributed.nanny", "distributed.client", "distributed.core",
              "distributed.batched", "distributed.comm", "tornado", "tornado.application", "asyncio"):
        logging.getLogger(n).setLevel(logging.CRITICAL + 1)


def client(workers, threads=1, processes=False):
    key = (workers, threads, processes, os.getpid())
    c = _clients.get(key)
    if c is None:
        quiet()
        from distributed import Client
        c = Client(n_workers=workers, threads_per_worker=threads, processes=processes, dashboard_address=None,
                   set_as_default=False, memory_limit=0, protocol="tcp://" if processes else "inproc://")
        _clients[key] = c
    return c


def close_all():
    for k, c in list(_clients.items()):
        try:
            c.close(timeout=10)
            if c.cluster is not None:
                c.cluster.close(timeout=10)
        except Exception:
            pass
        _clients.pop(k, None)


def new_run(tag):
    rid = "%s-%d-%d" % (tag, os.getpid(), len(RUNS))
    with LOCK:
        RUNS[rid] = []
    return rid


def events(rid):
    with LOCK:
        return list(RUNS[rid])


def drop(rid):
    with LOCK:
        RUNS.pop(rid, None)


def key_of(phenome):
    return hashlib.blake2b(np.asarray(phenome, dtype=float).tobytes(), digest_size=8).hexdigest()


def unit(seed, key, what):
    h = hashlib.blake2b(("%s/%s/%s" % (seed, key, what)).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


class Picky(Exception):
    """Can be pickled, but not unpickled."""
    def __init__(self, what, when):
        super().__init__("%s at %s" % (what, when))


class Holding(Exception):
    """Cannot be pickled."""
    def __init__(self, what):
        super().__init__(what)
        self.lock = threading.Lock()


class Behaviour:
    """What an evaluation of a given phenome does (a pure function of the phenome)."""

    def __init__(self, rid, seed, delay=0.0, fail=0.0, levels=10 ** 6, path=None, slow_fail=False, nan=0.0):
        self.rid, self.seed, self.delay, self.fail, self.levels, self.path = rid, seed, delay, fail, levels, path
        self.slow_fail = slow_fail
        self.nan = nan                                               # share of phenomes whose value is NaN, without any failure

    def fails(self, phenome):
        return self.fails_key(key_of(phenome))

    def fails_key(self, key):
        return unit(self.seed, key, "fail") < self.fail

    def failure(self, key):
        text = "evaluation failed for %s" % key
        kinds = [RuntimeError, RuntimeError, ValueError, KeyError, lambda x: OSError(5, x), lambda x: Picky(x, 3), Holding]
        return kinds[int(unit(self.seed, key, "kind") * len(kinds))](text)

    def brings(self, key, exception):
        """Is this what a failed individual should come back with?  (An exception that cannot travel may be replaced.)"""
        e = self.failure(key)
        if isinstance(e, (Picky, Holding)):
            return isinstance(exception, Exception)
        return type(exception) is type(e) and exception.args == e.args

    def seconds(self, phenome):
        k = key_of(phenome)
        u = unit(self.seed, k, "delay")
        d = self.delay * (u if unit(self.seed, k, "slow") < .8 else 4 * u)
        return d * (3 if self.slow_fail and self.fails(phenome) else 1)

    def value(self, phenome):
        if unit(self.seed, key_of(phenome), "nan") < self.nan:
            return float("nan")
        return float(int(unit(self.seed, key_of(phenome), "value") * self.levels))

    def log(self, what, phenome):
        rec = (what, key_of(phenome), threading.get_ident(), os.getpid(), time.time())
        if self.path:
            fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
            try:
                os.write(fd, (json.dumps(rec) + "\n").encode())
            finally:
                os.close(fd)
        else:
            with LOCK:
                if self.rid in RUNS:
                    RUNS[self.rid].append(rec)

    def run(self, phenome, result):
        self.log("start", phenome)
        d = self.seconds(phenome)
        if d:
            time.sleep(d)
        self.log("end", phenome)
        if self.fails(phenome):
            raise self.failure(key_of(phenome))
        return result()


class TraceProblem(ScalarProblem):
    def __init__(self, behaviour, maximize=True):
        super().__init__(maximize)
        self.behaviour = behaviour

    def evaluate(self, phenome, *args, **kwargs):
        return self.behaviour.run(phenome, lambda: self.behaviour.value(phenome))


class TraceMulti(MultiObjectiveProblem):
    def __init__(self, behaviour, maximize):
        super().__init__(maximize=maximize)
        self.behaviour = behaviour

    def vector(self, phenome):
        b = self.behaviour
        k = key_of(phenome)
        return np.array([float(int(unit(b.seed, k, "v%d" % j) * b.levels)) for j in range(len(self.maximize))])

    def evaluate(self, phenome, *args, **kwargs):
        return self.behaviour.run(phenome, lambda: self.vector(phenome))


def read_log(path):
    out = []
    if os.path.exists(path):
        for line in open(path):
            out.append(tuple(json.loads(line)))
    return out
