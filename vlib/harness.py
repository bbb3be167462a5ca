"""Runtime-monitoring harness.

A check is a set of *sections*.  A section is a workload generator together
with its oracle; it is executed for a number of *trials*.  Every trial gets a
`T` object carrying its own random sources (derived from VERIF_SEED, the
section and the trial index, so a trial replays alone) and the recording API:

    t.check(cond, msg, **data)   oracle decision (counted)
    t.event(kind, n)             something the monitors observed (counted)
    t.sig(...)                   signature of what was observed; distinct
                                 signatures are counted as distinct_nontrivial
    t.sample(obj)                a case written out for the evidence file

Verdicts are three-valued: violated (exit 1), held on what was observed
(exit 0), inconclusive (exit 2: a monitor that has to be reached was not).
"""
import collections
import hashlib
import json
import math
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ALPHA = 1e-10           # per-test false alarm probability of statistical oracles


class Violation(Exception):
    def __init__(self, msg, key=None, data=None):
        super().__init__(msg)
        self.msg, self.key, self.data = msg, key, data


class Watchdog(BaseException):
    """CPU or wall clock limit of one trial reached (BaseException so that
    code under test which catches Exception does not swallow it)."""


class Inconclusive(Exception):
    pass


def _seed(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    if isinstance(o, float):
        return o if math.isfinite(o) else repr(o)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth + 1)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    return repr(o)[:300]


class T:
    """One trial."""

    def __init__(self, check, section, index, seed, tier):
        self.check_obj, self.section, self.index = check, section, index
        self.seed, self.tier = seed, tier
        s = _seed(seed, check.pid, section.name, index)
        self.rng = random.Random(s)
        self.np = np.random.default_rng(s)
        self.s = s
        self.events = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.nchecks = 0
        self._tmp = None

    # ---- recording
    def event(self, kind, n=1):
        self.events[kind] += n

    def sig(self, *parts):
        self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # ---- oracles
    def check(self, cond, msg, key=None, **data):
        self.nchecks += 1
        if not cond:
            raise Violation(msg, key, data)

    def eq(self, a, b, msg, key=None, **data):
        self.nchecks += 1
        if not a == b:
            raise Violation(msg, key, dict(data, got=a, expected=b))

    def close(self, a, b, msg, rtol=1e-9, atol=1e-12, key=None, **data):
        self.nchecks += 1
        a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a_.shape != b_.shape or not np.allclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True):
            raise Violation(msg, key, dict(data, got=a, expected=b))

    def raises(self, exc, fn, msg, key=None, **data):
        self.nchecks += 1
        try:
            r = fn()
        except exc as e:
            return e
        raise Violation(msg, key, dict(data, returned=r))

    # ---- statistical oracles (p-value threshold ALPHA)
    def binom(self, k, n, p, msg, **data):
        from scipy.stats import binom
        self.nchecks += 1
        k = int(k)
        lo, hi = binom.cdf(k, n, p), binom.sf(k - 1, n, p)
        if min(lo, hi) < ALPHA / 2:
            raise Violation(msg, None, dict(data, successes=k, trials=n, expected_p=p))

    def chisq(self, counts, probs, msg, **data):
        """Goodness of fit; rare cells are pooled."""
        from scipy.stats import chi2
        self.nchecks += 1
        counts = np.asarray(counts, float)
        probs = np.asarray(probs, float)
        n = counts.sum()
        if np.any((probs <= 0) & (counts > 0)):
            raise Violation(msg + " (impossible outcome observed)", None,
                            dict(data, counts=counts, probs=probs))
        e = probs * n
        order = np.argsort(e)
        c2, e2, ac, ae = [], [], 0.0, 0.0
        for i in order:
            ac += counts[i]
            ae += e[i]
            if ae >= 25:
                c2.append(ac)
                e2.append(ae)
                ac = ae = 0.0
        if ae > 0:
            if not e2:
                return
            c2[-1] += ac
            e2[-1] += ae
        if len(c2) < 2:
            return
        c2, e2 = np.array(c2), np.array(e2)
        x = float(((c2 - e2) ** 2 / e2).sum())
        p = chi2.sf(x, len(c2) - 1)
        # the chi-square approximation is a little heavy in the far tail, so
        # the threshold is lower than for exact tests
        if p < 1e-11:
            raise Violation(msg, None, dict(data, counts=counts, probs=probs, chi2=x, p=p))

    def mean(self, xs, mu, sd, msg, z=7.0, **data):
        """Sample mean vs. known mean and (per observation) sd."""
        self.nchecks += 1
        xs = np.asarray(xs, float)
        m = xs.mean()
        tol = z * sd / math.sqrt(len(xs)) + 1e-12
        if not abs(m - mu) <= tol:
            raise Violation(msg, None, dict(data, mean=m, expected=mu, tolerance=tol, n=len(xs)))

    def sd(self, xs, sd, msg, kurt=3.0, z=7.0, **data):
        """Sample standard deviation vs. known one (kurtosis gives its error)."""
        self.nchecks += 1
        xs = np.asarray(xs, float)
        v = ((xs - xs.mean()) ** 2).mean()
        tol = z * sd * sd * math.sqrt((kurt - 1.0) / len(xs)) * 1.1 + 1e-12
        if not abs(v - sd * sd) <= tol + 3 * sd * sd / len(xs):
            raise Violation(msg, None, dict(data, var=v, expected=sd * sd, tolerance=tol, n=len(xs)))

    def ks(self, xs, cdf, msg, **data):
        from scipy.stats import kstest
        self.nchecks += 1
        r = kstest(np.asarray(xs, float), cdf)
        if r.pvalue < ALPHA:
            raise Violation(msg, None, dict(data, ks=r.statistic, p=r.pvalue, n=len(xs)))

    # ---- scratch
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="verif-" + self.check_obj.pid + "-")
        return self._tmp

    def cleanup(self):
        if self._tmp is not None and os.path.basename(self._tmp).startswith("verif-"):
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


class Section:
    def __init__(self, name, fn, quick, thorough, serial, need, cpu, wall):
        self.name, self.fn = name, fn
        self.quick, self.thorough = quick, thorough
        self.serial, self.need = serial, need or {}
        self.cpu, self.wall = cpu, wall


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=(), boost=1):
        self.boost = boost          # how many times the quick numbers of trials this check affords
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.sections = []

    def section(self, name=None, quick=100, thorough=2000, serial=False, need=None,
                cpu=120, wall=None):
        def deco(fn):
            self.sections.append(Section(name or fn.__name__, fn, quick, thorough,
                                         serial, need, cpu, wall))
            return fn
        return deco


def reset_context():
    from leap_ec.global_vars import context
    context.clear()
    context['leap'] = {'distrib': {'non_viable': 0}}
    return context


def run_trial(check, section, index, seed, tier):
    """Returns (t, violation dict or None, inconclusive str or None)."""
    t = T(check, section, index, seed, tier)
    random.seed(t.s & 0xffffffff)
    np.random.seed((t.s >> 32) & 0xffffffff)
    ctx = reset_context()
    viol = inc = None

    def fire(signum, frame):
        raise Watchdog("cpu" if signum == signal.SIGPROF else "wall")

    olds = [(s, signal.signal(s, fire)) for s in (signal.SIGPROF, signal.SIGALRM)]
    signal.setitimer(signal.ITIMER_PROF, section.cpu)
    if section.wall:
        signal.setitimer(signal.ITIMER_REAL, section.wall)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                section.fn(t)
    except Violation as v:
        viol = dict(message=v.msg, key=v.key, data=jsonable(v.data), traceback=traceback.format_exc())
    except Inconclusive as e:
        inc = str(e)
    except Watchdog as e:
        kind = str(e)
        viol = dict(message="the code under test does not come to an end (%s limit of one trial, %s s)"
                    % (kind, section.cpu if kind == "cpu" else section.wall),
                    key="hang:" + section.name, data=None, traceback=traceback.format_exc())
    except Exception as e:  # the code under test failed on a legal workload
        viol = dict(message="unexpected %s on a legal workload: %s" % (type(e).__name__, str(e)[:300]),
                    key=None, data=None, traceback=traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        for s, o in olds:
            signal.signal(s, o)
        t.cleanup()
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass
    if viol:
        viol.update(property=check.pid, section=section.name, index=index, seed=seed, tier=tier)
        if not viol.get("key"):
            viol["key"] = section.name + ": " + viol["message"]
    return t, viol, inc


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    except Exception:
        pass


_CHECK = None


def _run_chunk(args):
    si, lo, hi, seed, tier, deadline = args
    check = _CHECK
    section = check.sections[si]
    out = dict(si=si, trials=0, skipped=0, checks=0, events=collections.Counter(), sigs=set(),
               samples=[], viol=None, inc=[], cpu=0.0)
    c0 = time.process_time()
    for i in range(lo, hi):
        if time.time() > deadline:
            out["skipped"] += hi - i
            break
        t, viol, inc = run_trial(check, section, i, seed, tier)
        out["trials"] += 1
        out["checks"] += t.nchecks
        out["events"].update(t.events)
        if len(out["sigs"]) < 200000:
            out["sigs"] |= t.sigs
        if len(out["samples"]) < 1:
            out["samples"] += [jsonable(s) for s in t.samples]
        if inc:
            out["inc"].append(inc)
        if viol:
            out["viol"] = viol
            break
    out["cpu"] = time.process_time() - c0
    return out


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                known[key.strip()[4:] if key.startswith("key=") else key.strip()] = what
    return known


def main(check, argv, out):
    """out: file object of the real stdout."""
    global _CHECK
    _CHECK = check
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import leap_ec
    if not os.path.abspath(leap_ec.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("error: leap_ec imported from", leap_ec.__file__, file=out)
        return 3
    only = None
    if "--section" in argv:
        only = set(argv[argv.index("--section") + 1].split(","))
    if "--replay" in argv:
        rec = json.load(open(argv[argv.index("--replay") + 1]))
        section = [s for s in check.sections if s.name == rec["section"]][0]
        t, viol, inc = run_trial(check, section, rec["index"], rec["seed"], rec["tier"])
        print("replay %s/%s trial %d: %s" % (check.pid, section.name, rec["index"],
              viol["message"] if viol else "no violation"), file=out)
        if viol:
            print(json.dumps(viol["data"], indent=1), file=out)
            print(viol["traceback"], file=out)
            return 1
        return 0
    jobs = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    budget = float(os.environ.get("VERIF_BUDGET", "200" if tier == "quick" else "780"))
    deadline = t0 + budget
    chunks, serial = [], []
    for si, s in enumerate(check.sections):
        if only and s.name not in only:
            continue
        n = (s.quick * (1 if s.serial else check.boost)) if tier == "quick" else s.thorough
        n = max(1, int(round(n * float(os.environ.get("VERIF_SCALE", "1")))))
        if s.serial:
            serial.append((si, 0, n, seed, tier, deadline))
            continue
        parts = min(n, 2 * jobs if tier == "quick" else 8 * jobs)
        cuts = [n * k // parts for k in range(parts + 1)]
        chunks += [(si, cuts[k], cuts[k + 1], seed, tier, deadline) for k in range(parts)]
    # interleave sections so that a soft deadline thins every section
    chunks.sort(key=lambda c: (c[1] / max(1, (check.sections[c[0]].quick if tier == "quick"
                                               else check.sections[c[0]].thorough))))
    results = []
    dead = 0
    if chunks:
        import concurrent.futures as cf
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        pending = chunks
        for attempt in range(2):
            if not pending:
                break
            failed = []
            with cf.ProcessPoolExecutor(max_workers=jobs, mp_context=ctx, initializer=_limits) as ex:
                futs = [(ex.submit(_run_chunk, c), c) for c in pending]
                for f, c in futs:
                    try:
                        results.append(f.result())
                    except cf.process.BrokenProcessPool:
                        failed.append(c)
            if failed and attempt == 1:
                dead = len(failed)
            pending = failed
    for c in serial:
        results.append(_run_chunk(c))

    per = {}
    for r in results:
        s = check.sections[r["si"]]
        d = per.setdefault(s.name, dict(trials=0, skipped=0, checks=0, events=collections.Counter(),
                                        sigs=set(), samples=[], viol=[], inc=[], cpu=0.0))
        for k in ("trials", "skipped", "checks", "cpu"):
            d[k] += r[k]
        d["events"].update(r["events"])
        d["sigs"] |= r["sigs"]
        d["inc"] += r["inc"]
        if len(d["samples"]) < 1:
            d["samples"] += r["samples"]
        if r["viol"]:
            d["viol"].append(r["viol"])

    known = load_known(check.pid)
    violations, seen_known, problems = [], {}, []
    for name, d in per.items():
        d["viol"].sort(key=lambda v: v["index"])
        new = []
        for v in d["viol"]:
            if v["key"] in known:
                seen_known[v["key"]] = known[v["key"]]
            else:
                new.append(v)
        if new:
            violations.append(new[0])
        sec = [s for s in check.sections if s.name == name][0]
        if not d["viol"]:
            for kind, n in sec.need.items():
                if d["events"][kind] < n:
                    problems.append("%s: observed %d %s events, need %d" % (name, d["events"][kind], kind, n))
            if d["checks"] == 0:
                problems.append("%s: no oracle decision was made" % name)
            if d["inc"] and len(d["inc"]) > d["trials"] / 2:
                problems.append("%s: %s" % (name, d["inc"][0]))
    if dead:
        problems.append("%d work chunks lost: worker processes died" % dead)

    evaluations = sum(d["trials"] for d in per.values())
    distinct = sum(len(d["sigs"]) for d in per.values())
    ev = dict(property=check.pid, tier=tier, seed=seed, level=check.level,
              coverage=dict(
                  evaluations=evaluations, distinct_nontrivial=distinct, rule=check.rule,
                  oracle_decisions=sum(d["checks"] for d in per.values()),
                  sections={n: dict(trials=d["trials"], skipped=d["skipped"], oracle_decisions=d["checks"],
                                    distinct=len(d["sigs"]), events=dict(d["events"]),
                                    cpu_s=round(d["cpu"], 2), inconclusive_trials=len(d["inc"]))
                            for n, d in per.items()},
                  samples=[dict(section=n, case=s) for n, d in per.items() for s in d["samples"][:1]] or ["none"]),
              assumptions=check.assumptions, wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    tmpf = os.path.join(evdir, ".%s.tmp" % check.pid)
    with open(tmpf, "w") as f:
        json.dump(jsonable_deep(ev), f, indent=1)
    os.replace(tmpf, os.path.join(evdir, check.pid + ".json"))

    for key, what in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (check.pid, what), file=out)
    for v in violations:
        path = os.path.join(evdir, "replay", "%s-%s.json" % (check.pid, v["section"]))
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=repr)
        print("  [%s trial %d] %s" % (v["section"], v["index"], v["message"]), file=out)
        if v["data"]:
            print("    " + json.dumps(v["data"])[:600], file=out)
        print("VIOLATION property=%s replay=%s" % (check.pid, path), file=out)
    if os.environ.get("VERIF_VERBOSE"):
        for n, d in per.items():
            print("  %-28s trials=%d skipped=%d checks=%d distinct=%d cpu=%.1fs events=%s" % (
                n, d["trials"], d["skipped"], d["checks"], len(d["sigs"]), d["cpu"], dict(d["events"])), file=out)
    print("%s %s seed=%d: %d trials, %d oracle decisions, %d distinct, %.1f s%s" % (
        check.pid, tier, seed, evaluations, ev["coverage"]["oracle_decisions"], distinct,
        time.time() - t0, ", %d violation(s)" % len(violations) if violations else ""), file=out)
    if violations:
        return 1
    if problems:
        for p in problems:
            print("INCONCLUSIVE: " + p, file=out)
        return 2
    return 0


def jsonable_deep(o):
    if isinstance(o, dict):
        return {str(k): jsonable_deep(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable_deep(v) for v in o]
    return jsonable(o)
