"""C29: problem adapters deliver the wrapped evaluation faithfully."""
import gc
import math
import os
import stat
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec import ops
from leap_ec.global_vars import context as LEAP
from leap_ec.individual import Individual, WholeEvaluatedIndividual
from leap_ec.problem import (Problem, ScalarProblem, FunctionProblem, ConstantProblem, ExternalProcessProblem, AverageFitnessProblem, AlternatingProblem)
from leap_ec.multiobjective.problems import MultiObjectiveProblem

CHECK = Check("C29", boost=4, rule="instrumented problems and scratch processes record every call and byte they get from the adapter under random batches, schedules and failures; "
              "distinct by (adapter, configuration, batch)")


class Recorder(ScalarProblem):
    """Answers each evaluation with the next number of a script and records it."""

    def __init__(self, script, maximize=True, tag=None):
        super().__init__(maximize)
        self.script, self.log, self.batches, self.tag, self.compared = list(script), [], [], tag, []

    def evaluate(self, phenome, *args, **kwargs):
        self.log.append(freeze(phenome))
        return self.script[(len(self.log) - 1) % len(self.script)]

    def worse_than(self, a, b):
        self.compared.append(("w", a, b))
        return super().worse_than(a, b)

    def equivalent(self, a, b):
        self.compared.append(("e", a, b))
        return super().equivalent(a, b)


class GroupRecorder(Recorder):
    """Has a group evaluation of its own."""

    def evaluate_multiple(self, phenomes, individuals=None):
        phenomes = list(phenomes)
        self.batches.append((len(phenomes), None if individuals is None else list(individuals)))
        return [Recorder.evaluate(self, p) for p in phenomes]


def phenome(rng):
    d = rng.randint(1, 4)
    k = rng.choice(["f", "i", "l", "s"])
    if k == "f":
        return np.array([rng.gauss(0, 3) for _ in range(d)])
    if k == "i":
        return np.array([rng.randint(-5, 5) for _ in range(d)])
    if k == "l":
        return [rng.uniform(-1, 1) for _ in range(d)]
    return "abc"[:d]


@CHECK.section(quick=4000, thorough=60000, need={"single": 4000, "group": 3000})
def average(t):
    rng = t.rng
    nn = rng.choice([1, 1, 2, 3, 5, 10])
    script = [rng.choice([rng.gauss(0, 10), float(rng.randint(-5, 5))]) for _ in range(rng.choice([1, 3, 200]))]
    cls = rng.choice([Recorder, GroupRecorder])
    w = cls(script, maximize=rng.random() < .5)
    p = AverageFitnessProblem(w, nn)
    pos = 0
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .5:
            x = phenome(rng)
            f0 = freeze(x)
            w.log.clear()
            w.script = script[pos % len(script):] + script[:pos % len(script)]
            v = p.evaluate(x)
            t.eq(w.log, [f0] * nn, "the averaging problem does not evaluate the phenome exactly n times", n_=nn)
            t.close(float(v), math.fsum(w.script[i % len(script)] for i in range(nn)) / nn, "the averaging problem does not return the mean", rtol=1e-9,
                    atol=1e-9, n_=nn)
            pos += nn
            t.event("single")
        else:
            xs = [phenome(rng) for _ in range(rng.choice([0, 1, 2, 5, 8]))]
            fz = [freeze(x) for x in xs]
            w.log.clear()
            w.batches.clear()
            w.script = script[pos % len(script):] + script[:pos % len(script)]
            inds = None
            if cls is GroupRecorder and rng.random() < .5:
                inds = [Individual(x) for x in xs]
                v = p.evaluate_multiple(xs, individuals=inds)
            else:
                v = p.evaluate_multiple(xs)
            t.eq(len(v), len(xs), "the averaging problem returns a wrong number of fitnesses")
            # the samples of one phenome, wherever they come in the sequence of evaluations
            if len(set(fz)) == len(fz):
                got = {}
                for i, f in enumerate(w.log):
                    got.setdefault(f, []).append(w.script[i % len(script)])
                for f, m in zip(fz, v):
                    t.eq(len(got.get(f, ())), nn, "the averaging problem does not evaluate each phenome of a group exactly n times", n_=nn)
                    t.close(float(m), math.fsum(got[f]) / nn, "a phenome of a group does not get the mean of its own evaluations", rtol=1e-9, atol=1e-9,
                            n_=nn, size=len(xs))
            t.eq(len(w.log), nn * len(xs), "the averaging problem evaluates a wrong number of times", n_=nn, size=len(xs))
            if inds is not None:
                seen = [i for _, b in w.batches for i in (b or [])]
                t.check(sorted(map(id, seen)) == sorted(id(i) for i in inds for _ in range(nn)), "individuals are not passed along with their phenomes", n_=nn)
                t.check([freeze(i.genome) for i in seen] == w.log, "individuals are passed along with another individual's phenome", n_=nn, size=len(xs))
            pos += nn * len(xs)
            t.event("group")
            t.sig("group", nn, len(xs), cls.__name__, tuple(fz))
    a, b = rng.gauss(0, 1), rng.choice([0.0, rng.gauss(0, 1)])
    t.eq(bool(p.worse_than(a, b)), a < b if w.maximize else a > b, "the averaging problem compares differently from the wrapped problem")
    t.eq(bool(p.equivalent(a, b)), a == b, "the averaging problem compares differently from the wrapped problem")
    t.check(bool(p.equivalent(a, a)), "the averaging problem compares differently from the wrapped problem")
    for bad in (lambda: AverageFitnessProblem(w, 0), lambda: AverageFitnessProblem(w, -1), lambda: AverageFitnessProblem(None, 3)):
        t.raises(Exception, bad, "an averaging problem without evaluations is accepted")
    t.sig("single", nn, tuple(script[:3]))


@CHECK.section(quick=400, thorough=5000)
def average_population(t):
    """Through individuals, and the operators that evaluate one by one or in groups."""
    rng = t.rng
    nn, size = rng.choice([1, 2, 4]), rng.randint(1, 6)
    calls = []

    def noisy(x, **kw):
        v = float(x[0]) + rng.gauss(0, 1)
        calls.append((float(x[0]), v))
        return v
    p = AverageFitnessProblem(FunctionProblem(noisy, maximize=True), nn)
    pop = [Individual(np.array([float(i * 10)]), problem=p, decoder=IdentityDecoder()) for i in range(size)]
    if rng.random() < .5:
        out = ops.pool(ops.evaluate(iter(pop)), size=len(pop))
    else:
        out = list(ops.grouped_evaluate(pop, max_individuals_per_chunk=rng.choice([1, 2, 10])))
    t.eq([id(i) for i in out], [id(i) for i in pop], "evaluation changes the individuals")
    for ind in out:
        mine = [v for x, v in calls if x == ind.genome[0]]
        t.eq(len(mine), nn, "an individual's phenome is not evaluated exactly n times")
        t.close(float(ind.fitness), math.fsum(mine) / nn, "an individual does not get the mean of its evaluations", rtol=1e-9, atol=1e-9)
    t.sig(nn, size, len(calls))
    # each objective is averaged for itself
    class MO(MultiObjectiveProblem):
        def __init__(self):
            super().__init__((True, False))
            self.given = []

        def evaluate(self, phenome, *a, **k):
            f = np.array([rng.gauss(0, 1), rng.gauss(100, 1)])
            self.given.append(f.copy())
            return f
    w = MO()
    q = AverageFitnessProblem(w, nn)
    v = np.asarray(q.evaluate([1, 2]))
    t.check(v.shape == (2,) and np.allclose(v, np.mean(w.given, axis=0)), "objectives are not averaged separately", got=v)
    w.given.clear()
    v = np.asarray(q.evaluate_multiple([[1], [2]]))
    t.check(v.shape == (2, 2) and np.allclose(v, [np.mean(w.given[:nn], axis=0), np.mean(w.given[nn:], axis=0)]) , "objectives are not averaged separately")


@CHECK.section(quick=3000, thorough=40000, need={"switch": 2000})
def alternating(t):
    rng = t.rng
    k, mod = rng.randint(1, 4), rng.choice([1, 1, 2, 3, 5, 7])
    own = rng.random() < .5
    ctx = {"leap": {"generation": 0}} if own else LEAP
    subs = [Recorder([float(100 + i)], maximize=rng.random() < .5, tag=i) for i in range(k)]
    problems = tuple(subs) if rng.random() < .3 else list(subs)
    p = AlternatingProblem(problems, mod, **(dict(context=ctx) if own else {}))
    before = LEAP["leap"].get("generation")
    had = "generation" in LEAP["leap"]
    last = None
    try:
        gen = rng.choice([0, 0, 0, 1, 999, 10 ** 6, 10 ** 12])
        for _ in range(rng.randint(3, 14)):
            ctx["leap"]["generation"] = gen
            cur = (gen // mod) % k
            if last is not None and cur != last:
                t.event("switch")
            last = cur
            for s in subs:
                s.log.clear()
                s.compared.clear()
            todo = ["evaluate", "worse", "equal", "many"]
            rng.shuffle(todo)
            for what in todo[:rng.randint(1, 4)]:
                if what == "evaluate":
                    x = [rng.gauss(0, 1)]
                    t.eq(p.evaluate(x), 100.0 + cur, "the alternating problem evaluates with another problem than the scheduled one", generation=gen, modulo=mod, size=k)
                elif what == "many":
                    xs = [[rng.gauss(0, 1)] for _ in range(3)]
                    t.eq(list(p.evaluate_multiple(xs)), [100.0 + cur] * 3, "the alternating problem evaluates a group with another problem than the scheduled one",
                         generation=gen, modulo=mod, size=k)
                elif what == "worse":
                    a, b = float(rng.randint(0, 2)), float(rng.randint(0, 2))
                    t.eq(bool(p.worse_than(a, b)), (a < b) if subs[cur].maximize else (a > b), "the alternating problem compares with another problem than the scheduled one",
                         generation=gen, modulo=mod, size=k)
                else:
                    a, b = float(rng.randint(0, 1)), float(rng.randint(0, 1))
                    t.eq(bool(p.equivalent(a, b)), a == b, "the alternating problem compares with another problem than the scheduled one", generation=gen)
            for i, s in enumerate(subs):
                t.check(i == cur or not (s.log or s.compared), "a problem that is not scheduled is used", generation=gen, modulo=mod, used=i, scheduled=cur)
            t.check(p.get_current_problem() is subs[cur], "the current problem is not the scheduled one", generation=gen, modulo=mod)
            gen = rng.choice([gen + 1, gen + 1, gen + 1, gen + mod, 0, rng.randint(0, 40)])
        t.eq(len(p.problems), k, "the list of problems changes")
    finally:
        if had:
            LEAP["leap"]["generation"] = before
        else:
            LEAP["leap"].pop("generation", None)
    for bad in (lambda: AlternatingProblem([], 1), lambda: AlternatingProblem(subs, 0)):
        t.raises(Exception, bad, "an impossible schedule is accepted")
    t.sig(k, mod, own, last)


@CHECK.section(quick=1500, thorough=15000)
def functions(t):
    rng = t.rng
    got = []
    val = rng.choice([rng.gauss(0, 1), 3, True, np.float64(1.5), float("inf")])

    def f(x, *args, **kwargs):
        got.append((x, args, kwargs))
        return val
    mx = rng.random() < .5
    p = FunctionProblem(f, mx) if rng.random() < .5 else FunctionProblem(fitness_function=f, maximize=mx)
    x = phenome(rng)
    t.check(p.evaluate(x) is val and len(got) == 1 and got[0][0] is x, "a function problem does not return its function's value")
    y = object()
    p.evaluate(x, 1, individual=y)
    t.check(got[-1][1] == (1,) and got[-1][2] == {"individual": y}, "a function problem does not pass its arguments along", got=str(got[-1]))
    ind = WholeEvaluatedIndividual([1, 2], decoder=IdentityDecoder(), problem=p)
    ind.evaluate()
    t.check(got[-1][2].get("individual") is ind and ind.fitness is val, "a whole-evaluated individual is not passed to the function")
    got.clear()
    xs = [phenome(rng) for _ in range(rng.randint(0, 4))]
    t.check(list(p.evaluate_multiple(xs)) == [val] * len(xs) and [id(g[0]) for g in got] == [id(x) for x in xs], "a group is not evaluated one by one, in order")
    t.eq(bool(p.maximize), mx, "a function problem has a wrong direction")
    t.eq((bool(p.worse_than(1, 2)), bool(p.worse_than(2, 1)), bool(p.worse_than(2, 2))), (mx, not mx, False), "a function problem compares against its direction")
    c = rng.choice([1.0, -2, 0.0, rng.gauss(0, 1)])
    q = ConstantProblem(mx, c)
    t.check(q.evaluate(phenome(rng)) == c and q.evaluate(None) == c and list(q.evaluate_multiple([1, 2])) == [c, c], "a constant problem does not return its constant")
    t.check(ConstantProblem().evaluate([0]) == 1.0 and not ConstantProblem().maximize and bool(q.maximize) == mx, "a constant problem has wrong defaults")
    t.sig(str(val), mx, c, len(xs))

    def boom(x):
        raise KeyError("boom")
    t.raises(KeyError, lambda: FunctionProblem(boom, True).evaluate(x), "a function's exception does not reach the caller")


# ------------------------------------------------------------------ external processes
SCRIPT = """#!/bin/sh
# args: input-log output-file exit-code mode
case "$4" in
  late) cat > "$1"; cat "$2";;
  early) cat "$2"; cat > "$1";;
  noisy) head -c 200000 /dev/zero >&2; cat > "$1"; cat "$2"; echo problems >&2;;
  deaf) cat "$2";;
esac
if [ "$3" = kill ]; then kill -9 $$; fi
exit "$3"
"""


def script(t):
    path = os.path.join(t.tmp, "sim.sh")
    if not os.path.exists(path):
        with open(path, "w") as f:
            f.write(SCRIPT)
        os.chmod(path, stat.S_IRWXU)
    return path


def held():
    """File descriptors open and child processes not yet waited for."""
    fds = len(os.listdir("/proc/self/fd"))
    me, kids = os.getpid(), 0
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open("/proc/%s/stat" % name) as f:
                    kids += int(f.read().rpartition(")")[2].split()[1]) == me
            except (OSError, ValueError, IndexError):
                pass
    return fds, kids


def tokens(data):
    """Lines as the process saw them (final newline optional)."""
    s = data.decode()
    if s.endswith("\n"):
        s = s[:-1]
    return [line.split(",") for line in s.split("\n")]


@CHECK.section(quick=450, thorough=8000, need={"delivered": 120, "failure": 120})
def external(t):
    rng = t.rng
    path = script(t)
    if t.index % 40 == 0:
        size, d = rng.choice([3000, 20000]), 3         # far more than a pipe holds, both ways
    else:
        size, d = rng.choice([1, 1, 2, 3, 7, 20]), rng.randint(1, 5)
    kind = rng.choice(["float", "int", "np", "bits", "str"])
    mk = {"float": lambda: [rng.gauss(0, 1) for _ in range(d)], "int": lambda: [rng.randint(-9, 9) for _ in range(d)],
          "np": lambda: np.array([rng.gauss(0, 1e-3) for _ in range(d)]), "bits": lambda: np.array([rng.randint(0, 1) for _ in range(d)]),
          "str": lambda: [rng.choice(["a", "b", "cc"]) for _ in range(d)]}[kind]
    xs = [mk() for _ in range(size)]
    values = [rng.choice([rng.gauss(0, 10), float(rng.randint(-3, 3)), 1e-300, 1e300, 0.0]) for _ in range(size)]
    fault = rng.choice(["none"] * 5 + ["code", "kill", "few", "many", "many_open", "none_at_all", "garbage", "blank"])
    lines = [repr(v) for v in values]
    if fault == "few":
        lines = lines[:-1]
    elif fault in ("many", "many_open"):
        lines = lines + [rng.choice(["0.5", lines[-1]])]
    elif fault == "none_at_all":
        lines = []
    elif fault == "garbage":
        lines[rng.randrange(len(lines))] = rng.choice(["error", "1.0 2.0", "1,2"])
    elif fault == "blank":
        lines.insert(rng.randrange(len(lines) + 1), "")
    text = "".join(s + "\n" for s in lines)
    if fault == "many_open":
        text = text[:-1]
    outp, inp = os.path.join(t.tmp, "out"), os.path.join(t.tmp, "in")
    with open(outp, "w") as f:
        f.write(text)
    if os.path.exists(inp):
        os.unlink(inp)
    mode = rng.choice(["late", "late", "early", "noisy"])
    code = {"code": str(rng.choice([1, 2, 77, 255])), "kill": "kill"}.get(fault, "0")
    args = [inp, outp, code, mode]
    mx = rng.random() < .5
    p = ExternalProcessProblem(path, mx, list(args)) if rng.random() < .5 else ExternalProcessProblem(command=path, maximize=mx, args=args)
    t.eq(bool(p.maximize), mx, "the external problem has a wrong direction")
    if rng.random() < .3:
        args.append("later")         # the caller's list is the caller's
    before = held()
    run = (lambda: p.evaluate_multiple(xs)) if size > 1 or rng.random() < .5 else (lambda: [p.evaluate(xs[0])])
    if fault == "none":
        got = run()
        t.eq([float(v) for v in got], values, "the external process's numbers do not come back in order", size=size, mode=mode)
        t.event("delivered", 1)
    else:
        exc = RuntimeError if fault in ("code", "kill", "few", "many", "many_open", "none_at_all") else Exception
        t.raises(exc, run, "a failing external process yields fitnesses", fault=fault, size=size, output=text[:200])
        t.event("failure")
    after = held()
    if after[0] > before[0] or after[1] > before[1]:
        gc.collect()         # what is only waiting to be collected is no leak
        after = held()
    t.check(after[0] <= before[0] and after[1] <= before[1], "evaluating leaves file descriptors or processes behind", before=before, after=after, fault=fault)
    t.event("resources", 1)
    if fault == "none" or fault in ("code",):
        with open(inp, "rb") as f:
            data = f.read()
        rows = tokens(data)
        t.eq(len(rows), size, "the external process does not get one line per phenome", data=str(data[:200]))
        for x, row in zip(xs, rows):
            if kind == "str":
                ok = row == x
            else:
                ok = len(row) == len(x) and all(float(a) == float(b) for a, b in zip(row, x))
            t.check(ok, "the external process gets another phenome", kind=kind, phenome=str(x), row=row)
            if kind in ("int", "bits"):
                t.check(all(a.lstrip("-").isdigit() for a in row), "integers do not arrive as integers", row=row)
        t.event("lines", len(rows))
    t.sig(fault, size, kind, mode, tuple(values[:2]))
    t.sample(dict(fault=fault, size=size, kind=kind, mode=mode))


@CHECK.section(quick=60, thorough=800, need={"evaluated": 150})
def external_populations(t):
    """A computing process behind the evaluation operators."""
    rng = t.rng
    prog = 'BEGIN{FS=","} {s=0; for(i=1;i<=NF;i++) s+=$i*i; print s}'
    p = ExternalProcessProblem("awk", True, [prog])
    pop = [Individual([rng.randint(-9, 9) for _ in range(rng.randint(1, 5))], problem=p, decoder=IdentityDecoder()) for _ in range(rng.randint(1, 9))]
    exp = [float(sum(v * (i + 1) for i, v in enumerate(ind.genome))) for ind in pop]
    how = rng.choice(["evaluate", "grouped", "grouped", "population"])
    if how == "evaluate":
        out = ops.pool(ops.evaluate(iter(pop)), size=len(pop))
    elif how == "grouped":
        out = list(ops.grouped_evaluate(pop, max_individuals_per_chunk=rng.choice([1, 2, 3, 100])))
    else:
        out = Individual.evaluate_population(pop)
    t.eq([float(i.fitness) for i in out], exp, "individuals get another fitness than their own phenome's", how=how)
    t.event("evaluated", len(out))
    t.sig(how, tuple(exp))
    t.raises(Exception, lambda: ExternalProcessProblem(os.path.join(t.tmp, "missing"), True).evaluate([1]), "a missing program yields a fitness")
    deaf = ExternalProcessProblem("true", True)
    t.raises(RuntimeError, lambda: deaf.evaluate([1, 2]), "a silent program yields a fitness")
    t.raises(RuntimeError, lambda: ExternalProcessProblem("false", True).evaluate([1, 2]), "a failing program yields a fitness")
