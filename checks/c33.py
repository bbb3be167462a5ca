"""C33: controllers are scored by what they actually do in their environment."""
import itertools
import math
import os
import numpy as np
from PIL import Image
from vlib.harness import Check
from vlib.gen import *
from leap_ec.individual import Individual
from leap_ec.executable_rep.executable import Executable, ArgmaxExecutable, RandomExecutable, WrapperDecoder
from leap_ec.executable_rep.problems import EnvironmentProblem, TruthTableProblem, ImageXYProblem

CHECK = Check("C33", boost=4, rule="scripted environments record every reset, observation, action and reward of random controllers and the fitness is recomputed from that log; "
              "truth tables and images next to direct computations; distinct by (script, controller)")
fs = math.fsum


class Space:
    def __init__(self, shape):
        self.shape = shape


class Multi:
    def __init__(self, spaces):
        self.spaces = spaces


class Env:
    """Scripted: episode e ends (if at all) after ends[e] steps, by termination, truncation or both; logs everything."""

    def __init__(self, rng, obs_kind):
        self.rng, self.kind = rng, obs_kind
        self.log = []
        self.episode = -1
        self.ends, self.how = [], []
        self.observation_space, self.action_space = Space((3,)), Space(())
        self.count = 0

    def obs(self):
        self.count += 1
        c = float(self.count)
        return {"array": lambda: np.array([c, self.rng.random(), -c]), "number": lambda: int(c), "list": lambda: [c, 1.0]}[self.kind]()

    def reset(self, **kw):
        self.episode += 1
        self.t = 0
        self.end = self.rng.choice([1, 2, 3, 5, 8, 10 ** 9])
        self.by = self.rng.choice(["terminated", "truncated", "both"])
        o = self.obs()
        self.log.append(("reset", freeze(o)))
        return o, {"info": 1}

    def step(self, action):
        self.t += 1
        r = self.rng.choice([0.0, 1.0, -1.0, self.rng.gauss(0, 1), 2])
        done = self.t >= self.end
        o = self.obs()
        self.log.append(("step", freeze(action), freeze(o), r, done))
        return o, r, done and self.by != "truncated", done and self.by != "terminated", {}

    def render(self):
        self.log.append(("render",))


class Controller(Executable):
    def __init__(self, rng, log):
        self.rng, self.log = rng, log

    def __call__(self, obs):
        a = self.rng.choice([0, 1, np.array([self.rng.random()]), self.rng.random()])
        self.log.append(("act", freeze(obs), freeze(a)))
        return a


@CHECK.section(quick=4000, thorough=60000, need={"steps": 30000, "ended": 2000, "cut": 1500})
def environment(t):
    rng = t.rng
    env = Env(rng, rng.choice(["array", "number", "list"]))
    runs, steps = rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 5, 9]) if rng.random() < .98 else rng.randint(10, 250)
    stop = rng.choice([None, True, False])
    ft = rng.choice(["reward", "survival"])
    gui = rng.random() < .2
    mx = rng.choice([None, True, False])
    kw = {}
    if stop is not None:
        kw["stop_on_done"] = stop
    if mx is not None:
        kw["maximize"] = mx
    p = EnvironmentProblem(runs, steps, env, ft, gui, **kw) if rng.random() < .5 else \
        EnvironmentProblem(runs=runs, steps=steps, environment=env, fitness_type=ft, gui=gui, **kw)
    t.eq(bool(p.maximize), mx is not False, "the environment problem has a wrong direction")
    t.eq((p.num_inputs, p.num_outputs), (3, 1), "the environment problem has wrong dimensions")
    ctl = Controller(rng, env.log)
    for rep in range(rng.choice([1, 1, 2])):
        env.log.clear()
        if rng.random() < .7:
            fit = p.evaluate(ctl)
        else:
            ind = Individual(ctl, decoder=IdentityDecoder(), problem=p)
            fit = ind.evaluate()
        # online specification of the interaction
        rewards, lengths, last, state, acted = [], [], None, "done", None
        renders = 0
        for ev in env.log:
            if ev[0] == "render":
                renders += 1
            elif ev[0] == "reset":
                t.check(state != "acted", "a run starts while an action is pending")
                rewards.append([])
                lengths.append(1)
                last, state, done = ev[1], "observed", False
            elif ev[0] == "act":
                t.check(state == "observed", "the controller acts twice on one observation, or without one")
                t.eq(ev[1], last, "the controller does not see the observation the environment produced last")
                t.check(not (done and stop is not False), "the controller acts after the end of a run")
                acted, state = ev[2], "acted"
            else:
                t.check(state == "acted", "the environment is stepped without the controller having acted")
                t.eq(ev[1], acted, "the environment gets another action than the controller's")
                rewards[-1].append(ev[3])
                lengths[-1] += 1
                last, state, done = ev[2], "observed", ev[4]
                t.check(len(rewards[-1]) <= steps, "a run takes more steps than allowed", steps=steps)
                ended = done and stop is not False
                t.event("steps")
                if ended:
                    t.event("ended")
        t.eq(len(rewards), runs, "the number of runs is not the requested one")
        # a run is only as short as the environment made it
        dones, cur = [], None
        for ev in env.log:
            if ev[0] == "reset":
                cur = []
                dones.append(cur)
            elif ev[0] == "step":
                cur.append(ev[4])
        for ds in dones:
            t.check(len(ds) == steps or (stop is not False and ds and ds[-1]), "a run ends although neither the environment nor the step limit asks for it",
                    got=len(ds), steps=steps)
            t.check(stop is False or not any(ds[:-1]), "a run goes on after its end")
            if not (ds and ds[-1]):
                t.event("cut")
        if ft == "reward":
            t.close(float(fit), fs(fs(r) for r in rewards) / runs, "the fitness is not the mean total reward", rtol=1e-9, atol=1e-9, rewards=rewards)
        else:
            t.close(float(fit), sum(lengths) / runs, "the fitness is not the mean number of observations", lengths=lengths)
        t.check((renders > 0) == gui, "the environment is shown without being asked to, or not shown", gui=gui)
        t.sig(ft, runs, steps, stop, str(env.log)[:500])
    for bad in ("nonsense", "Reward", ""):
        t.raises(ValueError, lambda: EnvironmentProblem(runs, steps, env, bad, False), "an unknown fitness type is accepted")
    for a in ((0, 1), (1, 0), (-1, 5)):
        t.raises(Exception, lambda: EnvironmentProblem(*a, env, "reward", False), "an impossible number of runs or steps is accepted")
    t.sample(dict(fitness=ft, runs=runs, steps=steps, stop=str(stop), value=float(fit)))


@CHECK.section(quick=600, thorough=6000)
def spaces(t):
    rng = t.rng
    env = Env(rng, "array")

    def space():
        if rng.random() < .4:
            ss = [Space(rng.choice([(), (2,), (3, 4), (1,), (5,)])) for _ in range(rng.randint(1, 3))]
            return Multi(rng.choice([tuple, list])(ss)), sum(math.prod(s.shape) for s in ss)
        s = Space(rng.choice([(), (2,), (3, 4), (1,), (2, 2, 2)]))
        return s, math.prod(s.shape)
    env.observation_space, ni = space()
    env.action_space, no = space()
    p = EnvironmentProblem(1, 1, env, "reward", False)
    t.eq((p.num_inputs, p.num_outputs), (ni, no), "the environment problem has wrong dimensions")
    import gymnasium.spaces as G
    for s, k in ((G.Discrete(7), 1), (G.Box(-1, 1, shape=(4,)), 4), (G.Box(-1, 1, shape=(2, 3)), 6), (G.Tuple((G.Discrete(3), G.Box(0, 1, shape=(5,)))), 6),
                 (G.MultiBinary(5), 5), (G.MultiDiscrete([3, 4]), 2)):
        t.eq(EnvironmentProblem.space_dimensions(s), k, "a space has wrong dimensions", space=str(s))
    # wrappers around executables
    seen = []

    class Fixed(Executable):
        extra = 17

        def __call__(self, x):
            seen.append(x)
            return out
    out = [rng.choice([0.0, 1.0, rng.gauss(0, 1)]) for _ in range(rng.randint(1, 5))]
    a = ArgmaxExecutable(Fixed())
    x = [rng.random()]
    t.check(int(a(x)) == out.index(max(out)) and seen[-1] is x, "the argmax executable does not return the position of the largest output", outputs=out)
    t.eq(a.extra, 17, "the argmax executable hides its executable's attributes")

    class D:
        def decode(self, genome, *args, **kw):
            seen.append(("decode", genome))
            return Fixed()
    w = WrapperDecoder(D(), ArgmaxExecutable)
    e = w.decode(x)
    t.check(seen[-1][0] == "decode" and seen[-1][1] is x and isinstance(e, ArgmaxExecutable) and int(e(x)) == out.index(max(out)), "a wrapper decoder does not wrap the decoded executable")

    class Sp:
        shape = ()

        def sample(self):
            return rng.choice([3, 4, 5])
    r = RandomExecutable(None, Sp())
    t.check(all(r(x) in (3, 4, 5) for _ in range(5)), "a random executable returns something else than a sample of its space")
    t.sig(ni, no, tuple(out))


@CHECK.section(quick=2500, thorough=40000, need={"tables": 2500, "padded": 300})
def truth_tables(t):
    rng = t.rng
    ni, no = rng.choice([1, 1, 2, 2, 3, 4, 6] if rng.random() < .99 else [8, 10]), rng.choice([1, 1, 2, 3])
    rows = list(itertools.product((0, 1), repeat=ni))
    target = {r: [rng.randint(0, 1) for _ in range(no)] for r in rows}
    q = rng.choice([0, .1, .5, 1])
    made = {r: ([v ^ 1 if rng.random() < q else v for v in target[r]]) for r in rows}
    if q == 1 and no > 1 and rng.random() < .5:         # all but one output right
        made = {r: [target[r][0] ^ 1] + target[r][1:] for r in rows}
    if rng.random() < .25:                  # a program with other outputs than the function
        cut = rng.choice([lambda v: v[:-1], lambda v: v + [0], lambda v: v + v, lambda v: []])
        made = {r: (cut(target[r]) if rng.random() < .7 else list(target[r])) for r in rows}
        t.event("other_outputs")
    pad = rng.choice([None, True, False])
    extra = rng.randint(0, 3) if pad else 0
    asked, tried = [], []

    def function(x):
        asked.append(tuple(x))
        return list(target[tuple(x)])

    class Ex(Executable):
        num_inputs, num_outputs = ni + extra, no

        def __call__(self, x):
            tried.append(tuple(x))
            return list(made[tuple(x[:ni])])
    kw = {} if pad is None else dict(pad_inputs=pad)
    mx = rng.choice([None, True, False])
    if mx is not None:
        kw["maximize"] = mx
    p = TruthTableProblem(function, ni, no, **kw) if rng.random() < .5 else TruthTableProblem(boolean_function=function, num_inputs=ni, num_outputs=no, name="x", **kw)
    t.eq((bool(p.maximize), p.num_inputs, p.num_outputs), (mx is not False, ni, no), "the truth-table problem has other settings")
    for _ in range(2):
        asked.clear(), tried.clear()
        f = p.evaluate(Ex())
        t.eq(sorted(tried), sorted(r + (0,) * extra for r in rows), "not every input combination is tried exactly once", inputs=ni, padding=extra)
        t.eq(sorted(set(asked)), sorted(rows), "the Boolean function is asked about something else than the input combinations")
        good = sum(made[r] == target[r] for r in rows)
        t.check(abs(f - good / len(rows)) < 1e-12, "the fitness is not the fraction of matching rows", got=f, good=good, rows=len(rows))
    t.event("tables")
    if extra:
        t.event("padded")
    for bad in (lambda: TruthTableProblem(None, 1, 1), lambda: TruthTableProblem(function, 0, 1), lambda: TruthTableProblem(function, 1, 0), lambda: TruthTableProblem(3, 1, 1)):
        t.raises(Exception, bad, "an illegal truth-table problem is accepted")
    t.raises(Exception, lambda: TruthTableProblem(lambda x: 1, 2, 1).evaluate(Ex()), "a function that returns no list is accepted")
    t.sig(ni, no, extra, str(target), str(made))


@CHECK.section(quick=600, thorough=8000)
def images(t):
    rng = t.rng
    w, h = rng.randint(1, 9), rng.randint(1, 9)
    a = t.np.integers(0, 256, size=(h, w, 3)).astype(np.uint8)
    path = os.path.join(t.tmp, "i.png")
    Image.fromarray(a, "RGB").save(path)
    mx = rng.choice([None, True, False])
    p = ImageXYProblem(path, **({} if mx is None else dict(maximize=mx)))
    t.eq(bool(p.maximize), bool(mx), "the image problem has a wrong direction")
    got = []
    noise = t.np.integers(-40, 40, size=(h, w, 3)) * rng.choice([0, 1, 1])
    frac = rng.choice([0.0, .25, .99])
    b = np.clip(a.astype(int) + noise, 0, 255)

    class Painter(Executable):
        num_inputs, num_outputs = 2, 3

        def __call__(self, xy):
            xs, ys = np.asarray(xy[0]), np.asarray(xy[1])
            got.extend(zip(xs.tolist(), ys.tolist()))
            return [b[ys, xs, c] + frac for c in range(3)]
    for _ in range(2):
        got.clear()
        f = float(p.evaluate(Painter()))
        t.eq(sorted(got), sorted((x, y) for x in range(w) for y in range(h)), "the generator is not asked for every pixel exactly once", size=(w, h))
        t.close(f, math.sqrt(fs(((a.astype(int) - b) ** 2).ravel().tolist())), "the fitness is not the distance of the two images", rtol=1e-9, atol=1e-9, size=(w, h))
    if not noise.any():
        t.check(f == 0, "the image itself does not have distance zero")
    out = np.asarray(ImageXYProblem.generate_image(Painter(), w, h))
    t.check(np.array_equal(out, b.reshape(-1, 3)), "the generated image differs from what the executable returns", size=(w, h))
    out = np.asarray(ImageXYProblem.generate_image(Painter(), max(1, w - 1), h))
    t.check(np.array_equal(out, b[:, :max(1, w - 1)].reshape(-1, 3)), "the generated image differs from what the executable returns", size=(w, h))
    t.event("images")
    t.sig(w, h, a.tobytes(), frac)
