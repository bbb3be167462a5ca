"""C24: decoded neural networks compute the encoded layered function."""
import copy
import math
import pickle
import numpy as np
from vlib.harness import Check
from vlib.gen import *
from leap_ec.individual import Individual
from leap_ec.executable_rep.executable import ArgmaxExecutable, WrapperDecoder, Executable
from leap_ec.executable_rep.neural_network import (SimpleNeuralNetworkDecoder, SimpleNeuralNetworkExecutable, sigmoid, relu, softmax)

CHECK = Check("C24", boost=4, rule="random layer shapes (with empty layers), weights of every magnitude, activations and inputs; each network runs next to a plain "
              "Python evaluation of the layered formula, and activations next to an exact reference; distinct by (shape, activation, weights)")


def ref_sigmoid(v):
    if v >= 0:
        return 1.0 / (1.0 + math.exp(-v)) if v < 700 else 1.0
    return math.exp(v) / (1.0 + math.exp(v)) if v > -745 else 0.0


def ref_softmax(vs):
    m = max(vs)
    es = [math.exp(v - m) if v - m > -745 else 0.0 for v in vs]
    s = math.fsum(es)
    return [e / s for e in es]


ACT = {
    "sigmoid": (sigmoid, lambda vs: [ref_sigmoid(v) for v in vs]),
    "default": (None, lambda vs: [ref_sigmoid(v) for v in vs]),
    "relu": (relu, lambda vs: [v if v > 0 else 0.0 for v in vs]),
    "softmax": (softmax, ref_softmax),
    "tanh": (np.tanh, lambda vs: [math.tanh(v) for v in vs]),
    "identity": (lambda x: x, lambda vs: list(vs)),
    "odd": (lambda x: np.array(x) * 2 - 1, lambda vs: [2 * v - 1 for v in vs]),
}


def forward(shape, genome, x, act):
    """layer by layer, row by row, bias weights last"""
    sig, k = [float(v) for v in x], 0
    for ni, no in zip(shape[:-1], shape[1:]):
        rows = [[float(v) for v in genome[k + r * no:k + (r + 1) * no]] for r in range(ni + 1)]
        k += (ni + 1) * no
        sig = act([math.fsum([sig[i] * rows[i][j] for i in range(ni)] + [rows[ni][j]]) for j in range(no)])
    return sig


def make(rng, names=None):
    shape = [rng.randint(1, 5) for _ in range(rng.randint(2, 5))]
    given = list(shape)
    for _ in range(rng.choice([0, 0, 1, 2])):
        given.insert(rng.randint(1, len(given) - 1), 0)
    given = rng.choice([tuple, list])(given)
    name = rng.choice(names or list(ACT))
    a = ACT[name][0]
    dec = SimpleNeuralNetworkDecoder(given) if a is None else SimpleNeuralNetworkDecoder(given, activation=a)
    n = sum((i + 1) * o for i, o in zip(shape[:-1], shape[1:]))
    return shape, given, name, dec, n


def weights(rng, n):
    sc = rng.choice([1.0, 1.0, 10.0, .01])
    g = [rng.choice([0.0, 1.0, -1.0]) if rng.random() < .1 else rng.gauss(0, sc) for _ in range(n)]
    return np.array(g) if rng.random() < .7 else g


@CHECK.section(quick=2500, thorough=60000, need={"call": 6000, "empty-layer": 300})
def networks(t):
    rng = t.rng
    shape, given, name, dec, n = make(rng)
    d = dict(shape=list(given), activation=name)
    if len(given) != len(shape):
        t.event("empty-layer")
    t.eq(int(dec.length), n, "the decoder expects a wrong number of weights", **d)
    nets = []
    for _ in range(2):
        g = weights(rng, n)
        f0 = freeze(g)
        net = dec.decode(g)
        t.check(int(net.num_inputs) == shape[0] and int(net.num_outputs) == shape[-1] and int(net.num_hidden_layers) == len(shape) - 2,
                "a network reports a wrong number of inputs, outputs or hidden layers", **d)
        if rng.random() < .15:
            net = copy.deepcopy(net)
        nets.append((g, f0, net))
    xs = [[rng.choice([0.0, 1.0, rng.gauss(0, 3)]) for _ in range(shape[0])] for _ in range(2)]
    if rng.random() < .3:
        xs = [[rng.randint(-3, 3) for _ in range(shape[0])] for _ in range(2)]
    for _ in range(4):
        g, f0, net = rng.choice(nets)
        x = rng.choice(xs)
        arg = rng.choice([list, tuple, np.array])(x)
        fx = freeze(arg)
        got = net(arg)
        exp = forward(shape, g, x, ACT[name][1])
        t.close(np.asarray(got, float), exp, "a network computes something else than its weights encode", rtol=1e-7, atol=1e-9, input=x, genome=list(g), **d)
        t.check(freeze(arg) == fx and freeze(g) == f0, "running a network changed its input or genome", **d)
        t.event("call")
    t.sig(tuple(given), name, freeze(nets[0][0]))
    t.sample(dict(d, genome=list(nets[0][0]), input=xs[0]))
    for bad in (n - 1, n + 1, 0, 2 * n):
        if bad != n:
            t.raises(ValueError, lambda: dec.decode(np.zeros(bad)), "a genome of a wrong length is decoded", length=bad, **d)


@CHECK.section(quick=1000, thorough=20000, need={"edges": 10000})
def graphs(t):
    rng = t.rng
    shape, given, name, dec, n = make(rng)
    g = weights(rng, n)
    net = dec.decode(g)
    G = net.graph
    ids = [["i%d" % k for k in range(shape[0])]]
    for l, m in enumerate(shape[1:-1]):
        ids.append(["h%d_%d" % (l, k) for k in range(m)])
    ids.append(["o%d" % k for k in range(shape[-1])])
    exp, k = {}, 0
    for a, b in zip(ids[:-1], ids[1:]):
        for src in a + ["bias"]:
            for dst in b:
                exp.setdefault((src, dst), []).append(float(g[k]))
                k += 1
    got = {}
    for u, v, w in G.edges(data="weight"):
        got.setdefault((u, v), []).append(float(w))
        t.event("edges")
    t.eq(got, exp, "the published graph has other weights than the network", shape=list(given))
    t.eq(set(G.nodes), {x for l in ids for x in l} | {"bias"}, "the published graph has other nodes than the network", shape=list(given))
    t.sig(tuple(given), freeze(g))


def magnitudes(rng):
    k = rng.random()
    if k < .4:
        return rng.gauss(0, 3)
    if k < .6:
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 2)
    if k < .8:
        return rng.choice([-1, 1]) * rng.uniform(600, 800)
    if k < .95:
        return rng.choice([-1, 1]) * 10 ** rng.uniform(2, 300)
    return 0.0


@CHECK.section(quick=4000, thorough=100000, need={"values": 15000, "huge": 4000})
def activations(t):
    rng = t.rng
    vs = [magnitudes(rng) for _ in range(rng.randint(1, 8))]
    t.event("values", len(vs))
    t.event("huge", sum(abs(v) > 500 for v in vs))
    for form in ("array", "ints", "scalar"):
        if form == "ints":
            vs = [float(int(v)) if abs(v) < 1e15 else rng.choice([-1000.0, 1000.0]) for v in vs]
        x = np.array(vs, dtype=int) if form == "ints" else np.array(vs)
        f0 = freeze(x)
        s, r, m = sigmoid(x), relu(x), softmax(x)
        t.close(s, [ref_sigmoid(v) for v in vs], "sigmoid is not exact", rtol=1e-12, atol=1e-300, x=vs)
        t.eq([float(v) for v in r], [v if v > 0 else 0.0 for v in vs], "ReLU is not exact", x=vs)
        t.close(m, ref_softmax(vs), "softmax is not exact", rtol=1e-10, atol=1e-300, x=vs)
        t.check(np.isfinite(s).all() and np.isfinite(m).all() and (np.asarray(s) >= 0).all() and (np.asarray(s) <= 1).all(), "an activation leaves its range", x=vs)
        t.check(abs(float(np.sum(m)) - 1) < 1e-9, "softmax does not sum to one", x=vs)
        t.eq(freeze(x), f0, "an activation changes its input")
        if form == "scalar":
            t.close(sigmoid(vs[0]), ref_sigmoid(vs[0]), "sigmoid of a number is not exact", rtol=1e-12, atol=1e-300, x=vs[0])
            t.eq(float(relu(vs[0])), max(vs[0], 0.0), "ReLU of a number is not exact")
    # order
    o = np.sort(np.array(vs))
    t.check((np.diff(sigmoid(o)) >= -1e-15).all(), "sigmoid is not monotone", x=list(o))
    t.sig(tuple(vs))


class Fixed(Executable):
    def __init__(self, out):
        self.out, self.seen, self.tag = out, [], object()

    def __call__(self, input_):
        self.seen.append(input_)
        return self.out


@CHECK.section(quick=1500, thorough=20000)
def argmax(t):
    rng = t.rng
    vs = [rng.choice([rng.gauss(0, 5), float(rng.randint(-3, 3)), -1e9]) for _ in range(rng.randint(1, 7))]
    f = Fixed(np.array(vs) if rng.random() < .5 else list(vs))
    w = ArgmaxExecutable(f)
    x = object()
    got = w(x)
    t.check(vs[int(got)] == max(vs), "the argmax wrapper does not return the index of the largest output", outputs=vs, got=got)
    t.eq(int(got), vs.index(max(vs)), "the argmax wrapper does not return the first largest output", outputs=vs)
    t.check(f.seen == [x], "the argmax wrapper calls the wrapped program otherwise than once with its input")
    t.check(w.tag is f.tag, "the argmax wrapper hides the attributes of the wrapped program")
    shape, given, name, dec, n = make(rng)
    g = weights(rng, n)
    wd = WrapperDecoder(wrapped_decoder=dec, decorator=ArgmaxExecutable)
    ex = wd.decode(g)
    inp = [rng.gauss(0, 2) for _ in range(shape[0])]
    o = [float(v) for v in dec.decode(g)(inp)]
    t.check(o[int(ex(inp))] == max(o), "a wrapped network does not return the index of its largest output", outputs=o)
    t.check(int(ex.num_inputs) == shape[0] and int(ex.num_outputs) == shape[-1], "a wrapped network hides its numbers of inputs and outputs")
    if name in ("sigmoid", "default", "relu", "softmax", "tanh"):
        ex2 = pickle.loads(pickle.dumps(ex))
        t.eq(int(ex2(inp)), int(ex(inp)), "a wrapped network does not survive pickling")
    t.sig(tuple(vs))
