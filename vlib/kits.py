"""Representation kits: genomes together with the operators that may legally
act on them, for the checks that run operator histories."""
import numpy as np

from leap_ec import ops
from leap_ec.binary_rep.ops import mutate_bitflip, genome_mutate_bitflip
from leap_ec.int_rep.ops import (mutate_randint, mutate_binomial, individual_mutate_randint,
                                 genome_mutate_binomial)
from leap_ec.real_rep.ops import mutate_gaussian, genome_mutate_gaussian
from leap_ec.segmented_rep.ops import (apply_mutation, segmented_mutate, add_segment, remove_segment,
                                       copy_segment)
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from leap_ec.executable_rep import cgp
from leap_ec.executable_rep.rules import PittRulesDecoder


class Kit:
    """name, genome() -> fresh genome, unary: [(name, operator factory)],
    binary: [(name, crossover factory)]"""
    name = "?"
    persistent_length = True

    def __init__(self, rng):
        self.rng = rng

    def unary(self):
        return []

    def crossovers(self):
        return []


def _xovers(kit, array=True):
    rng = kit.rng
    out = [("nary", lambda: ops.NAryCrossover(num_points=rng.randint(1, kit.max_points),
                                              p_xover=rng.choice([1.0, 1.0, 0.5]),
                                              persist_children=rng.random() < .5))]
    if array:
        out.append(("uniform", lambda: ops.UniformCrossover(p_swap=rng.choice([0.0, 0.2, 0.5, 1.0]),
                                                            p_xover=rng.choice([1.0, 1.0, 0.5]),
                                                            persist_children=rng.random() < .5)))
    return out


class BinaryKit(Kit):
    name = "binary"

    def __init__(self, rng):
        super().__init__(rng)
        self.n = rng.randint(2, 8)
        self.dtype = rng.choice([int, int, bool, np.uint8])
        self.max_points = min(3, self.n)

    def genome(self):
        return np.array([self.rng.randint(0, 1) for _ in range(self.n)], dtype=self.dtype)

    def unary(self):
        rng = self.rng
        return [("bitflip-p", lambda: mutate_bitflip(probability=rng.choice([0.0, 0.3, 1.0]))),
                ("bitflip-e", lambda: mutate_bitflip(expected_num_mutations=rng.choice([1, 0.5, self.n])))]

    def crossovers(self):
        return _xovers(self)


class RealKit(Kit):
    name = "real"

    def __init__(self, rng):
        super().__init__(rng)
        self.n = rng.randint(2, 7)
        self.max_points = min(3, self.n)
        self.bounds = [(-2.0 - i, 3.0 + i) for i in range(self.n)]

    def genome(self):
        return np.array([self.rng.uniform(*b) for b in self.bounds])

    def unary(self):
        rng, n = self.rng, self.n
        bs = [self.bounds, (-2.0, 3.0), np.array(self.bounds)]
        return [("gauss-iso", lambda: mutate_gaussian(std=rng.choice([0.1, 5.0]), expected_num_mutations='isotropic')),
                ("gauss-b", lambda: mutate_gaussian(std=rng.choice([0.1, 5.0]), expected_num_mutations=rng.choice([1, n]),
                                                    bounds=rng.choice(bs))),
                ("gauss-per-gene", lambda: mutate_gaussian(std=[0.5] * n, expected_num_mutations=1, bounds=self.bounds))]

    def crossovers(self):
        return _xovers(self)


class IntKit(Kit):
    name = "int"

    def __init__(self, rng):
        super().__init__(rng)
        self.n = rng.randint(2, 7)
        self.max_points = min(3, self.n)
        self.bounds = [(-3 - i, 4 + i) for i in range(self.n)]

    def genome(self):
        return np.array([self.rng.randint(*b) for b in self.bounds])

    def unary(self):
        rng, n = self.rng, self.n
        return [("randint-p", lambda: mutate_randint(bounds=self.bounds, probability=rng.choice([0.0, 0.4, 1.0]))),
                ("randint-e", lambda: mutate_randint(bounds=self.bounds, expected_num_mutations=rng.choice([1, n]))),
                ("binomial", lambda: mutate_binomial(std=rng.choice([0.5, 3.0]), bounds=self.bounds,
                                                     expected_num_mutations=rng.choice([1, n]))),
                ("binomial-p", lambda: mutate_binomial(std=[1.0] * n, bounds=self.bounds,
                                                       probability=rng.choice([0.0, .5, 1.0])))]

    def crossovers(self):
        return _xovers(self)


class SegmentedKit(Kit):
    """Segments of a flat kit; the number of segments changes."""
    name = "segmented"
    persistent_length = False

    def __init__(self, rng, inner=None):
        super().__init__(rng)
        self.inner = inner or rng.choice([BinaryKit, RealKit, IntKit])(rng)
        self.name = "segmented-" + self.inner.name
        self.max_points = 1

    def genome(self):
        return [self.inner.genome() for _ in range(self.rng.randint(1, 4))]

    def genome_mutator(self):
        k = self.inner
        if isinstance(k, BinaryKit):
            return genome_mutate_bitflip
        if isinstance(k, RealKit):
            return genome_mutate_gaussian(std=1.0, bounds=k.bounds)
        return individual_mutate_randint(bounds=k.bounds)

    def unary(self):
        rng = self.rng
        pr = lambda: rng.choice([0.3, 1.0])  # noqa
        return [("apply", lambda: apply_mutation(mutator=self.genome_mutator(), expected_num_mutations=rng.choice([1.0, 2.0]))),
                ("add", lambda: add_segment(seq_initializer=self.inner.genome, probability=pr(), append=rng.random() < .5)),
                ("remove", lambda: remove_segment(probability=pr())),
                ("copy", lambda: copy_segment(probability=pr(), append=rng.random() < .5))]

    def crossovers(self):
        return _xovers(self, array=False)


class FixedSegmentsKit(Kit):
    name = "fixed-segments"

    def __init__(self, rng):
        super().__init__(rng)
        self.kits = [rng.choice([BinaryKit, RealKit, IntKit])(rng) for _ in range(rng.randint(1, 3))]

    def genome(self):
        return [k.genome() for k in self.kits]

    def _m(self, k):
        if isinstance(k, BinaryKit):
            return genome_mutate_bitflip(expected_num_mutations=1)
        if isinstance(k, RealKit):
            return genome_mutate_gaussian(std=1.0, expected_num_mutations=1, bounds=k.bounds)
        return self.rng.choice([individual_mutate_randint(bounds=k.bounds, expected_num_mutations=1),
                                genome_mutate_binomial(2.0, k.bounds, expected_num_mutations=1)])

    def unary(self):
        return [("segmented_mutate", lambda: segmented_mutate(mutator_functions=[self._m(k) for k in self.kits]))]


class ListKit(Kit):
    name = "list"

    def __init__(self, rng):
        super().__init__(rng)
        self.n = rng.randint(2, 6)
        self.max_points = 2

    def genome(self):
        return [self.rng.randint(0, 9) for _ in range(self.n)]

    def crossovers(self):
        return _xovers(self, array=False)


class CGPKit(Kit):
    name = "cgp"

    def __init__(self, rng):
        super().__init__(rng)
        self.decoder = cgp.CGPDecoder([cgp.NAND(), cgp.NotX()], num_inputs=2, num_outputs=rng.randint(1, 2),
                                      num_layers=rng.randint(1, 4), nodes_per_layer=rng.randint(1, 2), max_arity=2,
                                      levels_back=rng.choice([None, 1, 2]))

    def genome(self):
        return np.array([self.rng.randint(int(a), int(b)) for a, b in self.decoder.bounds()])

    def unary(self):
        rng = self.rng
        return [("cgp-p", lambda: cgp.cgp_mutate(self.decoder, probability=rng.choice([0.0, .3, 1.0]))),
                ("cgp-e", lambda: cgp.cgp_mutate(self.decoder, expected_num_mutations=1))]


class CGPParamKit(Kit):
    name = "cgp-params"

    def __init__(self, rng):
        super().__init__(rng)
        self.layers, self.nodes = rng.randint(1, 3), rng.randint(1, 2)
        self.decoder = cgp.CGPWithParametersDecoder([lambda x, y, p: x + y * p, lambda x, y, p: x - p], num_inputs=2, num_outputs=1,
                                                    num_layers=self.layers, nodes_per_layer=self.nodes, max_arity=2,
                                                    num_parameters_per_node=1)

    def genome(self):
        return [np.array([self.rng.randint(int(a), int(b)) for a, b in self.decoder.bounds()]),
                np.array([self.rng.uniform(-1, 1) for _ in range(self.layers * self.nodes)])]

    def unary(self):
        return [("cgp+gauss", lambda: segmented_mutate(mutator_functions=[
            cgp.cgp_genome_mutate(self.decoder, expected_num_mutations=1),
            genome_mutate_gaussian(std=.5, expected_num_mutations=1, bounds=(-1, 1))]))]


class PittKit(Kit):
    name = "pitt"
    persistent_length = False

    def __init__(self, rng):
        super().__init__(rng)
        import gymnasium as gym
        self.d = rng.randint(1, 3)
        self.decoder = PittRulesDecoder(gym.spaces.Box(-1.0, 1.0, shape=(self.d,), dtype=np.float64),
                                        gym.spaces.Discrete(3))

    def rule(self):
        return np.array([self.rng.uniform(-1, 1) for _ in range(2 * self.d)] + [float(self.rng.randint(0, 2))])

    def genome(self):
        return [self.rule() for _ in range(self.rng.randint(1, 4))]

    def unary(self):
        rng = self.rng
        return [("rules", lambda: self.decoder.mutator(
            condition_mutator=genome_mutate_gaussian(std=.3, expected_num_mutations=rng.choice([1, 2]),
                                                     bounds=self.decoder.condition_bounds),
            action_mutator=individual_mutate_randint(bounds=self.decoder.action_bounds, probability=rng.choice([.5, 1.0])))),
            ("add", lambda: add_segment(seq_initializer=self.rule, probability=rng.choice([.5, 1.0]))),
            ("remove", lambda: remove_segment(probability=rng.choice([.5, 1.0]))),
            ("copy", lambda: copy_segment(probability=rng.choice([.5, 1.0])))]


KITS = [BinaryKit, RealKit, IntKit, SegmentedKit, FixedSegmentsKit, ListKit, CGPKit, CGPParamKit, PittKit]


def take(op, inds):
    """Drive an iterator operator over a list of individuals, one at a time."""
    it = op(iter(inds))
    return [next(it) for _ in range(len(inds))]
