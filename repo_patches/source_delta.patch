From 69d79b67cddbc328f6536c7ca5e547a68ea8e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:38 +0000
Subject: [PATCH 01/44] fix: only push a whole layer down when all of it is
 really dominated

enlu_inds_rank tested the layer against the zenith of the moving points,
which is not a member; individuals dominated by the zenith only got ranked
one layer too deep.
---
 leap_ec/multiobjective/asynchronous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/multiobjective/asynchronous.py b/leap_ec/multiobjective/asynchronous.py
index b208aff..f4d1ba2 100644
--- a/leap_ec/multiobjective/asynchronous.py
+++ b/leap_ec/multiobjective/asynchronous.py
@@ -90,8 +90,8 @@ def enlu_inds_rank(start_point, layer_pops):
         # Further check if those individuals are properly dominated
         true_dominated = _set_domination(moving_points, dominated)
 
-        # CASE III: If nondominated is empty, insert moving points as a layer and re-update all ranks
-        if not nondominated:
+        # CASE III: If the whole layer is dominated, insert moving points as a layer and re-update all ranks
+        if not nondominated and all(true_dominated):
             layer_pops.insert(depth, moving_points)
             for i, lp in enumerate(layer_pops[depth:]):
                 for ind in lp:
-- 
2.43.0


From 897a26e45ee8221c7da13552755c47b48bccb4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:48 +0000
Subject: [PATCH 02/44] fix: insertion_selection lets every offspring compete

The return statement sat inside the loop, so only the first offspring ever
competed and an empty offspring list raised a ValueError.
---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 4a098de..8be52c0 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -990,7 +990,7 @@ def insertion_selection(offspring: List, parents: List, key = None) -> List:
                                                         copied_parents[
                                                             selected_parent_index])
 
-        return copied_parents
+    return copied_parents
 
 
 ##############################
-- 
2.43.0


From b972645e39c5c768741eddc47e153ce774f5e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:48 +0000
Subject: [PATCH 03/44] fix: crowding calculation keeps ranks whose fitnesses
 are all equal

When every objective had a zero range (a rank with one member, or with
identical fitnesses) the whole rank was dropped from the population.
---
 leap_ec/multiobjective/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 3f9749c..7c13c5a 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -209,7 +209,7 @@ def per_rank_crowding_calc(ranked_population: list, is_maximizing) -> list:
 
     objective_ranges = f_max - f_min
 
-    sorted_pop = []
+    sorted_pop = list(ranked_population)
 
     for objective in range(num_objectives):
         if objective_ranges[objective] == 0:
-- 
2.43.0


From 62b82c7a3a280fefad334b9e3f6f9e79769c5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:48 +0000
Subject: [PATCH 04/44] fix: never evaluate a phenome decoded from an older
 genome

clone() kept the parent's cached phenome and grouped_evaluate() used it
even if the clone's genome had been changed since.
---
 leap_ec/individual.py | 1 +
 leap_ec/ops.py        | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/individual.py b/leap_ec/individual.py
index b734ada..4414cb8 100644
--- a/leap_ec/individual.py
+++ b/leap_ec/individual.py
@@ -144,6 +144,7 @@ class Individual:
         cloned = copy(self)
         cloned.genome = deepcopy(self.genome)
         cloned.fitness = None
+        cloned._phenome = None
 
         cloned.uuid = uuid.uuid4()
         cloned.parents = {self.uuid}
diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 8be52c0..5292bfa 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -290,7 +290,7 @@ def grouped_evaluate(population: list, max_individuals_per_chunk: int = None) ->
     for chunk in chunks(population, max_individuals_per_chunk):
         # XXX Always passing individuals along to the problem.
         #     Does this create problems with dask, even when we aren't using individuals?
-        fit = problem.evaluate_multiple([c.phenome for c in chunk], individuals=chunk)
+        fit = problem.evaluate_multiple([c.decode() for c in chunk], individuals=chunk)
         fitnesses.extend(fit)
 
     for fit, ind in zip(fitnesses, population):
-- 
2.43.0


From abcaecd5bf58785d7d6aa03547f62cdd46f0c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:13 +0000
Subject: [PATCH 05/44] fix: problems accept the individuals that grouped
 evaluation passes

ops.grouped_evaluate always passes individuals= to evaluate_multiple(), but
neither the default implementation nor AverageFitnessProblem accepted it, so
grouped evaluation raised a TypeError for any ordinary problem.
---
 leap_ec/problem.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 71adc50..18c4b8b 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -55,7 +55,7 @@ class Problem(ABC):
         """
         raise NotImplementedError
 
-    def evaluate_multiple(self, phenomes):
+    def evaluate_multiple(self, phenomes, *args, **kwargs):
         """Evaluate multiple phenomes all at once, returning a list of fitness
         values.
 
@@ -344,7 +344,7 @@ class AverageFitnessProblem(Problem):
         fitnesses = [ self.wrapped_problem.evaluate(phenome) for _ in range(self.n) ]
         return np.mean(fitnesses)
 
-    def evaluate_multiple(self, phenomes: list):
+    def evaluate_multiple(self, phenomes: list, individuals: list = None):
         """
         Evaluate a collections of phenomes by creating n jobs for each phenome,
         sending all the jobs to the wrapped evaluate_multiple() function, and then
@@ -353,16 +353,19 @@ class AverageFitnessProblem(Problem):
         def mean_by_chunk(l):
             """Take n elements at a time from an iterator and average them."""
             means = []
-            while l != []:
+            while len(l) > 0:
                 chunk, l = l[:self.n], l[self.n:]
                 means.append(np.mean(chunk))
             return means
 
         # Copy each phenome n times, because we're going to evaluate each one n times
         expanded_phenomes = [ p for p in phenomes for _ in range(self.n) ]
+        kwargs = {}
+        if individuals is not None:
+            kwargs['individuals'] = [ i for i in individuals for _ in range(self.n) ]
 
         # Evaluate them
-        fitnesses = self.wrapped_problem.evaluate_multiple(expanded_phenomes)
+        fitnesses = self.wrapped_problem.evaluate_multiple(expanded_phenomes, **kwargs)
 
         # Average the copies back together
         contracted_phenomes = mean_by_chunk(fitnesses)
-- 
2.43.0


From 0d3f7071e8154abbecca2df61f5c1e3c98b53472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:13 +0000
Subject: [PATCH 06/44] fix: CooperativeProblem can log its trials

The trial log expects individuals but was handed bare genomes, so giving a
log_stream made every evaluation raise an AttributeError.
---
 leap_ec/problem.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 18c4b8b..bf7b7c3 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -467,7 +467,6 @@ class CooperativeProblem(Problem):
         assert('individual' in kwargs), "CooperativeProblem.evaluate() requires an 'individual' to be passed in via kwargs, but none was found.  Are you using an evaluation operator that supports passing individuals to problems (rather than just phenomes)?"
         individual = kwargs['individual']
 
-        current_genome = individual.genome
 
         # Pull references to all subpopulations from the context object
         subpopulations = self.context['leap']['subpopulations']
@@ -476,8 +475,8 @@ class CooperativeProblem(Problem):
         # Choose collaborators and evaulate
         fitnesses = []
         for i in range(self.num_trials):
-            all_collaborators = self._choose_collaborators(current_genome, current_subpop_index, subpopulations)
-            combined_genome = self.combine_genomes(all_collaborators)
+            all_collaborators = self._choose_collaborators(individual, current_subpop_index, subpopulations)
+            combined_genome = self.combine_genomes([ind.genome for ind in all_collaborators])
             combined_ind = Individual(combined_genome, decoder=self.combined_decoder, problem=self.wrapped_problem)
             fitness = combined_ind.evaluate()
 
@@ -502,10 +501,10 @@ class CooperativeProblem(Problem):
         if you need to, say, send a group of individuals off to parallel """
         return [ self.evaluate(p, individual=i) for p, i in zip(phenomes, individuals) ]
 
-    def _choose_collaborators(self, current_genome, current_subpop_index, subpopulations):
+    def _choose_collaborators(self, current_ind, current_subpop_index, subpopulations):
         """Choose collaborators from the subpopulations, returning a list that contains
-        the genome for the current individual and all of the genomes for collaborators,
-        in the order that they will be combined."""
+        the current individual and all of the collaborators, in the order that their
+        genomes will be combined."""
 
         # Create iterators that select individuals from each subpopulation
         selection_iterators = [self.collaborator_selector(subpop) for subpop in subpopulations]
@@ -517,10 +516,10 @@ class CooperativeProblem(Problem):
                 ind = next(selection_iterators[i])
                 # Make sure we actually got something with a genome back
                 assert (hasattr(ind, 'genome'))
-                all_collaborators.append(ind.genome)
+                all_collaborators.append(ind)
             else:
                 # Stick this subpop's individual in as-is
-                all_collaborators.append(current_genome)
+                all_collaborators.append(current_ind)
 
         assert (len(all_collaborators) == len(subpopulations))
 
-- 
2.43.0


From e416a104135c16b478dd1f749d6ef96096c22c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:13 +0000
Subject: [PATCH 07/44] fix: random_search counts evaluations in the context it
 was given

---
 leap_ec/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/algorithm.py b/leap_ec/algorithm.py
index 380207d..de59985 100644
--- a/leap_ec/algorithm.py
+++ b/leap_ec/algorithm.py
@@ -355,7 +355,7 @@ def random_search(evaluations, problem, representation, pipeline,
 
     # Set up an evaluation counter that records the current generation to
     # context; start at 1 to account for individual we already created.
-    evaluation_counter = util.inc_generation(start_generation=1)
+    evaluation_counter = util.inc_generation(start_generation=1, context=context)
 
     while evaluation_counter.generation() < evaluations:
         # Apply the provided reproductive operators to create a new individual.
-- 
2.43.0


From b028e3e1c8ab88eac3f59596fa0b6d14cd2ab9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:13 +0000
Subject: [PATCH 08/44] fix: ea_solve returns the best solution it evaluated

The best-so-far probe never sees the initial population, so a worse solution
than one already evaluated could be returned (and generations=0 raised).  The
elitist final population always holds the best one.
---
 leap_ec/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/simple.py b/leap_ec/simple.py
index 350d4dd..868d3d1 100644
--- a/leap_ec/simple.py
+++ b/leap_ec/simple.py
@@ -123,4 +123,4 @@ def ea_solve(function, bounds, generations=100, pop_size=cpu_count(),
                          pipeline=pipeline)
 
     # Return the genome of the best-found individual
-    return bsf_probe.bsf.genome
+    return max(final_pop).genome
-- 
2.43.0


From 2fb1a42c329d73212ca167c824648cecae935d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:32 +0000
Subject: [PATCH 09/44] fix: copy_segment inserts a copy, not a second
 reference

Both positions shared one array, so an in-place mutation of either segment
changed the other as well.
---
 leap_ec/segmented_rep/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/leap_ec/segmented_rep/ops.py b/leap_ec/segmented_rep/ops.py
index daa8b6e..351b23c 100644
--- a/leap_ec/segmented_rep/ops.py
+++ b/leap_ec/segmented_rep/ops.py
@@ -2,6 +2,7 @@
 """
     Segmented representation specific pipeline operators.
 """
+from copy import deepcopy
 from typing import Iterator, Callable
 import random
 
@@ -203,8 +204,8 @@ def copy_segment(next_individual: Iterator,
         individual = next(next_individual)
 
         if random.random() < probability:
-            copied_segment = \
-                individual.genome[random.randrange(len(individual.genome))]
+            copied_segment = deepcopy(
+                individual.genome[random.randrange(len(individual.genome))])
 
             if append:
                 individual.genome.append(copied_segment)
-- 
2.43.0


From 978aabd7ac62e21d842527127e877369ba5f4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:32 +0000
Subject: [PATCH 10/44] fix: uniform crossover works on genomes of different
 lengths

The swap mask has the length of the shorter genome and cannot be used to
index the longer one: NumPy raised an IndexError.
---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 5292bfa..bf78d41 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -489,7 +489,7 @@ class UniformCrossover(Crossover):
 
         # generate which indices we should swap
         min_length = min(parent_a.genome.shape[0], parent_b.genome.shape[0])
-        indices_to_swap = random_bernoulli_vector(min_length, self.p_swap)
+        indices_to_swap = np.flatnonzero(random_bernoulli_vector(min_length, self.p_swap))
 
         # perform swap
         tmp = parent_a.genome[indices_to_swap]
-- 
2.43.0


From 1ee5f5376e5dd162c0f7a5fba2dddb00d4143a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:32 +0000
Subject: [PATCH 11/44] fix: n-ary crossover keeps the tail of a longer second
 parent

Genes of the second parent beyond the length of the first were lost.
---
 leap_ec/ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index bf78d41..179c4da 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -590,6 +590,8 @@ class NAryCrossover(Crossover):
 
         # Pick crossover points
         xpts = self._pick_crossover_points(len(parent_a.genome))
+        # The last section takes in whatever a longer genome has left
+        xpts[-1] = max(len(parent_a.genome), len(parent_b.genome))
 
         for start, stop in toolz.itertoolz.sliding_window(2, xpts):
             genome1_sections.append(children[src1].genome[start:stop])
-- 
2.43.0


From d50fae38d5d6d55d3de3ce8ea4dae4aa818c8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:32 +0000
Subject: [PATCH 12/44] fix: GaussianProblem uses the width and height it is
 given

---
 leap_ec/real_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/real_rep/problems.py b/leap_ec/real_rep/problems.py
index 9bf44bd..da8db4d 100644
--- a/leap_ec/real_rep/problems.py
+++ b/leap_ec/real_rep/problems.py
@@ -934,8 +934,8 @@ class GaussianProblem(ScalarProblem):
     def __init__(self, width=1, height=1, maximize=True):
         assert(width > 0)
         super().__init__(maximize)
-        self.width = 1
-        self.height = 1
+        self.width = width
+        self.height = height
 
     def evaluate(self, phenome):
         assert(phenome is not None)
-- 
2.43.0


From 3a17a7d5757dfd4ebe1fea369cfe59f8169eae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:32 +0000
Subject: [PATCH 13/44] fix: ELAConvexity.linear_p is no longer always zero

No absolute value is ever below the (negative) threshold itself.
---
 leap_ec/landscape_features/exploratory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/landscape_features/exploratory.py b/leap_ec/landscape_features/exploratory.py
index 3bf2d0d..d4c0772 100644
--- a/leap_ec/landscape_features/exploratory.py
+++ b/leap_ec/landscape_features/exploratory.py
@@ -255,7 +255,7 @@ class ELAConvexity():
         assert(threshold < 0)
         lessthan_count = 0
         for d in self.deltas:
-            if np.abs(d) < threshold:
+            if np.abs(d) < np.abs(threshold):
                 lessthan_count += 1
         
         ratio = lessthan_count/len(self.deltas)
-- 
2.43.0


From 49f16c1ef80b656bcdf07d6e21ab0bd5d13330b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:32 +0000
Subject: [PATCH 14/44] fix: EnvironmentProblem.num_inputs and num_outputs
 return a value

---
 leap_ec/executable_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/executable_rep/problems.py b/leap_ec/executable_rep/problems.py
index 008312b..7bb67a7 100644
--- a/leap_ec/executable_rep/problems.py
+++ b/leap_ec/executable_rep/problems.py
@@ -41,12 +41,12 @@ class EnvironmentProblem(ScalarProblem):
     @property
     def num_inputs(self):
         """Return the number of dimensions in the environment's input space."""
-        self.space_dimensions(self.environment.observation_space)
+        return self.space_dimensions(self.environment.observation_space)
 
     @property
     def num_outputs(self):
         """Return the number of dimensions in the environment's action space."""
-        self.space_dimensions(self.environment.action_space)
+        return self.space_dimensions(self.environment.action_space)
 
     @classmethod
     def _reward_fitness(cls, observations, rewards):
-- 
2.43.0


From 164ca7500b9821c57a89618caf43afb0b0b1e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 15/44] fix: PlotPittRuleProbe honours modulo

Any modulo above 1 raised a NameError, and the test was inverted.
---
 leap_ec/executable_rep/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 5a915ec..87b13b4 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -847,7 +847,7 @@ class PlotPittRuleProbe:
         if self.modulo > 1:
             assert ('generation' in self.context['leap'])
             step = self.context['leap']['generation']
-            if step % modulo == 0:
+            if step % self.modulo != 0:
                 return population
 
         # Otherwise, do our thang!
-- 
2.43.0


From 665885a54d948039340ca0cdf8e55174e13b4121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 16/44] fix: Pitt rule initializer pairs low and high for
 multi-dimensional boxes

For an input space with more than one axis the genes came out as whole rows
of lows and highs instead of (low, high) pairs.
---
 leap_ec/executable_rep/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 87b13b4..b2588bc 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -227,8 +227,8 @@ class PittRulesDecoder(Decoder):
             def create_rule():
                 "Initialize a rule by sampling all its conditions and actions."
                 # Sample values uniformly within each variable's range
-                low = self.input_space.sample()
-                high = self.input_space.sample()
+                low = self.input_space.sample().flatten()
+                high = self.input_space.sample().flatten()
                 condition_pairs = list(zip(low, high))
                 condition_genes = np.array(condition_pairs).flatten()
 
-- 
2.43.0


From c3b12efff75a2f0a02a28ee1a452de2242aca534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 17/44] fix: ParetoPlotProbe2D works without explicit axes

---
 leap_ec/multiobjective/probe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/probe.py b/leap_ec/multiobjective/probe.py
index 23e1de5..04668b6 100644
--- a/leap_ec/multiobjective/probe.py
+++ b/leap_ec/multiobjective/probe.py
@@ -41,7 +41,7 @@ class ParetoPlotProbe2D(PopulationMetricsPlotProbe):
                          title=title, modulo=step,
                          context=context)
 
-        self.scatterplot = ax.scatter([], []) # scatterplot for fitnesses
+        self.scatterplot = self.ax.scatter([], []) # scatterplot for fitnesses
 
     def __call__(self, population):
         assert (population is not None)
-- 
2.43.0


From 193b7dc395ede7473cb479caa9ec849459126c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 18/44] fix: birth_brander brands every individual of every
 pipeline

After the first individual of a generator it went on to iterate that
individual's genome, and it kept reading the first population it was ever
given instead of the current one.
---
 leap_ec/util.py | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/leap_ec/util.py b/leap_ec/util.py
index e45e889..c102989 100644
--- a/leap_ec/util.py
+++ b/leap_ec/util.py
@@ -326,10 +326,6 @@ def birth_brander():
     # incremented with each birth
     num_births = itertools.count()
 
-    # sometimes next_thing is a population, so we need this to track that
-    # the next individual in the population
-    iterator = None
-
     def brand(individual):
         """ brand the given individual
         :param individual: to be branded
@@ -358,22 +354,9 @@ def birth_brander():
         :param next_thing: either the next individual in the pipeline or a population of individuals to be branded
         :return: branded individual
         """
-        nonlocal num_births
-        nonlocal iterator
-
-        while True:
-            if is_iterable(next_thing):
-                # We're being passed in a single individual in a pipeline
-                next_thing = next(next_thing)
-            else:
-                # We're being passed a test_sequence/population
-                if iterator is None:
-                    iterator = iter(next_thing)
-                next_thing = next(iterator)
-
-            next_thing = brand(next_thing)
-
-            yield next_thing
+        # Works the same for a population and for an upstream generator
+        for individual in next_thing:
+            yield brand(individual)
 
     do_birth_branding.brand_population = brand_population
 
-- 
2.43.0


From 1155506119351a665455a8ea7b06a89f13738460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 19/44] fix: proportional and SUS selection reject negative
 values for any exponent

The documented ValueError was only checked after exponentiation, so with an
even exponent the worst individuals silently got the largest share.
---
 leap_ec/ops.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 179c4da..49d2067 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -1494,7 +1494,12 @@ def compute_population_values(population: List, offset=0, exponent: int = 1,
     values = np.array([key(ind) for ind in population])
     if offset == 'pop-min':
         offset = -values.min(axis=0)
-    return (values + offset) ** exponent
+    values = values + offset
+
+    # An even exponent would hide negative values from our callers
+    if (values < 0.0).any():
+        raise ValueError('negative value found after applying offset.')
+    return values ** exponent
 
 
 ##############################
-- 
2.43.0


From d4a75694ba8685cee38fae2925b9db3eca38c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:23 +0000
Subject: [PATCH 20/44] fix: proportional and SUS selection cope with
 populations whose values are all zero

A converged population under offset='pop-min' made proportional selection
raise and SUS return the last individual every time.
---
 leap_ec/ops.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 49d2067..846974f 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -667,6 +667,11 @@ def proportional_selection(population: List, offset=0, exponent: int = 1,
     if (values < 0.0).any():
         raise ValueError('negative value found after applying offset.')
 
+    # nothing but zeros (ex. a converged population under 'pop-min') means
+    # that nobody is preferred
+    if not values.any():
+        values = np.ones(len(population))
+
     population_total = np.sum(values)
     proportions = values / population_total
 
@@ -743,6 +748,11 @@ def sus_selection(population: List, n=None, shuffle: bool = True,
     if (values < 0.0).any():
         raise ValueError('negative value found after applying offset.')
 
+    # nothing but zeros (ex. a converged population under 'pop-min') means
+    # that nobody is preferred
+    if not values.any():
+        values = np.ones(len(population))
+
     population_total = np.sum(values)
     even_spacing = population_total / n
     random_start = np.random.uniform(low=0.0, high=even_spacing)
-- 
2.43.0


From 49e360bc0aa595a6616893011a2acde7475f13ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:49 +0000
Subject: [PATCH 21/44] fix: count non-viable individuals on the client, where
 the context lives

Workers only have a pickled copy of the context, so the documented
context['leap']['distrib']['non_viable'] count stayed at zero.
---
 leap_ec/distrib/asynchronous.py |  4 +++-
 leap_ec/distrib/evaluate.py     | 22 ++++++++++++++++------
 leap_ec/distrib/synchronous.py  |  4 +++-
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/leap_ec/distrib/asynchronous.py b/leap_ec/distrib/asynchronous.py
index afb9853..c7241a5 100644
--- a/leap_ec/distrib/asynchronous.py
+++ b/leap_ec/distrib/asynchronous.py
@@ -16,7 +16,7 @@ import distributed
 from leap_ec.global_vars import context
 from leap_ec import util
 
-from .evaluate import evaluate, is_viable
+from .evaluate import evaluate, is_viable, count_non_viable
 from .individual import DistributedIndividual
 
 # Create unique logger for this namespace
@@ -185,6 +185,8 @@ def steady_state(client, max_births, init_pop_size, pop_size,
 
         evaluated = evaluated_future.result()
 
+        count_non_viable([evaluated], context=context)
+
         if evaluated_probe is not None:
             # Give a chance to do something extra with the newly evaluated
             # individual, which is *usually* a call to
diff --git a/leap_ec/distrib/evaluate.py b/leap_ec/distrib/evaluate.py
index 0d33a38..c9dd707 100644
--- a/leap_ec/distrib/evaluate.py
+++ b/leap_ec/distrib/evaluate.py
@@ -21,8 +21,9 @@ def evaluate(individual, context=context):
     We log the start and end times for evaluation.
 
     An individual is viable if an exception is NOT thrown, else it is NOT a
-    viable individual.  If not viable, we increment the context['leap'][
-    'distrib']['non_viable'] count to track such instances.
+    viable individual.  Non-viable individuals are counted by the caller once
+    they come back (see `count_non_viable()`), because a worker only has a copy
+    of the context.
 
     This function sets:
 
@@ -51,10 +52,6 @@ def evaluate(individual, context=context):
 
     if hasattr(individual, 'is_viable') and not individual.is_viable:
         # is_viable will be False if an exception was thrown during evaluation.
-        # We track the number of such failures on the off chance that this
-        # might be useful.
-        context['leap']['distrib']['non_viable'] += 1
-
         if hasattr(worker, 'logger'):
             worker.logger.warning(
                 f'Worker {worker.id}: {individual.exception!s} raised for {individual!s}')
@@ -86,3 +83,16 @@ def is_viable(individual):
         return individual.is_viable
     else:
         return True
+
+
+def count_non_viable(individuals, context=context):
+    """
+    Add the number of non-viable individuals to context['leap']['distrib'][
+    'non_viable'].  This has to happen on the client, where the context lives.
+
+    :param individuals: that have been evaluated
+    :param context: for storing count of non-viable individuals
+    """
+    for individual in individuals:
+        if not is_viable(individual):
+            context['leap']['distrib']['non_viable'] += 1
diff --git a/leap_ec/distrib/synchronous.py b/leap_ec/distrib/synchronous.py
index 0f5aee8..47c7de7 100644
--- a/leap_ec/distrib/synchronous.py
+++ b/leap_ec/distrib/synchronous.py
@@ -8,7 +8,7 @@ from leap_ec import leap_logger_name
 from leap_ec.global_vars import context
 from leap_ec.util import wrap_curry
 
-from .evaluate import evaluate
+from .evaluate import evaluate, count_non_viable
 from leap_ec import ops
 
 logger = logging.getLogger(leap_logger_name)
@@ -45,6 +45,8 @@ def eval_population(population, client, context=context):
     # instead.
     evaluated_individuals = client.gather(worker_futures)
 
+    count_non_viable(evaluated_individuals, context=context)
+
     return evaluated_individuals
 
 
-- 
2.43.0


From e75bba33d3f250e0e895b3ea854cdc8ba202b7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:30 +0000
Subject: [PATCH 22/44] fix: DeceptiveTrap and TwoMax count ones in lists too

---
 leap_ec/binary_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/binary_rep/problems.py b/leap_ec/binary_rep/problems.py
index c5e045e..5fd1219 100644
--- a/leap_ec/binary_rep/problems.py
+++ b/leap_ec/binary_rep/problems.py
@@ -150,7 +150,7 @@ class DeceptiveTrap(ScalarProblem):
         9
         """
         dimensions = len(phenome)
-        max_ones = np.count_nonzero(phenome == 1)
+        max_ones = np.count_nonzero(np.asarray(phenome) == 1)
         if max_ones == dimensions:
             return dimensions
         else:
@@ -187,7 +187,7 @@ class TwoMax(ScalarProblem):
         6
         """
         dimensions = len(phenome)
-        max_ones = np.count_nonzero(phenome == 1)
+        max_ones = np.count_nonzero(np.asarray(phenome) == 1)
         return int(np.abs(dimensions/2 - max_ones) + dimensions/2)
 
 
-- 
2.43.0


From bfa74bb6f04fdc1271bf8ab70f1024472d617bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:30 +0000
Subject: [PATCH 23/44] fix: ZDT problems check the phenome length when
 checking is on

---
 leap_ec/multiobjective/problems.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/leap_ec/multiobjective/problems.py b/leap_ec/multiobjective/problems.py
index 20ccbe6..c543727 100644
--- a/leap_ec/multiobjective/problems.py
+++ b/leap_ec/multiobjective/problems.py
@@ -228,6 +228,8 @@ class ZDT1Problem(ZDTBenchmarkProblem):
         :returns: two fitnesses, one for :math:`f_1(x)` and :math:`f_2(x)`
         """
         if self.check_phenome:
+            assert len(phenome) == self.n,\
+                f"Phenome must be length {self.n}, actual length: {len(phenome)}"
             assert ((phenome >= 0) & (phenome <= 1)).all(),\
                 f"All elements of phenome must be in [0.0, 1.0]: {phenome}"
         
@@ -286,6 +288,8 @@ class ZDT2Problem(ZDTBenchmarkProblem):
         :returns: two fitnesses, one for :math:`f_1(x)` and :math:`f_2(x)`
         """
         if self.check_phenome:
+            assert len(phenome) == self.n,\
+                f"Phenome must be length {self.n}, actual length: {len(phenome)}"
             assert ((phenome >= 0) & (phenome <= 1)).all(),\
                 f"All elements of phenome must be in [0.0, 1.0]: {phenome}"
         
@@ -344,6 +348,8 @@ class ZDT3Problem(ZDTBenchmarkProblem):
         :returns: two fitnesses, one for :math:`f_1(x)` and :math:`f_2(x)`
         """
         if self.check_phenome:
+            assert len(phenome) == self.n,\
+                f"Phenome must be length {self.n}, actual length: {len(phenome)}"
             assert ((phenome >= 0) & (phenome <= 1)).all(),\
                 f"All elements of phenome must be in [0.0, 1.0]: {phenome}"
         
@@ -402,6 +408,8 @@ class ZDT4Problem(ZDTBenchmarkProblem):
         :returns: two fitnesses, one for :math:`f_1(x)` and :math:`f_2(x)`
         """
         if self.check_phenome:
+            assert len(phenome) == self.n,\
+                f"Phenome must be length {self.n}, actual length: {len(phenome)}"
             assert ((phenome[0] >= 0) and (phenome[0] <= 1)),\
                 f"Element 0 of phenome must be in [0.0, 1.0]: {phenome}"
             assert ((phenome[1:] >= -5) & (phenome[1:] <= 5)).all(),\
@@ -557,6 +565,8 @@ class ZDT6Problem(ZDTBenchmarkProblem):
         :returns: two fitnesses, one for :math:`f_1(x)` and :math:`f_2(x)`
         """
         if self.check_phenome:
+            assert len(phenome) == self.n,\
+                f"Phenome must be length {self.n}, actual length: {len(phenome)}"
             assert ((phenome >= 0) & (phenome <= 1)).all(),\
                 f"All elements of phenome must be in [0.0, 1.0]: {phenome}"
         
-- 
2.43.0


From f153bc178a5958dcb3e2076e9348ced0f6ac5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:34 +0000
Subject: [PATCH 24/44] fix: AverageFitnessProblem averages each objective
 separately

---
 leap_ec/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index bf7b7c3..18a18f5 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -342,7 +342,7 @@ class AverageFitnessProblem(Problem):
     def evaluate(self, phenome):
         """Evaluates the wrapped function n times sequentially and returns the mean."""
         fitnesses = [ self.wrapped_problem.evaluate(phenome) for _ in range(self.n) ]
-        return np.mean(fitnesses)
+        return np.mean(fitnesses, axis=0)
 
     def evaluate_multiple(self, phenomes: list, individuals: list = None):
         """
@@ -355,7 +355,7 @@ class AverageFitnessProblem(Problem):
             means = []
             while len(l) > 0:
                 chunk, l = l[:self.n], l[self.n:]
-                means.append(np.mean(chunk))
+                means.append(np.mean(chunk, axis=0))
             return means
 
         # Copy each phenome n times, because we're going to evaluate each one n times
-- 
2.43.0


From b47d1cd11996d608c3c7cf7ce01e5036a102d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:34 +0000
Subject: [PATCH 25/44] fix: ExternalProcessProblem ignored an unterminated
 surplus line

---
 leap_ec/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 18a18f5..cadd261 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -247,7 +247,7 @@ class ExternalProcessProblem(ScalarProblem):
         if p.returncode != 0:
             raise RuntimeError(f"Error in the external simulation during fitness evaluation.")
 
-        out_strs = outs.split(b'\n')[:-1]  # Ignoring  trailing newline
+        out_strs = outs.splitlines()
         fitnesses = [ float(o) for o in out_strs]
 
         if len(fitnesses) != len(phenomes):
-- 
2.43.0


From ef7a871ff36df2a52932f686e599aefb5012e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:24 +0000
Subject: [PATCH 26/44] fix: chi-square helpers changed their arguments and
 accepted empty categories as evidence

---
 leap_ec/statistical_helpers.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/leap_ec/statistical_helpers.py b/leap_ec/statistical_helpers.py
index c046daf..dcf3749 100644
--- a/leap_ec/statistical_helpers.py
+++ b/leap_ec/statistical_helpers.py
@@ -27,21 +27,12 @@ def collect_distribution(function, samples: int):
 def _normalize_dicts(dict1, dict2):
     """Helper function that converts two dicts to lists that are aligned to each other."""
 
-    def add_keys_from(dist1, dist2):
-        """If dist1 contains a key that dist2 doesn't, add it to dict2."""
-        for k in dist1.keys():
-            if k not in dist2:
-                dist2[k] = 0
-
-    def values_sorted_by_key(dist):
-        """Get the values of dist, sorted by the keys."""
-        return [dist[k] for k in sorted(dist.keys())]
-    
-    add_keys_from(dict1, dict2)
-    add_keys_from(dict2, dict1)
+    # Skip categories that occur in neither dict, as they would yield 0/0
+    keys = sorted(k for k in {**dict1, **dict2}
+                  if dict1.get(k, 0) != 0 or dict2.get(k, 0) != 0)
 
-    n_dict1 = values_sorted_by_key(dict1)
-    n_dict2 = values_sorted_by_key(dict2)
+    n_dict1 = [dict1.get(k, 0) for k in keys]
+    n_dict2 = [dict2.get(k, 0) for k in keys]
 
     return n_dict1, n_dict2
 
-- 
2.43.0


From 6e9baf2fd5a7a1afffa11a0e01e214772f7d3a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:24 +0000
Subject: [PATCH 27/44] fix: equals_uniform failed when the expected counts do
 not sum up exactly

---
 leap_ec/statistical_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/statistical_helpers.py b/leap_ec/statistical_helpers.py
index dcf3749..39bdbe5 100644
--- a/leap_ec/statistical_helpers.py
+++ b/leap_ec/statistical_helpers.py
@@ -1,4 +1,5 @@
 """Helpers for testing the output of stochastic functions."""
+from math import isclose
 from typing import Dict
 
 import numpy as np
@@ -65,7 +66,7 @@ def stochastic_chisquare(expected_distribution, distribution):
     >>> stochastic_chisquare(expected_distribution, distribution)
     1.0
     """
-    assert(sum(expected_distribution.values()) == sum(distribution.values())), f"The distributions have {sum(expected_distribution.values())} and {sum(distribution.values())} samples, respectively, but must be equal."
+    assert(isclose(sum(expected_distribution.values()), sum(distribution.values()))), f"The distributions have {sum(expected_distribution.values())} and {sum(distribution.values())} samples, respectively, but must be equal."
     
     values, expected_values = _normalize_dicts(distribution, expected_distribution)
 
-- 
2.43.0


From 386dda44464e6ce2e9f459718edca52cbed552a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:41 +0000
Subject: [PATCH 28/44] fix: plot probes set their title on the axes they draw
 on

---
 leap_ec/probe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/leap_ec/probe.py b/leap_ec/probe.py
index bd58cd1..9563d98 100644
--- a/leap_ec/probe.py
+++ b/leap_ec/probe.py
@@ -635,7 +635,7 @@ class PopulationMetricsPlotProbe:
         self.xlim = xlim
         self.ylim = ylim
         self.ax = ax
-        plt.title(title)
+        ax.set_title(title)
 
         self.reset()
 
@@ -1021,7 +1021,7 @@ class CartesianPhenotypePlotProbe:
         self.bottom, self.top = ylim
         self.x = np.array([])
         self.y = np.array([])
-        plt.title(title)
+        ax.set_title(title)
         self.modulo = modulo
         self.context = context
 
@@ -1272,7 +1272,7 @@ class SumPhenotypePlotProbe:
         self.bottom, self.top = ylim
         self.x = np.array([])
         self.y = np.array([])
-        plt.title(title)
+        ax.set_title(title)
         self.modulo = modulo
         self.context = context
 
-- 
2.43.0


From 9f8f82638743c2091934fa8506e188e891a2fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:41 +0000
Subject: [PATCH 29/44] fix: PlotPittRuleProbe draws the dimensions it was
 asked to draw

---
 leap_ec/executable_rep/rules.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index b2588bc..ac6b8e4 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -778,7 +778,7 @@ class PlotPittRuleProbe:
         assert(len(plot_dimensions) == 2)
         self.decoder = decoder
         if self.decoder.num_inputs > 2:
-            logging.warn(f"The given rule system specification has more than 2 dimensions per rule, but {PlotPittRuleProbe.__name__} will only visualize the first two conditions on each rule.")
+            logging.warn(f"The given rule system specification has more than 2 dimensions per rule, but {PlotPittRuleProbe.__name__} will only visualize two of the conditions on each rule.")
         if self.decoder.num_outputs > 1:
             logging.warn(f"The given rule system specification has more than 1 output action per rule, but {PlotPittRuleProbe.__name__} will only use the first action to determine box color.")
 
@@ -816,9 +816,10 @@ class PlotPittRuleProbe:
             if len(rule.conditions) < 2:
                 raise ValueError(f"Found a rule with less than two input dimensions when trying to run {PlotPittRuleProbe.__name__}.  We need at least two conditions to plot a rule box!")
                 
-            # Get bounds for the first two conditions
-            x_low, x_high = rule.conditions[0]
-            y_low, y_high = rule.conditions[1]
+            # Get bounds for the two conditions that we've been asked to visualize
+            x_dim, y_dim = self.plot_dimensions
+            x_low, x_high = rule.conditions[x_dim]
+            y_low, y_high = rule.conditions[y_dim]
 
             # Visualize wildcard rules as covering the whole range
             if x_low > x_high:
-- 
2.43.0


From 7adbb3b1d6cb6a2f85bc3dcc2176ddf857bde26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:41 +0000
Subject: [PATCH 30/44] fix: CurvePlotter labels the axes it draws on

---
 leap_ec/contrib/analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leap_ec/contrib/analysis.py b/leap_ec/contrib/analysis.py
index c659ad6..c95f87f 100644
--- a/leap_ec/contrib/analysis.py
+++ b/leap_ec/contrib/analysis.py
@@ -198,6 +198,7 @@ class CurvePlotter():
 
         if ax is None:
             _, ax = plt.subplots(figsize=(8,6))
+        plt.sca(ax)  # The pyplot calls below act on the current axes
         
         cmap = plt.get_cmap("tab10")
         legend_patches = []
@@ -224,6 +225,7 @@ class CurvePlotter():
 
         if ax is None:
             _, ax = plt.subplots(figsize=(8,6))
+        plt.sca(ax)  # The pyplot calls below act on the current axes
 
         df = self.analyzer.avg_curves()
         time_col = self.analyzer.time_col
@@ -273,6 +275,7 @@ class CurvePlotter():
 
         if ax is None:
             _, ax = plt.subplots(figsize=(8,6))
+        plt.sca(ax)  # The pyplot calls below act on the current axes
 
         df = self.analyzer.scalar_metrics_per_run(metric_col=metric_col, scalar_measure=scalar_measure)
         columns = self.analyzer.experiment_cols + [ scalar_measure.__name__ ]
-- 
2.43.0


From 38dba1dd7f33bb00fb979688f54d34caf6ac739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:41 +0000
Subject: [PATCH 31/44] fix: proportional selection does not overflow for
 integer fitness

---
 leap_ec/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 846974f..763d453 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -1501,7 +1501,8 @@ def compute_population_values(population: List, offset=0, exponent: int = 1,
             scaled by `exponent` corresponding to each individual in the
             population.
     """
-    values = np.array([key(ind) for ind in population])
+    # Powers of integers can silently overflow, so work with floats
+    values = np.array([key(ind) for ind in population], dtype=float)
     if offset == 'pop-min':
         offset = -values.min(axis=0)
     values = values + offset
-- 
2.43.0


From b45df005cb0faad78e6a6a4ac6967d279f1569b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:41 +0000
Subject: [PATCH 32/44] fix: a failed evaluation does not bring down a
 steady-state multi-objective run

---
 leap_ec/multiobjective/asynchronous.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/leap_ec/multiobjective/asynchronous.py b/leap_ec/multiobjective/asynchronous.py
index f4d1ba2..2805660 100644
--- a/leap_ec/multiobjective/asynchronous.py
+++ b/leap_ec/multiobjective/asynchronous.py
@@ -131,8 +131,25 @@ class ENLUInserter:
         # real population, with the one the algorithm sees being overwritten
         # by this population's flattened contents
         self._layer_pops = []
+        # Individuals whose evaluation failed have no fitness vector to rank,
+        # so they are kept apart, and only as long as there is room for them
+        self._non_viable = []
 
     def __call__(self, ind, flat_pop, pop_size):
+        if np.any(np.isnan(ind.fitness)):
+            ind.rank, ind.distance = np.inf, 0
+            self._non_viable.append(ind)
+        else:
+            self._insert_viable(ind, pop_size)
+
+        # Reconstruct flat_pop
+        flat_pop.clear()
+        for lp in self._layer_pops:
+            flat_pop.extend(lp)
+        del self._non_viable[pop_size - len(flat_pop):]
+        flat_pop.extend(self._non_viable)
+
+    def _insert_viable(self, ind, pop_size):
         start_depth, end_depth = enlu_inds_rank(ind, self._layer_pops)
         
         # Calculate crowding distance for updated layers
@@ -149,11 +166,6 @@ class ENLUInserter:
                 per_rank_crowding_calc(self._layer_pops[-1], self._layer_pops[-1][0].problem.maximize)
             else:
                 del self._layer_pops[-1]
-        
-        # Reconstruct flat_pop
-        flat_pop.clear()
-        for lp in self._layer_pops:
-            flat_pop.extend(lp)
 
             
 def steady_state_nsga_2(
-- 
2.43.0


From 4b6037574a77a90ec07d32e06f2ffb4c723e677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:00 +0000
Subject: [PATCH 33/44] fix: binomial mutation clips before it returns to a
 narrow integer type

---
 leap_ec/int_rep/ops.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/leap_ec/int_rep/ops.py b/leap_ec/int_rep/ops.py
index 62217f3..4693c80 100644
--- a/leap_ec/int_rep/ops.py
+++ b/leap_ec/int_rep/ops.py
@@ -282,10 +282,11 @@ def genome_mutate_binomial(std,
 
         # Apply binomial perturbations
         additive = np.random.binomial(n, selected_p_values, size=sum(indices_to_mutate)) - np.floor(binom_mean)
-        mutated = genome[indices_to_mutate] + additive
-        genome[indices_to_mutate] = mutated
+        # The genome's own type may be too narrow for values that are yet to be clipped
+        mutated = genome.astype(np.result_type(datatype, int))
+        mutated[indices_to_mutate] += additive.astype(int)
 
-        genome = apply_hard_bounds(genome, bounds).astype(datatype)
+        genome = apply_hard_bounds(mutated, bounds).astype(datatype)
 
         # consistency check on data type
         assert datatype == genome.dtype
-- 
2.43.0


From 2d290760c889738edf05895352519fdfe8d2beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:00 +0000
Subject: [PATCH 34/44] fix: parsimony keys do not wrap around for unsigned
 fitness

---
 leap_ec/parsimony.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/leap_ec/parsimony.py b/leap_ec/parsimony.py
index dc3abae..4988db6 100644
--- a/leap_ec/parsimony.py
+++ b/leap_ec/parsimony.py
@@ -7,9 +7,20 @@
     Provided are Koza-style parsimony pressure and lexicographic parsimony
     key functions.
 """
+import numpy as np
+
 from leap_ec.util import wrap_curry
 
 
+def _plain(fitness):
+    """ A numpy scalar as a plain python number
+
+    The arithmetic below would wrap around for unsigned integers, such as the
+    sum of an unsigned genome.
+    """
+    return fitness.item() if isinstance(fitness, np.generic) else fitness
+
+
 def lexical_parsimony(ind):
     """ If two fitnesses are the same, break the tie with the smallest genome
 
@@ -45,7 +56,7 @@ def lexical_parsimony(ind):
         # Because we are using a key function we are bypassing the
         # ScalarProblem.worse_than() that would invert the fitnesses, so we
         # have to do this here by flipping the sign.
-        return (-ind.fitness, -len(ind.genome))
+        return (-_plain(ind.fitness), -len(ind.genome))
 
 
 @wrap_curry
@@ -83,11 +94,11 @@ def koza_parsimony(ind, *, penalty):
     :return: altered comparison criteria
     """
     if ind.problem.maximize:
-        biased_fitness = ind.fitness - penalty * len(ind.genome)
+        biased_fitness = _plain(ind.fitness) - penalty * len(ind.genome)
     else:
         # Because we are using a key function we are bypassing the
         # ScalarProblem.worse_than() that would invert the fitnesses, so we
         # have to do this here by flipping the sign.
-        biased_fitness = - ind.fitness - penalty * len(ind.genome)
+        biased_fitness = - _plain(ind.fitness) - penalty * len(ind.genome)
 
     return biased_fitness
-- 
2.43.0


From 796f7ac393132baa7456d123faac450222faa5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:00 +0000
Subject: [PATCH 35/44] fix: crowding distances of unsigned fitness vectors

---
 leap_ec/multiobjective/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 7c13c5a..436869a 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -221,7 +221,7 @@ def per_rank_crowding_calc(ranked_population: list, is_maximizing) -> list:
             # If we're maximizing in ascending order, that actually means we
             # want descending order since the larger values are fitter.
             sorted_pop = sorted(ranked_population,
-                                key=lambda ind: - ind.fitness[objective])
+                                key=lambda ind: - float(ind.fitness[objective]))
         else:
             sorted_pop = sorted(ranked_population,
                                 key=lambda ind: ind.fitness[objective])
@@ -234,9 +234,9 @@ def per_rank_crowding_calc(ranked_population: list, is_maximizing) -> list:
         # the second to last individual's
         for i in range(1, len(sorted_pop) - 1):
             sorted_pop[i].distance = sorted_pop[i].distance + \
-                                        (sorted_pop[i + 1].fitness[objective] -
-                                        sorted_pop[i - 1].fitness[
-                                            objective]) / objective_ranges[
+                                        (float(sorted_pop[i + 1].fitness[objective]) -
+                                        float(sorted_pop[i - 1].fitness[
+                                            objective])) / objective_ranges[
                                             objective]
 
     return sorted_pop
-- 
2.43.0


From 4ae7888cef70c3ddc3ce87ec4100acb4afcda540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:00 +0000
Subject: [PATCH 36/44] fix: landscape plots do not truncate heights after an
 integer value

---
 leap_ec/probe.py             | 3 ++-
 leap_ec/real_rep/problems.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/leap_ec/probe.py b/leap_ec/probe.py
index 9563d98..5e92941 100644
--- a/leap_ec/probe.py
+++ b/leap_ec/probe.py
@@ -5,6 +5,7 @@ import csv
 import sys
 import json
 import contextlib
+from functools import partial
 
 from typing import Dict, Iterator
 
@@ -1000,7 +1001,7 @@ class CartesianPhenotypePlotProbe:
         if ax is None:
             _, ax = plt.subplots()
         if contours:
-            @np.vectorize
+            @partial(np.vectorize, otypes=[float])
             def v_fun(x, y):
                 phenome = np.concatenate((np.hstack((x,y)), pad))
                 return contours.evaluate(phenome)
diff --git a/leap_ec/real_rep/problems.py b/leap_ec/real_rep/problems.py
index da8db4d..e0ca43e 100644
--- a/leap_ec/real_rep/problems.py
+++ b/leap_ec/real_rep/problems.py
@@ -4,6 +4,7 @@ problems that frequently occur in research benchmarks.
 
 It also contains helpers for translating, rotating, and visualizing them.
 """
+from functools import partial
 import warnings
 
 from matplotlib import pyplot as plt
@@ -1702,7 +1703,7 @@ def plot_2d_function(fun, xlim, ylim, granularity=0.1, ax=None, title=None, pad=
         fig = plt.figure()
         ax = fig.add_subplot(111, projection='3d')
 
-    @np.vectorize
+    @partial(np.vectorize, otypes=[float])
     def v_fun(x, y):
         return fun(np.append(np.array([x, y]), pad))
 
@@ -1764,7 +1765,7 @@ def plot_2d_contour(fun, xlim, ylim, granularity, ax=None, title=None, pad=None)
         fig = plt.figure()
         ax = fig.add_subplot(111)
 
-    @np.vectorize
+    @partial(np.vectorize, otypes=[float])
     def v_fun(x, y):
         return fun(np.append(np.array([x, y]), pad))
 
-- 
2.43.0


From 23036cdc832c53bf01bfed3b969f12d488698d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:00 +0000
Subject: [PATCH 37/44] fix: cooperative fitness is the mean of every
 objective, whatever its type

---
 leap_ec/ops.py     | 3 +--
 leap_ec/problem.py | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 763d453..6f33945 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -17,7 +17,6 @@ import itertools
 from functools import wraps
 import logging
 import random
-from statistics import mean
 from typing import Iterator, List, Union, Tuple
 
 import numpy as np
@@ -1416,7 +1415,7 @@ class CooperativeEvaluate(Operator):
 
                 fitnesses.append(fitness)
 
-            current_ind.fitness = mean(fitnesses)
+            current_ind.fitness = np.mean(fitnesses, axis=0)
 
             yield current_ind
 
diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index cadd261..2e926b2 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -491,7 +491,7 @@ class CooperativeProblem(Problem):
 
             fitnesses.append(fitness)
 
-        return np.mean(fitnesses)
+        return np.mean(fitnesses, axis=0)
 
     def evaluate_multiple(self, phenomes, individuals):
         """Evaluate multiple phenomes all at once, returning a list of fitness
-- 
2.43.0


From 29b3011169e7dff29afb216ebecdaab2bb81596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:00 +0000
Subject: [PATCH 38/44] fix: a DistributedIndividual without a decoder is
 evaluated as it is

---
 leap_ec/distrib/individual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/distrib/individual.py b/leap_ec/distrib/individual.py
index 59bbf8d..cf97e75 100644
--- a/leap_ec/distrib/individual.py
+++ b/leap_ec/distrib/individual.py
@@ -10,6 +10,7 @@
 """
 import itertools
 
+from leap_ec.decoder import IdentityDecoder
 from leap_ec.individual import RobustIndividual
 import pickle
 
@@ -22,7 +23,7 @@ class DistributedIndividual(RobustIndividual):
         Core individual that has unique UUID and birth ID.
     """
 
-    def __init__(self, genome, decoder=None, problem=None):
+    def __init__(self, genome, decoder=IdentityDecoder(), problem=None):
         super().__init__(genome, decoder, problem)
 
         self.birth_id = next(DistributedIndividual.birth_id)
-- 
2.43.0


From 7f6fda625e977ce918784190192d93e1cb63d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:03 +0000
Subject: [PATCH 39/44] fix: a crossover operator serving two streams does not
 mix up their second children

---
 leap_ec/ops.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 6f33945..4592561 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -358,7 +358,7 @@ class Crossover(Operator):
 
     def __init__(self, persist_children, p_xover):
         self.persist_children = persist_children
-        self.second_child = None
+        self.waiting_children = []
         self.p_xover = p_xover
 
     @abc.abstractmethod
@@ -378,35 +378,42 @@ class Crossover(Operator):
         # There has to be an inner function so we can properly use @iteriter_op
         @iteriter_op
         def _call(next_individual):
-            if self.persist_children and self.second_child is not None:
-                # Return a child left from another run
-                # Swap with None has to happen before the yield to be certain its executed
-                ret_child, self.second_child = self.second_child, None
-                yield ret_child
+            # Return the children left from another run
+            while self.waiting_children:
+                # Removal has to happen before the yield to be certain its executed
+                yield self.waiting_children.pop(0)
 
             while True:
                 parent_a = next(next_individual)
                 parent_b = next(next_individual)
 
                 if np.random.uniform() > self.p_xover:
-                    first_child, self.second_child = parent_a, parent_b
+                    first_child, second_child = parent_a, parent_b
                 else:
-                    first_child, self.second_child = self.recombine(parent_a, parent_b)
+                    first_child, second_child = self.recombine(parent_a, parent_b)
                     
-                    first_child.parents |= self.second_child.parents
-                    self.second_child.parents |= first_child.parents
+                    first_child.parents |= second_child.parents
+                    second_child.parents |= first_child.parents
 
-                    first_child.fitness = self.second_child.fitness = None
+                    first_child.fitness = second_child.fitness = None
+
+                # The second child only has to be stored in the class if another run may return
+                # it. It must not be stored there otherwise, because the same operator can be
+                # at work on several pipelines at a time.
+                if self.persist_children:
+                    self.waiting_children.append(second_child)
 
                 # Generators only execute code if necessary, so children will only be generated
                 # if the first child needs to be yielded. That's why it doesn't need to be stored
                 # in the class as well.
                 yield first_child
 
-                # Remove the second child from the class and yield it if the generator does
-                # get requested for it
-                ret_child, self.second_child = self.second_child, None
-                yield ret_child
+                if self.persist_children:
+                    if not any(child is second_child for child in self.waiting_children):
+                        continue  # another run has already returned it
+                    self.waiting_children = [child for child in self.waiting_children
+                                             if child is not second_child]
+                yield second_child
 
         return _call(next_individual)
 
-- 
2.43.0


From 301a55c71ad9697a57815840a2e5b4028abd8068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:03 +0000
Subject: [PATCH 40/44] fix: FitnessStatsCSVProbe quotes fields that hold
 separators, quotes or line breaks

---
 leap_ec/probe.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/leap_ec/probe.py b/leap_ec/probe.py
index 5e92941..7f221ab 100644
--- a/leap_ec/probe.py
+++ b/leap_ec/probe.py
@@ -346,13 +346,20 @@ class FitnessStatsCSVProbe(op.Operator):
 
     def write_header(self, stream):
         job_header = 'job, ' if self.job is not None else ''
-        note_extras = '' if not self.notes else ', '.join(self.notes.keys()) + ', '
+        note_extras = '' if not self.notes else ', '.join(map(self._field, self.notes.keys())) + ', '
         extras = '' if not self.extra_metrics else ', ' + ', '.join(
-            self.extra_metrics.keys())
+            map(self._field, self.extra_metrics.keys()))
         stream.write(
             job_header + note_extras + 'step, bsf, mean_fitness, std_fitness, min_fitness, max_fitness'
             + extras + '\n')
 
+    def _field(self, value):
+        """The text of one field, quoted if it would not be read as a single field otherwise."""
+        text = str(value)
+        if any(c in text for c in (',', '"', '\n', '\r', self.comment_character)):
+            text = '"' + text.replace('"', '""') + '"'
+        return text
+
     def write_comment(self, stream):
         if self.comment:
             commented_lines = []
@@ -381,9 +388,9 @@ class FitnessStatsCSVProbe(op.Operator):
             else:
                 # Do write fitness info
                 if self.job is not None:
-                    self.stream.write(str(self.job) + ', ')
+                    self.stream.write(self._field(self.job) + ', ')
                 for _, v in self.notes.items():
-                    self.stream.write(str(v) + ', ')
+                    self.stream.write(self._field(v) + ', ')
 
                 self.stream.write(str(generation) + ', ')
 
@@ -395,7 +402,7 @@ class FitnessStatsCSVProbe(op.Operator):
                 self.stream.write(str(np.min(fitnesses)) + ', ')
                 self.stream.write(str(np.max(fitnesses)))
                 for _, f in self.extra_metrics.items():
-                    self.stream.write(', ' + str(f(population)))
+                    self.stream.write(', ' + self._field(f(population)))
                 self.stream.write('\n')
                 return population
 
-- 
2.43.0


From d955e65a275b357bff0fbf99b1a31cf2480ebeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:03 +0000
Subject: [PATCH 41/44] fix: individuals evaluated on a cluster keep a problem
 that follows the run's context

---
 leap_ec/distrib/synchronous.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/leap_ec/distrib/synchronous.py b/leap_ec/distrib/synchronous.py
index 47c7de7..abd7287 100644
--- a/leap_ec/distrib/synchronous.py
+++ b/leap_ec/distrib/synchronous.py
@@ -45,6 +45,12 @@ def eval_population(population, client, context=context):
     # instead.
     evaluated_individuals = client.gather(worker_futures)
 
+    # The workers return copies of individuals *and* of their problems.  Give
+    # each one its original problem back, since the copy no longer follows this
+    # process's context (e.g., its current generation or subpopulations).
+    for original, evaluated in zip(population, evaluated_individuals):
+        evaluated.problem = original.problem
+
     count_non_viable(evaluated_individuals, context=context)
 
     return evaluated_individuals
-- 
2.43.0


From 51f6fe89ca078f5cee2a0f40ba66bbec398c337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:03 +0000
Subject: [PATCH 42/44] fix: an exception that cannot be pickled does not end a
 distributed run

---
 leap_ec/distrib/evaluate.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/leap_ec/distrib/evaluate.py b/leap_ec/distrib/evaluate.py
index c9dd707..60a4d0d 100644
--- a/leap_ec/distrib/evaluate.py
+++ b/leap_ec/distrib/evaluate.py
@@ -7,6 +7,7 @@ import platform
 import os
 
 import distributed
+from distributed.protocol import pickle
 
 from leap_ec.util import wrap_curry
 from leap_ec.global_vars import context
@@ -56,6 +57,8 @@ def evaluate(individual, context=context):
             worker.logger.warning(
                 f'Worker {worker.id}: {individual.exception!s} raised for {individual!s}')
 
+        individual.exception = _transportable(individual.exception)
+
     individual.stop_eval_time = time.time()
     individual.hostname = platform.node()
     individual.pid = os.getpid()
@@ -69,6 +72,22 @@ def evaluate(individual, context=context):
     return individual
 
 
+def _transportable(exception):
+    """
+    An individual that failed has to bring its exception back to the caller.
+    Not every exception can be (un)pickled, though, and then the individual
+    couldn't be returned at all, and the entire run would fail with it.
+
+    :param exception: raised by an evaluation
+    :return: the exception, or a RuntimeError describing it if it can't travel
+    """
+    try:
+        pickle.loads(pickle.dumps(exception))
+        return exception
+    except Exception:
+        return RuntimeError(repr(exception))
+
+
 def is_viable(individual):
     """
     evaluate.evaluate() will set an individual's fitness to NaN and the
-- 
2.43.0


From abc376f82475297e22b4ac99fcea8f1813ae7f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:18 +0000
Subject: [PATCH 43/44] fix: rank an individual once when it occurs repeatedly
 in fast_nondominated_sort

The counts of dominating individuals of a repeated individual's
inferiors were incremented once per occurrence but decremented once, so
that those kept rank 0 (better than the first layer).
---
 leap_ec/multiobjective/ops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 436869a..6d88192 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -65,10 +65,14 @@ def fast_nondominated_sort(population: list, parents: list = None) -> list:
     else:
         working_pop = population
 
+    # An individual may occur more than once (e.g., offspring that are also
+    # parents), but is to be ranked only once
+    distinct_pop = list({id(ind): ind for ind in working_pop}.values())
+
     ranks = {1: []}  # rank 1 initially empty
 
     # First, find rank 1
-    for individual in working_pop:
+    for individual in distinct_pop:
         individual.dominates = []
         individual.dominated_by = 0
         # there is no rank 0, we're just including in initialization as a
@@ -76,7 +80,7 @@ def fast_nondominated_sort(population: list, parents: list = None) -> list:
         # debugging, we know something went wrong
         individual.rank = 0
 
-        for other_individual in working_pop:
+        for other_individual in distinct_pop:
             if individual is other_individual:
                 continue
             if individual > other_individual:
-- 
2.43.0


From 3cfa26e4a8a6328490a8cee851500ad003feafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:31 +0000
Subject: [PATCH 44/44] fix: compare scalar fitnesses exactly for equality, as
 for order

With the tolerance an individual could be both worse than and equal to
another one that then was not better than it, so max(), best-so-far
probes and ea_solve() returned a worse individual whenever the best
ones differed by less than a relative 1e-9.
---
 leap_ec/problem.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 2e926b2..784ca54 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -7,7 +7,7 @@ from abc import ABC, abstractmethod
 import csv
 from itertools import islice
 import logging
-from math import nan, floor, isclose, isnan
+from math import nan, floor, isnan
 import random
 from subprocess import Popen, PIPE, STDOUT
 
@@ -129,14 +129,10 @@ class ScalarProblem(Problem):
             :return: true if the first individual is equal to the second
         """
 
-        # Since we're comparing two real values, we need to be a little
-        # smarter about that.  This will return true if the difference
-        # between the two is within a small tolerance. This also handles
-        # NaNs, inf, and -inf.
-        if type(first_fitness) == float and type(second_fitness) == float:
-            return isclose(first_fitness, second_fitness)
-        else: # fallback if one or more are not floats
-            return first_fitness == second_fitness
+        # This has to be exact, because the order (see worse_than()) is: with a
+        # tolerance an individual could be both worse than and equal to
+        # another one, which then would not be better than it.
+        return first_fitness == second_fitness
 
 
 
-- 
2.43.0

