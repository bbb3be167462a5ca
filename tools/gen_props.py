#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

L = "leap_ec/"
prop("C01", "Comparing individuals follows the problem's direction of optimisation",
 "For every pair of evaluated individuals, better/worse/equal agree with the problem they are solving: a larger fitness wins when maximising and a smaller one when minimising (also through wrapper problems), a NaN fitness is worse than every number, and with several objectives 'better' means exactly Pareto dominance with each objective's own direction. The six comparison operators, max, min and sorting are mutually consistent with that order, and the parsimony keys rank better fitness first (resp. fitness penalised by length) in both directions and break ties towards shorter genomes.",
 ["inputs", "configurations"], "all fitness values (ints, floats, numpy scalars, infinities, NaN, vectors), both directions, every wrapper problem",
 "Tests compare a handful of hand-picked fitness pairs, mostly under one direction; the ordering has to be right for every pair because every selection operator is built on it.",
 [L+"individual.py", L+"problem.py", L+"multiobjective/problems.py", L+"parsimony.py"],
 [("total ordering delegated to the problem", "Individual.__lt__/__eq__"), ("NaN-last scalar comparison", "ScalarProblem.worse_than/equivalent"), ("Pareto dominance", "MultiObjectiveProblem.worse_than")],
 ["results of <, >, <=, >=, ==, !=, max, min, sorted on individuals", "problem comparison methods", "parsimony key values"])

prop("C02", "Clones are independent, newly identified and unevaluated copies",
 "Cloning an individual yields one with an equal genome that shares no mutable genome storage with its source (at any nesting depth), the same problem and decoder, a fresh unique identity, exactly the source as its recorded parent, and no fitness or decoded phenome carried over. Nothing done later to the clone (in-place mutation, crossover, segment edits, evaluation) changes the source, and vice versa, so parents survive a whole breeding pipeline unchanged.",
 ["inputs", "histories"], "all representations and individual classes, and every sequence of in-place operators applied after the clone",
 "Tests clone a few flat genomes and check equality; aliasing only shows up when some later in-place operator of some representation is applied to one of the two.",
 [L+"individual.py", L+"distrib/individual.py", L+"ops.py", L+"segmented_rep/ops.py"],
 [("deep copy of the genome and reset of derived state", "Individual.clone"), ("fresh birth id", "DistributedIndividual.clone"), ("clone pipeline operator", "ops.clone")],
 ["genome, fitness, uuid, parents of source and clone after further operators"])

prop("C03", "A recorded fitness always belongs to the individual's current genome",
 "Whenever an individual leaves an operator, either it has no fitness or its fitness is the one its problem assigned to the phenome decoded from its current genome. Every operator that alters a genome clears the fitness, and every evaluation operator (one by one, whole population, grouped in chunks of any size, constant) decodes the current genome, evaluates each individual exactly once and stores each result on the individual it belongs to, in the population's original order.",
 ["inputs", "histories", "configurations"], "all operator sequences, representations, decoders, chunk sizes and deterministic problems",
 "Stale fitness or stale phenome needs a particular sequence (evaluate, clone, change, evaluate again in groups) and a decoder that is not the identity; the tests never chain those.",
 [L+"ops.py", L+"individual.py", L+"real_rep/ops.py", L+"int_rep/ops.py", L+"binary_rep/ops.py", L+"segmented_rep/ops.py", L+"executable_rep/cgp.py", L+"executable_rep/rules.py"],
 [("fitness invalidation in every mutating operator", "mutate_*, Crossover, *_segment"), ("decode before evaluation", "Individual.evaluate_imp, ops.grouped_evaluate")],
 ["fitness vs problem(decode(genome)) after every operator", "calls received by an instrumented problem"])

prop("C04", "A failing evaluation is contained to the individual that failed",
 "When evaluating a failure-tolerant individual raises any ordinary exception, the exception does not escape: that individual gets a NaN fitness, is marked not viable and carries the exception, every other individual is evaluated as usual, and the failed one compares worse than every individual with a numeric fitness. A later successful evaluation makes it viable with a proper fitness again, while individuals of the ordinary class let the exception through.",
 ["inputs", "fault_sequences"], "every subset of failing evaluations, every ordinary exception type, raised by decoder or problem, over repeated evaluations",
 "Tests inject one exception into one evaluation; containment has to hold for every pattern of failures, in both decoding and evaluation, and for populations and runs.",
 [L+"individual.py", L+"problem.py", L+"distrib/individual.py", L+"distrib/evaluate.py"],
 [("catch-all around evaluation", "RobustIndividual.evaluate"), ("NaN-last comparison", "ScalarProblem.worse_than")],
 ["fitness, viability flag and exception of every individual after a fault pattern", "final populations of whole runs with injected faults"])

prop("C05", "Mutation keeps every genome legal",
 "Every mutation operator returns a genome of the same length (per segment) and number type in which every gene lies within the given inclusive bounds (scalar or per gene; bits stay 0/1; graph-program and rule genes stay legal), genes it does not change keep their value, and zero probability (or zero strength) changes nothing while probability one touches every gene. It hands on the same individual objects in order, and missing, contradictory or out-of-range rates raise an error.",
 ["inputs", "configurations"], "all genomes, lengths, bounds (including degenerate and negative ones), strengths, probabilities and random draws",
 "Bounds violations depend on rare random draws, on extreme strengths and on per-gene bounds; tests draw a few samples with one bounds layout.",
 [L+"real_rep/ops.py", L+"int_rep/ops.py", L+"binary_rep/ops.py", L+"segmented_rep/ops.py", L+"executable_rep/cgp.py", L+"executable_rep/rules.py"],
 [("clipping to hard bounds", "apply_hard_bounds"), ("inclusive resampling bounds", "individual_mutate_randint"), ("bit flip modulo 2", "genome_mutate_bitflip")],
 ["genomes before and after every mutation operator and genome-level mutator"])

prop("C06", "Mutation changes as many genes, and by as much, as requested",
 "Over many applications the number of genes a mutation operator picks has the requested mean (the expected number of mutations, or probability times length; all genes when isotropic), every locus is equally likely, and the added noise, drawn independently for every gene, has the requested distribution: zero-mean (up to integer rounding) with the requested standard deviation (per gene when given per gene) for Gaussian and binomial mutation, uniform over the inclusive bounds for random-reset mutation. For segmented genomes the expected number is spread over the segments as documented and segment insertions, copies and removals occur with the requested probability at uniformly chosen places.",
 ["inputs", "configurations"], "all genome lengths, requested rates, standard deviations and bounds",
 "A rate or spread that is slightly wrong is invisible in any single call; the existing stochastic tests are few, cover single settings and are excluded from the regular run.",
 [L+"ops.py", L+"real_rep/ops.py", L+"int_rep/ops.py", L+"binary_rep/ops.py", L+"segmented_rep/ops.py"],
 [("per-gene probability from the expected number", "compute_expected_probability"), ("Bernoulli masks", "random_bernoulli_vector"), ("binomial p from std", "_binomial_p_from_std")],
 ["counts, loci and differences of changed genes over long recorded runs"])

prop("C07", "Crossover only rearranges its parents' genes and keeps lineage",
 "Recombining two individuals produces two children that together hold exactly the parents' genes: at every position the pair of genes is the parents' pair, swapped position by position with the requested probability (uniform) or in alternating contiguous blocks delimited by the requested number of uniformly drawn cut points (n-point); for genomes of unequal length no gene is lost or duplicated. Children have no fitness and both record the union of the parents' lineages, pairs that are not recombined pass through untouched at the requested rate, and every input individual comes out exactly once, in order, including a second child held back between calls.",
 ["inputs", "histories", "configurations"], "all genome pairs (arrays, lists, segments, unequal lengths), numbers of points, probabilities, and sequences of calls with or without persistent children",
 "Tests check a few short bit strings; gene loss shows up only for particular cut points, unequal lengths or interrupted pipelines.",
 [L+"ops.py"],
 [("pairing and held-back second child", "Crossover.__call__"), ("masked swap", "UniformCrossover.recombine"), ("section concatenation", "NAryCrossover.recombine")],
 ["genomes, fitness and parents of the individuals before and after recombination"],
 [("second_child", "child held back between calls", "Crossover.second_child")])

prop("C08", "Survivor selection keeps the best by the stated criterion",
 "Truncation returns exactly the requested number of individuals and no excluded candidate beats an included one (over offspring, or offspring and parents together, under the natural order or a given key); elitist survival returns as many individuals as there were offspring, namely the best of the offspring plus the k best parents. Insertion selection makes every offspring compete once against a random slot of the parents and keeps the winner, never altering the caller's parent list; tournaments return the best (or worst, when asked) of their k contestants and report its index. No selection operator creates, copies or modifies an individual.",
 ["inputs", "configurations"], "all populations (ties, NaN fitness, both directions, multiset duplicates), sizes, k, keys",
 "Which individual is wrongly kept depends on ties, direction, keys and sizes; tests use two- to five-member populations under one direction.",
 [L+"ops.py"],
 [("top-k of the combined pool", "truncation_selection, elitist_survival"), ("slot competition", "insertion_selection"), ("judge by max or min", "tournament_selection")],
 ["multisets of individuals before and after each selection operator", "draws of the random source"])

prop("C09", "Random selection operators draw with the stated probabilities",
 "Proportional selection draws each individual independently with probability proportional to (metric + offset) raised to the exponent, stochastic universal sampling gives every individual in each round of n draws its expected share rounded down or up, and tournaments, uniform random and cyclic selection draw according to k-fold sampling with replacement, uniformly, and in full passes where everyone appears exactly once per cycle. Negative values after the offset raise an error for every exponent, zero-valued individuals are never drawn while others have value, and when nobody has value all are equally likely.",
 ["inputs", "configurations"], "all fitness vectors, offsets (including the adaptive one), exponents, keys, n, k",
 "Sampling bias is statistical: no single draw reveals it, and the few statistical tests cover one or two settings and are excluded from the regular run.",
 [L+"ops.py"],
 [("weights", "compute_population_values, proportional_selection"), ("equally spaced pointers", "sus_selection"), ("sampling with replacement", "tournament_selection, random_selection"), ("shuffled cycles", "cyclic_selection")],
 ["long sequences of selected individuals and reported indices"])

prop("C10", "Pipelines deliver each individual exactly once, lazily, and reject misuse",
 "Every streaming operator hands on precisely the individuals it receives, once each and in order, pulling no more from upstream than it needs for what is asked of it, and pooling takes exactly the requested number. Operators given the wrong kind of input (list for iterator, iterator for list, a partly applied operator) raise an error at once instead of producing a wrong population, and partly applied operators behave the same as fully applied ones. Birth branding numbers every unbranded individual of every population or stream uniquely and consecutively and leaves branded ones alone, and the generation and birth counters stay in step with the shared context and their callbacks.",
 ["programs", "inputs", "histories"], "all compositions of the streaming operators, pull patterns and upstream lengths",
 "Tests exercise single operators; loss, duplication, over-pulling or reordering only show in compositions and under partial consumption.",
 [L+"ops.py", L+"util.py", L+"probe.py"],
 [("type-checking wrappers", "iteriter_op, listlist_op, listiter_op, iterlist_op"), ("generators", "evaluate, clone, mutate_*, pool"), ("counters", "inc_generation, inc_births, birth_brander")],
 ["identity sequence of individuals at each stage of a traced pipeline", "number of upstream pulls"])

prop("C11", "A generational run honours its budget, size, elitism and stop condition",
 "A generational run creates and evaluates the requested number of initial individuals, executes exactly the requested number of generations (from the given start) unless the stop condition, consulted before every generation with the current parents, ends it earlier, and returns a population of the size the pipeline pools. With at least one elite the best fitness never gets worse from one generation to the next and the k best parents are never displaced by worse individuals; the generation number visible to operators, evaluations (the start generation for the initial population) and probes is the current one and is kept in the context that was passed in. Random search evaluates exactly the requested number of individuals and returns them all in order.",
 ["inputs", "configurations", "programs"], "all pipelines, problems, population sizes, numbers of elites, start and end generations, stop predicates, contexts",
 "Tests run one or two fixed pipelines and look at the final value; the guarantees concern every generation of every run.",
 [L+"algorithm.py", L+"util.py", L+"ops.py"],
 [("main loop", "generational_ea"), ("elitism", "ops.elitist_survival"), ("generation counter", "util.inc_generation"), ("trajectory", "random_search")],
 ["log of evaluations, generations, populations and context values of instrumented runs"],
 [("generation", "current generation number", "context['leap']['generation']")])

prop("C12", "The one-call solver returns the best point it evaluated, within bounds",
 "The one-call function optimiser evaluates the given function exactly the population size times one plus the number of generations, only at points of the right dimension, which with hard bounds all lie inside the bounds, and returns the genome of the best point it ever evaluated in the requested direction. The progress it writes is one line per generation with a best-so-far value that never gets worse and is the best offspring fitness seen, also when the evaluations run on a cluster client.",
 ["inputs", "configurations"], "all functions (including ones with NaN or failing regions), bounds, directions, population sizes and numbers of generations including zero",
 "Tests check that it runs and improves on one or two functions; that the returned point is the best needs the log of every evaluation.",
 [L+"simple.py", L+"algorithm.py", L+"probe.py"],
 [("elitist run", "ea_solve, generational_ea"), ("bounded mutation", "mutate_gaussian")],
 ["log of every function call, returned genome, written progress"])

prop("C13", "Island migration only moves copies between neighbouring islands",
 "In a multi-population run every island keeps its size and its own problem, representation and pipeline; in each generation that is a multiple of the migration gap every island sends exactly one copy of one of its selected individuals (with its genome and fitness at that moment) to one uniformly chosen neighbour in the topology, and between those generations none. An arriving copy takes a place the next time its destination is processed, only by replacing the selected contestant when it is at least as good, each migrant is considered exactly once, donors keep their individual, and the optional customs function and migration log see exactly these events.",
 ["inputs", "histories", "configurations"], "all directed and undirected topologies, numbers of islands, gaps, selectors, fitness landscapes and random destinations",
 "Tests run one ring for a few generations and inspect the final sizes; lost, duplicated or misrouted migrants need the whole event history.",
 [L+"ops.py", L+"algorithm.py"],
 [("pending immigrants per island", "ops.migrate"), ("sub-population loop", "algorithm.multi_population_ea"), ("migration log", "ops.migration_metric")],
 ["per-island populations before and after each migration step, selector calls, log lines"],
 [("immigrants", "migrants waiting for each island", "ops.migrate closure"), ("current_subpopulation", "island being processed", "context['leap']['current_subpopulation']")])

prop("C14", "Cooperative evaluation scores an individual only through real collaborations",
 "In cooperative coevolution an individual's fitness is the mean, over the requested number of trials, of the wrapped problem's value for complete solutions formed by combining that individual's genome, at its own sub-population's position, with one collaborator selected from each other current sub-population, in sub-population order. Neither collaborators nor their fitness are modified, and the optional log holds, for every trial, one line per collaborator and one for the combined solution with the values actually used.",
 ["inputs", "histories", "configurations"], "all numbers of sub-populations, genome lengths, numbers of trials, selectors and combination functions, by operator or by problem, singly or grouped",
 "Tests run one two-species example; order mix-ups and wrong averages show only with asymmetric genomes and recorded trials.",
 [L+"ops.py", L+"problem.py", L+"algorithm.py", L+"individual.py"],
 [("collaborator choice and mean", "CooperativeEvaluate, CooperativeProblem"), ("sub-populations in the context", "multi_population_ea")],
 ["combined genomes received by an instrumented problem, fitnesses, log lines"])

prop("C15", "Parallel synchronous evaluation evaluates everyone exactly once",
 "Evaluating a population or the next n individuals of a stream on a cluster returns exactly those individuals (same identities, genomes and lineage, in the same order), each evaluated exactly once with the fitness its problem gives, whatever the worker count, delays, completion order or failing evaluations. A problem that follows the run (its generation, its sub-populations) keeps following it in every later generation. Failing individuals come back with NaN fitness and not viable and are counted whatever exception they raised, and each returned individual carries consistent evaluation times, host and process.",
 ["schedules", "inputs", "fault_sequences"], "all worker counts, evaluation delays and completion orders, and patterns of failing evaluations",
 "Tests evaluate one small population on one cluster without checking order, identity or multiplicity under adverse completion orders.",
 [L+"distrib/synchronous.py", L+"distrib/evaluate.py", L+"distrib/individual.py"],
 [("map and gather in order, not treated as pure", "synchronous.eval_population"), ("worker-side evaluation", "distrib.evaluate.evaluate")],
 ["evaluation event log, returned individuals"])

prop("C16", "The asynchronous steady-state run spends its budget exactly and never regresses",
 "An asynchronous steady-state run evaluates the initial population plus exactly the requested number of births (failed evaluations not counting unless asked), evaluates, probes and offers to the population every submitted individual exactly once under any completion order, never exceeds the population size and returns only evaluated individuals of the run. With the default insertion a full population changes only by an individual replacing the current worst (or a non-viable one) with something strictly better, so neither best nor worst fitness ever gets worse; random-slot insertion replaces only a worse or non-viable individual.",
 ["schedules", "inputs", "fault_sequences", "configurations"], "all completion orders, delays, worker counts, failure patterns, population sizes, budgets and both insertion policies",
 "Completion order is decided by timing; the tests run two happy-path configurations and check the final birth counter.",
 [L+"distrib/asynchronous.py", L+"distrib/evaluate.py", L+"util.py"],
 [("birth counter with decrement for failures", "steady_state, util.inc_births"), ("replacement rule", "replace_if, greedy_insert_into_pop, tournament_insert_into_pop")],
 ["evaluation event log, evaluated-probe and population-probe streams, births in the context"],
 [("births", "births counted so far", "context['leap']['births']")])

prop("C17", "Non-dominated sorting and crowding distance are exact",
 "For every multi-objective population (with or without parents merged in) both ranking operators assign each individual the number of the Pareto layer it lies in, starting at one, agree with each other, and return exactly the merged individuals. Crowding distance is the sum over objectives of the normalised gap between an individual's neighbours in its own rank, infinite for the extreme individuals of each non-constant objective; no individual is lost or duplicated, whatever its rank's size or ties, and sorting by dominance orders by rank and then by larger distance.",
 ["inputs"], "all fitness matrices: any number of objectives, any mix of directions, ties, duplicates, single-member ranks, constant objectives",
 "The existing tests use two small hand-made populations; wrong ranks need particular dominance patterns, ties or mixed directions.",
 [L+"multiobjective/ops.py", L+"multiobjective/problems.py"],
 [("dominance counting", "fast_nondominated_sort"), ("ordinal ranks", "rank_ordinal_sort"), ("per-rank distances", "crowding_distance_calc, per_rank_crowding_calc")],
 ["rank, distance and membership of every individual"])

prop("C18", "NSGA-II survivors are the best by rank and crowding, generation after generation",
 "In every generation of the multi-objective run the survivors number exactly the parents and are chosen from parents and offspring together so that nobody left out has a smaller Pareto rank than a survivor, nor, within the last admitted rank, a larger crowding distance. Hence a non-dominated solution that fits is never lost, the run performs the requested number of generations and evaluations, and both ranking methods may be used interchangeably.",
 ["inputs", "configurations", "histories"], "all multi-objective problems, directions, population sizes, pipelines, ranking methods, stop conditions",
 "Tests run one benchmark and look at the final front; an individual dropped in some generation leaves no trace there.",
 [L+"multiobjective/nsga2.py", L+"multiobjective/ops.py", L+"ops.py"],
 [("merge, rank, crowd, truncate", "generalized_nsga_2")],
 ["parents, offspring and survivors of each generation"])

prop("C19", "Incremental layer updates keep the same layers as sorting from scratch",
 "After any sequence of insertions into the steady-state multi-objective population every individual's rank equals the Pareto layer it would get by sorting the whole population from scratch, and its crowding distance the one computed for that layer. The population never exceeds its size, and when it is full exactly one member leaves, one with the smallest crowding distance in the worst layer. An individual whose evaluation failed is never ranked among the others and only fills room nobody else needs; all this also holds under a parallel run for every completion order.",
 ["histories", "inputs", "schedules"], "all insertion sequences (failed evaluations included), numbers of objectives, directions, ties and duplicates, population sizes",
 "The error needs a sequence in which several displaced individuals move down together; the tests insert a few points once.",
 [L+"multiobjective/asynchronous.py", L+"multiobjective/ops.py", L+"distrib/asynchronous.py"],
 [("layer update", "enlu_inds_rank, ENLUInserter"), ("parallel driver", "steady_state_nsga_2")],
 ["population, ranks and distances after each insertion"],
 [("layers", "population split in Pareto layers", "ENLUInserter")])

prop("C20", "Binary decoders decode every bit string exactly",
 "The binary-to-integer decoders read consecutive groups of bits, most significant first, as plain or reflected Gray code, for any list of group widths and in any order of calls, and the binary-to-real decoders map each group linearly onto its interval, all zeros to the lower and the largest code to the upper bound. Hence plain decoding is monotone, Gray-adjacent codes differ by one, decoding is one-to-one, never leaves the bounds (beyond floating-point rounding), does not modify the genome and does not depend on earlier calls.",
 ["inputs", "histories", "configurations"], "all bit strings, group layouts, interval bounds and call sequences on one decoder",
 "Tests decode a few fixed strings with one layout; errors hide in layouts of mixed widths, decoder re-use and large widths.",
 [L+"binary_rep/decoders.py"],
 [("positional weights", "BinaryToIntDecoder"), ("Gray prefix xor", "BinaryToIntGreyDecoder"), ("linear scaling", "BinaryToRealDecoderCommon")],
 ["decoded values for whole code spaces and random layouts"])

prop("C21", "Segmented genomes keep their segments whole",
 "Segment operators only do what they say: adding inserts one freshly created segment, copying inserts one independent duplicate of an existing segment, removing deletes one and never the last, at the end when asked to append and otherwise anywhere, leaving all other segments unchanged and in order; per-segment mutation applies each given mutator to its own segment only. Created genomes have exactly the requested number of segments, decoding decodes every segment in order, and no two segments or individuals ever share storage.",
 ["inputs", "histories"], "all segmented genomes, probabilities, append modes and operator sequences",
 "Tests apply each operator once; shared storage or a lost segment only shows after further in-place operators.",
 [L+"segmented_rep/ops.py", L+"segmented_rep/decoders.py", L+"segmented_rep/initializers.py"],
 [("insert, copy, delete", "add_segment, copy_segment, remove_segment"), ("segment-wise mutation", "apply_mutation, segmented_mutate"), ("segment-wise decoding", "SegmentedDecoder")],
 ["segment lists before and after each operator"])

prop("C22", "Graph programs compute what their genome encodes",
 "A decoded Cartesian graph program returns, for every legal genome and every input, exactly the values obtained by interpreting the genome node by node (each node applying its primitive, with its own parameters if any, to as many of its inputs as the primitive takes, in order), whether or not unused nodes are pruned, and gives the same answer when called again; with pruning (the default), nodes that feed no output are never executed. The primitive sets that come with the library compute their published functions. The published gene bounds admit exactly the connections allowed by the layer structure and the levels-back limit, every created or mutated genome satisfies them, and the constraint check passes legal genomes and raises an error on every illegal one.",
 ["inputs", "programs", "configurations"], "all layouts (inputs, outputs, layers, nodes per layer, arity, levels back, parameters), primitives, genomes and inputs",
 "Tests decode two hand-written circuits; pruning, arity and ordering mistakes need other graphs.",
 [L+"executable_rep/cgp.py", L+"executable_rep/executable.py"],
 [("graph construction and pruning", "CGPDecoder, CGPWithParametersDecoder"), ("node evaluation order", "CGPExecutable"), ("gene bounds", "CGPDecoder.bounds, cgp_mutate, create_cgp_vector")],
 ["outputs of decoded programs vs a reference interpreter", "genomes produced by initialisers and mutators"])

prop("C23", "Rule systems fire the rule that best matches the input",
 "For every rule set and input the rule system's output is the (rounded) action of a rule with the smallest squared distance between input and condition intervals, where a bound pair with low above high matches everything; among rules that match exactly the first in rule order wins, and among equally close inexact matches each may be chosen. Created rule sets have one legal (low, high) pair per input dimension and a legal action for every box-shaped input space, decoding keeps rules and order, and rule mutation applies the condition and action mutators to their own genes only.",
 ["inputs", "configurations"], "all input and output spaces, rule sets (wildcards, overlaps, ties, gaps) and inputs",
 "Tests use one two-rule set and a few inputs; wrong winners need overlaps, gaps and wildcards.",
 [L+"executable_rep/rules.py"],
 [("match scores and conflict resolution", "PittRulesExecutable"), ("genome layout", "PittRulesDecoder")],
 ["chosen actions vs reference matching", "genomes of the initialiser and mutator"])

prop("C24", "Decoded neural networks compute the encoded layered function",
 "A genome decoded as a neural network computes, for every layer shape (zero-sized layers ignored), weights and input, the composition of layers activation(weights times inputs plus bias) with the genome read layer by layer, row by row and the bias weights last in each layer; wrong genome lengths are rejected, the input and the genome are not modified, and calls are repeatable. The sigmoid, ReLU and softmax activations are numerically exact and overflow-free for every finite input, the published graph has exactly the weights of the network, and the argmax wrapper returns the index of the largest output.",
 ["inputs", "configurations"], "all shapes, genomes, inputs of any magnitude and activations",
 "Tests use one fixed network; transposed weights, bias mix-ups or overflow show only for other shapes and magnitudes.",
 [L+"executable_rep/neural_network.py", L+"executable_rep/executable.py"],
 [("weight matrices", "SimpleNeuralNetworkDecoder"), ("forward pass", "SimpleNeuralNetworkExecutable"), ("wrapping", "ArgmaxExecutable, WrapperDecoder")],
 ["network outputs vs a reference forward pass"])

prop("C25", "Probes report the population truthfully and never disturb it",
 "Every probe returns the very population or stream it was given, unchanged (same objects, order, genomes and fitnesses, no random numbers consumed), and what it writes is true: best-so-far is the best individual seen so far in the problem's direction, statistics (mean, standard deviation, min, max, extra metrics) and attribute rows are those of the current population with the current step, one row per call or per interval, in order, with all requested columns. The live plot probes show, at every requested step, the values, points, rules or network of that population or of its best individual. The diversity metrics equal their definitions for every population.",
 ["inputs", "histories", "configurations"], "all populations, directions, numbers of steps, intervals, column selections and metrics",
 "Tests print one population in doctests; a best-so-far kept by the wrong direction or a skipped interval needs histories.",
 [L+"probe.py", L+"distrib/probe.py", L+"multiobjective/probe.py"],
 [("best so far", "BestSoFarProbe, BestSoFarIterProbe, FitnessStatsCSVProbe"), ("rows", "AttributesCSVProbe, print_probe, print_individual"), ("metrics", "pairwise_squared_distance_metric, sum_of_variances_metric, num_fixated_metric")],
 ["probe outputs (text, data frames, plotted data) vs recomputed values; population snapshots"])

prop("C26", "Real-valued benchmark functions equal their published formulas",
 "Every real-valued benchmark function returns the value of its documented formula for every point, dimension and parameter setting, has the documented global optimum value where one is defined, gives the same result whether the point is a list (where lists are accepted) or an array, never modifies its input and rejects points of the wrong kind or dimension where documented. Its default optimisation direction and published bounds are those documented.",
 ["inputs", "configurations"], "all points inside and outside the bounds, all dimensions and function parameters",
 "Tests evaluate each function at one or two points with default parameters; a wrong term or ignored parameter is invisible there.",
 [L+"real_rep/problems.py", L+"problem.py"],
 [("formulas", "SpheroidProblem ... ParabaloidProblem")],
 ["function values vs independent implementations"])

prop("C27", "Search-space transformations move a landscape without changing it",
 "A translated, scaled, linearly transformed or fitness-shifted problem takes at every point exactly the original's value at the inversely mapped point (plus the shift): the optimum moves to the offset, the new bounds map onto the old ones, and an orthonormal transformation preserves distances. Wrappers keep the original's optimisation direction unless told otherwise, compose in any nesting, never modify the input, reject points of the wrong dimension, and the generated multi-basin quadratic problems have exactly the requested basins and the recorded global optimum.",
 ["inputs", "programs", "configurations"], "all wrapped problems, offsets, bounds, matrices, nestings, dimensions and points",
 "Tests evaluate single wrappers at a few points; sign or order errors in nestings and other dimensions go unseen.",
 [L+"real_rep/problems.py", L+"problem.py"],
 [("coordinate maps", "TranslatedProblem, ScaledProblem, MatrixTransformedProblem"), ("fitness shift", "FitnessOffsetProblem"), ("Gram-Schmidt", "random_orthonormal_matrix"), ("minimum over basins", "QuadraticFamilyProblem")],
 ["values of wrapped problems vs the original at mapped points"])

prop("C28", "Discrete and multi-objective benchmarks equal their definitions",
 "Every bit-string benchmark (ones count or target match, leading ones, trap and plateau style functions, image matching) and every multi-objective benchmark returns exactly the value of its definition for every legal phenome, with the published bounds, dimensions and directions; on its known optimal set it takes the known optimal values. Inputs are never modified and phenomes outside the published domain are rejected when checking is on.",
 ["inputs", "configurations"], "all bit strings and real vectors of every legal length, all problem parameters",
 "Tests check one or two strings per problem; off-by-one in a threshold or a wrong term only shows at other inputs.",
 [L+"binary_rep/problems.py", L+"multiobjective/problems.py"],
 [("definitions", "MaxOnes, LeadingOnes, DeceptiveTrap, TwoMax, ImageProblem, SCHProblem, ZDT1-6")],
 ["function values vs independent implementations over whole small domains"])

prop("C29", "Problem adapters deliver the wrapped evaluation faithfully",
 "A function problem returns its function's value; the averaging problem returns the mean of exactly n independent evaluations of each phenome, in order, singly or in groups; the alternating problem uses the problem scheduled for the current generation for both evaluation and comparison; a constant problem returns its constant. The external-process problem sends one comma-separated line per phenome in order, returns the process's numbers in the same order, and raises an error instead of returning fitnesses when the process fails or returns too few or too many lines; it leaves no process or open pipe behind.",
 ["inputs", "histories", "fault_sequences"], "all phenome batches, wrapped problems, n, schedules, and failure modes of the external process",
 "Tests call one external command and one average; ordering, miscounts and failing processes are not covered.",
 [L+"problem.py"],
 [("expansion and averaging", "AverageFitnessProblem"), ("schedule", "AlternatingProblem"), ("pipe protocol", "ExternalProcessProblem")],
 ["calls received by instrumented problems and scratch processes, returned fitnesses"])

prop("C30", "Seeding the random sources makes every run reproducible",
 "With both random sources seeded and no parallelism, every operator, initialiser, problem and algorithm produces the same genomes, fitnesses, selections and written output on every repetition, in the same process or another, regardless of hash randomisation and of identities, memory addresses or time. Different seeds give different runs, and state left over from an earlier run does not leak into a new one.",
 ["programs", "configurations", "histories"], "all algorithms and operators, seeds and repetition histories",
 "Tests never run anything twice; an unseeded source or a dependence on hash order or leftover state makes experiments silently irreproducible.",
 [L+"ops.py", L+"algorithm.py", L+"simple.py", L+"multiobjective/nsga2.py", L+"real_rep/problems.py", L+"executable_rep/rules.py"],
 [("use of the two seeded global random sources only", "all stochastic code")],
 ["digests of complete run traces across repetitions and processes"])

prop("C31", "Initialisers sample legal genomes uniformly and independently",
 "Every initialiser returns a fresh genome of the requested length, type and structure on each call, with every gene inside its own inclusive bounds and both extremes reachable for integers, distributed uniformly and independently across genes and calls. Populations have exactly the requested number of distinct individuals of the requested class, each with its own genome, the given decoder and problem, no fitness and no parents; seeded initialisation returns the seeds first, in order, then fresh genomes.",
 ["inputs", "configurations"], "all lengths, bounds (degenerate, negative, per gene), structures and population sizes",
 "Tests draw a few genomes and check lengths; unreachable extremes, shared genomes or skewed sampling need many draws.",
 [L+"real_rep/initializers.py", L+"int_rep/initializers.py", L+"binary_rep/initializers.py", L+"segmented_rep/initializers.py", L+"representation.py", L+"individual.py", L+"contrib/transfer/sequential.py"],
 [("uniform draws", "create_real_vector, create_int_vector, create_binary_sequence"), ("population creation", "Representation.create_population"), ("seeding", "initialize_seeded")],
 ["large samples of created genomes and individuals"])

prop("C32", "Landscape features and statistical helpers compute their definitions",
 "The convexity features are computed from the requested number of convex combinations of distinct pairs of the given sample: every reported difference is the new point's fitness minus the same combination of the pair's fitnesses, and the convex and linear ratios, mean and mean absolute deviation follow from those differences, so a linear landscape is reported linear and a strictly convex one convex. The distribution tests accept equal and reject clearly different samples at the given level, curve analysis reports the true averages and areas under the curves, and a seeded repertoire keeps and reuses exactly the best solutions found.",
 ["inputs", "configurations"], "all problems, samples, thresholds, data frames and distributions",
 "Tests look at one landscape and one data set; wrong pairing or thresholds produce plausible numbers.",
 [L+"landscape_features/exploratory.py", L+"statistical_helpers.py", L+"contrib/analysis.py", L+"contrib/transfer/sequential.py"],
 [("pairs, combinations, deltas", "ELAConvexity"), ("chi-square and t tests", "stochastic_equals, equals_uniform, equals_gaussian"), ("aggregation", "CurveAnalyzer, auc, max_value")],
 ["features vs recomputation from the exposed pairs and combinations"])

prop("C33", "Controllers are scored by what they actually do in their environment",
 "The environment problem runs the controller for the requested number of independent runs and at most the requested steps, feeds it each observation the environment produced, in order, applies the action it returned, stops a run at termination or truncation when asked to, and reports the mean total reward (or mean number of observations) over the runs. The truth-table problem returns the fraction of all input combinations, each tried exactly once, on which all outputs agree, and the image problem the distance between generated and target image.",
 ["inputs", "histories"], "all environments (rewards, termination patterns), controllers, numbers of runs and steps, Boolean functions and images",
 "Tests run one standard environment and compare nothing step by step.",
 [L+"executable_rep/problems.py", L+"executable_rep/executable.py"],
 [("simulation loop", "EnvironmentProblem.evaluate"), ("table enumeration", "TruthTableProblem"), ("pixel distance", "ImageXYProblem")],
 ["interaction log of a scripted environment, returned fitness"])

prop("C34", "Plots show the landscape and the recorded data they are given",
 "A landscape plot (surface, contour, or the background of a plot probe) is drawn at exactly the grid points of the requested limits and spacing (by default the problem's bounds and a fiftieth of them), with the value of the function there, hidden dimensions filled with the padding given, and on exactly the axes given, with the title there too. A live plot probe widens its axes so that every plotted point and the limits asked for stay visible. Curve plots and the plot commands draw every run's curve once, the mean curve with error bars of one standard deviation, or the distribution of each experiment's scores, with one colour and legend entry per experiment, as computed from the table, on the axes given and nowhere else.",
 ["inputs", "configurations"], "all functions and problems, limits, spacings, paddings, axes, populations and result tables",
 "Tests only check that plotting does not crash; no test compares what is drawn with the data.",
 [L+"real_rep/problems.py", L+"probe.py", L+"contrib/analysis.py", L+"multiobjective/probe.py"],
 [("landscape plots", "plot_2d_problem, plot_2d_function, plot_2d_contour"), ("probe backgrounds and limits", "CartesianPhenotypePlotProbe, SumPhenotypePlotProbe, PopulationMetricsPlotProbe"), ("curve plots", "CurvePlotter, plot commands")],
 ["arrays handed to the drawing calls, contents of the axes afterwards"])

prop("C35", "Runs under way at the same time do not disturb each other",
 "Any number of runs (generational, multi-population, cooperative, multi-objective, random search) advanced in any interleaving, each with its own context, counters, probes and migration, give each run exactly the individuals, fitnesses, output and counts that it gives alone with the same random draws, also when they share problems, decoders, representations and stateless operators. A run that is given a context of its own neither reads nor changes the global one or another run's. No individual, fitness or record of one run ever turns up in another, even in free-running threads.",
 ["schedules", "programs", "configurations"], "all algorithms, configurations, interleavings of several runs, and sets of shared operators and problems",
 "Tests run one algorithm at a time; state kept in an operator, a class, a module or the global context shows only when two runs overlap.",
 [L+"ops.py", L+"algorithm.py", L+"util.py", L+"probe.py", L+"problem.py", L+"multiobjective/nsga2.py", L+"multiobjective/asynchronous.py"],
 [("context passed down", "generational_ea, multi_population_ea, generalized_nsga_2, probes, migrate, CooperativeEvaluate"), ("state per stream, not per operator", "Crossover.__call__, selection generators"), ("state per instance", "ENLUInserter, probes, counters")],
 ["digests of complete traces of each run, alone and interleaved", "global context before and after"])

prop("C36", "Copied, transported and resumed work behaves like the original",
 "A problem, decoder, program, operator, individual or population that is deep-copied, or pickled as for another process, at any point of its history behaves exactly like the original under the same random draws, keeps every attribute (identity, lineage, fitness, sharing within a population), and is independent of it. A run saved after any generation (population and random sources) and resumed with that start generation, in the same or another process, takes exactly the course it would have taken uninterrupted.",
 ["histories", "crash_points", "inputs"], "all kinds of objects, configurations, usage histories before copying, and cut points of runs",
 "Tests copy nothing and resume nothing; state that is lost, shared or rebuilt differently shows only after transport to a worker or a restart.",
 [L+"individual.py", L+"problem.py", L+"algorithm.py", L+"ops.py", L+"multiobjective/nsga2.py", L+"executable_rep/cgp.py", L+"executable_rep/rules.py", L+"executable_rep/neural_network.py", L+"real_rep/problems.py", L+"binary_rep/decoders.py"],
 [("plain state of individuals, problems, decoders and programs", "Individual, Problem, Decoder, Executable"), ("resuming", "start_generation of generational_ea and generalized_nsga_2")],
 ["behaviour of original and copy side by side", "trace of the cut and of the uncut run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
for p in P:
    n = p["statement"].count(". ") + 1
    if n > 3: print("too long:", p["id"], n)
