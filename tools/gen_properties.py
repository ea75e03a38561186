#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["include/dcgp/" + f for f in files], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where="include/dcgp/" + b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
EX, EW, EA = "expression.hpp", "expression_weighted.hpp", "expression_ann.hpp"
SR = "problems/symbolic_regression.hpp"
p("C01", "Every expression encodes a feed-forward graph within its declared bounds",
  "After construction with any accepted arguments and after any sequence of public operations, the chromosome of an expression has the length its grid and arities prescribe and each gene lies between its published lower and upper bound. The bounds themselves are the Cartesian ones: function genes address the kernel set, the connection genes of a node address only inputs or nodes of earlier columns within levels-back (never the same or a later column), output genes address inputs or nodes within levels-back. The published start position of each node's genes is the one this layout implies, different nodes never share genes.",
  ["inputs", "histories", "configurations"], "all numbers of inputs, outputs, rows, columns, levels-back, per-column arities, kernel sets, ephemeral constants and seeds whose chromosome length is representable; all sequences of public operations, for expressions, weighted expressions and ANN expressions",
  "The tests construct a few fixed shapes (mostly one arity) and look at a few bounds vectors; the layout is a nested-loop index computation over arbitrary shapes and per-column arities.",
  [EX, EW, EA], [("constructors / bound and chromosome initialisation", EX), ("chromosome validation in the setters", EX), ("mutation operators", EX)],
  [("chromosome", "the encoded genes", "expression"), ("lower/upper bounds", "per-gene bounds", "expression"), ("gene index", "first gene of each node", "expression")],
  ["get", "get_lb", "get_ub", "get_gene_idx", "get_arity"])
p("C02", "Active nodes and active genes are exactly what the outputs depend on",
  "At all times the reported active nodes are, in strictly increasing order and without repetition, exactly the nodes reachable backwards from the output genes through connection genes; the reported active genes are exactly the genes of the active non-input nodes, in order, followed by the output genes, and the per-node and per-gene activity queries agree with those lists. This holds after construction, after every accepted mutation or chromosome change, and also when an operation ended by throwing.",
  ["inputs", "histories", "configurations"], "all shapes, all chromosomes within bounds, all sequences of public operations including those that throw",
  "Tests compare the lists for two or three hand-written chromosomes; exactness of a graph closure over all chromosomes and after all histories is not sampled.",
  [EX, EW, EA], [("update of the chromosome-dependent data", EX), ("mutation operators and setters", EX)],
  [("active nodes", "closure of the outputs", "expression"), ("active genes", "genes of active nodes plus outputs", "expression")], ["get_active_nodes", "get_active_genes", "is_active_node", "is_active_gene"])
p("C03", "Numeric evaluation computes the value of the encoded graph",
  "Evaluating an expression at a point whose size is the number of inputs returns, for each output, the value obtained by recursively applying to each node the kernel its function gene selects on the values of the nodes its connection genes select, inputs being the point followed by the ephemeral constants. In a weighted expression each connection value is first multiplied by the weight of that connection; in an ANN expression, in addition, the bias of the node is added before the kernel is applied. A point of any other size is rejected with an invalid-argument error, and a phenotype correction installed in a plain expression receives the point and this evaluation function and its result is what is returned.",
  ["inputs", "configurations"], "all shapes, chromosomes, kernels, weights, biases, ephemeral constants and points, for plain, weighted and ANN expressions",
  "Tests evaluate a handful of fixed chromosomes; errors that appear only with mixed arities, several rows, inactive regions or repeated connections are not reached.",
  [EX, EW, EA], [("numeric call operators", EX), ("weighted kernel call", EW), ("node evaluation", EA)], (), ["operator()"])
p("C04", "Symbolic evaluation writes the formula of the same encoded graph",
  "Evaluating an expression on input symbols returns for each output the string obtained by applying the printing form of the same kernels along the same graph that numeric evaluation uses, input symbols being the given ones followed by the names of the ephemeral constants. Weighted and ANN expressions name the weight of connection j of node i wi_j and, for ANN, the bias of node i bi, and place them on the connection and node where numeric evaluation uses the corresponding value. A wrong number of symbols is rejected with an invalid-argument error.",
  ["inputs", "configurations"], "all shapes, chromosomes, kernel sets and symbols, for plain, weighted and ANN expressions",
  "Tests compare a few literal strings; agreement of two separately written evaluators over all graphs is not sampled.",
  [EX, EW, EA], [("symbolic call operators", EX), ("symbolic kernel call", EW), ("symbolic kernel call", EA)], (), ["operator() on strings"])
p("C05", "Mutations change only what they say, to a different value within bounds",
  "Mutating given gene indices changes no other gene and gives each of those genes whose bounds allow more than one value a different value within its bounds (the same gene listed several times may end at its old value). Mutating N random, active, active function, active connection or active output genes changes at most N genes, each of that kind (active: when the call was made, or when the gene is changed), and mutating inactive genes changes at most N genes none of which was active, so that it never changes the active nodes or the value of the expression. An index out of range is rejected with an invalid-argument error and leaves the expression as it was.",
  ["inputs", "histories", "configurations"], "all shapes, chromosomes, index vectors, N and random engine states",
  "Tests run a few seeds and check that something changed; the frame (nothing else changed, for every engine state) and zero/one-output corner cases cannot be sampled.",
  [EX], [("mutate, mutate_random, mutate_inactive, mutate_active, mutate_active_fgene, mutate_active_cgene, mutate_ogene", EX)],
  [("chromosome", "the encoded genes", "expression")], ["get", "mutate*"])
p("C06", "Setters accept exactly valid arguments and a rejected call changes nothing",
  "Setting a chromosome (from a vector or a range) is accepted exactly when its length is right and each gene is within its bounds, and then becomes the chromosome; setting a function gene is accepted exactly for an existing non-input node and an existing kernel and then changes that one gene; setting the values or names of ephemeral constants, or all weights or biases, is accepted exactly when the number matches. Anything else is rejected with an invalid-argument error and leaves the expression observably unchanged. Construction is rejected exactly when a dimension, levels-back or arity is zero, the arity vector does not match the columns or the kernel set is empty, and, for ANN expressions, when a kernel is not a supported activation; single weights and biases are addressed only by existing indices.",
  ["inputs", "fault_sequences"], "all argument values, valid or not, on all expressions",
  "Tests try a few wrong sizes; they do not check that acceptance is exact nor that a failed call leaves the object unchanged.",
  [EX, EW, EA], [("chromosome validation", EX), ("set_f_gene, set_eph_val, set_eph_symb", EX), ("sanity checks", EX), ("set_weights, set_biases, set_output_f", EA), ("set_weight, get_weight, set_weights", EW)], (), ["setters", "constructors"])
p("C07", "Weights and biases are addressed one-to-one by node and connection",
  "In weighted and ANN expressions, setting the weight of connection j of node i changes exactly one weight, the one evaluation uses on that connection, and reading it back by node and connection returns it; different (node, connection) pairs address different weights and together they address every weight exactly once, in node order. The same holds for biases per node, and the weight names list the pairs in that same order. Non-existing nodes or connections are rejected with an invalid-argument error.",
  ["inputs", "configurations"], "all shapes with per-column arities, all nodes, connections and values",
  "The weight position is computed from the gene position; tests use uniform arity and single nodes, where several wrong formulas agree.",
  [EW, EA], [("set_weight / get_weight", EW), ("set_weight / get_weight / set_bias / get_bias", EA), ("constructors", EA)], (), ["get_weight", "get_weights", "get_bias", "get_biases"])
p("C08", "ANN loss gradients are the reverse-mode derivatives of the loss",
  "For any ANN expression and data, the gradient returned with the loss is the mean over the data of the derivative of the single-sample loss: for every weight the error signal of the node times the value on that connection, for every bias the error signal of the node, where the error signal is the kernel derivative times the weighted sum of the signals of all connections fed plus the derivative of the loss for each output attached. Each kernel derivative is the true derivative of the kernel at that input (at every point where it is differentiable), parameters of inactive nodes get zero, and the value returned is the loss itself, whatever the parallel split. For the cross entropy the labels of a sample sum to one.",
  ["inputs", "configurations"], "all network shapes and connections (repeated connections, several outputs on one node, outputs on inputs), all supported kernels, weights, biases, data, both losses, all admissible parallel splits",
  "Tests compare a few random networks against finite differences with a tolerance and few kernels; special points, multi-edges and shared outputs are not covered for all.",
  [EA, "wrapped_functions.hpp"], [("forward pass with kernel derivatives", EA), ("backward pass", EA), ("reverse connection table", EA)], [("reverse connections", "for each node the connections it feeds", "expression_ann")], ["d_loss"])
p("C09", "An SGD epoch uses every sample once and applies the exact update rule",
  "One call of stochastic gradient descent presents every sample with its own label exactly once, in consecutive batches of the requested size (the last possibly smaller), and after each batch replaces every weight and bias p by p minus the learning rate times the batch-mean derivative for p and nothing else in the network. It returns the mean of the batch losses, each evaluated before its update. Different numbers of points and labels, empty data, a non-positive learning rate, a zero batch size or an unknown loss are rejected with an invalid-argument error before anything changes.",
  ["inputs", "configurations"], "all data sizes, batch sizes (larger than the data, not dividing it, zero), learning rates, losses, shuffles and parallel splits",
  "Tests only check that the loss goes down on one data set.",
  [EA], [("sgd, update_weights", EA)], (), ["sgd", "get_weights", "get_biases"])
p("C10", "The loss is the mean of MSE or cross-entropy, whatever the parallel split",
  "The loss on one sample is the mean over outputs of the squared error, or minus the sum over outputs of label times log of the softmax of the outputs; the loss on a data set is the mean over its samples. A parallel split that divides the number of samples gives the same value up to the order of summation, with every sample counted exactly once. Wrong input or label dimensions, empty or mismatched data, an unknown loss name or a split that does not divide the data are rejected with an invalid-argument error.",
  ["inputs", "configurations", "schedules"], "all expressions, data, both losses, all splits and all interleavings of the parallel tasks",
  "Tests check a few values and two splits; neither all splits nor all schedules.",
  [EX, EA], [("loss", EX), ("d_loss (batch)", EA)], (), ["loss"])
p("C11", "Each named kernel computes and prints the function its name stands for",
  "For every kernel name the kernel set accepts, the kernel obtained has that name, its numeric and its printed form describe the same function of the arguments (n-ary kernels over all of them), and this holds for the double and the differential instantiations alike; an unknown name is rejected with an invalid-argument error and leaves the set unchanged. Protected division and protected square root never return a non-finite value where the protection is documented to apply. Kernels sit in a kernel set in the order they were added.",
  ["inputs", "configurations"], "all kernel names, all argument vectors of admissible length, all three number types and strings",
  "Tests evaluate each kernel at one or two points; the pairing of name, number function and print function is only sampled.",
  ["wrapped_functions.hpp", "kernel_set.hpp", "kernel.hpp"], [("kernel functors", "wrapped_functions.hpp"), ("name dispatch", "kernel_set.hpp")], (), ["kernel_set", "kernel"])
p("C12", "Function wrappers have value semantics and forward every call unchanged",
  "A function wrapper returns exactly what the wrapped callable returns for the same arguments; copying, assigning, moving, or swapping wrappers yields independent values that wrap the same (copied) callable, self-assignment included, and the thread-safety level stays with the callable. Calling a wrapper that holds nothing callable (moved-from, or built from a null function pointer) raises an error instead of being undefined. A kernel built from two callables forwards to them and keeps its name.",
  ["inputs", "histories"], "all callables (functors, lambdas, function pointers, null pointers), all sequences of copies, moves and assignments",
  "Tests cover some callables and one copy; not all sequences of value operations.",
  ["function.hpp", "kernel.hpp"], [("type-erased wrapper", "function.hpp"), ("kernel", "kernel.hpp")], (), ["function", "kernel"])
p("C13", "Saving and loading restores every part of an object's observable state",
  "Serializing any kernel, function wrapper, expression (plain, weighted, ANN), symbolic regression problem or evolutionary algorithm and loading it into another object gives an object observably equal to the original: same parameters, chromosome, constants, weights, activity data, thread-safety level, tolerances, policies, random engine state and log, so that all later operations agree. Nothing of the state the target had before survives.",
  ["inputs", "histories"], "all serializable objects in all states reachable by public operations",
  "Tests round-trip one default-ish object per class and compare a few getters or the printed form; a member forgotten in the archive keeps its default and goes unseen.",
  ["function.hpp", "kernel.hpp", EX, EW, EA, SR] + ["algorithms/%s.hpp" % a for a in ("es4cgp", "gd4cgp", "mes4cgp", "moes4cgp", "momes4cgp")],
  [("serialize members", f) for f in ["function.hpp", "kernel.hpp", EX, EW, EA, SR]], (), ["boost archives"])
p("C14", "The global seed sequence is deterministic and safe under concurrency",
  "After setting the global seed to a value, the sequence of numbers handed out is a function of that value alone: setting the same seed again restarts the same sequence. Concurrent requests from any number of threads each receive an element of that sequence and no element is handed out twice or lost, and no access to the shared engine happens without exclusion.",
  ["schedules", "inputs"], "all seeds, all numbers of threads and interleavings of requests and reseeding",
  "Tests draw a few numbers in one thread.",
  ["rng.hpp"], [("mutex-protected engine", "rng.hpp")], [("global engine", "the shared Mersenne twister", "rng.hpp")], ["random_device::next", "random_device::set_seed"])
p("C15", "Symbolic regression decodes, bounds and scores decision vectors faithfully",
  "A decision vector is the ephemeral constants followed by the chromosome: the box bounds are [-10, 10] for each constant and the expression's own bounds for each gene, and the integer dimension is the chromosome length. The fitness of a vector is the loss on the data of the expression it encodes, with the number of active genes as second objective when multi-objective, and predictions and printed formulas are those of that same expression; all of them depend only on the vector, the data, the kernels and the phenotype correction currently set, never (up to rounding) on earlier queries. Inconsistent or empty data, zero rows, columns or levels-back, an arity below two, an empty kernel set or an unknown loss are rejected at construction with an invalid-argument error.",
  ["inputs", "histories", "configurations"], "all data sets, shapes, kernels, losses, decision vectors within bounds, and all sequences of fitness, gradient, hessian, predict and correction calls",
  "Tests evaluate a few vectors on fresh problems; order-dependence through cached state and rejected construction data are not explored.",
  [SR], [("fitness, set_cgp, predict, pretty, get_bounds, get_nix, sanity checks", SR)], [("fitness cache", "last differentiated vector and value", "symbolic_regression")], ["fitness", "predict", "pretty", "get_bounds"])
p("C16", "Gradients and Hessians of symbolic regression match their declared sparsity",
  "The gradient has one entry per ephemeral constant, entry i being the derivative of the loss with respect to constant i, and its declared sparsity lists exactly those pairs in that order. The Hessian of the loss has one entry for each pair (i, j) with j at most i in row order, entry (i, j) being the second derivative with respect to constants i and j, exactly as its declared sparsity says; the second objective, when present, contributes only zeros. A loss that does not depend on the constants gives zeros.",
  ["inputs", "configurations"], "all problems, numbers of ephemeral constants and decision vectors",
  "Tests check problems with one to three constants at a few points.",
  [SR], [("gradient, hessians, gradient_sparsity, hessians_sparsity", SR)], (), ["gradient", "hessians", "gradient_sparsity", "hessians_sparsity"])
p("C17", "Single-objective evolvers never lose the best and keep fitness consistent",
  "After es4cgp, mes4cgp or gd4cgp (with its default selection and replacement policies) evolve a population, it has the same size, the fitness of each individual is the fitness of its decision vector, the best fitness is no worse than before, and the best it logs never gets worse; integer parts stay integral and within bounds. Zero generations leave the population unchanged.",
  ["inputs", "histories", "configurations"], "all populations, problems, parameters, seeds and generation counts",
  "Tests run a few generations on one problem and check little more than that it runs.",
  ["algorithms/es4cgp.hpp", "algorithms/mes4cgp.hpp", "algorithms/gd4cgp.hpp"], [("evolve", "algorithms/%s.hpp" % a) for a in ("es4cgp", "mes4cgp", "gd4cgp")], (), ["evolve"])
p("C18", "Multi-objective evolvers keep a valid, consistent, non-degrading population",
  "After moes4cgp or momes4cgp evolve a population, it has the same size, the fitness of each individual is the fitness of its decision vector, integer parts are integral and within bounds, and no individual of the population before a generation strictly dominates every individual after it. Zero generations leave the population unchanged.",
  ["inputs", "histories", "configurations"], "all populations, problems, parameters, seeds and generation counts",
  "Tests run a few generations on one problem.",
  ["algorithms/moes4cgp.hpp", "algorithms/momes4cgp.hpp"], [("evolve", "algorithms/%s.hpp" % a) for a in ("moes4cgp", "momes4cgp")], (), ["evolve"])
p("C19", "With constant learning off, evolution strategies leave constants untouched",
  "When learning of constants is disabled, every individual es4cgp or moes4cgp produces carries the ephemeral constants of the individual it was mutated from, bit for bit; when it is enabled the constants may change. gd4cgp changes constants only, never the chromosome.",
  ["inputs", "histories", "configurations"], "all populations, problems with any number of ephemeral constants, parameters and seeds",
  "The tests run the option only on problems where constants are not examined.",
  ["algorithms/es4cgp.hpp", "algorithms/moes4cgp.hpp", "algorithms/gd4cgp.hpp"], [("mutation step of evolve", "algorithms/es4cgp.hpp"), ("mutation step of evolve", "algorithms/moes4cgp.hpp")], (), ["evolve"])
p("C20", "Evolvers reject bad parameters and unsuitable problems before touching anything",
  "Constructing an evolver with a zero mutation count, a negative tolerance, or, for gd4cgp, an out-of-range learning rate is rejected with an invalid-argument error. Evolving a population whose problem is not a symbolic regression problem, has the wrong number of objectives, needs differentiation without constants where that is required, or, for the evolution strategies, which has fewer than two individuals is rejected with an invalid-argument error, and the caller's population is unchanged.",
  ["inputs", "configurations"], "all parameter values and all problems and populations",
  "Tests try a few wrong parameters per algorithm.",
  ["algorithms/%s.hpp" % a for a in ("es4cgp", "gd4cgp", "mes4cgp", "moes4cgp", "momes4cgp")], [("constructor and evolve checks", "algorithms/%s.hpp" % a) for a in ("es4cgp", "gd4cgp", "mes4cgp", "moes4cgp", "momes4cgp")], (), ["constructors", "evolve"])
p("C21", "Benchmark generators return the documented data, aligned point by label",
  "Each generator of the gym replaces whatever its two arguments held by the documented number of points of the documented dimension, inside the documented domain, with one label per point equal to the documented function of that point. The result is the same on every call. Real-data generators return the data set of that name (for the NIST problems the one whose certified residual sum of squares is published) with one label per point.",
  ["inputs", "configurations"], "all generators, all previous contents of the arguments, all points",
  "Tests compare labels with the same function the generator calls, so a wrong function, domain or count agrees with itself.",
  ["gym.hpp", "misc_data.hpp", "nist_data.hpp"], [("generators", "gym.hpp")], (), ["generate_*"])
p("C22", "Same seed and inputs give the same expressions, mutations and evolutions",
  "Two expressions constructed with the same arguments and seed are equal and stay equal under the same sequence of operations, reseeding an expression makes later mutations a function of the seed and chromosome alone, and copies evolve independently of their source. An evolver given the same seed, parameters and population returns the same population; no operation on an expression (but the shuffling of sgd and the randomise defaults, which ask the system for a seed) draws from, or advances, randomness other than its own engine.",
  ["inputs", "histories"], "all arguments, seeds and operation sequences",
  "Tests check one seed for one or two algorithms.",
  [EX, "algorithms/es4cgp.hpp", "algorithms/moes4cgp.hpp", "algorithms/mes4cgp.hpp", "algorithms/momes4cgp.hpp"], [("seeded engines", EX), ("seeded engines", "algorithms/es4cgp.hpp")], [("engine", "per-object random engine", "expression")], ["seed", "evolve"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
