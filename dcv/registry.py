"""All contracts, and which of them decide which property."""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/eng', HERE + '/specs']
import layout, expr, evalu, weights, ann, rng, gym, ring, kern, func, ser, sr, loss, grad, evo, det
LEMMAS = {'lemma:layout': layout.lemma_obligations, 'lemma:count': layout.nch_lemmas, 'lemma:weights': evalu.weight_lemmas, 'lemma:sums': loss.lemma_obligations, 'lemma:connections': lambda: layout.conn_lemmas() + layout.gap_lemmas()}
LL, LW = ['lemma:layout', 'lemma:count'], ['lemma:layout', 'lemma:weights']
OPQ = dict(opaque={'dcgp::kernel<double>', 'dcgp::function'})
GROUPS = {'expr': (dict(evalu.BASE, **expr.REG), OPQ),
          'rng': (rng.REG, {}),
          'gym': (gym.REG, dict(ex_cls=ring.RingExec)),
          'func': (func.REG, func.KW),
          'kset': (kern.REGK, kern.KSKW),
          'kern': (kern.REG, kern.KW),
          'lane': (kern.REGL, kern.KW),
          'ser': (ser.REG, ser.KW),
          'fser': (dict(func.REG, **ser.REGF), ser.FKW),
          'sr': sr.GROUP,
          'loss': loss.GROUP, 'grad': grad.GROUPG, 'evo': evo.GROUP,
          'ann': (dict(evalu.BASE, **dict(expr.REG, **ann.REGA)), OPQ)}

SCANS = {'scan:global engine': rng.scan, 'scan:randomness': det.scan, 'scan:data tables': gym.scan}


def setup(key):
    grp, sig = key.split('|', 1)
    regs, kw = GROUPS[grp]
    return regs[sig], dict(regs), dict(kw)


def seconds(key, default):
    """how long the proof of a function may take, before solver budgets are enlarged"""
    if '|' not in key:
        return default
    grp, sig = key.split('|', 1)
    return getattr(GROUPS[grp][0].get(sig), 'seconds', default)


E = expr.E
TRUSTED = [
    'clang 18 as the C++ front end: the extractor reads the instantiated AST the compiler builds from /repo/include and drops nothing but attributes and comments',
    'the extractor and the symbolic execution engine in /verif/dcv (verification condition generator)',
    'z3 as the deciding solver',
    'models of the standard library functions listed under "modelled" of each function',
    '/verif/dcv/stubs: stand-ins for the AuDi and SymEngine headers, which are not installed',
]
ASSUMPTIONS = [
    'partial correctness: termination is not proved',
    'sizes implied by the dimensions fit the unsigned type (32 bits); unsigned arithmetic is checked not to wrap where a result is used as a size or index',
    'floating point values are uninterpreted except for the comparison axioms; additions and products are the machine operations applied in the order of the program, whatever they compute',
]


def ek(*names):
    return ['expr|' + E + n if n.startswith('::') else 'expr|' + n for n in names]


INIT = ek('::init_bounds_and_chromosome()', '::sanity_checks()', '::update_data_structures()')
CHECKS = ['expr|' + k for k in expr.REG if '::check_cgp_encoding' in k]
SETTERS = ['expr|' + k for k in expr.REG if '::set(' in k or '::set_from_range' in k or '::set_f_gene' in k]
EPH = ['expr|' + k for k in expr.REG if '::set_eph' in k]
MUT = ['expr|' + k for k in expr.REG if '::mutate' in k]
CTORS = ['expr|' + k for k in (expr.CTOR_V, expr.CTOR_U)]
GET = ['expr|' + k for k, c in expr.REG.items() if getattr(c, 'getter', False)]
QUERY = ek('::is_active_node(const unsigned int)', '::is_active_gene(const unsigned int)', '::get_arity(unsigned int)')


def sel(keys, *names):
    return [k for k in keys if any('::%s(' % n in k for n in names)]


SRA = ['AuDi: the derivative of a differential number at a symbol is the partial derivative; the constant coefficient of the differential loss is the loss computed with doubles when no kernel is the protected division',
       'the functions standing for evaluation, loss, active genes and bounds of an expression are those of the contracts of C01-C04 and C10 (not derived again here)',
       'numbers are compared as identities: equal doubles are taken to be the same value',
       'decision vectors have the dimension of the problem, with integral genes within bounds (what pagmo guarantees)',
       'the parallel split and the data suit the loss (rejected by the loss otherwise)']

EVA = ['the population handed over is consistent: each individual is a legal decision vector of its problem and carries its fitness',
       'fewer than 2^32 - 1 generations; at most 2^32 individuals; the decision vectors of one generation fit in a vector; at least one mutation (the constructors see to that)',
       'the fitness is a function of the decision vector (C15), and expressions set from legal genes and mutated stay legal (C01, C05)',
       'gd4cgp: a population that is not empty and the default policies of selection and replacement',
       'pagmo: sorting, selection and the batch evaluation do what their documentation says; a batch is evaluated row by row']
PAGMO = ['models of pagmo::population, problem, bfe, best_idx, sort_population_con, select_best_N_mo, ideal and nadir in specs/evo.py; Eigen computes any numbers']
THROWN = ['^does not return when', '^throws ', '^on throw', '^does not throw']
SEEDED = ['seed', '^(on throw: )?frame', '^ensures: .* is the argument', '^ensures: the value of the field']
CONSTANTS = ['^ensures: the constants are those', '^ensures: only the best individual', '^ensures: and only its constants']


def EVOLVE(*names):
    return ['evo|' + k for n in names for k in evo.REG if 'dcgp::%s::evolve(' % n in k]


PROPS = {
    'C01': dict(contracts=INIT + CTORS + CHECKS + SETTERS + MUT + sel(GET, 'get', 'get_lb', 'get_ub', 'get_gene_idx'), lemmas=LL, replay=[('chromosome', 20)],
                not_this_property=['active', 'engine is seeded', 'engine has been seeded']),
    'C02': dict(contracts=INIT + CTORS + SETTERS + MUT + QUERY + sel(GET, 'get', 'get_active_nodes', 'get_active_genes'), lemmas=LL, replay=[('chromosome', 20)],
                not_this_property=['engine is seeded', 'engine has been seeded']),
    'C05': dict(contracts=MUT, lemmas=LL, replay=[('chromosome', 20)]),
    'C06': dict(contracts=INIT + CTORS + CHECKS + SETTERS + EPH, lemmas=LL, replay=[('chromosome', 20)],
                not_this_property=['engine is seeded', 'engine has been seeded']),
    'C03': dict(contracts=['expr|' + k for k in (evalu.Impl.sig, evalu.EvalNum.sig, evalu.WEval.sig, evalu.AEval.sig)], lemmas=LW, replay=[('network', 20)]),
    'C07': dict(contracts=['expr|' + k for k in expr.REG if re.search('::([sg]et_weights?|[sg]et_bias(es)?|expression_weighted)\\(', k)], lemmas=LW, replay=[('network', 20)]),
    'C10': dict(contracts=['loss|' + k for k in loss.REG], lemmas=['lemma:sums'], replay=[('network', 20)],
                note='for the loss of one sample, of a range of samples (sequential and split into tasks) and of a data set: the real number the result stands '
                     'for is the formula, the iterations of the parallel loop sharing only what they touch under the mutex; every rejection is exact',
                assumptions=['rounding is not modelled: the contracts speak of the real number each machine operation stands for',
                             'tbb::parallel_for runs its body once for each index; tasks that meet only under one mutex add up as in any order']),
    'C04': dict(contracts=['expr|' + k for k in (evalu.EvalStr.sig, evalu.WEvalStr.sig, evalu.AEvalStr.sig)], lemmas=LW, replay=[('network', 20)]),
    'C14': dict(contracts=['rng|' + k for k in rng.REG], lemmas=['scan:global engine'], replay=[('rng', 12), ('rng_tsan', 12)],
                note='sequential contracts, lock discipline as obligations at every access, and a scan that nothing else reaches the engine; '
                     'mutual exclusion makes each call atomic, so concurrent calls are some interleaving of whole calls',
                assumptions=['std::mutex excludes; std::mt19937 output and state change are functions of its state; its state after seed(s) is a function of s']),
    'C21': dict(contracts=['gym|' + k for k in gym.REG], lemmas=['scan:data tables'], replay=[('gym', 15)],
                note='one contract per benchmark function (its value is the documented formula) and per generator (number, dimension, coordinates and labels '
                     'of the points, for all previous contents of the arguments); the data tables are closed constants and are evaluated',
                assumptions=['doubles are read as real numbers in these contracts: a formula rearranged within rounding counts as the same',
                             'std::uniform_real_distribution gives numbers within its bounds, and takes the same number of words from the engine at every draw']),
    'C11': dict(contracts=['kern|' + k for k, c in kern.REG.items() if not getattr(c, 'assumed', False)] + ['lane|' + k for k in kern.REGL] + ['kset|' + k for k in kern.REGK], replay=[('kernels', 20)],
                note='for each name and number type: the value is the fold (sum, difference, product, quotient) of all arguments, put through the function named, '
                     'for any number of arguments; the text is that function of the joined argument texts; the name dispatch pairs the two; the set keeps order and '
                     'contents for all histories; that the formula and its text agree in floating point is replayed',
                assumptions=['doubles are read as real numbers in the formulas: rearrangement within rounding counts as the same',
                             'differential numbers are read as elements of the same ring (a formula gives the same value whichever type it is written for); '
                             'AuDi itself is not installed and not verified',
                             'a kernel has at least one argument']),
    'C12': dict(contracts=['func|' + k for k, c in func.REG.items() if not getattr(c, 'assumed', False)] +
                ['kset|' + k for k in kern.REGK if 'dcgp::kernel<' in k.split('(')[0]], replay=[('function', 20)],
                note='the erased interface has a contract (clone equals, call and thread safety are those of the held callable), which each instantiation of the '
                     'inner class is shown to meet; the wrapper is verified against that interface, for held callables of any type, aliased assignment included',
                assumptions=['the template is verified at three kinds of callable (without and with a thread-safety level, function pointer) of signature '
                             'double(const std::vector<double> &); other instantiations come from the same source and are replayed']),
    'C13': dict(contracts=['ser|' + k for k in ser.REG] + ['fser|' + k for k in ser.REGF], replay=[('function', 12), ('symreg', 15), ('evolvers', 15)],
                note='one contract per serialize member, over the saving and the loading instantiation together: an object of any state is saved, another of any '
                     'state is loaded from what was written, and afterwards every member of the second equals that of the first; the exported objects are '
                     'saved and loaded through text and binary archives in the replay',
                assumptions=['Boost.Serialization restores numbers, strings, standard containers, tuples and unique pointers of what it saved, element by element through their serialize members',
                             'the pagmo base class of gd4cgp and the random engine are restored by their own serialization',
                             'symbolic_regression::m_cache_gradient is exempt: nothing reads it, so its value is not observable'],
                bounded=[('registration of the exported class names', 'what the export macros expand to is exercised by the replay only')]),
    'C15': dict(contracts=['sr|' + k for k in sr.REG if not re.search('gradient|hessian|collapse|sparsity', k)], replay=[('symreg', 25)],
                note='the problem is specified over the views of the two inner expressions that the contracts of group expr establish; what a decision vector stands for is '
                     'one function of the vector, and fitness, predictions and formulas are functions of that alone',
                assumptions=SRA, bounded=[('get_extra_info and get_name', 'text shown to the user, exercised by the replay only')]),
    'C16': dict(contracts=['sr|' + k for k in sr.REG if re.search('gradient|hessian|collapse|sparsity|cache_fitness|points_to|transpose|::symbolic_regression', k)], replay=[('symreg', 25)],
                note='derivatives are those of the differential number the loss returns, taken with respect to the symbols of the constants; the sparsity contracts give the order',
                assumptions=SRA + ['fewer than 65536 ephemeral constants, so that the number of Hessian entries fits the machine']),
    'C08': dict(contracts=['ann|' + ann.AUpdate.sig, 'grad|' + grad.BatchGrad.sig, 'grad|' + grad.WholeGrad.sig], lemmas=LW + ['lemma:sums'], replay=[('network', 25)], level='other',
                note='the table of connections the error signals are summed over is proved exact after every update, and the gradient over data is proved the mean of the '
                     'gradients of the samples (for sequential and parallel sums); the gradient of one sample is bounded',
                bounded=[('expression_ann::d_loss of one sample, and fill_nodes', 'compared with central differences and with a separate reverse pass on random networks and data')]),
    'C09': dict(contracts=['grad|' + k for k in (grad.Step.sig, grad.Sgd.sig, grad.BatchGrad.sig)], lemmas=['lemma:sums'], replay=[('network', 25)],
                note='ghost state follows the batches presented: every call of the update begins where the last ended, on the same samples and labels, and the last ends at the '
                     'last sample; the update moves each weight and bias by the rate times the mean derivative over the batch; the shuffles of points and labels are the same permutation',
                assumptions=['rounding is not modelled: the contracts speak of the real number each machine operation stands for',
                             'the loss and gradient of one sample are what the contract of d_loss for one sample says (its formula is C08)',
                             'std::shuffle is a permutation determined by the number of elements and the state of the engine']),
    'C17': dict(contracts=EVOLVE('mes4cgp', 'es4cgp', 'gd4cgp'), replay=[('evolvers', 28)], not_this_property=THROWN + CONSTANTS,
                note='evolve of the three algorithms, for all populations, parameters, numbers of generations and engine states; the loop invariants are '
                     'found by elimination from templates and proved; each strategy is verified for learning or not and batches or not',
                assumptions=EVA, trusted=PAGMO),
    'C18': dict(contracts=EVOLVE('momes4cgp', 'moes4cgp'), replay=[('evolvers', 28)], not_this_property=THROWN + CONSTANTS,
                note='evolve of the two algorithms, for all populations, parameters, numbers of generations and engine states; the dominance clause is that of one generation',
                assumptions=EVA, trusted=PAGMO),
    'C19': dict(contracts=EVOLVE('moes4cgp', 'es4cgp', 'gd4cgp'), replay=[('evolvers', 28)], this_property=CONSTANTS,
                note='the constants of every individual after evolve are, as a sequence of doubles, those of some individual before (for gd4cgp: everything else is untouched); '
                     'that it is the individual it was mutated from is replayed',
                assumptions=EVA, trusted=PAGMO),
    'C20': dict(contracts=EVOLVE('momes4cgp', 'moes4cgp', 'mes4cgp', 'es4cgp', 'gd4cgp') + ['evo|' + k for k in evo.REG if re.match(r'dcgp::(\w+)::\1\(', k)],
                replay=[('evolvers', 28)], this_property=THROWN,
                note='constructors and evolve throw exactly when the statement says, and a rejected evolve leaves log, engine and everything else of the algorithm as they were; '
                     'the population is taken by value',
                assumptions=EVA, trusted=PAGMO),
    'C22': dict(contracts=CTORS + MUT + ['expr|' + expr.SeedExpr.sig] + ['evo|' + k for k in evo.REG if re.search(r'::(set_seed|get_seed)\(|::(\w+4cgp)::\2\(', k)],
                lemmas=['scan:randomness'], replay=[('chromosome', 12), ('evolvers', 25)], this_property=SEEDED, level='other',
                note='constructors and seeding leave the engine in a state that is a function of the seed; mutations change the chromosome, what is derived from it and '
                     'the engine only; a scan of everything reachable from evolution, mutation and evaluation finds no other source of randomness; that two runs agree is replayed',
                assumptions=['the state of std::mt19937 after seed(s), each number drawn and the next state are functions of the state before',
                             'tasks of a parallel loop do not race (C10, C14)'],
                bounded=[('two runs with the same seed agree', 'replayed on random expressions, operations, evolvers and populations')]),
}
