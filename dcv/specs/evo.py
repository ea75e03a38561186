"""Contracts of the evolvers: evolve of a population of a symbolic regression problem, against assumed contracts of pagmo."""
import itertools
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Function, Select, Store, IntVal, BoolVal, MultiPattern, Const, Int
import logic as L
from logic import I, D, B, S as STR, AI, AD, AS
from contract import Contract
from exec import Vec, Rec, Opt, Iter, Ptr, Lam, Undef, Unsupported, ThrowSig, VOID, strip_targs
from stdmodel import FITS, objpath, range_of, vecval, sub_vec, draw
import stdmodel
import view
from view import ViewExec, KEYD, XLEN, NEPH, LBA, UBA, SD, SQD, SI, SQI, ENG, VS, PTS, MAPX, _q, vtype, obj, args, sq, inb, ED
import sr

VSA = PTS                                     # array of vectors of doubles
P_ = L.usort('U_pagmo_problem')
R = z3.RealSort()
KOF = Function('expression_of_problem', P_, KEYD)
ISSR = Function('is_symbolic_regression', P_, B)
NX, NCX, NOBJ = [Function('problem_' + n, P_, I) for n in ('nx', 'ncx', 'nobj')]
FITA = Function('fitness', P_, SQD, AD)       # the fitness vector of a decision vector
GRA = Function('gradient', P_, SQD, AD)
HESA, HSA = Function('hessians', P_, SQD, VSA), None
HSL = Function('hessian_entries', P_, I)
LEG = Function('legal_decision_vector', P_, SQD, B)
RK = Function('rank', D, R)                   # pagmo's order of losses: a total preorder, not-a-number last
SHIFT = Function('from_cell', AD, I, AD)
d_ = Const('ev!d', D)
g_ = Const('ev!g', VSA)
NANR = Const('rank_of_nan', R)
TOPI = Function('least_individual', I, VSA, I)            # whose loss is the least in that order
BESTI = Function('best_individual', I, VSA, I)            # what pagmo returns: the first whose loss is the least by <; the first individual if its loss is not a number
WORSTI = Function('worst_individual', I, VSA, I)
ANC = Function('constants_of_an_individual_before', SQD, B)      # ghost: the constants of the individuals at the start
FINITE = Function('isfinite', D, B)
q_, k_, r_, n_ = z3.Ints('ev!q ev!k ev!r ev!n')
a_, p_, x_ = Const('ev!a', AD), Const('ev!p', P_), Const('ev!x', SQD)
u_, v_ = Const('ev!u', D), Const('ev!v', D)
f_ = Const('ev!f', VSA)
k__ = Const('ev!key', KEYD)


def gene_ok(p, a, q):
    k = KOF(p)
    g = Select(a, q)
    return And(FITS(g), Select(LBA[KEYD](k), q - NCX(p)) <= L.D2I(g), L.D2I(g) <= Select(UBA[KEYD](k), q - NCX(p)))


L.AX += [
    ForAll([p_], And(NX(p_) == NCX(p_) + XLEN[KEYD](KOF(p_)), NCX(p_) == NEPH[KEYD](KOF(p_)), NCX(p_) >= 0, NX(p_) >= 1, NX(p_) < 2**33, NCX(p_) < 2**32), patterns=[NX(p_)]),
    ForAll([p_], And(NX(p_) == NCX(p_) + XLEN[KEYD](KOF(p_)), NCX(p_) == NEPH[KEYD](KOF(p_)), NCX(p_) >= 0), patterns=[NCX(p_)]),
    ForAll([k__, q_], And(0 <= Select(LBA[KEYD](k__), q_), Select(LBA[KEYD](k__), q_) < 2**32), patterns=[Select(LBA[KEYD](k__), q_)]),
    ForAll([k__, q_], And(0 <= Select(UBA[KEYD](k__), q_), Select(UBA[KEYD](k__), q_) < 2**32), patterns=[Select(UBA[KEYD](k__), q_)]),
    ForAll([p_], Implies(ISSR(p_), And(Function('has_gradient', P_, B)(p_), Function('has_hessians', P_, B)(p_))), patterns=[ISSR(p_)]),
    ForAll([p_], And(NOBJ(p_) >= 1, NOBJ(p_) < 2**32), patterns=[NOBJ(p_)]),
    ForAll([p_, n_, a_], LEG(p_, SD(n_, a_)) == And(n_ == NX(p_), ForAll([q_], Implies(And(NCX(p_) <= q_, q_ < n_), gene_ok(p_, a_, q_)), patterns=[Select(a_, q_)])), patterns=[LEG(p_, SD(n_, a_))]),
    ForAll([a_, k_, q_], Select(SHIFT(a_, k_), q_) == Select(a_, k_ + q_), patterns=[Select(SHIFT(a_, k_), q_)]),
    ForAll([a_, k_, q_], Select(SHIFT(a_, k_), q_ - k_) == Select(a_, q_), patterns=[MultiPattern(SHIFT(a_, k_), Select(a_, q_))]),
    ForAll([n_], Implies(And(0 <= n_, n_ < 2**32), And(FITS(L.I2D(n_)), L.D2I(L.I2D(n_)) == n_)), patterns=[L.I2D(n_)]),
    ForAll([n_, f_], Implies(n_ >= 1, And(0 <= BESTI(n_, f_), BESTI(n_, f_) < n_, 0 <= WORSTI(n_, f_), WORSTI(n_, f_) < n_)), patterns=[BESTI(n_, f_)]),
    ForAll([n_, f_], Implies(n_ >= 1, And(0 <= WORSTI(n_, f_), WORSTI(n_, f_) < n_)), patterns=[WORSTI(n_, f_)]),
]


ATD = Function('value_at', SQD, I, D)
LEND = Function('values_of', SQD, I)
L.AX += [ForAll([n_, a_], LEND(SD(n_, a_)) == n_, patterns=[SD(n_, a_)]),
         ForAll([n_, a_, q_], Implies(And(0 <= q_, q_ < n_), ATD(SD(n_, a_), q_) == Select(a_, q_)), patterns=[MultiPattern(SD(n_, a_), Select(a_, q_))])]


def f0(F, i):
    return Select(L.v_arr(Select(F, i)), 0)


L.AX += [ForAll([n_, f_], Implies(n_ >= 1, And(0 <= TOPI(n_, f_), TOPI(n_, f_) < n_)), patterns=[TOPI(n_, f_)]),
         ForAll([n_, f_, q_], Implies(And(n_ >= 1, 0 <= q_, q_ < n_), RK(f0(f_, TOPI(n_, f_))) <= RK(f0(f_, q_))), patterns=[MultiPattern(TOPI(n_, f_), Select(f_, q_))]),
         ForAll([n_, f_, q_, g_], Implies(And(n_ >= 1, 0 <= TOPI(q_, g_), TOPI(q_, g_) < n_), RK(f0(f_, TOPI(n_, f_))) <= RK(f0(f_, TOPI(q_, g_)))), patterns=[MultiPattern(TOPI(n_, f_), TOPI(q_, g_))]),
         ForAll([d_], RK(d_) <= NANR, patterns=[RK(d_)]),
         ForAll([n_, f_, q_], Implies(And(n_ >= 1, 0 <= q_, q_ < n_, RK(f0(f_, 0)) < NANR), RK(f0(f_, BESTI(n_, f_))) <= RK(f0(f_, q_))), patterns=[MultiPattern(BESTI(n_, f_), Select(f_, q_))]),
         ForAll([n_, f_], Implies(And(n_ >= 1, RK(f0(f_, 0)) == NANR), BESTI(n_, f_) == 0), patterns=[BESTI(n_, f_)]),
         ForAll([n_, f_], Implies(And(n_ >= 1, RK(f0(f_, 0)) == NANR), WORSTI(n_, f_) == 0), patterns=[WORSTI(n_, f_)])]


def vsd(v):
    """the sequence of a vector of doubles kept in an array"""
    return SD(L.v_len(v), L.v_arr(v))


def legal(P, n, X):
    x = Select(X, q_)
    return ForAll([q_], Implies(And(0 <= q_, q_ < n), LEG(P, vsd(x))), patterns=[x])


def evaluated(P, n, X, F):
    x, f = Select(X, q_), Select(F, q_)
    return ForAll([q_], Implies(And(0 <= q_, q_ < n), vsd(f) == SD(NOBJ(P), FITA(P, vsd(x)))), patterns=[f])


def consistent(P, n, X, F):
    """every individual is legal and carries the fitness of its decision vector"""
    return And(legal(P, n, X), evaluated(P, n, X, F))


def find_type(p, key):
    for n, ty in enumerate(p.T):
        if ty['c'] == 'rec' and p.tkey(n) == key:
            return n
    raise Unsupported('no type ' + key)


class EvoExec(ViewExec):
    def is_pop(self, t):
        return self.ct(t) == 'rec' and self.p.ty(t).get('qn') == 'pagmo::population'

    def is_eigen(self, t):
        return self.ct(t) == 'rec' and (self.p.ty(t).get('qn') or '').startswith('Eigen::')

    def sort(self, t):
        if self.is_eigen(t):
            return L.usort('U_eigen')
        return super().sort(t)

    def fresh(self, t, name):
        if self.is_pop(t):
            vt = find_type(self.p, 'std::vector<double>')
            return Rec(self.p.strip(t), {'prob': Const(self.nm(name + '.problem'), P_), 'X': self.vec(name + '.x', vt), 'F': self.vec(name + '.f', vt)})
        if self.is_eigen(t):
            return Const(self.nm(name), L.usort('U_eigen'))
        return super().fresh(t, name)


    def call(self, e, want_lv=False):
        f = self.p.F[e['fn']] if e.get('fn') is not None else None
        if f is not None and (f.get('qn') or '').startswith('Eigen::'):
            return self.eigen(e, f, want_lv)
        return super().call(e, want_lv)

    def e_ctor(self, e, target=None):
        f = self.p.F[e['fn']]
        if (f.get('qn') or '').startswith('Eigen::'):
            self.modelled.add('Eigen')
            return Const(self.nm('matrix'), L.usort('U_eigen'))
        return super().e_ctor(e, target)

    def eigen(self, e, f, want_lv):
        """matrices are opaque: whatever is read from one may be any number"""
        self.modelled.add('Eigen')
        for a in e.get('args', []):
            if a.get('t') is not None and self.ct(self.p.strip(a['t'])) in ('int', 'uint', 'float', 'bool'):
                self.ev(a)
        t = f.get('ret')
        v = VOID if t is None or self.ct(t) == 'void' else self.fresh(self.p.strip(t), 'matrix')
        if t is not None and self.p.isref(t):
            return self.temp(v, 'cell')
        return v


MODELS = dict(view.MODELS)


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pop_of(ex, e):
    p, a = objpath(ex, e)
    v = ex.read(p)
    if not (isinstance(v, Rec) and 'prob' in v.f):
        raise Unsupported('population expected')
    return p, v, a


@model('pagmo::population::get_problem')
def _(ex, e, f, w):
    p, v, a = pop_of(ex, e)
    return p + (('f', 'prob'),)


@model('pagmo::population::get_x', 'pagmo::population::get_f')
def _(ex, e, f, w):
    p, v, a = pop_of(ex, e)
    return p + (('f', 'X' if f['name'] == 'get_x' else 'F'),)


@model('pagmo::population::size')
def _(ex, e, f, w):
    return pop_of(ex, e)[1].X.len


@model('pagmo::population::set_xf')
def _(ex, e, f, w):
    p, v, a = pop_of(ex, e)
    i, x, y = args(ex, a)
    ex.oblige('set_xf is given an existing individual', And(0 <= i, i < v.X.len), 'pre')
    ex.oblige('set_xf is given a decision vector of the problem', x.len == NX(v.prob), 'pre')
    ex.oblige('set_xf is given a fitness of the problem', y.len == NOBJ(v.prob), 'pre')
    ex.write(p + (('f', 'X'),), Vec(v.X.len, Store(v.X.arr, i, ex.pack(x)), v.X.et))
    ex.write(p + (('f', 'F'),), Vec(v.F.len, Store(v.F.arr, i, ex.pack(y)), v.F.et))
    return VOID


@model('pagmo::population::push_back')
def _(ex, e, f, w):
    p, v, a = pop_of(ex, e)
    x, y = args(ex, a)
    ex.oblige('push_back is given a decision vector of the problem', x.len == NX(v.prob), 'pre')
    ex.oblige('push_back is given a fitness of the problem', y.len == NOBJ(v.prob), 'pre')
    ex.write(p + (('f', 'X'),), Vec(L.norm(v.X.len + 1), Store(v.X.arr, v.X.len, ex.pack(x)), v.X.et))
    ex.write(p + (('f', 'F'),), Vec(L.norm(v.F.len + 1), Store(v.F.arr, v.F.len, ex.pack(y)), v.F.et))
    return VOID


@model('pagmo::population::best_idx', 'pagmo::population::worst_idx')
def _(ex, e, f, w):
    p, v, a = pop_of(ex, e)
    if not ex.choose(And(v.X.len >= 1, NOBJ(v.prob) == 1)):
        raise ThrowSig('pagmo')
    r = (BESTI if f['name'] == 'best_idx' else WORSTI)(v.F.len, v.F.arr)
    ex.assume(And(0 <= r, r < v.F.len))
    return r


def prob_of(ex, e):
    p, a = objpath(ex, e)
    v = ex.read(p)
    if not (isinstance(v, z3.ExprRef) and v.sort() == P_):
        raise Unsupported('problem expected')
    return v, a


for _n, _F in (('nx', NX), ('ncx', NCX), ('nobj', NOBJ)):
    def _mk(F_):
        def h(ex, e, f, w):
            v, a = prob_of(ex, e)
            ex.assume(And(NX(v) == NX(v), F_(v) == F_(v)))
            return F_(v)
        return h
    MODELS['pagmo::problem::get_' + _n] = _mk(_F)


@model('pagmo::problem::get_nix')
def _(ex, e, f, w):
    v, a = prob_of(ex, e)
    return L.norm(NX(v) - NCX(v))


@model('pagmo::problem::get_nf')
def _(ex, e, f, w):
    return NOBJ(prob_of(ex, e)[0])


@model('pagmo::problem::get_fevals', 'pagmo::problem::get_gevals', 'pagmo::problem::get_hevals', 'pagmo::problem::get_name', 'pagmo::problem::get_bounds', 'pagmo::problem::get_extra_info',
       'pagmo::problem::get_lb', 'pagmo::problem::get_ub')
def _(ex, e, f, w):
    return ex.fresh(e['t'], f['name'])


def legal_arg(ex, P, a):
    x = args(ex, a)[0]
    if not isinstance(x, Vec) or x.arr.sort() != AD:
        raise Unsupported('decision vector expected')
    s = SD(x.len, x.arr)
    ex.oblige('the problem is asked about a legal decision vector', LEG(P, s), 'pre')
    return x, s


@model('pagmo::problem::fitness')
def _(ex, e, f, w):
    P, a = prob_of(ex, e)
    x, s = legal_arg(ex, P, a)
    return Vec(NOBJ(P), FITA(P, s), x.et)


@model('pagmo::problem::gradient')
def _(ex, e, f, w):
    P, a = prob_of(ex, e)
    x, s = legal_arg(ex, P, a)
    if not ex.choose(Function('has_gradient', P_, B)(P)):
        raise ThrowSig('pagmo')
    return Vec(NCX(P), GRA(P, s), x.et)


@model('pagmo::problem::hessians')
def _(ex, e, f, w):
    P, a = prob_of(ex, e)
    x, s = legal_arg(ex, P, a)
    if not ex.choose(Function('has_hessians', P_, B)(P)):
        raise ThrowSig('pagmo')
    et = ex.targs(e['t'])[0]
    arr = HESA(P, s)
    ex.assume(ForAll([q_], Implies(And(0 <= q_, q_ < NOBJ(P)), And(L.v_len(Select(arr, q_)) >= 0, L.v_len(Select(arr, q_)) < 2**32)), patterns=[Select(arr, q_)]))
    ex.assume(And(L.v_len(Select(arr, 0)) == HSL(P), HSL(P) >= NCX(P), Implies(NCX(P) == 1, HSL(P) == 1)))
    return Vec(NOBJ(P), arr, et)


@model('pagmo::problem::hessians_sparsity')
def _(ex, e, f, w):
    P, a = prob_of(ex, e)
    v = ex.fresh(e['t'], 'hs')
    ex.assume(And(v.len == NOBJ(P), L.v_len(Select(v.arr, 0)) == HSL(P)))
    return v


# ---- the problem as a symbolic regression --------------------------------------------------------------------------------
@model('dcgp::function::operator()')
def _(ex, e, f, w):
    if 'symbolic_regression *(const pagmo::problem &)' not in ex.p.ts(e['args'][0]['t']):
        return stdmodel.MODELS['dcgp::function::operator()'](ex, e, f, w)
    P = ex.ev(e['args'][1])
    if isinstance(P, tuple):
        P = ex.read(P)
    if not ex.choose(ISSR(P)):
        return Ptr(None)
    r = 'udp:%d' % P.get_id()
    if r not in ex.store:
        v = ex.fresh(find_type(ex.p, 'dcgp::symbolic_regression'), 'udp')
        ex.assume(And(v.m_cgp.key == KOF(P), v.m_cgp.x.len == XLEN[KEYD](KOF(P)), v.m_cgp.eph.len == NEPH[KEYD](KOF(P)), NX(P) == NX(P)))
        ex.store[r] = v
    return Ptr((r,))


@model('dcgp::symbolic_regression::prettier')
def _(ex, e, f, w):
    return ex.fresh(e['t'], 'formula')


@model('dcgp::expression::mutate_random', 'dcgp::expression::mutate_active')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    n = args(ex, a)[0]
    if v.key.sort() != KEYD:
        raise Unsupported('mutation of a differential expression')
    x = Function(f['name'], KEYD, SQI, I, ENG, AI)(v.key, sq(v.x), n, v.eng)
    ex.assume(inb(v.key, x))
    ex.write(p + (('f', 'x'),), Vec(v.x.len, x, v.x.et))
    ex.write(p + (('f', 'eng'),), Function(f['name'] + '_engine', KEYD, SQI, I, ENG, ENG)(v.key, sq(v.x), n, v.eng))
    return VOID


@model('dcgp::expression::set_from_range')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    ia, ib = args(ex, a)
    src, s, n = range_of(ex, ia, ib)
    if src.arr.sort() == AI:
        return view.set_chromosome(ex, p, v, sub_vec(ex, src, s, n, src.et))
    if src.arr.sort() != AD:
        raise Unsupported('range')
    ex.oblige('the genes read are integers', ForAll([q_], Implies(And(s <= q_, q_ < s + n), FITS(Select(src.arr, q_))), patterns=[Select(src.arr, q_)]), 'pre')
    return view.set_chromosome(ex, p, v, Vec(n, MAPX(s, src.arr), v.x.et))


# ---- pagmo ------------------------------------------------------------------------------------------------------------
@model('pagmo::detail::less_than_f')
def _(ex, e, f, w):
    a, b = args(ex, e['args'][:2])
    return RK(a) < RK(b)


@model('pagmo::detail::greater_than_f')
def _(ex, e, f, w):
    a, b = args(ex, e['args'][:2])
    return RK(a) > RK(b)


@model('pagmo::bfe::operator()')
def _(ex, e, f, w):
    P, dv = args(ex, e['args'][1:3])
    n = rows_of(ex, dv.len, NX(P))
    s = lambda i: SD(NX(P), SHIFT(dv.arr, L.mul(i, NX(P))))
    ex.oblige('a batch of legal decision vectors', ForAll([r_], Implies(And(0 <= r_, r_ < n), LEG(P, s(r_))), patterns=[L.mul(r_, NX(P))]), 'pre')
    res = ex.vec('batch', dv.et)
    ex.assume(res.len == L.mul(n, NOBJ(P)))
    ex.assume(Implies(NOBJ(P) == 1, ForAll([r_], Implies(And(0 <= r_, r_ < n), Select(res.arr, r_) == Select(FITA(P, s(r_)), 0)), patterns=[Select(res.arr, r_)])))
    ex.assume(ForAll([r_], Implies(And(0 <= r_, r_ < n), SD(NOBJ(P), SHIFT(res.arr, L.mul(r_, NOBJ(P)))) == SD(NOBJ(P), FITA(P, s(r_)))), patterns=[L.mul(r_, NOBJ(P))]))
    return res


def rows_of(ex, ln, nx):
    """how many rows of nx a length is, when it shows"""
    t = L.norm(ln)
    if z3.is_app(t) and t.decl().name() == L.MUL(n_, n_).decl().name():
        for i in (0, 1):
            if t.arg(i).eq(nx):
                return t.arg(1 - i)
    n = L.div(t, nx)
    ex.oblige('a whole number of decision vectors', L.mul(n, nx) == t, 'pre')
    return n


@model('pagmo::print')
def _(ex, e, f, w):
    return VOID


@model('pagmo::ideal', 'pagmo::nadir')
def _(ex, e, f, w):
    v = args(ex, e['args'])[0]
    r = ex.vec(f['name'], find_type(ex.p, 'double') if False else view.vtype(ex.p, 'double'))
    if not ex.choose(v.len >= 1):
        raise ThrowSig('pagmo')
    ex.assume(r.len == L.v_len(Select(v.arr, 0)))
    return r


@model('pagmo::non_dominated_front_2d')
def _(ex, e, f, w):
    v = args(ex, e['args'])[0]
    r = ex.fresh(e['t'], 'front')
    ex.assume(And(r.len <= v.len, ForAll([q_], Implies(And(0 <= q_, q_ < r.len), And(0 <= Select(r.arr, q_), Select(r.arr, q_) < v.len)), patterns=[Select(r.arr, q_)])))
    return r


DOM = Function('dominates', SQD, SQD, B)       # strictly


@model('pagmo::select_best_N_mo')
def _(ex, e, f, w):
    v, n = args(ex, e['args'][:2])
    r = ex.fresh(e['t'], 'selected')
    ex.assume(r.len == If(n < v.len, n, v.len))
    ex.assume(ForAll([q_], Implies(And(0 <= q_, q_ < r.len), And(0 <= Select(r.arr, q_), Select(r.arr, q_) < v.len)), patterns=[Select(r.arr, q_)]))
    # the front comes first: one of those selected is dominated by nothing
    b = z3.Int(ex.nm('undominated'))
    ex.assume(Implies(r.len >= 1, And(0 <= b, b < r.len, 0 <= Select(r.arr, b), ForAll([q_], Implies(And(0 <= q_, q_ < v.len), Not(DOM(vsd(Select(v.arr, q_)), vsd(Select(v.arr, Select(r.arr, b)))))), patterns=[Select(v.arr, q_)]))))
    return r


@model('pagmo::not_population_based::select_individual')
def _(ex, e, f, w):
    """the default policy: the best individual"""
    v = args(ex, e['args'])[0]
    if not ex.choose(And(v.X.len >= 1, NOBJ(v.prob) == 1)):
        raise ThrowSig('pagmo')
    b = BESTI(v.F.len, v.F.arr)
    ex.assume(And(0 <= b, b < v.F.len))
    return Rec(e['t'], {'0': ex.unpack(Select(v.X.arr, b), v.X.et), '1': ex.unpack(Select(v.F.arr, b), v.F.et)})


@model('pagmo::not_population_based::replace_individual')
def _(ex, e, f, w):
    """the default policy: in place of the best individual"""
    p = ex.lv(e['args'][0])
    v = ex.read(p)
    x, y = args(ex, e['args'][1:3])
    if not ex.choose(And(v.X.len >= 1, NOBJ(v.prob) == 1)):
        raise ThrowSig('pagmo')
    b = BESTI(v.F.len, v.F.arr)
    ex.assume(And(0 <= b, b < v.F.len))
    ex.oblige('a decision vector of the problem is put back', x.len == NX(v.prob), 'pre')
    ex.oblige('a fitness of the problem is put back', y.len == NOBJ(v.prob), 'pre')
    ex.write(p + (('f', 'X'),), Vec(v.X.len, Store(v.X.arr, b, ex.pack(x)), v.X.et))
    ex.write(p + (('f', 'F'),), Vec(v.F.len, Store(v.F.arr, b, ex.pack(y)), v.F.et))
    return VOID


@model('std::numeric_limits<double>::infinity', 'std::numeric_limits<double>::quiet_NaN', 'std::numeric_limits<double>::max')
def _(ex, e, f, w):
    return Const('limit_' + f['name'], D)


@model('std::find')
def _(ex, e, f, w):
    ia, ib = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    v, s, n = range_of(ex, ia, ib)
    if v.arr.sort() != VSA:
        return stdmodel.MODELS['std::find'](ex, e, f, w)
    r = z3.Int(ex.nm('found'))               # equality of vectors of doubles is left open
    ex.assume(And(s <= r, r <= s + n))
    return Iter(ia.path, r)


@model('std::isfinite')
def _(ex, e, f, w):
    return FINITE(ex.ev(e['args'][0]))


@model('std::inner_product')
def _(ex, e, f, w):
    ia, ib, ic = args(ex, e['args'][:3])
    v, s, n = range_of(ex, ia, ib)
    v2 = vecval(ex, ic.path)
    ex.oblige('second range is long enough', And(0 <= ic.idx, ic.idx + n <= v2.len), 'safety')
    return Const(ex.nm('inner'), D)


def logs(ex, e, f, w):
    """prints a line and adds one to the log"""
    this = ex.frames[-1].this
    ex.havoc(this + (('f', 'm_log'),))
    return VOID


for _c in ('es4cgp', 'moes4cgp', 'mes4cgp', 'momes4cgp', 'gd4cgp'):
    MODELS['dcgp::%s::log_single_line' % _c] = logs


REG = {}


def reg(cls):
    c = cls()
    REG[c.sig] = c
    return cls


def anc(P, n, X):
    return ForAll([q_], Implies(And(0 <= q_, q_ < n), ANC(SD(NCX(P), L.v_arr(Select(X, q_))))), patterns=[Select(X, q_)])


def subterms(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(x.children())
    return out


def fits1(P, s):
    return Select(FITA(P, s), 0)


def row(P, v, r):
    return SD(NX(P), SHIFT(v, L.mul(r, NX(P))))


class Evolve(Contract):
    frame_on_throw = True
    seconds = 450
    learn = 'm_learn_constants'

    def problem(self, c):
        return c.arg(0).prob

    def requires(self, c):
        p, P = c.arg(0), self.problem(c)
        return [('the population is consistent', And(p.X.len == p.F.len, p.X.len < 2**32, Implies(ISSR(P), consistent(P, p.X.len, p.X.arr, p.F.arr)))),
                ('the constants of the individuals', anc(P, p.X.len, p.X.arr)),
                ('the decision vectors of a generation fit in a vector', L.mul(NX(P), p.X.len) < 2**60),
                ('mutations are asked for', c.old().m_max_mut >= 1),
                ('the generations can be counted', c.old().m_gen < 2**32 - 1)] + [('case', g(c.old()) if b else Not(g(c.old()))) for g, b in self.case]

    case = []

    def keeps(self, S):
        """constants may not be learned"""
        return Not(S.f[self.learn])

    def modifies(self, c):
        return [c.fpath('m_e'), c.fpath('m_log')]

    def throw_modifies(self, c):
        return []

    def throws(self, c):
        p, P = c.arg(0), self.problem(c)
        return Or(Not(ISSR(P)), self.wrong(P), p.X.len < 2)

    def wrong(self, P):
        return NOBJ(P) != 1

    def idle(self, S):
        return S.m_gen == 0

    def ensures(self, c):
        p, P, S = c.arg(0), self.problem(c), c.old()
        r = c.ret
        n = p.X.len
        out = [('the population keeps its size', And(r.X.len == n, r.F.len == n)),
               ('and its problem', r.prob == P),
               ('every individual is legal and carries its fitness', consistent(P, n, r.X.arr, r.F.arr)),
               ('nothing to do, nothing done', Implies(self.idle(S), And(r.X.arr == p.X.arr, r.F.arr == p.F.arr)))]
        return out + self.more(c, p, P, S, r, n)

    def more(self, c, p, P, S, r, n):
        return [('the best is no worse than before', RK(f0(r.F.arr, TOPI(n, r.F.arr))) <= RK(f0(p.F.arr, TOPI(n, p.F.arr)))),
                ('the constants are those of individuals before, unless they are learned', Implies(self.keeps(S), anc(P, n, r.X.arr)))]

    def invs(self, li):
        ex = li.ex
        c = ex.ctx
        p0, P, S = c.arg(0), self.problem(c), c.old()
        n, nx = p0.X.len, NX(P)
        keeps = self.keeps(S)
        B0 = RK(f0(p0.F.arr, BESTI(n, p0.F.arr)))
        out = []
        loc = li.frame_locals()
        base = li.base[0]
        ints = {nm: pt for nm, pt in loc.items() if isinstance(nm, str) and len(pt) == 1 and isinstance(base.get(pt[0]), z3.ArithRef)}
        vecs = {pt: nm for nm, pt in loc.items() if isinstance(nm, str) and isinstance(base.get(pt[0]), Vec) and len(pt) == 1 and base[pt[0]].arr.sort() == AD}
        moved = [(nm, pt) for nm, pt in ints.items() if pt in li.mods]
        pops = []
        for m in li.mods:
            pr = m[:1]
            if isinstance(base.get(pr[0]), Rec) and 'prob' in base[pr[0]].f and pr not in pops:
                pops.append(pr)
        for pr in pops:
            rd = lambda ex, pr=pr: ex.read(pr)
            out += [('size of the population', lambda ex, it, rd=rd: And(rd(ex).X.len == n, rd(ex).F.len == n)),
                    ('problem of the population', lambda ex, it, rd=rd: rd(ex).prob == P),
                    ('individuals are legal', lambda ex, it, rd=rd: legal(P, n, rd(ex).X.arr)),
                    ('individuals carry their fitness', lambda ex, it, rd=rd: evaluated(P, n, rd(ex).X.arr, rd(ex).F.arr)),
                    ('no individual gets worse', lambda ex, it, rd=rd: ForAll([q_], Implies(And(0 <= q_, q_ < n), RK(f0(rd(ex).F.arr, q_)) <= RK(f0(p0.F.arr, q_))), patterns=[Select(rd(ex).F.arr, q_)])),
                    ('constants of the population', lambda ex, it, rd=rd: Implies(keeps, anc(P, n, rd(ex).X.arr)))]
        lim = [('all', lambda ex: n, 0), ('all', lambda ex: n, 1)] + [('those before ' + nm, lambda ex, pt=pt: ex.read(pt), 0) for nm, pt in moved]
        kinds = c.__dict__.setdefault('kinds', {})

        def kind(pt):
            v = base[pt[0]]
            if pt not in kinds:
                ln = L.norm(v.len)
                kinds[pt] = 'constants' if ln.eq(NCX(P)) else 'rows' if isrows(v) else 'whole'
            return kinds[pt]
        isrows = lambda v: nx.get_id() in [x.get_id() for x in subterms(L.norm(v.len))] and not L.norm(v.len).eq(nx)
        rows = {pt: nm for pt, nm in vecs.items() if kind(pt) == 'rows'}
        whole = {pt: nm for pt, nm in vecs.items() if kind(pt) == 'whole'}
        for m in li.mods:
            v = li.entry(m)
            if isinstance(v, Vec) and v.arr.sort() == AD and len(m) == 1:
                if m in whole:
                    out += [('%s is legal' % m[-1], lambda ex, it, m=m: LEG(P, sq(ex.read(m)))),
                            ('%s has constants of individuals before' % m[-1], lambda ex, it, m=m: Implies(keeps, ANC(SD(NCX(P), ex.read(m).arr))))]
                for ln, up, late in lim:
                    w = (lambda it, g: Or(it == 0, g)) if late else (lambda it, g: g)
                    sfx = ' but at first' if late else ''
                    if m in rows:
                        out.append(('rows of %s are legal: %s%s' % (m[-1], ln, sfx), lambda ex, it, m=m, up=up, w=w: w(it, ForAll([r_], Implies(And(0 <= r_, r_ < up(ex)), LEG(P, row(P, ex.read(m).arr, r_))), patterns=[L.mul(r_, nx)]))))
                        out.append(('rows of %s have constants of individuals before: %s%s' % (m[-1], ln, sfx), lambda ex, it, m=m, up=up, w=w: w(it, Implies(keeps, ForAll([r_], Implies(And(0 <= r_, r_ < up(ex)), ANC(SD(NCX(P), SHIFT(ex.read(m).arr, L.mul(r_, nx))))), patterns=[L.mul(r_, nx)])))))
                    else:
                        for o in rows:
                            out.append(('%s are the fitnesses of the rows of %s: %s%s' % (m[-1], rows[o], ln, sfx), lambda ex, it, m=m, o=o, up=up, w=w: w(it, ForAll([r_], Implies(And(0 <= r_, r_ < up(ex)), Select(ex.read(m).arr, r_) == fits1(P, row(P, ex.read(o).arr, r_))), patterns=[Select(ex.read(m).arr, r_)]))))
            elif isinstance(v, z3.ExprRef) and v.sort() == D:
                out.append(('%s is no worse than the best' % m[-1], lambda ex, it, m=m: RK(ex.read(m)) <= B0))
                for o in whole:
                    out.append(('%s is the fitness of %s' % (m[-1], whole[o]), lambda ex, it, m=m, o=o: ex.read(m) == fits1(P, sq(ex.read(o)))))
        return out


def cases(cls, **opts):
    """one contract, verified case by case (the cases are exhaustive)"""
    names = list(opts)
    for bits in itertools.product((0, 1), repeat=len(names)):
        c = cls()
        c.case = [(opts[n], b) for n, b in zip(names, bits)]
        c.case_name = ', '.join(n if b else 'no ' + n for n, b in zip(names, bits))
        REG['%s#%s' % (c.sig, ''.join(map(str, bits)))] = c


class Es(Evolve):
    sig = 'dcgp::es4cgp::evolve(pagmo::population)'


LEARN = lambda S: S.m_learn_constants
BFE = lambda S: S.m_bfe.has
cases(Es, learning=LEARN, batches=BFE)


def fit_of(P, v, x):
    """a vector of doubles is the fitness of a decision vector"""
    return SD(v.len, v.arr) == SD(NOBJ(P), FITA(P, x))


class Gd(Evolve):
    sig = 'dcgp::gd4cgp::evolve(pagmo::population)'

    def requires(self, c):
        p, P = c.arg(0), self.problem(c)
        return [('the population is consistent', And(p.X.len == p.F.len, p.X.len < 2**32, Implies(ISSR(P), consistent(P, p.X.len, p.X.arr, p.F.arr)))),
                ('there is an individual', p.X.len >= 1),
                ('the iterations can be counted', c.old().m_max_iter < 2**32 - 1)] + [('case', g(c.old()) if b else Not(g(c.old()))) for g, b in self.case]

    def modifies(self, c):
        return [c.fpath('m_log')]

    def throws(self, c):
        P = self.problem(c)
        return Or(Not(ISSR(P)), NCX(P) == 0, NOBJ(P) != 1)

    def idle(self, S):
        return S.m_max_iter == 0

    def more(self, c, p, P, S, r, n):
        b = BESTI(n, p.F.arr)
        return [('the best is no worse than before', RK(f0(r.F.arr, TOPI(n, r.F.arr))) <= RK(f0(p.F.arr, TOPI(n, p.F.arr)))),
                ('only the best individual changes', ForAll([q_], Implies(And(0 <= q_, q_ < n, q_ != b), Select(r.X.arr, q_) == Select(p.X.arr, q_)), patterns=[Select(r.X.arr, q_)])),
                ('and only its constants', ForAll([q_], Implies(And(NCX(P) <= q_, q_ < NX(P)), Select(L.v_arr(Select(r.X.arr, b)), q_) == Select(L.v_arr(Select(p.X.arr, b)), q_)), patterns=[Select(L.v_arr(Select(r.X.arr, b)), q_)]))]

    def invs(self, li):
        ex = li.ex
        c = ex.ctx
        p, P, n = c.arg(0), self.problem(c), c.arg(0).X.len
        b = BESTI(n, p.F.arr)
        B0 = RK(f0(p.F.arr, b))
        pops = list(dict.fromkeys(m[:1] for m in li.mods if isinstance(li.base[0].get(m[0]), Rec) and 'prob' in li.base[0][m[0]].f))
        x0 = L.v_arr(Select(p.X.arr, b))
        vecs = [m for m in li.mods if len(m) == 1 and isinstance(li.entry(m), Vec) and li.entry(m).arr.sort() == AD]
        out = [('the population is as before', lambda ex, it, m=m: And(ex.read(m).X.arr == p.X.arr, ex.read(m).F.arr == p.F.arr, ex.read(m).prob == P)) for m in pops]
        for m in vecs:
            s = lambda ex, m=m: sq(ex.read(m))
            out += [('%s is legal' % m[-1], lambda ex, it, s=s: LEG(P, s(ex))),
                    ('%s has the genes of the best' % m[-1], lambda ex, it, m=m: ForAll([q_], Implies(And(NCX(P) <= q_, q_ < NX(P)), Select(ex.read(m).arr, q_) == Select(x0, q_)), patterns=[Select(ex.read(m).arr, q_)])),
                    ('%s is a fitness no worse than the best' % m[-1], lambda ex, it, m=m: RK(Select(ex.read(m).arr, 0)) <= B0)]
            for o in vecs:
                if o != m:
                    out += [('%s is the fitness of %s' % (m[-1], o[-1]), lambda ex, it, m=m, s=s, o=o: fit_of(P, ex.read(m), sq(ex.read(o)))),
                            ('%s is %s' % (m[-1], o[-1]), lambda ex, it, m=m, s=s, o=o: s(ex) == sq(ex.read(o)))]
        return out


reg(Gd)


UNDI = Function('undominated_individual', I, VSA, I)      # of a population
L.AX.append(ForAll([n_, f_], Implies(n_ >= 1, And(0 <= UNDI(n_, f_), UNDI(n_, f_) < n_, L.v_len(Select(f_, UNDI(n_, f_))) >= 0)), patterns=[UNDI(n_, f_)]))
L.AX.append(ForAll([n_, f_, q_], Implies(And(0 <= q_, q_ < n_), Not(DOM(vsd(Select(f_, q_)), vsd(Select(f_, UNDI(n_, f_)))))), patterns=[MultiPattern(UNDI(n_, f_), Select(f_, q_))]))


def undegraded(n, F, G):
    """some individual of G is dominated by none of F"""
    b = z3.Int('ev!b')
    return Exists([b], And(0 <= b, b < n, ForAll([q_], Implies(And(0 <= q_, q_ < n), Not(DOM(vsd(Select(F, q_)), vsd(Select(G, b))))), patterns=[Select(F, q_)])), patterns=[Select(G, b)])


class Pools(Evolve):
    """evolve with decision vectors and fitnesses in vectors of vectors"""

    def kind_of_loop(self, li):
        """the loop over the generations changes the population and something else besides numbers"""
        ex, base = li.ex, li.base[0]
        tops = list(dict.fromkeys(m[:1] for m in li.mods if m[-1] != ('f', 'm_log')))
        pops = [m for m in tops if isinstance(base.get(m[0]), Rec) and 'prob' in base[m[0]].f]
        rest = [m for m in tops if m not in pops and not isinstance(base.get(m[0]), z3.ArithRef)]
        return 'main' if any(str(m[0]).startswith('p:') for m in pops) and rest else 'inner'

    def invs(self, li):
        ex = li.ex
        c = ex.ctx
        p0, P, S = c.arg(0), self.problem(c), c.old()
        n, nx, no = p0.X.len, NX(P), NOBJ(P)
        keeps = self.keeps(S)
        free = z3.is_false(keeps)
        B0 = RK(f0(p0.F.arr, BESTI(n, p0.F.arr)))
        loc, base = li.frame_locals(), li.base[0]
        isv = lambda v, s: isinstance(v, Vec) and v.arr.sort() == s
        var = {pt: nm for nm, pt in loc.items() if isinstance(nm, str) and len(pt) == 1}
        flat = {pt: nm for pt, nm in var.items() if isv(base.get(pt[0]), AD)}
        nest = {pt: nm for pt, nm in var.items() if isv(base.get(pt[0]), VSA)}
        idx = {pt: nm for pt, nm in var.items() if isv(base.get(pt[0]), AI)}
        moved = [(nm, pt) for pt, nm in var.items() if pt in li.mods and isinstance(base.get(pt[0]), z3.ArithRef)]
        tops = list(dict.fromkeys(m[:1] for m in li.mods))
        pops = [m for m in tops if isinstance(base.get(m[0]), Rec) and 'prob' in base[m[0]].f]
        zero = IntVal(0)
        kinds = c.__dict__.setdefault('kinds', {})

        def kind(pt):
            """are the elements (rows) decision vectors or fitnesses"""
            if pt not in kinds:
                v = base[pt[0]]
                if pt in flat:
                    ids = [x.get_id() for x in subterms(L.norm(v.len))]
                    kinds[pt] = 'x' if nx.get_id() in ids and not L.norm(v.len).eq(nx) else 'f' if no.get_id() in ids and not L.norm(v.len).eq(no) else \
                        'w' if L.prove(ex.pc, v.len == nx, 500) else 'g' if L.prove(ex.pc, v.len == no, 500) else ''
                else:
                    kinds[pt] = None
                    for k, ln in (('x', nx), ('f', no)):
                        if kinds[pt] is None and L.prove(ex.pc, Implies(v.len >= 1, L.v_len(Select(v.arr, 0)) == ln), 700):
                            kinds[pt] = k
                    if kinds[pt] is None:
                        return kinds.pop(pt)
            return kinds[pt]
        outer = 'main' in self.kind_of_loop(li)
        dull = c.__dict__.setdefault('dull', set())          # numbers which count generations and lines: no positions
        dull |= set(p for p in getattr(ex, 'joined_mods', ()))
        if outer:
            dull |= {pt for _, pt in moved}
        moved = [(nm, pt) for nm, pt in moved if pt not in dull or outer]
        spans = [] if outer else [('the first half', lambda ex: (zero, n))]
        for nm, pt in ([] if outer else moved):
            spans += [('those before ' + nm, lambda ex, pt=pt: (zero, ex.read(pt))), ('those of the second half before ' + nm, lambda ex, pt=pt: (n, n + ex.read(pt)))]
        others = [(nm, pt) for pt, nm in var.items() if pt not in li.mods and isinstance(base.get(pt[0]), z3.ArithRef) and z3.is_const(base[pt[0]]) and base[pt[0]].decl().name().startswith('v:') and pt not in dull and nm[:2] != '__']
        pure = all(m in pops or isinstance(base.get(m[0]), z3.ArithRef) for m in tops)
        prs = [(r,) for r in base if isinstance(base.get(r), Rec) and 'prob' in base[r].f]
        out = []

        def over(sp, body, pat, g=None):
            def h(ex, it):
                a, b = sp(ex)
                t = ForAll([q_], Implies(And(a <= q_, q_ < b), body(ex)), patterns=[pat(ex)])
                return Implies(g, t) if g is not None else t
            return h
        for pr in pops:
            rd = lambda ex, pr=pr: ex.read(pr)
            out += [('size of the population', lambda ex, it, rd=rd: And(rd(ex).X.len == n, rd(ex).F.len == n)),
                    ('problem of the population', lambda ex, it, rd=rd: rd(ex).prob == P),
                    ('individuals are legal', lambda ex, it, rd=rd: legal(P, n, rd(ex).X.arr)),
                    ('individuals carry their fitness', lambda ex, it, rd=rd: evaluated(P, n, rd(ex).X.arr, rd(ex).F.arr)),
                    ('constants of the population', lambda ex, it, rd=rd: Implies(keeps, anc(P, n, rd(ex).X.arr))),
                    ('the population is as before', lambda ex, it, rd=rd: And(rd(ex).X.arr == p0.X.arr, rd(ex).F.arr == p0.F.arr))]
            out += [('at least as many individuals', lambda ex, it, rd=rd: And(rd(ex).X.len >= n, rd(ex).F.len == rd(ex).X.len, rd(ex).X.len <= n + it)),
                    ('all individuals are legal', lambda ex, it, rd=rd: legal(P, rd(ex).X.len, rd(ex).X.arr)),
                    ('all individuals carry their fitness', lambda ex, it, rd=rd: evaluated(P, rd(ex).X.len, rd(ex).X.arr, rd(ex).F.arr))] if len(prs) > 1 else []
            for o in prs:
                if o != pr and o not in pops:
                    out.append(('first come those of ' + str(o[-1]), lambda ex, it, rd=rd, o=o: ForAll([q_], Implies(And(0 <= q_, q_ < n), Select(rd(ex).F.arr, q_) == Select(ex.read(o).F.arr, q_)), patterns=[Select(ex.read(o).F.arr, q_)])))
                    for j in idx if pure else []:
                        for fld in 'XF':
                            out.append(('%s of the population are those of %s selected' % (fld, o[-1]), lambda ex, it, rd=rd, fld=fld, o=o, j=j: ForAll([q_], Implies(And(0 <= q_, q_ < it), Select(rd(ex).f[fld].arr, q_) == Select(ex.read(o).f[fld].arr, Select(ex.read(j).arr, q_))), patterns=[Select(ex.read(j).arr, q_)])))
            if 'main' in self.kind_of_loop(li):
                out += [('at first, the population before', lambda ex, it, rd=rd: Implies(it == 0, And(rd(ex).X.arr == p0.X.arr, rd(ex).F.arr == p0.F.arr))),
                        ('then, some individual dominated by none before', lambda ex, it, rd=rd: Implies(it == 1, undegraded(n, p0.F.arr, rd(ex).F.arr)))]
            if not outer:
                for o in nest:
                    for j in idx if pure else []:
                        fld = {'x': 'X', 'f': 'F'}.get(kind(o))
                        if fld:
                            out.append(('%s of the population are those of %s selected' % (fld, nest[o]), lambda ex, it, rd=rd, fld=fld, o=o, j=j: ForAll([q_], Implies(And(0 <= q_, q_ < it), Select(rd(ex).f[fld].arr, q_) == Select(ex.read(o).arr, Select(ex.read(j).arr, q_))), patterns=[Select(ex.read(j).arr, q_)])))
        for m in tops:
            v = li.entry(m)
            if isv(v, AD) and m in flat and kind(m) == 'x':
                here = [] if outer else [('that of ' + nm, lambda ex, pt=pt: (ex.read(pt), ex.read(pt) + 1)) for nm, pt in others] + [('those before ' + nm, lambda ex, pt=pt: (zero, ex.read(pt))) for nm, pt in others]
                for nm, sp in [s for s in spans if 'second' not in s[0]] + here:
                    R_ = lambda ex, m=m: row(P, ex.read(m).arr, q_)
                    out.append(('rows of %s are legal: %s' % (flat[m], nm), over(sp, lambda ex, R_=R_: LEG(P, R_(ex)), lambda ex: L.mul(q_, nx))))
                    free or out.append(('rows of %s have constants of individuals before: %s' % (flat[m], nm), over(sp, lambda ex, m=m: ANC(SD(NCX(P), SHIFT(ex.read(m).arr, L.mul(q_, nx)))), lambda ex: L.mul(q_, nx), keeps)))
            if isv(v, AD) and m in flat and kind(m) == 'w':
                out.append(('%s is legal' % flat[m], lambda ex, it, m=m: LEG(P, sq(ex.read(m)))))
            if isv(v, AD) and m in flat and kind(m) == 'g':
                out.append(('%s is no worse than the best' % flat[m], lambda ex, it, m=m: RK(Select(ex.read(m).arr, 0)) <= B0))
                for o in flat:
                    if kind(o) == 'w':
                        out.append(('%s is the fitness of %s' % (flat[m], flat[o]), lambda ex, it, m=m, o=o: fit_of(P, ex.read(m), sq(ex.read(o)))))
            if isv(v, AI) and m in idx:
                for nm, pt in moved:
                    out.append(('%s are below %s' % (idx[m], nm), lambda ex, it, m=m, pt=pt: ForAll([q_], Implies(And(0 <= q_, q_ < ex.read(m).len), And(0 <= Select(ex.read(m).arr, q_), Select(ex.read(m).arr, q_) < ex.read(pt))), patterns=[Select(ex.read(m).arr, q_)])))
                for o in flat:
                    if kind(o) == 'w':
                        out.append(('%s are the genes of %s' % (idx[m], flat[o]), lambda ex, it, m=m, o=o: ForAll([q_], Implies(And(0 <= q_, q_ < ex.read(m).len), Select(ex.read(m).arr, q_) == L.D2I(Select(ex.read(o).arr, NCX(P) + q_))), patterns=[Select(ex.read(m).arr, q_)])))
            if m in nest and isv(v, VSA):
                for nm, pt in others:
                    out.append(('only that of %s of %s changes' % (nm, nest[m]), lambda ex, it, m=m, pt=pt, v=v: ForAll([q_], Implies(And(0 <= q_, q_ < v.len, q_ != ex.read(pt)), Select(ex.read(m).arr, q_) == Select(v.arr, q_)), patterns=[Select(ex.read(m).arr, q_)])))
            for isx in ([kind(m) == 'x'] if kind(m) else [True, False]) if m in nest and isv(v, VSA) else []:
                el = lambda ex, m=m: Select(ex.read(m).arr, q_)
                every = lambda ex, v=v: (zero, v.len)
                ln = nx if isx else no
                out.append(('those of %s are as long as a %s' % (nest[m], 'decision vector' if isx else 'fitness'), over(every, lambda ex, el=el, ln=ln: L.v_len(el(ex)) == ln, el)))
                for nm, sp in spans:
                    if 'second' in nm and L.norm(v.len).eq(L.norm(n)):
                        continue
                    if isx:
                        out.append(('%s are legal: %s' % (nest[m], nm), over(sp, lambda ex, el=el: LEG(P, vsd(el(ex))), el)))
                        free or out.append(('%s have constants of individuals before: %s' % (nest[m], nm), over(sp, lambda ex, el=el: ANC(SD(NCX(P), L.v_arr(el(ex)))), el, keeps)))
                    else:
                        for o in nest:
                            if kind(o) == 'x':
                                out.append(('%s are the fitnesses of %s: %s' % (nest[m], nest[o], nm), over(sp, lambda ex, el=el, o=o: vsd(el(ex)) == SD(no, FITA(P, vsd(Select(ex.read(o).arr, q_)))), el)))
                    if 'second' not in nm:
                        for o in flat:
                            if kind(o) == kind(m):
                                out.append(('%s are those of %s: %s' % (nest[m], flat[o], nm), over(sp, lambda ex, el=el, o=o, ln=ln: vsd(el(ex)) == SD(ln, SHIFT(ex.read(o).arr, L.mul(q_, ln))), el)))
                    elif not isx:
                        for pr_ in [(r,) for r in base if isinstance(base.get(r), Rec) and 'prob' in base[r].f]:
                            out.append(('%s are those of the population: %s' % (nest[m], nm), lambda ex, it, sp=sp, m=m, pr_=pr_: ForAll([q_], Implies(And(0 <= q_, q_ < L.norm(sp(ex)[1] - n)), Select(ex.read(m).arr, n + q_) == Select(ex.read(pr_).F.arr, q_)), patterns=[Select(ex.read(pr_).F.arr, q_)])))
        return out


class Mo(Pools):
    sig = 'dcgp::moes4cgp::evolve(pagmo::population)'

    def requires(self, c):
        p, P = c.arg(0), self.problem(c)
        return Evolve.requires(self, c) + [('an order has a least element', UNDI(p.X.len, p.F.arr) >= If(p.X.len >= 1, 0, UNDI(p.X.len, p.F.arr))), ('the fitnesses of a generation fit in a vector', L.mul(NOBJ(P), p.X.len) < 2**60)]

    def wrong(self, P):
        return NOBJ(P) == 1

    def more(self, c, p, P, S, r, n):
        return [('after one generation, some individual is dominated by none before', Implies(S.m_gen == 1, undegraded(n, p.F.arr, r.F.arr))),
                ('the constants are those of individuals before, unless they are learned', Implies(self.keeps(S), anc(P, n, r.X.arr)))]


cases(Mo, learning=LEARN, batches=BFE)


class Memetic(Pools):
    def keeps(self, S):
        return BoolVal(False)


class Mes(Memetic):
    sig = 'dcgp::mes4cgp::evolve(pagmo::population)'

    def more(self, c, p, P, S, r, n):
        return Evolve.more(self, c, p, P, S, r, n)[:1]


class Momes(Memetic):
    sig = 'dcgp::momes4cgp::evolve(pagmo::population)'
    requires, wrong = Mo.requires, Mo.wrong

    def more(self, c, p, P, S, r, n):
        return Mo.more(self, c, p, P, S, r, n)[:1]


reg(Mes)
reg(Momes)


class Set(Contract):
    """a member that sets fields; the constructors reject what makes no sense"""
    fields = ()                    # (field, argument)
    seeded = None                  # the argument the engine is seeded with
    ctor = False

    def modifies(self, c):
        return [c.this] if self.ctor else [c.fpath(f) for f, _ in self.fields] + ([c.fpath('m_e')] if self.seeded is not None else [])

    def bad(self, c):
        return None

    def throws(self, c):
        return self.bad(c)

    def ensures(self, c):
        N = c.new()
        out = [('%s is the argument' % f, N.f[f] == c.arg(n)) for f, n in self.fields]
        if self.seeded is not None:
            e = N.f['m_e']
            out.append(('the engine starts as a function of the seed alone', e == stdmodel.SEED(e.sort())(c.arg(self.seeded))))
        return out + self.rest(c, N)

    def rest(self, c, N):
        return [('no output is asked for', N.f['m_verbosity'] == 0)] if self.ctor else []


class Get(Contract):
    field = None

    def ensures(self, c):
        return [('the value of the field', same_value(c.ret, c.old().f[self.field]))]


def same_value(a, b):
    return And(a.len == b.len, a.arr == b.arr) if isinstance(a, Vec) else a == b


def strategy(cls, learn):
    """constructor and seed of an evolution strategy"""
    a = ['m_gen', 'm_max_mut', 'm_ftol'] + (['m_learn_constants'] if learn else []) + ['m_seed']
    sg = ', '.join({'m_ftol': 'double', 'm_learn_constants': '_Bool'}.get(x, 'unsigned int') for x in a)
    ns = dict(sig='dcgp::%s::%s(%s)' % (cls, cls, sg), ctor=True, fields=[(x, n) for n, x in enumerate(a)], seeded=len(a) - 1,
              bad=lambda self, c: Or(c.arg(1) == 0, L.DLT(c.arg(2), L.dlit(0.))))
    if learn:
        ns['rest'] = lambda self, c, N: Set.rest(self, c, N) + [('batches are not used unless asked for', Not(N.m_bfe.has))]
    reg(type('Ctor_' + cls, (Set,), ns))
    reg(type('Seed_' + cls, (Set,), dict(sig='dcgp::%s::set_seed(unsigned int)' % cls, fields=[('m_seed', 0)], seeded=0)))
    reg(type('GetSeed_' + cls, (Get,), dict(sig='dcgp::%s::get_seed()' % cls, field='m_seed')))


for _c, _l in (('es4cgp', True), ('moes4cgp', True), ('mes4cgp', False), ('momes4cgp', False)):
    strategy(_c, _l)
reg(type('Ctor_gd4cgp', (Set,), dict(sig='dcgp::gd4cgp::gd4cgp(unsigned int, double, double)', ctor=True, fields=[('m_max_iter', 0), ('m_lr', 1), ('m_lr_min', 2)],
                                     bad=lambda self, c: Or(L.DLE(c.arg(2), L.dlit(0.)), L.DLE(c.arg(1), c.arg(2))))))
for _c in ('es4cgp', 'moes4cgp', 'mes4cgp', 'momes4cgp', 'gd4cgp'):
    reg(type('SetV_' + _c, (Set,), dict(sig='dcgp::%s::set_verbosity(unsigned int)' % _c, fields=[('m_verbosity', 0)])))
    reg(type('GetV_' + _c, (Get,), dict(sig='dcgp::%s::get_verbosity()' % _c, field='m_verbosity')))


def bookkeeping(ex, mods):
    """the log, and whatever else is a number"""
    log = [m for m in mods if m[-1] == ('f', 'm_log')]
    return bool(log) and all(isinstance(ex.read(m), z3.ArithRef) for m in mods if m not in log)


KW = dict(ex_cls=EvoExec, opts=dict(unroll=False, join_if=bookkeeping, houdini_ms=700, templ_ms=3000), extra_models=MODELS, opaque=set(view.KW['opaque']) | {'pagmo::population', 'pagmo::problem', 'pagmo::bfe'})
GROUP = (REG, KW)
