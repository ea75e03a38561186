"""Contracts of the symbolic regression problem: decoding, bounds, fitness, gradients, Hessians and their sparsity."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Function, Select, Store, IntVal, BoolVal, MultiPattern, Const, Int
import logic as L
from logic import I, D, B, S as STR, AI, AD, AS
from contract import Contract
from exec import Vec, Rec, Opt
from stdmodel import FITS, FOLD
from view import *
from view import _k, _q, _n
import evalu, view
from evalu import KNAME, lit

C = 'dcgp::symbolic_regression'
VD = 'const std::vector<double> &'
VVD = 'const std::vector<std::vector<double> > &'
REG = {}
i_, j_ = z3.Ints('l!si l!sj')


def reg(cls):
    c = cls()
    REG[c.sig] = c
    return cls


def lanes_mean(ln, arr):
    """collapse: the mean of the lanes"""
    return L.DDIV(FOLD(arr, IntVal(0), ln, L.dlit(0)), L.I2D(ln))


K0 = z3.K(STR, IntVal(0))


# the orders of derivation: once, or once with respect to each of two (possibly equal) symbols
SM = z3.ArraySort(STR, I)
DM1, DM2 = Function('once', STR, SM), Function('once_each', STR, STR, SM)
_s1, _s2 = Const('l!s1', STR), Const('l!s2', STR)
L.AX += [ForAll([_s1], DM1(_s1) == Store(K0, _s1, IntVal(1)), patterns=[DM1(_s1)]),
         ForAll([_s1, _s2], DM2(_s1, _s2) == Store(Store(K0, _s1, IntVal(1)), _s2, If(_s1 == _s2, IntVal(2), IntVal(1))), patterns=[DM2(_s1, _s2)])]


def d_zero():
    """a differential number of order zero depends on no symbol"""
    g = Const('l!zg', GU)
    out = []
    for m, vs in ((DM1(_s1), [_s1]), (DM2(_s1, _s2), [_s1, _s2])):
        out.append(ForAll([g] + vs, Implies(ORD(g) == 0, lanes_mean(DERL(g, m), DERA(g, m)) == L.dlit(0)), patterns=[DERA(g, m)]))
    return out


class Chrom:
    """what a decision vector stands for: constants first, then the chromosome"""

    def __init__(self, S, x):
        self.S, self.x = S, x
        self.n = S.m_n_eph

    def seqx(self, K):
        return SI(XLEN[K.sort()](K), MAPX(self.n, self.x.arr))

    def seqe(self):
        return SD(self.n, self.x.arr)

    def ok(self):
        """a decision vector of the problem: right length, genes integral and within the bounds"""
        K = self.S.m_cgp.key
        g = Select(self.x.arr, _q)
        inr = And(self.n <= _q, _q < self.n + XLEN[KEYD](K))
        k = L.norm(_q - self.n)
        return [('length', self.x.len == self.n + XLEN[KEYD](K)),
                ('genes are integers of the type', ForAll([_q], Implies(inr, FITS(g)), patterns=[g])),
                ('genes within bounds', ForAll([_q], Implies(inr, And(Select(LBA[KEYD](K), k) <= L.D2I(g), L.D2I(g) <= Select(UBA[KEYD](K), k))),
                                               patterns=[g]))]

    def loss(self):
        """the loss on the data of the expression encoded"""
        S, K = self.S, self.S.m_cgp.key
        return LOSSD(K, self.seqx(K), self.seqe(), S.m_points.len, S.m_points.arr, S.m_labels.len, S.m_labels.arr, S.m_loss_s, S.m_parallel_batches)

    def gdual(self, order):
        """the differential loss, constants being variables of that order"""
        S, K = self.S, self.S.m_dcgp.key
        return LOSSG(K, self.seqx(K), SG(self.n, GV(ESY[KEYG](K), IntVal(order), self.x.arr)), S.m_dpoints.len, S.m_dpoints.arr, S.m_dlabels.len, S.m_dlabels.arr, S.m_loss_e)


# the array of differential variables named sym[i], of value a[i]
GV = Function('gdual_variables', AS, I, AD, AG)
_s, _a = Const('l!gs', AS), Const('l!ga', AD)
L.AX.append(ForAll([_s, _k, _a, _q], Select(GV(_s, _k, _a), _q) == GVAR(Select(_a, _q), Select(_s, _q), _k), patterns=[Select(GV(_s, _k, _a), _q)]))


def no_pdiv(S):
    return ForAll([_q], Implies(And(0 <= _q, _q < S.m_f.len), KNAME(Select(S.m_f.arr, _q)) != lit('pdiv')), patterns=[KNAME(Select(S.m_f.arr, _q))])


def agree(S, sx_arr=None):
    """assumed: the differential expression, built from the same kernels (none protected) and data, has as constant coefficient of its
    loss the loss of the plain one (C10, C11 for the two number types; AuDi)"""
    out = []
    K, G = S.m_cgp.key, S.m_dcgp.key
    sx = Const('l!sx', SQI)
    for order in (1, 2):
        g = LOSSG(G, sx, SG(S.m_n_eph, GV(ESY[KEYG](G), IntVal(order), _a)), S.m_dpoints.len, S.m_dpoints.arr, S.m_dlabels.len, S.m_dlabels.arr, S.m_loss_e)
        l = LOSSD(K, sx, SD(S.m_n_eph, _a), S.m_points.len, S.m_points.arr, S.m_labels.len, S.m_labels.arr, S.m_loss_s, S.m_parallel_batches)
        out.append(Implies(no_pdiv(S), ForAll([sx, _a], lanes_mean(CCL(g), CCA(g)) == l, patterns=[g])))
    return out


def inv(S):
    """class invariant, established by construction"""
    K, G = S.m_cgp.key, S.m_dcgp.key
    n = S.m_n_eph
    return [('both expressions have the constants of the problem', And(NEPH[KEYD](K) == n, NEPH[KEYG](G) == n)),
            ('both expressions have the same layout', And(XLEN[KEYD](K) == XLEN[KEYG](G), LBA[KEYD](K) == LBA[KEYG](G), UBA[KEYD](K) == UBA[KEYG](G))),
            ('names of the differentials', And(S.m_deph_symb.len == n, ForAll([_q], Implies(And(0 <= _q, _q < n), Select(S.m_deph_symb.arr, _q) == L.cat(lit('d'), Select(ESY[KEYG](G), _q))),
                                                                          patterns=[Select(S.m_deph_symb.arr, _q)]))),
            ('there are data', And(S.m_points.len >= 1, S.m_labels.len >= 1)),
            ('the data suit the loss', LACC(K, S.m_points.len, S.m_points.arr, S.m_labels.len, S.m_labels.arr, S.m_loss_s, S.m_parallel_batches))] + cache_ok(S)


def cache_ok(S):
    c = S.m_cache_fitness
    f, s = c.f['0'], c.f['1']
    return [('the cached loss is the loss of the cached decision vector', Or(f.len == 0, And(
        f.len == S.m_n_eph + XLEN[KEYD](S.m_cgp.key), s.len >= 1, Select(s.arr, 0) == Chrom(S, f).loss())))]


def expr_state(S, ch, nm='m_cgp', eph=None):
    """the inner expression holds what the decision vector encodes"""
    e = S.f[nm]
    K = e.key
    return [('chromosome decoded', SI(e.x.len, e.x.arr) == ch.seqx(K)), ('chromosome length', e.x.len == XLEN[K.sort()](K))] + (
        [('constants decoded', And(e.eph.len == ch.n, SD(e.eph.len, e.eph.arr) == ch.seqe()))] if nm == 'm_cgp' else [])


class Sr(Contract):
    x_arg = 0
    grad = False
    fixed = ()          # nothing but the working state of the inner expressions and the caches changes

    def ch(self, c):
        return Chrom(c.old(), c.arg(self.x_arg))

    def requires(self, c):
        out = inv(c.old())
        if self.x_arg is not None:
            out += self.ch(c).ok()
        return out

    def background(self, c):
        return d_zero() + agree(c.old())

    def modifies(self, c):
        return [c.fpath(n) + (('f', p),) for n in ('m_cgp', 'm_dcgp') for p in ('x', 'eph')] + [c.fpath('m_cache_fitness'), c.fpath('m_cache_gradient')]

    def keep(self, c):
        return [('invariant kept: ' + n, g) for n, g in inv(c.new())]

    def hints(self, ex, c):
        x = c.arg(self.x_arg) if self.x_arg is not None else None
        S = ex.read(ex.frames[0].this)
        out = []
        if x is not None:
            ch = Chrom(c.old(), x)
            K, G = S.m_cgp.key, S.m_dcgp.key
            out += [SIH(ch.seqx(K)), SIH(ch.seqx(G)), DH(Select(S.m_cache_fitness.f['1'].arr, 0)), SDH(ch.seqe())]
            if self.grad:
                out += [GUH(ch.gdual(o)) for o in (1, 2)]
        return out


DH = Function('seen_dbl', D, B)
SIH, SDH, GUH = Function('seen_i', SQI, B), Function('seen_d', SQD, B), Function('seen_g', GU, B)


def touchall(S):
    return []


@reg
class Nobj(Contract):
    sig = C + '::get_nobj()'

    def ensures(self, c):
        return [('one objective, two when multi-objective', c.ret == If(c.old().m_multi_objective, IntVal(2), IntVal(1)))]


@reg
class Nix(Contract):
    sig = C + '::get_nix()'

    def ensures(self, c):
        return [('the integer dimension is the chromosome length', c.ret == XLEN[KEYD](c.old().m_cgp.key))]


@reg
class Bounds(Contract):
    sig = C + '::get_bounds()'

    def requires(self, c):
        return [('sizes fit', XLEN[KEYD](c.old().m_cgp.key) + c.old().m_n_eph < 2**32)]

    def ensures(self, c):
        S = c.old()
        K, n = S.m_cgp.key, S.m_n_eph
        out = []
        for k, nm, cst, arr in (('0', 'lower', -10, LBA[KEYD](K)), ('1', 'upper', 10, UBA[KEYD](K))):
            v = c.ret.f[k]
            out += [('%s bounds: one per variable' % nm, v.len == n + XLEN[KEYD](K)),
                    ('%s bounds of the constants' % nm, ForAll([_q], Implies(And(0 <= _q, _q < n), Select(v.arr, _q) == L.dlit(cst)), patterns=[Select(v.arr, _q)])),
                    ('%s bounds of the genes' % nm, ForAll([_q], Implies(And(0 <= _q, _q < XLEN[KEYD](K)), Select(v.arr, L.norm(n + _q)) == L.I2D(Select(arr, _q))), patterns=[Select(v.arr, L.norm(n + _q)), Select(arr, _q)]))]
        return out


@reg
class SetCgp(Sr):
    sig = C + '::set_cgp(' + VD + ')'

    def modifies(self, c):
        return [c.fpath('m_cgp') + (('f', p),) for p in ('x', 'eph')]

    def ensures(self, c):
        return expr_state(c.new(), self.ch(c))


@reg
class Fitness(Sr):
    sig = C + '::fitness(' + VD + ')'

    def ensures(self, c):
        S = c.old()
        ch = self.ch(c)
        return [('one number per objective', c.ret.len == If(S.m_multi_objective, IntVal(2), IntVal(1))),
                ('the first objective is the loss of the expression encoded', Select(c.ret.arr, 0) == ch.loss()),
                ('the second objective is the number of active genes', Implies(S.m_multi_objective, Select(c.ret.arr, 1) == L.I2D(AGL(S.m_cgp.key, ch.seqx(S.m_cgp.key)))))] + self.keep(c)


@reg
class Predict(Sr):
    sig = C + '::predict(' + VD + ', std::vector<double>)'
    x_arg = 1

    def throws(self, c):
        return Not(ACC(c.old().m_cgp.key, c.arg(0).len))

    def throw_modifies(self, c):
        return self.modifies(c)

    def ensures(self, c):
        K = c.old().m_cgp.key
        ch = self.ch(c)
        t = (K, ch.seqx(K), ch.seqe(), sq(c.arg(0)))
        return [('the value of the expression encoded at that point', And(c.ret.len == EVL(*t), ForAll([_q], Implies(And(0 <= _q, _q < EVL(*t)), Select(c.ret.arr, _q) == Select(EVA(*t), _q)), patterns=[Select(c.ret.arr, _q)])))] + self.keep(c)


def row(v, i):
    e = Select(v.arr, i)
    return L.v_len(e), L.v_arr(e)


@reg
class PredictAll(Sr):
    sig = C + '::predict(' + VVD + ', std::vector<double>)'
    x_arg = 1

    def requires(self, c):
        p = c.arg(0)
        K = c.old().m_cgp.key
        return Sr.requires(self, c) + [('points of the right size', ForAll([_q], Implies(And(0 <= _q, _q < p.len), ACC(K, row(p, _q)[0])), patterns=[Select(p.arr, _q)]))]

    def upto(self, c, r, n):
        p = c.arg(0)
        K = c.old().m_cgp.key
        ch = self.ch(c)
        ln, arr = row(p, _q)
        t = (K, ch.seqx(K), ch.seqe(), SD(ln, arr))
        rl, ra = row(r, _q)
        return ForAll([_q], Implies(And(0 <= _q, _q < n), And(rl == EVL(*t), ra == EVA(*t))), patterns=[Select(r.arr, _q)])

    def ensures(self, c):
        return [('one prediction per point', c.ret.len == c.arg(0).len),
                ('each is the value of the expression encoded at that point', self.upto(c, c.ret, c.arg(0).len))] + self.keep(c)

    def invs(self, li):
        out = []
        for p in li.mods:
            v = li.entry(p)
            if isinstance(v, Vec) and v.arr.sort() == PTS:
                out.append(('predictions so far', lambda ex, it, p=p: self.upto(ex.ctx, ex.read(p), ex.read(p).len)))
        return out


def xnames(p, n, arr):
    return ForAll([_q], Implies(And(0 <= _q, _q < n), Select(arr, _q) == L.cat(lit('x'), L.SINT(_q))), patterns=[Select(arr, _q)])


XN = Const('input_names', AS)
L.AX.append(ForAll([_q], Select(XN, _q) == L.cat(lit('x'), L.SINT(_q)), patterns=[Select(XN, _q)]))


class PrettyBase(Sr):
    def requires(self, c):
        S = c.old()
        return Sr.requires(self, c) + [('points suit the expression', ACC(S.m_cgp.key, row(S.m_points, IntVal(0))[0])), ('their size fits', And(row(S.m_points, IntVal(0))[0] >= 0, row(S.m_points, IntVal(0))[0] < 2**32))]

    def formula(self, c):
        S = c.old()
        K = S.m_cgp.key
        ch = self.ch(c)
        t = (K, ch.seqx(K), ch.seqe(), SS(row(S.m_points, IntVal(0))[0], XN))
        return EVSL(*t), EVSA(*t)

    def invs(self, li):
        out = []
        for p in li.mods:
            v = li.entry(p)
            if isinstance(v, Vec) and v.arr.sort() == AS:
                out.append(('names so far', lambda ex, it, p=p: xnames(None, ex.read(p).len, ex.read(p).arr)))
            if isinstance(v, Vec) and v.arr.sort().range() == SYM:
                def g(ex, it, p=p):
                    a = ex.read(p)
                    return ForAll([_q], Implies(And(0 <= _q, _q < a.len), Select(a.arr, _q) == SYMOF(Select(self.formula(ex.ctx)[1], _q))), patterns=[Select(a.arr, _q)])
                out.append(('symbolic forms so far', g))
        return out

    def hints(self, ex, c):
        t = (SS(row(c.old().m_points, IntVal(0))[0], XN),)
        return Sr.hints(self, ex, c) + [Function('seen_s', SQS, B)(*t)]


@reg
class Pretty(PrettyBase):
    sig = C + '::pretty(' + VD + ')'

    def ensures(self, c):
        return [('the formula of the expression encoded, in the inputs x0, x1, ...', c.ret == TXT[SQS](SS(*self.formula(c))))] + self.keep(c)


SYMS = Function('symbolic_forms', AS, z3.ArraySort(I, SYM))
_as = Const('l!as', AS)
L.AX.append(ForAll([_as, _q], Select(SYMS(_as), _q) == SYMOF(Select(_as, _q)), patterns=[Select(SYMS(_as), _q)]))


@reg
class Prettier(PrettyBase):
    sig = C + '::prettier(' + VD + ')'

    def ensures(self, c):
        n, a = self.formula(c)
        return [('the symbolic form of the formula of the expression encoded', c.ret == TXT_SYM(n, SYMS(a)))] + self.keep(c)


@reg
class Collapse(Contract):
    sig = C + '::collapse(const audi::vectorized<double> &)'

    def requires(self, c):
        return [('there is a lane', And(c.arg(0).c.len >= 1, c.arg(0).c.len < 2**32))]

    def ensures(self, c):
        v = c.arg(0).c
        return [('the mean of the lanes', c.ret == lanes_mean(v.len, v.arr))]


@reg
class CacheFitness(Contract):
    """the fitness cache stays right, whoever fills it"""
    sig = C + '::cache_fitness(' + VD + ', double)'

    def requires(self, c):
        S = c.old()
        x = c.arg(0)
        return cache_ok(S) + [('length', x.len == S.m_n_eph + XLEN[KEYD](S.m_cgp.key)), ('the loss given is that of the decision vector unless a kernel is protected', Implies(no_pdiv(S), c.arg(1) == Chrom(S, x).loss()))]

    def modifies(self, c):
        return [c.fpath('m_cache_fitness')]

    def ensures(self, c):
        return cache_ok(c.new())


class GradBase(Sr):
    grad = True

    def deph(self, c, m):
        return 0


@reg
class Gradient(GradBase):
    sig = C + '::gradient(' + VD + ')'

    def entry(self, c, i):
        S = c.old()
        g = EXT(self.ch(c).gdual(1), SS(S.m_deph_symb.len, S.m_deph_symb.arr))
        m = DM1(Select(S.m_deph_symb.arr, i))
        return lanes_mean(DERL(g, m), DERA(g, m))

    def upto(self, c, r, n):
        return ForAll([_q], Implies(And(0 <= _q, _q < n), Select(r.arr, _q) == self.entry(c, _q)), patterns=[Select(r.arr, _q)])

    def ensures(self, c):
        S = c.old()
        return [('one entry per constant', c.ret.len == S.m_n_eph),
                ('entry i is the derivative of the loss with respect to constant i', self.upto(c, c.ret, S.m_n_eph))] + self.keep(c)

    def invs(self, li):
        return grad_invs(self, li, 1)


def grad_invs(self, li, order):
    out = []
    for p in li.mods:
        v = li.entry(p)
        if isinstance(v, Vec) and v.arr.sort() == AG:
            def g(ex, it, p=p):
                c = ex.ctx
                a = ex.read(p)
                V = GV(ESY[KEYG](c.old().m_dcgp.key), IntVal(order), c.arg(0).arr)
                return ForAll([_q], Implies(And(0 <= _q, _q < a.len), Select(a.arr, _q) == Select(V, _q)), patterns=[Select(a.arr, _q)])
            out.append(('variables so far', g))
        if isinstance(v, Vec) and v.arr.sort() == AD and len(p) == 1:
            out.append(('derivatives so far', lambda ex, it, p=p: self.upto(ex.ctx, ex.read(p), it)))
        if isinstance(v, Vec) and v.arr.sort() == PTS:
            if order == 2:
                out.append(('second derivatives so far', lambda ex, it, p=p: self.upto(ex.ctx, Vec(IntVal(0), row(ex.read(p), IntVal(0))[1], None), it)))
                out.append(('shape of the result', lambda ex, it, p=p: self.shape(ex.ctx, ex.read(p), ex.read(p).len)))
                out.append(('zeros so far', lambda ex, it, p=p: self.zeros(ex, ex.read(p))))
                out.append(('second objective', lambda ex, it, p=p: self.second(ex.ctx, ex.read(p))))
    return out


# ---- sparsity ------------------------------------------------------------------------------------------------------------
ROW, COL = Function('hessian_row', I, I), Function('hessian_col', I, I)     # k-th pair (i, j), j <= i, in row order
L.AX += [ROW(0) == 0, COL(0) == 0,
         ForAll([_k, _q], Implies(And(_k >= 0, _q == _k + 1), And(ROW(_q) == If(COL(_k) == ROW(_k), ROW(_k) + 1, ROW(_k)), COL(_q) == If(COL(_k) == ROW(_k), 0, COL(_k) + 1))),
                patterns=[MultiPattern(ROW(_k), ROW(_q))])]
ROWH = Function('seen_row', I, B)
PAIR = L.tup_sort if False else None


def pairs(v):
    """first and second components of an array of pairs"""
    s = v.arr.sort().range()
    return (lambda i: s.accessor(0, 0)(Select(v.arr, i))), (lambda i: s.accessor(0, 1)(Select(v.arr, i)))


@reg
class GSparsity(Contract):
    sig = C + '::gradient_sparsity()'

    def upto(self, v, n):
        a, b = pairs(v)
        return ForAll([_q], Implies(And(0 <= _q, _q < n), And(a(_q) == 0, b(_q) == _q)), patterns=[Select(v.arr, _q)])

    def ensures(self, c):
        return [('one pair per constant', c.ret.len == c.old().m_n_eph), ('pair i is (0, i)', self.upto(c.ret, c.ret.len))]

    def invs(self, li):
        return [('pairs so far', lambda ex, it, p=p: self.upto(ex.read(p), ex.read(p).len)) for p in li.mods if isinstance(li.entry(p), Vec)]


def hpairs(v, n):
    a, b = pairs(v)
    return ForAll([_q], Implies(And(0 <= _q, _q < n), And(a(_q) == ROW(_q), b(_q) == COL(_q))), patterns=[Select(v.arr, _q)])


def hs_spec(S, r):
    """the pairs of the Hessian of the loss in row order, ending before row n_eph; one row of the result per objective"""
    ln, ar = L.v_len(Select(r.arr, 0)), L.v_arr(Select(r.arr, 0))
    l1, a1 = L.v_len(Select(r.arr, 1)), L.v_arr(Select(r.arr, 1))
    a, b = pairs(Vec(l1, a1, None))
    return [('one pattern per objective', r.len == If(S.m_multi_objective, IntVal(2), IntVal(1))),
            ('pairs (i, j) with j at most i in row order', hpairs(Vec(ln, ar, None), ln)),
            ('pairs within the constants', ForAll([_q], Implies(And(0 <= _q, _q < ln), And(0 <= COL(_q), COL(_q) <= ROW(_q), ROW(_q) < S.m_n_eph)), patterns=[ROW(_q)])),
            ('all rows, and none beyond', And(ROW(ln) == S.m_n_eph, COL(ln) == 0, ln >= 0)),
            ('second objective: within the constants, one entry at most', Implies(S.m_multi_objective, And(l1 >= 0, l1 <= 1, Implies(l1 == 1, And(a(IntVal(0)) == 0, b(IntVal(0)) == 0)))))]


@reg
class HSparsity(Contract):
    sig = C + '::hessians_sparsity()'

    def requires(self, c):
        return [('the number of pairs fits', c.old().m_n_eph < 2**16)]

    def ensures(self, c):
        return hs_spec(c.old(), c.ret)

    def hints(self, ex, c):
        out = []
        for r, v in ex.store.items():
            if r.startswith('v:') and isinstance(v, Vec) and 'pair' in v.arr.sort().range().name():
                out += [ROWH(ROW(v.len)), ROWH(ROW(L.norm(v.len - 1)))]
        return out

    def invs(self, li):
        out = []
        ex = li.ex
        loc = li.locals()
        ints = [(n, p) for n, p in loc.items() if len(p) == 1 and isinstance(ex.store.get(p[0]), z3.ArithRef)]
        for p in li.mods:
            v = li.entry(p)
            if isinstance(v, Vec) and 'pair' in v.arr.sort().range().name():
                out.append(('pairs so far', lambda ex, it, p=p: hpairs(ex.read(p), ex.read(p).len)))
                out.append(('a row has been completed', lambda ex, it, p=p: COL(ex.read(p).len) == 0))
                for n, ip in ints:
                    for st in (0, 1):
                        out.append(('pairs so far in rows up to %s: %d' % (n, st), lambda ex, it, p=p, ip=ip, st=st: ForAll([_q], Implies(And(0 <= _q, _q < ex.read(p).len), And(0 <= COL(_q), COL(_q) <= ROW(_q), ROW(_q) < ex.read(ip) + st)), patterns=[ROW(_q)])))
                    out.append(('next row is %s' % n, lambda ex, it, p=p, ip=ip: ROW(ex.read(p).len) == ex.read(ip)))
                    out.append(('next column is %s' % n, lambda ex, it, p=p, ip=ip: And(COL(ex.read(p).len) == ex.read(ip))))
                    for m, jp in ints:
                        if n != m:
                            def g(ex, it, p=p, ip=ip, jp=jp):
                                i, j, k = ex.read(ip), ex.read(jp), ex.read(p).len
                                return And(0 <= j, j <= i + 1, If(j <= i, And(ROW(k) == i, COL(k) == j), And(ROW(k) == i + 1, COL(k) == 0)))
                            out.append(('row %s, column %s' % (n, m), g))
        return out


@reg
class Hessians(GradBase):
    sig = C + '::hessians(' + VD + ')'

    def requires(self, c):
        return Sr.requires(self, c) + [('the number of pairs fits', c.old().m_n_eph < 2**16)]

    def entry(self, c, k):
        S = c.old()
        g = EXT(self.ch(c).gdual(2), SS(S.m_deph_symb.len, S.m_deph_symb.arr))
        m = DM2(Select(S.m_deph_symb.arr, ROW(k)), Select(S.m_deph_symb.arr, COL(k)))
        return lanes_mean(DERL(g, m), DERA(g, m))

    def upto(self, c, r, n):
        return ForAll([_q], Implies(And(0 <= _q, _q < n), Select(r.arr, _q) == self.entry(c, _q)), patterns=[Select(r.arr, _q)])

    def second(self, c, r):
        l1, a1 = row(r, IntVal(1))
        return Implies(c.old().m_multi_objective, ForAll([_q], Implies(And(0 <= _q, _q < l1), Select(a1, _q) == L.dlit(0)), patterns=[Select(a1, _q)]))

    def ensures(self, c):
        S = c.old()
        r = c.ret
        ln, ar = row(r, IntVal(0))
        l1, a1 = row(r, IntVal(1))
        return [('one Hessian per objective', r.len == If(S.m_multi_objective, IntVal(2), IntVal(1))),
                ('one entry per pair of the declared sparsity', And(ln >= 0, ROW(ln) == S.m_n_eph, COL(ln) == 0)),
                ('entry k is the second derivative with respect to the k-th pair of constants', self.upto(c, Vec(ln, ar, None), ln)),
                ('the second objective contributes one entry at most', Implies(S.m_multi_objective, And(l1 >= 0, l1 <= 1))),
                ('the second objective contributes zeros', self.second(c, r))] + self.keep(c)

    def invs(self, li):
        return grad_invs(self, li, 2)

    def hs(self, ex):
        for r, v in ex.store.items():
            if isinstance(v, Vec) and isinstance(v.arr.sort().range(), z3.DatatypeSortRef) and 'pair' in v.arr.sort().range().name():
                if L.vec_elem_is_pair if False else True:
                    return v

    def shape(self, c, r, n):
        hs = self.hs(c.ex)
        return And(n <= hs.len, ForAll([_q], Implies(And(0 <= _q, _q < n), row(r, _q)[0] == L.v_len(Select(hs.arr, _q))), patterns=[Select(r.arr, _q)]))

    def zeros(self, ex, r):
        return ForAll([_q, _k], Implies(And(0 <= _q, _q < r.len, 0 <= _k, _k < row(r, _q)[0]), Select(row(r, _q)[1], _k) == L.dlit(0)), patterns=[Select(row(r, _q)[1], _k)])


# ---- construction --------------------------------------------------------------------------------------------------------
def same_rows(v):
    n = row(v, IntVal(0))[0]
    return ForAll([_q], Implies(And(0 <= _q, _q < v.len), row(v, _q)[0] == n), patterns=[Select(v.arr, _q)])


@reg
class Transpose(Contract):
    sig = C + '::transpose(' + VVD + ')'

    def requires(self, c):
        p = c.arg(0)
        return [('there is a row', p.len >= 1), ('rows of equal length', same_rows(p)), ('size', row(p, IntVal(0))[0] >= 0)]

    def upto(self, c, r, m):
        p = c.arg(0)
        return ForAll([_q, _k], Implies(And(0 <= _q, _q < m, 0 <= _k, _k < p.len), Select(row(r, _q)[1], _k) == Select(row(p, _k)[1], _q)), patterns=[Select(row(r, _q)[1], _k)])

    def lens(self, c, r):
        p = c.arg(0)
        return ForAll([_q], Implies(And(0 <= _q, _q < row(p, IntVal(0))[0]), row(r, _q)[0] == p.len), patterns=[Select(r.arr, _q)])

    def ensures(self, c):
        p = c.arg(0)
        return [('one row per column', c.ret.len == row(p, IntVal(0))[0]), ('of as many entries as there are rows', self.lens(c, c.ret)), ('entry j of row i is entry i of row j', self.upto(c, c.ret, c.ret.len))]

    def invs(self, li):
        out = []
        ex = li.ex
        loc = li.locals()
        ints = [(n, p) for n, p in loc.items() if len(p) == 1 and isinstance(ex.store.get(p[0]), z3.ArithRef)]
        for p in li.mods:
            v = li.entry(p)
            if isinstance(v, Vec) and v.arr.sort() == PTS:
                out.append(('lengths of the rows', lambda ex, it, p=p: self.lens(ex.ctx, ex.read(p))))
                out.append(('number of rows', lambda ex, it, p=p: ex.read(p).len == row(ex.ctx.arg(0), IntVal(0))[0]))
                for n, ip in ints:
                    out.append(('rows before %s' % n, lambda ex, it, p=p, ip=ip: self.upto(ex.ctx, ex.read(p), ex.read(ip))))
                    for m, jp in ints:
                        if n != m:
                            def g(ex, it, p=p, ip=ip, jp=jp):
                                q = ex.ctx.arg(0)
                                i, j = ex.read(ip), ex.read(jp)
                                return ForAll([_k], Implies(And(0 <= _k, _k < j), Select(row(ex.read(p), i)[1], _k) == Select(row(q, _k)[1], i)), patterns=[Select(row(ex.read(p), i)[1], _k)])
                            out.append(('entries of row %s before %s' % (n, m), g))
        return out


# column i of a list of rows
COLA = Function('column', PTS, I, AD)
_pp = Const('l!pp', PTS)
L.AX.append(ForAll([_pp, _k, _q], Select(COLA(_pp, _k), _q) == Select(L.v_arr(Select(_pp, _q)), _k), patterns=[Select(COLA(_pp, _k), _q)]))


def duals(p, d):
    """coordinate i of all the data is one vectorised constant"""
    n = row(p, IntVal(0))[0]
    return [('one vectorised constant per coordinate', d.len == n),
            ('constant i holds coordinate i of every datum, in order', duals_upto(p, d, n))]


def duals_upto(p, d, n):
    return ForAll([_k], Implies(And(0 <= _k, _k < n), Select(d.arr, _k) == GCST(SD(p.len, COLA(p.arr, _k)))), patterns=[Select(d.arr, _k)])


@reg
class ToGdual(Contract):
    sig = C + '::points_to_gdual_v(' + VVD + ')'
    requires = Transpose.requires

    def ensures(self, c):
        return duals(c.arg(0), c.ret)

    def invs(self, li):
        return [('coordinates so far', lambda ex, it, p=p: duals_upto(ex.ctx.arg(0), ex.read(p), it)) for p in li.mods if isinstance(li.entry(p), Vec) and li.entry(p).arr.sort() == AG]

    def hints(self, ex, c):
        q = c.arg(0)
        it = getattr(ex, 'itc', None)
        return [SDH(SD(q.len, COLA(q.arr, it)))] if it is not None else []


def consistent(S):
    return And(S.m_points.len >= 1, S.m_points.len == S.m_labels.len, rows_dim(S.m_points), rows_dim(S.m_labels))


def rows_dim(v):
    n = row(v, IntVal(0))[0] % 2**32
    return ForAll([_q], Implies(And(0 <= _q, _q < v.len), row(v, _q)[0] == n), patterns=[Select(v.arr, _q)])


def bad_dims(r, c, l, a, f):
    return Or(c == 0, r == 0, l == 0, a < 2, f.len == 0)


@reg
class Sanity(Contract):
    sig = C + '::sanity_checks(unsigned int &, unsigned int &)'

    def requires(self, c):
        S = c.old()
        return [('sizes are sizes', And([And(row(v, IntVal(0))[0] >= 0, row(v, IntVal(0))[0] < 2**60) for v in (S.m_points, S.m_labels)]))]

    def throws(self, c):
        S = c.old()
        return Or(Not(consistent(S)), bad_dims(S.m_r, S.m_c, S.m_l, S.m_arity, S.m_f))

    def modifies(self, c):
        return [c.binds[0], c.binds[1]]

    throw_modifies = modifies

    def ensures(self, c):
        S = c.old()
        return [('dimension of the points', c.arg(0, post=True) == row(S.m_points, IntVal(0))[0]), ('dimension of the labels', c.arg(1, post=True) == row(S.m_labels, IntVal(0))[0])]

    def hints(self, ex, c):
        S = c.old()
        return [L.TOUCH(row(S.m_points, IntVal(0))[0]), L.TOUCH(row(S.m_labels, IntVal(0))[0])]


NMS = Function('differential_names', z3.ArraySort(I, KU), AS)     # names of the kernels, the protected division replaced by the plain one
_fa = Const('l!fa', z3.ArraySort(I, KU))


def dname(k):
    return If(KNAME(k) == lit('pdiv'), lit('div'), KNAME(k))


L.AX.append(ForAll([_fa, _q], Select(NMS(_fa), _q) == dname(Select(_fa, _q)), patterns=[Select(NMS(_fa), _q)]))
ARGS = ['m_r', 'm_c', 'm_l', 'm_arity', 'm_f', 'm_n_eph', 'm_multi_objective', 'm_parallel_batches', 'm_loss_s']


@reg
class Ctor(Contract):
    sig = C + '::symbolic_regression(' + VVD + ', ' + VVD + ', unsigned int, unsigned int, unsigned int, unsigned int, std::vector<dcgp::kernel<double> >, unsigned int, _Bool, unsigned int, string, unsigned int)'

    def parts(self, c):
        pts, lbs, r, cc, l, ar, f, ne, mo, par, loss = [c.arg(i) for i in range(11)]
        return pts, lbs, r, cc, l, ar, f, ne, mo, par, loss

    def requires(self, c):
        pts, lbs, r, cc, l, ar, f, ne, mo, par, loss = self.parts(c)
        return [('sizes fit', And([And(v.len < 2**32, row(v, IntVal(0))[0] >= 0, row(v, IntVal(0))[0] + ne < 2**32) for v in (pts, lbs)] + [f.len < 2**32]))]

    def known(self, f, n):
        return ForAll([_q], Implies(And(0 <= _q, _q < n), KNOWN(dname(Select(f.arr, _q)))), patterns=[KNAME(Select(f.arr, _q))])

    def throws(self, c):
        pts, lbs, r, cc, l, ar, f, ne, mo, par, loss = self.parts(c)
        n, m = row(pts, IntVal(0))[0], row(lbs, IntVal(0))[0]
        return Or(pts.len == 0, pts.len != lbs.len, Not(rows_dim(pts)), Not(rows_dim(lbs)), bad_dims(r, cc, l, ar, f), m == 0, n + ne == 0,
                  Not(self.known(f, f.len)), And(loss != lit('MSE'), loss != lit('CE')))

    def throw_modifies(self, c):
        return [c.this]

    def ensures(self, c):
        pts, lbs, r, cc, l, ar, f, ne, mo, par, loss = self.parts(c)
        S = c.new()
        n, m = row(pts, IntVal(0))[0], row(lbs, IntVal(0))[0]
        d = (n, L.norm(n + ne), m, r, cc, l, ar, f.len)
        out = [('data kept: points', c.ex.same(S.m_points, pts)), ('data kept: labels', c.ex.same(S.m_labels, lbs))]
        for k, v in zip(ARGS, (r, cc, l, ar, f, ne, mo, par, loss)):
            out.append(('parameter kept: ' + k, c.ex.same(S.f[k], v)))
        out += [('the expression is the one of the parameters', S.m_cgp.key == MKD(*d, SKD(f.len, f.arr))),
                ('the differential expression is the one of the same parameters and kernels (division unprotected)', S.m_dcgp.key == MKG(*d, SKG(f.len, GKA(NMS(f.arr))))),
                ('the loss is the one requested', S.m_loss_e == If(loss == lit('MSE'), IntVal(0), IntVal(1)))]
        out += [('points: ' + a, b) for a, b in duals(pts, S.m_dpoints)] + [('labels: ' + a, b) for a, b in duals(lbs, S.m_dlabels)]
        return out + [('invariant established: ' + a, b) for a, b in inv(S) if 'suit' not in a]

    def modifies(self, c):
        return [c.this]

    def hints(self, ex, c):
        f = c.arg(6)
        return [Function('seen_gk', GKU, B)(Select(GKA(NMS(f.arr)), IntVal(0))), Function('seen_sk', SKG(f.len, GKA(NMS(f.arr))).sort(), B)(SKG(f.len, GKA(NMS(f.arr))))]

    def invs(self, li):
        out = []
        for p in li.mods:
            v = li.entry(p)
            if p[-1] == ('f', 'names'):
                out.append(('names so far', lambda ex, it, p=p: And(ex.read(p).len == it, ForAll([_q], Implies(And(0 <= _q, _q < it), Select(ex.read(p).arr, _q) == dname(Select(ex.ctx.arg(6).arr, _q))), patterns=[Select(ex.read(p).arr, _q), KNAME(Select(ex.ctx.arg(6).arr, _q))]))))
                out.append(('names known so far', lambda ex, it, p=p: self.known(ex.ctx.arg(6), it)))
            elif isinstance(v, Vec) and v.arr.sort() == AS:
                out.append(('differential names so far', lambda ex, it, p=p: And(ex.read(p).len == it, ForAll([_q], Implies(And(0 <= _q, _q < it), Select(ex.read(p).arr, _q) == L.cat(lit('d'), Select(CNAMES, _q))), patterns=[Select(ex.read(p).arr, _q)]))))
        return out


class Pc(Contract):
    def requires(self, c):
        return inv(c.old())

    def modifies(self, c):
        return [c.fpath('m_cgp') + (('f', 'key'),), c.fpath('m_dcgp') + (('f', 'key'),), c.fpath('m_cache_fitness')]

    def ensures(self, c):
        S, N = c.old(), c.new()
        out = []
        for k in ('m_cgp', 'm_dcgp'):
            K = S.f[k].key
            want = self.want(c, k, K)
            out.append(('correction of %s' % k, N.f[k].key == want))
        return out + [('invariant kept: ' + a, b) for a, b in inv(N) if 'suit' not in a]


@reg
class SetPc(Pc):
    sig = None

    def want(self, c, k, K):
        v = c.arg(0 if k == 'm_cgp' else 1)
        return PCSET[K.sort()](K, Function('pc_of', v.sort(), L.usort('PC' + K.sort().name()))(v))


@reg
class UnsetPc(Pc):
    sig = C + '::unset_phenotype_correction()'

    def want(self, c, k, K):
        return PCNO[K.sort()](K)


del REG[None]
SetPc.sig = C + '::set_phenotype_correction(dcgp::function<std::vector<double> (const std::vector<double> &, std::function<std::vector<double> (const std::vector<double> &)>)>, dcgp::function<std::vector<G> (const std::vector<G> &, std::function<std::vector<G> (const std::vector<G> &)>)>)'.replace('G>', 'audi::gdual<audi::vectorized<double> >>').replace(' >>', ' > >')
reg(SetPc)


GROUP = (dict(REG, **{k: v for k, v in evalu.BASE.items() if 'get_name' in k}), view.KW)
