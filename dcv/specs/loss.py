"""Contracts of the losses: one sample, a batch (sequential or split over tasks), a data set; and of gradient descent over them.
Doubles keep their machine operations; the contracts speak about the real number each of them stands for (VAL), so that the
order of summation does not matter."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Function, Select, IntVal, BoolVal, MultiPattern, Const, Int, ToReal, RealVal
import logic as L
from logic import I, D, B, S as STR, AI, AD, AS
from contract import Contract
from exec import Exec, Vec, Rec, Iter, Unsupported, ExitSig, VOID, held, Guard
from stdmodel import FOLD, objpath, MODELS as STD
import stdmodel
import loops
from view import SD, SQD, PTS
from evalu import lit

R = z3.RealSort()
AR = z3.ArraySort(I, R)
VAL = Function('val', D, R)
FRAC = Function('frac', R, R, R)
RM = Function('r_mul', R, R, R)               # the product of two reals; what is needed of it are the lemmas of lemma_obligations
EXP, LOG = Function('r_exp', R, R), Function('r_log', R, R)
SUMR = L.extfun('sum_real', [], R, R)
u_, v_ = Const('ls!u', D), Const('ls!v', D)
x_, y_, z_, w_ = z3.Reals('ls!x ls!y ls!z ls!w')
q_, k_, n_, m_ = z3.Ints('ls!q ls!k ls!n ls!m')
a_, b_ = Const('ls!a', AD), Const('ls!b', AD)
r_ = Const('ls!r', AR)
i_ = Int('ls!i')
MEXP, MLOG = Function('m_exp', D, D), Function('m_log', D, D)
L.AX += [
    ForAll([u_, v_], VAL(L.DADD(u_, v_)) == VAL(u_) + VAL(v_), patterns=[VAL(L.DADD(u_, v_))]),
    ForAll([u_, v_], VAL(L.DSUB(u_, v_)) == VAL(u_) - VAL(v_), patterns=[VAL(L.DSUB(u_, v_))]),
    ForAll([u_, v_], VAL(L.DMUL(u_, v_)) == RM(VAL(u_), VAL(v_)), patterns=[VAL(L.DMUL(u_, v_))]),
    ForAll([u_, v_], VAL(L.DDIV(u_, v_)) == FRAC(VAL(u_), VAL(v_)), patterns=[VAL(L.DDIV(u_, v_))]),
    ForAll([u_], VAL(L.DNEG(u_)) == -VAL(u_), patterns=[VAL(L.DNEG(u_))]),
    ForAll([i_], VAL(L.I2D(i_)) == ToReal(i_), patterns=[VAL(L.I2D(i_))]),
    ForAll([u_], VAL(MEXP(u_)) == EXP(VAL(u_)), patterns=[VAL(MEXP(u_))]),
    ForAll([u_, v_], VAL(MEXP(L.DSUB(u_, v_))) == RM(EXP(VAL(u_)), EXP(-VAL(v_))), patterns=[VAL(MEXP(L.DSUB(u_, v_)))]),
    ForAll([u_], VAL(MLOG(u_)) == LOG(VAL(u_)), patterns=[VAL(MLOG(u_))]),
    ForAll([x_], EXP(x_) > 0, patterns=[EXP(x_)]),
    ForAll([n_, r_], Implies(n_ == 0, SUMR(n_, r_) == 0), patterns=[SUMR(n_, r_)]),
    ForAll([n_, m_, r_], Implies(And(n_ >= 0, m_ == n_ + 1), SUMR(m_, r_) == SUMR(n_, r_) + Select(r_, n_)), patterns=[MultiPattern(SUMR(n_, r_), SUMR(m_, r_))]),
]


def arrfun(name, sorts, body):
    """array of reals given by a formula in its index"""
    f = Function(name, *sorts, AR)
    vs = [Const('ls!%s%d' % (name, n), s) for n, s in enumerate(sorts)]
    L.AX.append(ForAll(vs + [q_], Select(f(*vs), q_) == body(*vs, q_), patterns=[Select(f(*vs), q_)]))
    return f


VMAP = arrfun('vals', [AD, I], lambda a, k, q: VAL(Select(a, k + q)))
L.AX.append(ForAll([a_, k_, n_, u_], VAL(FOLD(a_, k_, n_, u_)) == VAL(u_) + SUMR(n_, VMAP(a_, k_)), patterns=[VAL(FOLD(a_, k_, n_, u_))]))
L.AX.append(ForAll([a_, k_, n_, u_], Implies(VAL(u_) == 0, VAL(FOLD(a_, k_, n_, u_)) == SUMR(n_, VMAP(a_, k_))), patterns=[VAL(FOLD(a_, k_, n_, u_))]))
SSQA = arrfun('squares', [AD, AD], lambda o, y, q: RM(VAL(Select(o, q)) - VAL(Select(y, q)), VAL(Select(o, q)) - VAL(Select(y, q))))
EXPA = arrfun('exponentials', [AD], lambda o, q: EXP(VAL(Select(o, q))))
SCALE = arrfun('scaled', [AR, R], lambda r, c, q: RM(Select(r, q), c))
# label times log of the softmax
CEA = arrfun('cross_entropies', [AD, AD, I], lambda o, y, m, q: RM(LOG(FRAC(EXP(VAL(Select(o, q))), SUMR(m, EXPA(o)))), VAL(Select(y, q))))
L1 = Function('loss_of_outputs', AD, AD, I, I, R)
# lemmas (proved by induction, see lemma_obligations)
LEM_SCALE = ForAll([n_, r_, x_], Implies(n_ >= 0, SUMR(n_, SCALE(r_, x_)) == RM(SUMR(n_, r_), x_)), patterns=[SUMR(n_, SCALE(r_, x_))])
LEM_FRAC = ForAll([x_, y_, z_], Implies(And(y_ != 0, z_ != 0), FRAC(RM(x_, z_), RM(y_, z_)) == FRAC(x_, y_)), patterns=[FRAC(RM(x_, z_), RM(y_, z_))])
LEM_POS = ForAll([n_, a_], Implies(n_ >= 1, SUMR(n_, EXPA(a_)) > 0), patterns=[SUMR(n_, EXPA(a_))])


def lemma_obligations():
    n = Int('ls!ind')
    r, x, a = Const('ls!lr', AR), z3.Real('ls!lx'), Const('ls!la', AD)
    prod = ForAll([x_, y_], RM(x_, y_) == x_ * y_, patterns=[RM(x_, y_)])
    quot = ForAll([x_, y_], Implies(y_ != 0, FRAC(x_, y_) == x_ / y_), patterns=[FRAC(x_, y_)])
    out = []
    P = lambda k: SUMR(k, SCALE(r, x)) == RM(SUMR(k, r), x)
    out.append(('a scaled sum: nothing', [prod], P(IntVal(0))))
    out.append(('a scaled sum: one more', [prod, n >= 0, P(n)], P(n + 1)))
    Q = lambda k: SUMR(k, EXPA(a)) > 0
    out.append(('a sum of exponentials is positive: one', [SUMR(IntVal(0), EXPA(a)) == 0], Q(IntVal(1))))
    out.append(('a sum of exponentials is positive: one more', [n >= 1, Q(n)], Q(n + 1)))
    X, Y, Z = z3.Reals('ls!X ls!Y ls!Z')
    out.append(('cancellation in a fraction', [prod, quot, Y != 0, Z != 0], FRAC(RM(X, Z), RM(Y, Z)) == FRAC(X, Y)))
    return out


def l1_def(o, y, m, kind):
    mse = FRAC(SUMR(m, SSQA(o, y)), ToReal(m))
    ce = -SUMR(m, CEA(o, y, m))
    return L1(o, y, m, kind) == If(kind == 0, mse, ce)


class RealExec(Exec):
    """machine doubles with the real numbers they stand for; tasks of a parallel loop may touch what they share under a lock only"""
    shared = None

    def dlit(self, v):
        t = L.dlit(v)
        if t.decl().name() == 'dlit':
            self.assume(VAL(t) == RealVal(str(v) if not isinstance(v, float) else repr(v)))
        return t

    def write(self, path, val):
        self.check_shared(path, 'write')
        super().write(path, val)

    def rval(self, path, t=None):
        self.check_shared(path, 'read')
        return super().rval(path, t)

    def check_shared(self, path, what):
        if self.shared and path[0] in self.shared and not self.nospec:
            hs = [v for k, v in self.store.items() if k.startswith('ghost:held:')]
            self.oblige('%s of %s by a task only while it holds the mutex' % (what, path[0].split('!')[0].replace('v:', '')), Or(hs) if hs else BoolVal(False), 'lock')


MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


@model('tbb::detail::d1::parallel_for', 'tbb::parallel_for')
def _(ex, e, f, w):
    """every index of first, first+step, ... below last, once each; tasks are serialised by the mutex, and the order does not matter
    to the sums they add to"""
    a = e['args']
    if len(a) != 4:
        raise Unsupported('this parallel_for')
    first, last, step, lam = [ex.ev(x) for x in a]
    ex.oblige('the step of a parallel loop is positive', step >= 1, 'safety')
    root = ex.nm('v:__pf')
    ex.store[root] = first
    fr = ex.frames[-1]
    fr.loc[('pf', e['l'])] = (root,)
    lf = ex.p.F[lam.fn]
    prv = ex.shared

    def it(track=None):
        i = ex.read((root,))
        if not ex.choose(i < last):
            raise ExitSig()
        ex.shared = track if track is not None else share
        b = [ex.temp(i, 'arg')]
        roots = set(ex.store)
        try:
            ex.call_lambda(lam, b)
        finally:
            ex.shared = prv
        ex.write((root,), L.norm(i + step))
    share = set()
    # what the tasks write among the things that outlive them
    base = ex.snapshot()
    mods = loops.scan(ex, lambda: it(set()), base)
    ex.restore(base)
    share = {p[0] for p in mods if p[0] != root and not p[0].startswith('ghost:')}
    s = ex.__dict__.setdefault('pfs', {}).setdefault((e['l'], id(e)), {'l': e['l'], 'k': 'parallel'})
    ex.pf = (root, first, last, step)
    ex.loop(s, it, None)
    return VOID


@model('ctor:tbb::spin_mutex', 'ctor:tbb::detail::d1::spin_mutex', 'ctor:std::mutex')
def _(ex, e, f):
    return ex.fresh(e['t'], 'mutex')


MODELS['audi::exp'], MODELS['audi::log'] = STD['std::exp'], STD['std::log']
X = 'dcgp::expression<double>'
VD = 'const std::vector<double> &'
VVD = 'const std::vector<std::vector<double> > &'
IT = '__gnu_cxx::__normal_iterator<const std::vector<double> *, std::vector<std::vector<double> > >'
REG = {}


def reg(cls):
    c = cls()
    REG[c.sig] = c
    return cls


OUTA = Function('outputs_of', SQD, AD)        # what the expression, as it is, returns at a point


@model('dcgp::expression::operator()')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    S = ex.read(p)
    x = ex.ev(a[0])
    if isinstance(x, tuple):
        x = ex.read(x)
    if x.arr.sort() != AD:
        raise Unsupported('evaluation at these values')
    ex.oblige('evaluated at a point of the right size', x.len == nin(S), 'pre')
    return Vec(S.m_m, OUTA(SD(x.len, x.arr)), x.et)


def nin(S):
    return L.norm(S.m_n - S.m_eph_val.len)


def rowl(v, i):
    return L.v_len(Select(v, i))


def rowa(v, i):
    return L.v_arr(Select(v, i))


BL = arrfun('losses', [PTS, I, PTS, I, I, I], lambda p, i, l, j, m, kind, q: L1(OUTA(SD(rowl(p, i + q), rowa(p, i + q))), rowa(l, j + q), m, kind))


class Base(Contract):
    def requires(self, c):
        S = c.old()
        return [('there are outputs', And(S.m_m >= 1, S.m_m < 2**32)), ('inputs', And(S.m_n >= S.m_eph_val.len))]

    def background(self, c):
        return [LEM_SCALE, LEM_POS, LEM_FRAC]


@reg
class Point(Base):
    sig = X + '::loss(' + VD + ', ' + VD + ', dcgp::expression<double>::loss_type)'

    def requires(self, c):
        return Base.requires(self, c) + [('a known loss', And(0 <= c.arg(2), c.arg(2) <= 1))]

    def throws(self, c):
        return Or(c.arg(0).len != nin(c.old()), c.arg(1).len != c.old().m_m)

    def terms(self, c):
        x, y = c.arg(0), c.arg(1)
        return OUTA(SD(x.len, x.arr)), y.arr, c.old().m_m

    def background(self, c):
        o, y, m = self.terms(c)
        return Base.background(self, c) + [l1_def(o, y, m, c.arg(2))]

    def ensures(self, c):
        o, y, m = self.terms(c)
        return [('the mean squared error, or the cross entropy of the softmax of the outputs', VAL(c.ret) == L1(o, y, m, c.arg(2)))]

    def hints(self, ex, c):
        o, y, m = self.terms(c)
        out = []
        for r, v in ex.store.items():
            if isinstance(v, z3.ExprRef) and v.sort() == D:
                # the exponential of minus any shift taken
                out.append(Function('seen_sc', AR, B)(SCALE(EXPA(o), EXP(-VAL(v)))))
                out.append(SUMR(m, SCALE(EXPA(o), EXP(-VAL(v)))) == SUMR(m, SCALE(EXPA(o), EXP(-VAL(v)))))
        return [h for h in out if not z3.is_true(h)] + [Function('seen_r', R, B)(SUMR(m, SCALE(EXPA(o), EXP(-VAL(v))))) for r, v in ex.store.items() if isinstance(v, z3.ExprRef) and v.sort() == D]

    def invs(self, li):
        ex = li.ex
        o, y, m = self.terms(ex.ctx)
        loc = li.locals()
        out = []
        ints = [(n, p) for n, p in loc.items() if len(p) == 1 and isinstance(ex.store.get(p[0]), z3.ArithRef)]
        for p in li.mods:
            v = li.entry(p)
            if isinstance(v, z3.ExprRef) and v.sort() == D:
                for n, ip in ints:
                    out.append(('squared errors before %s' % n, lambda ex, it, p=p, ip=ip: VAL(ex.read(p)) == SUMR(ex.read(ip), SSQA(o, y))))
        return out


def good(S, pts, i, lbs, j, n):
    return And(ForAll([q_], Implies(And(i <= q_, q_ < i + n), rowl(pts, q_) == nin(S)), patterns=[Select(pts, q_)]),
               ForAll([q_], Implies(And(j <= q_, q_ < j + n), rowl(lbs, q_) == S.m_m), patterns=[Select(lbs, q_)]))


class IterArgs:
    """a range of data and the labels that go with it"""

    def parts(self, c):
        d0, d1, l0 = c.arg(0), c.arg(1), c.arg(2)
        P, Lb = c.old(d0.path), c.old(l0.path)
        return P, d0.idx, Lb, l0.idx, L.norm(d1.idx - d0.idx)

    def setup_iters(self, c):
        P, i, Lb, j, n = self.parts(c)
        return [('a range of the data', And(0 <= i, n >= 1, i + n <= P.len, n < 2**32)), ('labels for each', And(0 <= j, j + n <= Lb.len))]

    def iter_group(self, name):
        return {'dfirst': 'data', 'dlast': 'data', 'lfirst': 'labels'}.get(name, name)


@reg
class Batch(IterArgs, Base):
    sig = X + '::loss(' + IT + ', ' + IT + ', ' + IT + ', dcgp::expression<double>::loss_type, unsigned int)'

    def requires(self, c):
        return Base.requires(self, c) + self.setup_iters(c) + [('a known loss', And(0 <= c.arg(3), c.arg(3) <= 1))]

    def throws(self, c):
        P, i, Lb, j, n = self.parts(c)
        par = c.arg(4)
        return Or(Not(good(c.old(), P.arr, i, Lb.arr, j, n)), And(par > 0, L.mod(n, par) != 0))

    def arr(self, c):
        P, i, Lb, j, n = self.parts(c)
        return BL(P.arr, i, Lb.arr, j, c.old().m_m, c.arg(3))

    def ensures(self, c):
        P, i, Lb, j, n = self.parts(c)
        return [('the mean over the samples of their losses', VAL(c.ret) == FRAC(SUMR(n, self.arr(c)), ToReal(n)))]

    def invs(self, li):
        ex = li.ex
        return sum_invs(li, self.arr(ex.ctx)) + good_invs(li, self, lambda ex: ex.ctx.old())


def indices(li):
    ex = li.ex
    loc = li.frame_locals()
    ints = {n: p for n, p in loc.items() if isinstance(n, str) and len(p) == 1 and isinstance(ex.store.get(p[0]), z3.ArithRef)}
    pf = getattr(ex, 'pf', None)
    if pf:
        ints['__pf'] = (pf[0],)
    return ints


def consts(t, out=None):
    """the symbols of a term"""
    out = set() if out is None else out
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not z3.is_expr(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


def offsets(li):
    """indices a loop may count from: those that enclosing loops have moved (anything else is a function of the arguments)"""
    ex = li.ex
    c = ex.ctx
    if not hasattr(c, 'consts0'):
        c.consts0 = set()
        todo = list(c.pre.values())
        while todo:
            v = todo.pop()
            if isinstance(v, Rec):
                todo.extend(v.f.values())
            elif isinstance(v, Vec):
                todo += [v.len, v.arr]
            elif isinstance(v, Iter):
                todo.append(v.idx)
            elif isinstance(v, z3.ExprRef):
                consts(v, c.consts0)
    return {n: p for n, p in indices(li).items() if p not in li.mods and p[0] in li.base[0] and not consts(li.entry(p)) <= c.consts0}


def sum_invs(li, arr):
    """a total so far: the sum over the samples before an index, or between two indices"""
    ex = li.ex
    out = []
    ints, offs = indices(li), offsets(li)
    for p in li.mods:
        v = li.entry(p)
        if isinstance(v, z3.ExprRef) and v.sort() == D:
            for n, ip in ints.items():
                if ip in li.mods:
                    out.append(('%s: samples before %s' % (p[-1], n), lambda ex, it, p=p, ip=ip: VAL(ex.read(p)) == SUMR(ex.read(ip), arr)))
                    for m, jp in offs.items():
                        if m != n:
                            out.append(('%s: %s samples from %s' % (p[-1], n, m), lambda ex, it, p=p, ip=ip, jp=jp: VAL(ex.read(p)) == SUMR(L.norm(ex.read(ip) + ex.read(jp)), arr) - SUMR(ex.read(jp), arr)))
    pf = getattr(ex, 'pf', None)
    if pf and (pf[0],) in li.mods:
        out.append(('index of the task', lambda ex, it: ex.read((pf[0],)) == L.norm(pf[1] + L.mul(it, pf[3]))))
        out.append(('index within the range', lambda ex, it: And(0 <= ex.read((pf[0],)), ex.read((pf[0],)) <= pf[2])))
    return out


def good_invs(li, con, S, good=good):
    """the samples seen have the right sizes (otherwise the function has ended)"""
    out = []
    for n, ip in indices(li).items():
        if ip in li.mods:
            def g(ex, it, ip=ip):
                P, i, Lb, j, k = con.parts(ex.ctx)
                return good(S(ex), P.arr, i, Lb.arr, j, ex.read(ip))
            out.append(('sizes right before %s' % n, g))
            for m, jp in offsets(li).items():
                if m != n:
                    def h(ex, it, ip=ip, jp=jp):
                        P, i, Lb, j, k = con.parts(ex.ctx)
                        return good(S(ex), P.arr, L.norm(i + ex.read(jp)), Lb.arr, L.norm(j + ex.read(jp)), ex.read(ip))
                    out.append(('sizes right for %s from %s' % (n, m), h))
    return out


@reg
class Whole(Base):
    sig = X + '::loss(' + VVD + ', ' + VVD + ', const string &, unsigned int)'

    def requires(self, c):
        return Base.requires(self, c) + [('number of data fits', c.arg(0).len < 2**32)]

    def throws(self, c):
        p, l, s, par = [c.arg(n) for n in range(4)]
        return Or(p.len != l.len, p.len == 0, And(s != lit('MSE'), s != lit('CE')), Not(good(c.old(), p.arr, IntVal(0), l.arr, IntVal(0), p.len)), And(par > 0, L.mod(p.len, par) != 0))

    def ensures(self, c):
        p, l, s, par = [c.arg(n) for n in range(4)]
        return [('the mean over the samples of the losses requested', VAL(c.ret) == FRAC(SUMR(p.len, BL(p.arr, IntVal(0), l.arr, IntVal(0), c.old().m_m, If(s == lit('MSE'), IntVal(0), IntVal(1)))), ToReal(p.len)))]


KW = dict(ex_cls=RealExec, extra_models=MODELS, opaque={'dcgp::kernel<double>', 'dcgp::function', 'dcgp::kernel'})
GROUP = (REG, KW)
