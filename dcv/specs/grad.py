"""Contracts of the gradient of the loss of ANN expressions and of stochastic gradient descent."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Select, IntVal, BoolVal, MultiPattern, Const, Function, Int, ToReal, RealVal
import logic as L
from logic import I, D, B, AI, AD
from exec import Vec, Rec, Iter, Unsupported, Undef
from contract import Contract
import layout
from layout import Lay, k_, q_
import evalu
from evalu import A, KS, AK, lit
import ann
from ann import awf
import loss
from loss import RealExec, VAL, FRAC, RM, R, AR, SUMR, arrfun, SD, SQD, PTS, VD, VVD, IT, rowl, rowa, indices, sum_invs, good_invs, offsets
import expr

REGG = {}


def reg(cls):
    c = cls()
    REGG[c.sig] = c
    return cls


U = L.usort('U_network')
# everything the value of an ANN expression depends on, but its weights and biases
NETF = Function('network', AI, AI, I, I, I, I, AK, AI, U)
NL = Function('net_loss', U, AD, AD, SQD, AD, I, R)
GWA = Function('net_dloss_dweights', U, AD, AD, SQD, AD, I, AR)
GBA = Function('net_dloss_dbiases', U, AD, AD, SQD, AD, I, AR)


def net(S):
    return NETF(S.m_x.arr, S.m_arity.arr, S.m_r, S.m_n, S.m_m, S.m_c, S.m_f.arr, S.m_kernel_map.arr)


def args(S):
    return net(S), S.m_weights.arr, S.m_biases.arr


def batch_fun(name, f, k=False):
    """over the samples of a batch: the loss of a sample, or entry k of its gradient"""
    def body(N, w, b, p, i, l, j, kind, *r):
        q = r[-1]
        v = f(N, w, b, SD(rowl(p, i + q), rowa(p, i + q)), rowa(l, j + q), kind)
        return Select(v, r[0]) if k else v
    return arrfun(name, [U, AD, AD, PTS, I, PTS, I, I] + ([I] if k else []), body)


BLN = batch_fun('net_losses', NL)
BGW = batch_fun('net_dlosses_dweight', GWA, True)
BGB = batch_fun('net_dlosses_dbias', GBA, True)


def good(S, pts, i, lbs, j, n):
    return And(ForAll([q_], Implies(And(i <= q_, q_ < i + n), rowl(pts, q_) == S.m_n), patterns=[Select(pts, q_)]),
               ForAll([q_], Implies(And(j <= q_, q_ < j + n), rowl(lbs, q_) == S.m_m), patterns=[Select(lbs, q_)]))


_ok = {}


def terms_of(v, skip):
    if isinstance(v, Rec):
        return [t for k in sorted(v.f) if k not in skip for t in terms_of(v.f[k], ())]
    if isinstance(v, Vec):
        return [v.len, v.arr]
    return [v] if isinstance(v, z3.ExprRef) else []


def invariant(S):
    """the invariant of ANN expressions, by name: it says nothing about the values of weights and biases, only how many there are"""
    ts = terms_of(S, ('m_weights', 'm_biases')) + [S.m_weights.len, S.m_biases.len]
    key = tuple(t.sort() for t in ts)
    if key not in _ok:
        _ok[key] = Function('ann_invariant_%d' % len(_ok), *key, B)
    return _ok[key](*ts)


def unfold(S):
    return [g for _, g in layout.wf(S) + layout.act(S) + awf(S)] + [S.m_n + Lay(S).rc + S.m_m < 2**32]


class Ann(Contract):
    this_type = 'dcgp::expression_ann'

    def requires(self, c):
        return [('the invariant holds', invariant(c.old()))]


def known(k):
    return ('a known loss', And(0 <= k, k <= 1))


@reg
class Cum(Ann):
    """one sample: its loss and gradient are added to what the arguments hold"""
    assumed = True
    sig = A + '::d_loss(double &, std::vector<double> &, std::vector<double> &, ' + VD + ', ' + VD + ', const dcgp::expression<double>::loss_type)'

    def requires(self, c):
        return Ann.requires(self, c) + [known(c.arg(5))]

    def throws(self, c):
        S = c.old()
        return Or(c.arg(3).len != S.m_n, c.arg(4).len != S.m_m, c.arg(1).len != S.m_weights.len, c.arg(2).len != S.m_biases.len)

    def modifies(self, c):
        return [c.binds[0], c.binds[1], c.binds[2]]

    def terms(self, c):
        return args(c.old()) + (SD(c.arg(3).len, c.arg(3).arr), c.arg(4).arr, c.arg(5))

    def ensures(self, c):
        t = self.terms(c)
        w0, w1, b0, b1 = c.arg(1), c.arg(1, post=True), c.arg(2), c.arg(2, post=True)
        up = lambda v0, v1, g: ForAll([k_], Implies(And(0 <= k_, k_ < v0.len), VAL(Select(v1.arr, k_)) == VAL(Select(v0.arr, k_)) + Select(g, k_)), patterns=[Select(v1.arr, k_)])
        return [('the loss is added', VAL(c.arg(0, post=True)) == VAL(c.arg(0)) + NL(*t)),
                ('sizes', And(w1.len == w0.len, b1.len == b0.len)),
                ('the derivative by each weight is added', up(w0, w1, GWA(*t))),
                ('the derivative by each bias is added', up(b0, b1, GBA(*t)))]


class Ranged(loss.IterArgs, Ann):
    kind = 3
    par = 4

    def requires(self, c):
        return Ann.requires(self, c) + self.setup_iters(c) + [known(c.arg(self.kind))]

    def throws(self, c):
        P, i, Lb, j, n = self.parts(c)
        par = c.arg(self.par)
        return Or(Not(good(c.old(), P.arr, i, Lb.arr, j, n)), And(par > 0, L.mod(n, par) != 0))

    def sums(self, c):
        P, i, Lb, j, n = self.parts(c)
        a = args(c.old()) + (P.arr, i, Lb.arr, j, c.arg(self.kind))
        return n, BLN(*a), lambda k: BGW(*a, k), lambda k: BGB(*a, k)

    def mean(self, c):
        n, bl, gw, gb = self.sums(c)
        return FRAC(SUMR(n, bl), ToReal(n)), lambda k: FRAC(SUMR(n, gw(k)), ToReal(n)), lambda k: FRAC(SUMR(n, gb(k)), ToReal(n))


@reg
class BatchGrad(Ranged):
    sig = A + '::d_loss(' + IT + ', ' + IT + ', ' + IT + ', dcgp::expression<double>::loss_type, unsigned int)'

    def ensures(self, c):
        S = c.old()
        ml, mw, mb = self.mean(c)
        v, w, b = [c.ret.f[k] for k in '012']
        return [('the loss is the mean of the losses of the samples', VAL(v) == ml),
                ('one derivative per weight and bias', And(w.len == S.m_weights.len, b.len == S.m_biases.len)),
                ('the derivatives by the weights are means over the samples', ForAll([k_], Implies(And(0 <= k_, k_ < w.len), VAL(Select(w.arr, k_)) == mw(k_)), patterns=[Select(w.arr, k_)])),
                ('the derivatives by the biases are means over the samples', ForAll([k_], Implies(And(0 <= k_, k_ < b.len), VAL(Select(b.arr, k_)) == mb(k_)), patterns=[Select(b.arr, k_)]))]

    def invs(self, li):
        ex = li.ex
        n, bl, gw, gb = self.sums(ex.ctx)
        out = sum_invs(li, bl) + good_invs(li, self, lambda ex: ex.ctx.old(), good)
        ints, offs = indices(li), offsets(li)
        nw, nb = L.norm(ex.ctx.old().m_weights.len), L.norm(ex.ctx.old().m_biases.len)
        for p in li.mods:
            v = li.entry(p)
            if not (isinstance(v, Vec) and z3.is_array(v.arr) and v.arr.sort() == AD):
                continue
            for nm, g, ln in (('weights', gw, nw), ('biases', gb, nb)):
                if L.norm(v.len).eq(nb if ln is nw else nw) and not nw.eq(nb):
                    continue
                for a, ip in ints.items():
                    if ip not in li.mods:
                        continue

                    def one(ex, it, p=p, ip=ip, g=g):
                        r = ex.read(p)
                        return ForAll([k_], Implies(And(0 <= k_, k_ < r.len), VAL(Select(r.arr, k_)) == SUMR(ex.read(ip), g(k_))), patterns=[Select(r.arr, k_)])
                    out.append(('%s: %s, samples before %s' % (p[-1], nm, a), one))
                    for b, jp in offs.items():
                        if b != a:
                            def two(ex, it, p=p, ip=ip, jp=jp, g=g):
                                r = ex.read(p)
                                return ForAll([k_], Implies(And(0 <= k_, k_ < r.len), VAL(Select(r.arr, k_)) == SUMR(L.norm(ex.read(ip) + ex.read(jp)), g(k_)) - SUMR(ex.read(jp), g(k_))), patterns=[Select(r.arr, k_)])
                            out.append(('%s: %s, %s samples from %s' % (p[-1], nm, a, b), two))
        return out


@reg
class WholeGrad(Ann):
    sig = A + '::d_loss(' + VVD + ', ' + VVD + ', dcgp::expression<double>::loss_type, unsigned int)'

    def requires(self, c):
        return Ann.requires(self, c) + [('number of data fits', c.arg(0).len < 2**32), known(c.arg(2))]

    def throws(self, c):
        p, l, par = c.arg(0), c.arg(1), c.arg(3)
        return Or(p.len != l.len, p.len == 0, Not(good(c.old(), p.arr, IntVal(0), l.arr, IntVal(0), p.len)), And(par > 0, L.mod(p.len, par) != 0))

    def ensures(self, c):
        p, l = c.arg(0), c.arg(1)
        S = c.old()
        a = args(S) + (p.arr, IntVal(0), l.arr, IntVal(0), c.arg(2))
        v, w, b = [c.ret.f[k] for k in '012']
        mean = lambda s: FRAC(SUMR(p.len, s), ToReal(p.len))
        return [('the loss is the mean of the losses of the samples', VAL(v) == mean(BLN(*a))),
                ('one derivative per weight and bias', And(w.len == S.m_weights.len, b.len == S.m_biases.len)),
                ('the derivatives by the weights are means over the samples', ForAll([k_], Implies(And(0 <= k_, k_ < w.len), VAL(Select(w.arr, k_)) == mean(BGW(*a, k_))), patterns=[Select(w.arr, k_)])),
                ('the derivatives by the biases are means over the samples', ForAll([k_], Implies(And(0 <= k_, k_ < b.len), VAL(Select(b.arr, k_)) == mean(BGB(*a, k_))), patterns=[Select(b.arr, k_)]))]


@reg
class Step(Ranged):
    """one step of gradient descent"""
    sig = A + '::update_weights(' + IT + ', ' + IT + ', ' + IT + ', double, dcgp::expression<double>::loss_type, unsigned int)'
    kind, par = 4, 5

    def modifies(self, c):
        return [c.fpath('m_weights'), c.fpath('m_biases')]

    def ensures(self, c):
        S, T = c.old(), c.new()
        ml, mw, mb = self.mean(c)
        lr = VAL(c.arg(3))
        up = lambda v0, v1, g: And(v1.len == v0.len, ForAll([k_], Implies(And(0 <= k_, k_ < v0.len), VAL(Select(v1.arr, k_)) == VAL(Select(v0.arr, k_)) - RM(lr, g(k_))), patterns=[Select(v1.arr, k_)]))
        return [('the loss before the step is returned', VAL(c.ret) == ml),
                ('each weight is moved by the rate times the mean derivative', up(S.m_weights, T.m_weights, mw)),
                ('each bias is moved by the rate times the mean derivative', up(S.m_biases, T.m_biases, mb))]


MODELS = dict(loss.MODELS)
ENGS = None
POINTS, LABELS = 'p:points', 'p:labels'


def perm(es):
    return Function('shuffle_of_' + str(es), es, I, AI), Function('shuffled_' + str(es), es, I, es), Function('unshuffle_of_' + str(es), es, I, AI)


SHUF = Function('permuted', PTS, AI, PTS)
pa, aa = Const('gr!p', PTS), Const('gr!a', AI)
L.AX.append(ForAll([pa, aa, q_], Select(SHUF(pa, aa), q_) == Select(pa, Select(aa, q_)), patterns=[Select(SHUF(pa, aa), q_)]))


def shuffle(ex, v, s, n, ia, ep):
    """a permutation that depends on the state of the engine and the number of elements only"""
    if not (z3.is_int_value(s) and s.as_long() == 0) or v.arr.sort() != PTS:
        raise Unsupported('shuffle of this')
    es = ex.read(ep)
    P, N, Q = perm(es.sort())
    p = P(es, n)
    ex.assume(ForAll([q_], Implies(And(0 <= q_, q_ < n), And(0 <= Select(p, q_), Select(p, q_) < n, Select(Q(es, n), Select(p, q_)) == q_)), patterns=[Select(p, q_)]))
    ex.write(ia.path, Vec(v.len, SHUF(v.arr, p), v.et))
    ex.write(ep, N(es, n))
    ex.write(('ghost:perm:' + ia.path[0],), p)
    return loss.VOID


MODELS['hook:shuffle'] = shuffle


@loss.model('std::random_device::operator()')
def _(ex, e, f, w):
    r = z3.Int(ex.nm('seed'))
    ex.assume(And(0 <= r, r < 2**32))
    return r


@loss.model('ctor:std::random_device')
def _(ex, e, f):
    return Rec(e['t'], {})


MODELS.update({k: v for k, v in loss.MODELS.items() if k not in MODELS})
IDENT = Const('unpermuted', AI)


@reg
class Sgd(Ann):
    sig = A + '::sgd(std::vector<std::vector<double> > &, std::vector<std::vector<double> > &, double, unsigned int, const string &, unsigned int, _Bool)'
    frame_on_throw = True

    def requires(self, c):
        return Ann.requires(self, c) + [('number of data fits', And(c.arg(0).len < 2**32, c.arg(1).len < 2**32))]

    def setup(self, ex, f):
        this, binds = Contract.setup(self, ex, f)
        self.pp, self.lp = binds[0], binds[1]
        ex.store['ghost:pos'] = IntVal(0)
        ex.store['ghost:count'] = IntVal(0)
        ex.store['ghost:sum'] = RealVal(0)
        S = ex.read(this)
        ex.store['ghost:w'], ex.store['ghost:b'] = S.m_weights.arr, S.m_biases.arr
        for p in (self.pp, self.lp):
            ex.store['ghost:perm:' + p[0]] = IDENT
        return this, binds

    def rejected(self, c):
        lr, s = c.arg(2), c.arg(4)
        return Or(c.arg(0).len != c.arg(1).len, c.arg(0).len == 0, Not(L.DLT(L.I2D(IntVal(0)), lr)), c.arg(3) == 0, And(s != lit('MSE'), s != lit('CE')))

    def throws(self, c):
        return self.rejected(c)

    def may_throw(self, c):
        """the data may turn out not to suit the network, or not to split into parts, on the way"""
        p, l = c.arg(0), c.arg(1)
        return Or(Not(good(c.old(), p.arr, IntVal(0), l.arr, IntVal(0), p.len)), c.arg(5) > 0)

    GH = ['ghost:pos', 'ghost:count', 'ghost:sum', 'ghost:w', 'ghost:b']

    def modifies(self, c):
        return [c.fpath('m_weights'), c.fpath('m_biases'), c.binds[0], c.binds[1]] + [(g,) for g in self.GH] + [('ghost:perm:' + p[0],) for p in (self.pp, self.lp)]

    throw_modifies = modifies

    def throw_ensures(self, c):
        S, T, r = c.old(), c.new(), self.rejected(c)
        ex = c.ex
        return [('nothing is changed by a rejected call', Implies(r, And(S.m_weights.arr == T.m_weights.arr, S.m_weights.len == T.m_weights.len, S.m_biases.arr == T.m_biases.arr, S.m_biases.len == T.m_biases.len,
                                                                       c.arg(0).arr == c.arg(0, post=True).arr, c.arg(0).len == c.arg(0, post=True).len, c.arg(1).arr == c.arg(1, post=True).arr, c.arg(1).len == c.arg(1, post=True).len)))]

    def at_call(self, sig, ex, cx):
        if sig != Step.sig:
            return []
        c = ex.ctx
        d0, d1, l0 = cx.arg(0), cx.arg(1), cx.arg(2)
        pos, N = ex.read(('ghost:pos',)), c.arg(0).len
        S = cx.old()
        s = c.arg(4)
        end = If(pos + c.arg(3) <= N, pos + c.arg(3), N)
        return [('the batch is one of the data, with its labels', BoolVal(d0.path == self.pp and d1.path == self.pp and l0.path == self.lp)),
                ('the batch begins where the last one ended', d0.idx == pos),
                ('the labels begin there too', l0.idx == pos),
                ('the batch has the size requested, or all that is left', d1.idx == end),
                ('the learning rate is the one given', cx.arg(3) == c.arg(2)),
                ('the loss is the one given', cx.arg(4) == If(s == lit('MSE'), IntVal(0), IntVal(1))),
                ('the split is the one given', cx.arg(5) == c.arg(5)),
                ('weights and biases are those the last batch left', And(S.m_weights.arr == ex.read(('ghost:w',)), S.m_biases.arr == ex.read(('ghost:b',)), S.m_weights.len == c.old().m_weights.len, S.m_biases.len == c.old().m_biases.len))]

    def after_call(self, sig, ex, cx):
        if sig != Step.sig:
            return
        ex.write(('ghost:pos',), cx.arg(1).idx)
        ex.write(('ghost:count',), L.norm(ex.read(('ghost:count',)) + 1))
        ex.write(('ghost:sum',), ex.read(('ghost:sum',)) + VAL(cx.ret))
        T = cx.new()
        ex.write(('ghost:w',), T.m_weights.arr)
        ex.write(('ghost:b',), T.m_biases.arr)

    def ensures(self, c):
        ex = c.ex
        rd = lambda n: ex.store['ghost:' + n]
        p0, p1, l0, l1 = c.arg(0), c.arg(0, post=True), c.arg(1), c.arg(1, post=True)
        T = c.new()
        pp, lp = rd('perm:' + self.pp[0]), rd('perm:' + self.lp[0])
        moved = lambda v0, v1: And(v1.len == v0.len, ForAll([q_], Implies(And(0 <= q_, q_ < v0.len), Select(v1.arr, q_) == Select(v0.arr, Select(pp, q_))), patterns=[Select(v1.arr, q_)]))
        return [('every sample has been used', rd('pos') == p0.len),
                ('the mean of the losses of the batches is returned', VAL(c.ret) == FRAC(rd('sum'), ToReal(rd('count')))),
                ('weights and biases are those the last batch left', And(T.m_weights.arr == rd('w'), T.m_biases.arr == rd('b'), T.m_weights.len == c.old().m_weights.len, T.m_biases.len == c.old().m_biases.len)),
                ('without shuffling the data stay as they are', Implies(Not(c.arg(6)), And(p1.arr == p0.arr, p1.len == p0.len, l1.arr == l0.arr, l1.len == l0.len))),
                ('points and labels are shuffled alike', Implies(c.arg(6), And(pp == lp, moved(p0, p1), moved(l0, l1))))]

    def invs(self, li):
        ex = li.ex
        c = ex.ctx
        g = lambda ex, n: ex.read(('ghost:' + n,))
        out = []
        N = c.arg(0).len
        out.append(('positions', lambda ex, it: And(0 <= g(ex, 'pos'), g(ex, 'pos') <= N, g(ex, 'count') >= 0, Or(g(ex, 'pos') == 0, g(ex, 'count') >= 1))))
        for p in li.mods:
            v = li.entry(p)
            if isinstance(v, Iter):
                out.append(('%s is at the position' % p[-1], lambda ex, it, p=p: ex.read(p).idx == g(ex, 'pos')))
                out.append(('%s is at the position unless at the end' % p[-1], lambda ex, it, p=p: Or(ex.read(p).idx == g(ex, 'pos'), g(ex, 'pos') == N)))
                out.append(('%s in range' % p[-1], lambda ex, it, p=p: And(0 <= ex.read(p).idx, ex.read(p).idx <= N)))
            elif isinstance(v, z3.ExprRef) and v.sort() == D:
                out.append(('%s is the sum' % p[-1], lambda ex, it, p=p: VAL(ex.read(p)) == g(ex, 'sum')))
                out.append(('%s counts' % p[-1], lambda ex, it, p=p: VAL(ex.read(p)) == ToReal(g(ex, 'count'))))
            elif isinstance(v, z3.ArithRef) and v.sort() == I:
                out.append(('%s counts batches' % p[-1], lambda ex, it, p=p: ex.read(p) == g(ex, 'count')))
                out.append(('%s is the position' % p[-1], lambda ex, it, p=p: ex.read(p) == g(ex, 'pos')))
        S0 = c.old()
        out.append(('weights are those the last batch left', lambda ex, it: And(ex.read(('this',)).m_weights.arr == g(ex, 'w'), ex.read(('this',)).m_biases.arr == g(ex, 'b'),
                                                                              ex.read(('this',)).m_weights.len == S0.m_weights.len, ex.read(('this',)).m_biases.len == S0.m_biases.len)))
        return out


KW = dict(ex_cls=RealExec, extra_models=MODELS, opaque={'dcgp::kernel<double>', 'dcgp::function', 'dcgp::kernel'})
GROUPG = (REGG, KW)
