"""Contracts on weights and biases of weighted and ANN expressions: addressing, setters, constructors."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Select, IntVal, BoolVal, MultiPattern, Store
import logic as L
from logic import I, mul
from exec import Vec, Rec
import layout
from layout import Lay, G, p_, k_, v_, t_
import expr
from expr import REG, E, Method, Inv, this, VD, CtorBase, same_val, int_locals
from evalu import W, A, wwf, wfacts, WN, WO, lit, KNAME

s_ = layout.s_


def reg(cls):
    c = cls()
    REG[c.sig] = c
    return cls


def WI(y, t):
    return L.norm(y.G(t) - t)


class WMethod(Method):
    ann = False
    fam = W

    def requires(self, c):
        S = c.old()
        return layout.wf(S) + wwf(S, self.ann) + [('no constants', S.m_eph_val.len == 0)]

    def background(self, c):
        S = c.old()
        return Lay(S).facts() + wfacts(S)


def no_such(c):
    S = c.old()
    y = Lay(S)
    v, j = c.arg(0), c.arg(1)
    return Or(v < y.n, v >= y.n + y.rc, j >= y.AR(v - y.n))


class SetW2(WMethod):
    """weight of connection j of node i: exactly the one evaluation uses there"""
    def mods(self):
        return ('m_weights',)

    def throws(self, c):
        return no_such(c)

    def pos(self, c):
        y = Lay(c.old())
        return WI(y, c.arg(0) - y.n) + c.arg(1)

    def ensures(self, c):
        w, w0 = c.new().m_weights, c.old().m_weights
        p = self.pos(c)
        return [('exactly the weight of that connection is set', And(w.len == w0.len, w.arr == Store(w0.arr, L.norm(p), c.arg(2)), 0 <= p, p < w0.len)),
                ('the position belongs to that node and connection', And(WN(c.old().m_arity.arr, c.old().m_r, L.norm(p)) == c.arg(0) - c.old().m_n, WO(c.old().m_arity.arr, c.old().m_r, L.norm(p)) == c.arg(1)))]


class GetW2(SetW2):
    def mods(self):
        return ()

    def ensures(self, c):
        return [('the weight of that connection', c.ret == Select(c.old().m_weights.arr, L.norm(self.pos(c))))]


class SetAll(WMethod):
    fld = 'm_weights'

    def mods(self):
        return (self.fld,)

    def throws(self, c):
        return c.arg(0).len != c.old().f[self.fld].len

    def ensures(self, c):
        w, a = c.new().f[self.fld], c.arg(0)
        return [('the values are those given', And(w.len == a.len, w.arr == a.arr))]


class SetOne(WMethod):
    fld = 'm_weights'

    def mods(self):
        return (self.fld,)

    def throws(self, c):
        return c.arg(0) >= c.old().f[self.fld].len

    def ensures(self, c):
        w, w0 = c.new().f[self.fld], c.old().f[self.fld]
        return [('exactly that entry is set', And(w.len == w0.len, w.arr == Store(w0.arr, c.arg(0), c.arg(1))))]


class GetOne(SetOne):
    def mods(self):
        return ()

    def ensures(self, c):
        return [('that entry', c.ret == Select(c.old().f[self.fld].arr, c.arg(0)))]


UU = 'unsigned int, unsigned int'
for _c, _ann in ((W, False), (A, True)):
    for _base, _s in ((SetW2, 'set_weight(%s, const double &)' % UU), (GetW2, 'get_weight(%s)' % UU), (SetAll, 'set_weights(%s)' % VD)):
        reg(type(_base.__name__ + ('A' if _ann else 'W'), (_base,), dict(sig=_c + '::' + _s, ann=_ann)))
for _base, _s, _f in ((SetOne, 'set_weight(unsigned long, const double &)', 'm_weights'), (GetOne, 'get_weight(unsigned long)', 'm_weights'),
                      (SetOne, 'set_bias(unsigned long, const double &)', 'm_biases'), (GetOne, 'get_bias(unsigned long)', 'm_biases'),
                      (SetAll, 'set_biases(%s)' % VD, 'm_biases')):
    reg(type('A_' + _s.split('(')[0], (_base,), dict(sig=A + '::' + _s, ann=True, fld=_f)))
for _c, _n, _f in ((W, 'get_weights', 'm_weights'), (A, 'get_weights', 'm_weights'), (A, 'get_biases', 'm_biases')):
    def _ens(self, c):
        return [('returns the member', same_val(c.ret, c.old().f[self.fld]))]
    k = reg(type('Get_' + _n, (WMethod,), dict(sig=_c + '::' + _n + '()', ann=_c == A, fld=_f, ensures=_ens)))
    REG[k.sig].getter = True


# ---- constructors ------------------------------------------------------------------------------------------------------
class WCtor(CtorBase):
    """arguments: n m r c l arity kernels seed; no constants"""
    ann = False

    def requires(self, c):
        return CtorBase.requires(self, WArgs(c))

    def throws(self, c):
        return expr.dim_reject(WArgs(c), self.uniform)

    def background(self, c):
        return []

    def ensures(self, c):
        S = c.new()
        y = Lay(S)
        out = CtorBase.ensures(self, WArgs(c)) + wwf(S, self.ann)
        out.append(('weights start at one', ForAll([p_], Implies(And(0 <= p_, p_ < mul(y.r, y.SUM)), Select(S.m_weights.arr, p_) == L.dlit(1)), patterns=[Select(S.m_weights.arr, p_)])))
        return out

    def hints(self, ex, c):
        out = []
        S = this(ex)
        try:
            y = Lay(S)
            for e in int_locals(ex):
                out += [L.TOUCH(y.G(e - y.n)), L.TOUCH(y.G(e + 1 - y.n))]
            out += [L.TOUCH(y.G(IntVal(0))), L.TOUCH(y.tot)]
        except Exception:
            pass
        if self.uniform:
            out.append(L.TOUCH(Select(KARR(c.arg(5)), IntVal(0))))
        return out

    def invs(self, li):
        v = Inv(li)
        SY = ('this', ('f', 'm_weights_symbols'))
        if SY in li.mods and v.has('node_id'):
            def names(ex, it):
                S = this(ex)
                y = Lay(S)
                a = S.m_weights_symbols
                return ForAll([p_], Implies(And(0 <= p_, p_ < a.len), Select(a.arr, p_) == L.cat(lit('w'), L.SINT(L.norm(y.n + WN(y.A, y.r, p_))), lit('_'), L.SINT(WO(y.A, y.r, p_)))), patterns=[Select(a.arr, p_)])
            v.add('names so far', names)
            nid = lambda ex: v.rd(ex, 'node_id')
            y_ = lambda ex: Lay(this(ex))
            if v.has('j'):
                v.add('one name per connection so far', lambda ex, it: this(ex).m_weights_symbols.len == WI(y_(ex), nid(ex) - y_(ex).n) + v.rd(ex, 'j'))
            else:
                v.add('one name per connection of the nodes so far', lambda ex, it: this(ex).m_weights_symbols.len == WI(y_(ex), nid(ex) - y_(ex).n))
                v.add('nodes in range', lambda ex, it: And(nid(ex) >= y_(ex).n, nid(ex) <= y_(ex).n + y_(ex).rc))
        return v.out


class WArgs:
    """the context of a constructor without the number of constants, read as the constructor of the base class"""

    def __init__(self, c):
        self.c = c

    def arg(self, n):
        if n == 7:
            return IntVal(0)
        return self.c.arg(7 if n == 8 else n)

    def __getattr__(self, k):
        return getattr(self.c, k)


from stdmodel import KARR
SIG_V = '(unsigned int, unsigned int, unsigned int, unsigned int, unsigned int, std::vector<unsigned int>, std::vector<dcgp::kernel<double> >, unsigned int)'
SIG_U = '(unsigned int, unsigned int, unsigned int, unsigned int, unsigned int, unsigned int, std::vector<dcgp::kernel<double> >, unsigned int)'


@reg
class WCtorV(WCtor):
    sig = W + '::expression_weighted' + SIG_V


@reg
class WCtorU(WCtor):
    sig = W + '::expression_weighted' + SIG_U
    uniform = True
