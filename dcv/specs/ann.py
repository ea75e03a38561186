"""ANN expressions: construction, the table of connections, and everything that must keep it exact."""
import copy
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Select, IntVal, BoolVal, MultiPattern, Store
import logic as L
from logic import I, mul
from exec import Vec, Rec
import layout
from layout import Lay, Conn, G, p_, k_, v_, q_, t_, s_
import expr
from expr import E, Method, Inv, this, VD, Update
from evalu import A, wwf, wfacts, WN, WO, lit, KNAME
import evalu, weights
from weights import WCtor, WArgs, SIG_V, SIG_U, WI

REGA = {}


def reg(cls):
    c = cls()
    REGA[c.sig] = c
    return cls


# names of the activations, in the order of the enumeration kernel_type (checked by the replay of C08 and by the constructors)
KT = ['sig', 'tanh', 'ReLu', 'ELU', 'ISRU', 'sum', 'sin_nu', 'cos_nu', 'gaussian_nu', 'inv_sum', 'abs', 'step']


def supported(nm):
    return Or([nm == lit(k) for k in KT])


def ktype(nm):
    e = IntVal(-1)
    for n, k in reversed(list(enumerate(KT))):
        e = If(nm == lit(k), IntVal(n), e)
    return e


def kmap_upto(S, m):
    """each kernel is known by the activation its name stands for"""
    return ForAll([k_], Implies(And(0 <= k_, k_ < m), Select(S.m_kernel_map.arr, k_) == ktype(KNAME(Select(S.m_f.arr, k_)))), patterns=[Select(S.m_kernel_map.arr, k_)])


def awf(S):
    """what every ANN expression satisfies besides the invariant of the base class"""
    return wwf(S, True) + [('no constants', S.m_eph_val.len == 0),
                           ('activations are those the names of the kernels stand for', And(S.m_kernel_map.len == S.m_f.len, kmap_upto(S, S.m_f.len))),
                           ('all kernels are supported activations', ForAll([k_], Implies(And(0 <= k_, k_ < S.m_f.len), supported(KNAME(Select(S.m_f.arr, k_)))), patterns=[KNAME(Select(S.m_f.arr, k_))]))]


@reg
class AUpdate(Update):
    """the table of connections is rebuilt exactly"""
    sig = A + '::update_data_structures()'
    this_type = 'dcgp::expression_ann'
    base_only = False

    def requires(self, c):
        y = Lay(c.old())
        return Update.requires(self, c) + [('number of nodes and outputs fits', y.n + y.m + y.rc < 2**32)]

    def ensures(self, c):
        return layout.act(c.new())

    def hints(self, ex, c):
        S = this(ex)
        y = Lay(S)
        C = Conn(S)
        out = [L.TOUCH(y.G(IntVal(0))), L.TOUCH(y.tot), C.cnt(IntVal(0), IntVal(0)) == C.cnt(IntVal(0), IntVal(0))]
        an = S.m_active_nodes
        loc = expr_locals(ex)
        ri = loc.get('__ri')
        if ri is not None:
            nd, nx = Select(an.arr, ri), Select(an.arr, L.norm(ri + 1))
            out += [L.TOUCH(nd), L.TOUCH(nx), L.TOUCH(y.G(nd - y.n)), L.TOUCH(y.G(nx - y.n)), L.TOUCH(y.G(nd + 1 - y.n))]
            if len(ex.frames) == 1:
                out += C.gaps(L.norm(ri - 1)) + C.gaps(ri)
        if 'node_id' in loc:
            out += [L.TOUCH(y.G(loc['node_id'] - y.n)), L.TOUCH(y.G(loc['node_id'] + 1 - y.n))]
        return out

    def invs(self, li):
        v = Inv(li)
        MC = ('this', ('f', 'm_connected'))
        if MC not in li.mods:
            return v.out
        S_ = lambda ex: this(ex)

        def upto(nm, P):
            for n in range(3):
                v.add('%s: %d' % (nm, n), lambda ex, it, n=n: layout.conn_upto(S_(ex), P(ex))[n][1])

        def gpos(ex, nd):
            y = Lay(S_(ex))
            return y.G(nd - y.n)
        if v.has('__ri') and v.loc['__ri'] in li.mods:
            def case(ex):
                S = S_(ex)
                y = Lay(S)
                k = v.rd(ex, '__ri')
                an = S.m_active_nodes
                nd = Select(an.arr, k)
                return [(And(k < an.len, nd >= y.n), gpos(ex, nd)), (And(k < an.len, nd < y.n), IntVal(0)), (k >= an.len, y.tot)]
            for ci in range(3):
                for n in range(3):
                    v.add('connections of the nodes so far: %d (%d)' % (n, ci), lambda ex, it, n=n, ci=ci: Implies(case(ex)[ci][0], layout.conn_upto(S_(ex), case(ex)[ci][1])[n][1]))
            v.add('position in the list of active nodes', lambda ex, it: And(0 <= v.rd(ex, '__ri'), v.rd(ex, '__ri') <= S_(ex).m_active_nodes.len))
        elif v.has('node_id', 'i') and v.loc['i'] in li.mods:
            upto('connections of this node so far', lambda ex: L.norm(gpos(ex, v.rd(ex, 'node_id')) + 1 + v.rd(ex, 'i')))
        elif v.has('i') and v.loc['i'] in li.mods:
            upto('outputs so far', lambda ex: L.norm(Lay(S_(ex)).tot + v.rd(ex, 'i')))
            v.add('outputs in range', lambda ex, it: And(0 <= v.rd(ex, 'i'), v.rd(ex, 'i') <= S_(ex).m_m))
        return v.out


def expr_locals(ex):
    out = {}
    for vid, path in ex.frames[-1].loc.items():
        if len(path) == 1 and path[0].startswith('v:'):
            e = ex.store.get(path[0])
            if isinstance(e, z3.ArithRef):
                out[path[0][2:].split('!')[0]] = e
    return out
