"""Contracts on dcgp::expression<double> (and, through `cls`, on the parts of it that derived classes reuse)."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Select, IntVal, BoolVal, MultiPattern
import logic as L
from logic import I, mul
from exec import Vec, Rec, Iter, Undef
from contract import Contract
from stdmodel import SUMI, KARR
import layout
import stdmodel
from layout import Lay, G, NODE, OFF, p_, k_, v_, q_, t_, MEM, MARK

E = 'dcgp::expression<double>'
VD = 'const std::vector<double> &'
VU = 'const std::vector<unsigned int> &'
CTOR_V = E + '::expression(unsigned int, unsigned int, unsigned int, unsigned int, unsigned int, std::vector<unsigned int>, std::vector<dcgp::kernel<double> >, unsigned int, unsigned int)'
CTOR_U = E + '::expression(unsigned int, unsigned int, unsigned int, unsigned int, unsigned int, unsigned int, std::vector<dcgp::kernel<double> >, unsigned int, unsigned int)'

REG = {}


def reg(cls):
    c = cls()
    REG[c.sig] = c
    return cls


def int_locals(ex):
    """current values of the integer locals of the innermost frame"""
    out = []
    for path in ex.frames[-1].loc.values():
        if len(path) == 1 and path[0].startswith('v:'):
            e = ex.store.get(path[0])
            if isinstance(e, z3.ArithRef):
                out.append(e)
    return out


def locals_val(li, name, vals=None):
    p = li.locals().get(name)
    return None if p is None else p


class Inv:
    """helper: candidate invariants over the named locals of the loop"""

    def __init__(self, li):
        self.li, self.out = li, []
        self.loc = li.locals()

    def has(self, *names):
        return all(n in self.loc for n in names)

    def rd(self, ex, name):
        return ex.read(self.loc[name])

    def add(self, name, fn):
        self.out.append((name, fn))


def this(ex):
    return ex.read(ex.frames[0].this)


class ExprContract(Contract):
    """a method of expression with the class invariant available as facts about the layout"""
    def facts(self, c):
        return Lay(c.old()).facts()


def zero_from(v, k, size):
    return ForAll([p_], Implies(And(p_ >= k, p_ < size), Select(v, p_) == 0), patterns=[Select(v, p_)])


@reg
class InitBounds(ExprContract):
    sig = E + '::init_bounds_and_chromosome()'

    def requires(self, c):
        y = Lay(c.old())
        return y.dims() + [('sizes fit', y.fits())]

    def background(self, c):
        return Lay(c.old()).facts()

    def modifies(self, c):
        return [c.fpath(x) for x in ('m_x', 'm_lb', 'm_ub', 'm_gene_idx')]

    def ensures(self, c):
        S = c.new()
        return layout.wf_bounds(S)

    def hints(self, ex, c):
        y = Lay(this(ex))
        return [L.TOUCH(y.G(e - y.n)) for e in int_locals(ex)]

    def invs(self, li):
        v = Inv(li)

        def filled(ex, k):
            S = this(ex)
            y = Lay(S)
            ub, lb = S.m_ub.arr, S.m_lb.arr
            return [('upper bounds set so far', ForAll([p_], Implies(And(0 <= p_, p_ < k), Select(ub, p_) == y.ub(p_)), patterns=[Select(ub, p_)])),
                    ('lower bounds set so far', ForAll([p_], Implies(And(0 <= p_, p_ < k), Select(lb, p_) == y.lb(p_)), patterns=[Select(lb, p_)])),
                    ('lower bounds not yet set are zero', zero_from(lb, k, y.size)),
                    ('gene position within the node genes', And(0 <= k, k <= y.tot)),
                    ]

        def fill(kn):
            for n in range(4):
                v.add('bounds up to %s: %d' % (kn, n), lambda ex, it, n=n: filled(ex, v.rd(ex, kn))[n][1])
        if v.has('k'):
            fill('k')
        if v.has('i', 'k'):
            v.add('k is the first gene of column i', lambda ex, it: v.rd(ex, 'k') == Lay(this(ex)).G(mul(v.rd(ex, 'i'), this(ex).m_r)))
        if v.has('i', 'j', 'k'):
            v.add('k is the first gene of node (i,j)', lambda ex, it: v.rd(ex, 'k') == Lay(this(ex)).G(mul(v.rd(ex, 'i'), this(ex).m_r) + v.rd(ex, 'j')))
        if v.has('i', 'j', 'k', 'l'):
            v.add('k is connection gene l of node (i,j)', lambda ex, it: v.rd(ex, 'k') == Lay(this(ex)).G(mul(v.rd(ex, 'i'), this(ex).m_r) + v.rd(ex, 'j')) + 1 + v.rd(ex, 'l'))
        # output genes
        if v.has('i') and not v.has('j'):
            def outs(ex, n):
                S = this(ex)
                y = Lay(S)
                k = v.rd(ex, 'i')
                ub, lb = S.m_ub.arr, S.m_lb.arr
                return [ForAll([p_], Implies(And(0 <= p_, p_ < k), Select(ub, p_) == y.ub(p_)), patterns=[Select(ub, p_)]),
                        ForAll([p_], Implies(And(0 <= p_, p_ < k), Select(lb, p_) == y.lb(p_)), patterns=[Select(lb, p_)]),
                        zero_from(lb, k, y.size), And(y.tot <= k, k <= y.size)][n]
            for n in range(4):
                v.add('bounds of the output genes: %d' % n, lambda ex, it, n=n: outs(ex, n))
        if v.has('node_id'):
            def gi(ex, it):
                S = this(ex)
                y = Lay(S)
                g = S.m_gene_idx.arr
                return ForAll([v_], Implies(And(0 <= v_, v_ < v.rd(ex, 'node_id')), Select(g, v_) == If(v_ < y.n, 0, G(y.A, y.r, v_ - y.n))), patterns=[Select(g, v_)])
            v.add('gene positions set so far', gi)
        if v.has('acc', 'j'):
            v.add('acc sums the arities of the columns before j', lambda ex, it: And(v.rd(ex, 'acc') == SUMI(this(ex).m_arity.arr, IntVal(0), v.rd(ex, 'j')), v.rd(ex, 'j') >= 0))
        return v.out


# ---- the class invariant ---------------------------------------------------------------------------------------------
def inv_all(S):
    """the class invariant: layout, bounds, chromosome within bounds, constants, exact activity data"""
    return layout.wf(S) + layout.act(S)


class Method(ExprContract):
    """a public operation: the class invariant holds before; and after when it changes anything"""
    pre_act = True
    base_only = False       # never dispatches to a derived class

    def requires(self, c):
        S = c.old()
        r = layout.wf(S)
        if self.pre_act:
            r = r + (layout.act_base(S) if self.base_only else layout.act(S))
        return r

    def background(self, c):
        S = c.old()
        return Lay(S).facts() + (layout.Conn(S).facts() if 'm_connected' in S.f and not self.base_only else [])

    def mods(self):
        return ()

    def modifies(self, c):
        m = self.mods()
        if 'm_active_nodes' in m and 'm_connected' in c.old().f and not self.base_only:
            m = tuple(m) + ('m_connected',)
        return [c.fpath(x) for x in m]

    def hints(self, ex, c):
        return []


def same_outside(x, x0, size, pred):
    """genes for which pred does not hold are unchanged"""
    return ForAll([p_], Implies(And(0 <= p_, p_ < size, Not(pred(p_))), Select(x, p_) == Select(x0, p_)), patterns=[Select(x, p_)])


@reg
class Sanity(ExprContract):
    sig = E + '::sanity_checks()'

    def throws(self, c):
        S = c.old()
        return Or(S.m_n == 0, S.m_m == 0, S.m_c == 0, S.m_r == 0, S.m_l == 0, S.m_arity.len != S.m_c, S.m_f.len == 0,
                  Not(ForAll([k_], Implies(And(0 <= k_, k_ < S.m_arity.len), Select(S.m_arity.arr, k_) != 0),
                             patterns=[Select(S.m_arity.arr, k_)])))

    def requires(self, c):
        S = c.old()
        return [('arities are unsigned', ForAll([k_], Implies(And(0 <= k_, k_ < S.m_arity.len), Select(S.m_arity.arr, k_) >= 0), patterns=[Select(S.m_arity.arr, k_)]))]


@reg
class Update(Method):
    sig = E + '::update_data_structures()'
    pre_act = False

    base_only = True

    def mods(self):
        return ('m_active_nodes', 'm_active_genes')

    def ensures(self, c):
        return layout.act_base(c.new())

    def invs(self, li):
        return update_invs(li)


def update_invs(li):
    v = Inv(li)
    AN, AG = (('f', 'm_active_nodes'),), (('f', 'm_active_genes'),)

    def st(ex):
        S = this(ex)
        return S, Lay(S), S.m_x.arr, S.m_active_nodes

    def rng(y, vec):
        return ForAll([k_], Implies(And(0 <= k_, k_ < vec.len), And(Select(vec.arr, k_) >= 0, Select(vec.arr, k_) < y.n + y.rc)), patterns=[Select(vec.arr, k_)])

    def just(y, x, vec, by):
        """every element of vec is connected to by an output gene (None) or a node of `by`"""
        return ForAll([v_], Implies(And(MEM(vec, v_), MARK(v_)), Exists([p_], And(0 <= p_, p_ < y.size, Select(x, p_) == v_, Or(
            [And(p_ >= y.tot)] * (None in by) + [And(p_ < y.tot, y.OFF(p_) >= 1, L.MEM(b.arr, b.len, y.n + y.NODE(p_))) for b in by if b is not None])))),
            patterns=[MultiPattern(MEM(vec, v_), MARK(v_))])

    def conn(y, x, a, n, targets):
        """what the nodes a[0..n) connect to is in one of the targets"""
        return ForAll([p_], Implies(And(0 <= p_, p_ < y.tot, y.OFF(p_) >= 1, L.MEM(a, n, y.n + y.NODE(p_))),
                                    Or([MEM(t, Select(x, p_)) for t in targets])), patterns=[Select(x, p_)])

    entry_an = li.entry(('this',) + AN)
    if v.has('i', 'current') and not v.has('__ri'):
        def cur0(ex, it):
            S, y, x, an = st(ex)
            cur = v.rd(ex, 'current')
            i = v.rd(ex, 'i')
            return ForAll([k_], Implies(And(0 <= k_, k_ < i), Select(cur.arr, k_) == Select(x, y.tot + k_)), patterns=[Select(cur.arr, k_)])
        v.add('current holds the first output genes', cur0)

        def cur1(ex, it):
            S, y, x, an = st(ex)
            cur = v.rd(ex, 'current')
            return ForAll([p_], Implies(And(y.tot <= p_, p_ < y.tot + v.rd(ex, 'i')), Select(cur.arr, L.norm(p_ - y.tot)) == Select(x, p_)), patterns=[Select(x, p_)])
        v.add('current holds the first output genes (by gene)', cur1)
    if v.has('current', 'next') and any(li.loc_path(nm) in li.mods for nm in ('next',)):
        cur, nxt = (lambda ex: v.rd(ex, 'current')), (lambda ex: v.rd(ex, 'next'))

        def A(name, fn):
            v.add(name, lambda ex, it: fn(ex, *st(ex)))
        A('nodes in current exist', lambda ex, S, y, x, an: rng(y, cur(ex)))
        A('nodes in next exist', lambda ex, S, y, x, an: rng(y, nxt(ex)))
        A('nodes collected exist', lambda ex, S, y, x, an: rng(y, an))
        A('next is empty', lambda ex, S, y, x, an: nxt(ex).len == 0)
        A('connections of collected nodes are collected or current', lambda ex, S, y, x, an: conn(y, x, an.arr, an.len, [an, cur(ex)]))
        A('output nodes are collected or current', lambda ex, S, y, x, an: ForAll([p_], Implies(And(y.tot <= p_, p_ < y.size), Or(MEM(an, Select(x, p_)), MEM(cur(ex), Select(x, p_)))), patterns=[Select(x, p_)]))
        A('collected nodes are needed', lambda ex, S, y, x, an: just(y, x, an, [None, an]))
        A('current nodes are needed', lambda ex, S, y, x, an: just(y, x, cur(ex), [None, an]))
        if v.has('__ri'):
            A('connections of processed nodes are in next', lambda ex, S, y, x, an: conn(y, x, cur(ex).arr, v.rd(ex, '__ri'), [nxt(ex)]))
            A('nodes in next are needed', lambda ex, S, y, x, an: just(y, x, nxt(ex), [cur(ex)]))

            def same_members(ex, it):
                an = this(ex).m_active_nodes
                return ForAll([v_], MEM(an, v_) == MEM(entry_an, v_), patterns=[MEM(an, v_), MEM(entry_an, v_)])
            v.add('collected nodes unchanged as a set', same_members)
            if v.has('i', 'node_id'):
                def part(ex, S, y, x, an):
                    g = y.G(v.rd(ex, 'node_id') - y.n)
                    return ForAll([p_], Implies(And(g < p_, p_ < g + v.rd(ex, 'i')), MEM(nxt(ex), Select(x, p_))), patterns=[Select(x, p_)])
                A('the first connections of the node are in next', part)
    if v.has('i') and ('this',) + AG in li.mods:
        ag_entry = li.entry(('this',) + AG)
        i = lambda ex: v.rd(ex, 'i')

        def A(name, fn):
            v.add(name, lambda ex, it: fn(ex, *st(ex), this(ex).m_active_genes))
        A('active genes increase strictly', lambda ex, S, y, x, an, ag: layout.strictly_sorted(ag))
        A('active genes are node genes', lambda ex, S, y, x, an, ag: ForAll([k_], Implies(And(0 <= k_, k_ < ag.len), And(Select(ag.arr, k_) >= 0, Select(ag.arr, k_) < y.tot)), patterns=[Select(ag.arr, k_)]))
        if v.has('j', 'node_id'):
            def block(ex, y, g):
                b = y.G(v.rd(ex, 'node_id') - y.n)
                return And(b <= g, g < b + v.rd(ex, 'j'))
            A('genes listed are genes of active nodes or of this node', lambda ex, S, y, x, an, ag: ForAll([p_], Implies(MEM(ag, p_), Or(layout.ag_is(S, p_, i(ex)), block(ex, y, p_))), patterns=[MEM(ag, p_)]))
            A('genes of processed nodes and of this node are listed', lambda ex, S, y, x, an, ag: ForAll([p_], Implies(Or(layout.ag_is(S, p_, i(ex)), block(ex, y, p_)), MEM(ag, p_)), patterns=[MEM(ag, p_)]))
            A('genes listed precede the next gene of this node', lambda ex, S, y, x, an, ag: ForAll([k_], Implies(And(0 <= k_, k_ < ag.len), Select(ag.arr, k_) < y.G(v.rd(ex, 'node_id') - y.n) + v.rd(ex, 'j')), patterns=[Select(ag.arr, k_)]))
        else:
            A('genes listed are genes of processed active nodes', lambda ex, S, y, x, an, ag: ForAll([p_], Implies(MEM(ag, p_), layout.ag_is(S, p_, i(ex))), patterns=[MEM(ag, p_)]))
            A('genes of processed active nodes are listed', lambda ex, S, y, x, an, ag: ForAll([p_], Implies(layout.ag_is(S, p_, i(ex)), MEM(ag, p_)), patterns=[MEM(ag, p_)]))
            A('genes listed precede those of the nodes to come', lambda ex, S, y, x, an, ag: ForAll([k_, q_], Implies(And(0 <= k_, k_ < ag.len, i(ex) <= q_, q_ < an.len, Select(an.arr, q_) >= y.n), Select(ag.arr, k_) < G(y.A, y.r, Select(an.arr, q_) - y.n)), patterns=[MultiPattern(Select(ag.arr, k_), Select(an.arr, q_))]))
            A('output genes listed so far', lambda ex, S, y, x, an, ag: ForAll([k_], Implies(And(ag_entry.len <= k_, k_ < ag.len), Select(ag.arr, k_) == y.tot + k_ - ag_entry.len), patterns=[Select(ag.arr, k_)]))
            A('active genes are those of active nodes and the outputs listed', lambda ex, S, y, x, an, ag: ForAll([p_], MEM(ag, p_) == Or(MEM(ag_entry, p_), And(y.tot <= p_, p_ < y.tot + i(ex))), patterns=[MEM(ag, p_)]))
    return v.out


# ---- constructors ------------------------------------------------------------------------------------------------------
def dim_reject(c, uniform):
    """the constructor rejects exactly these arguments"""
    A = lambda n: c.arg(n)
    n, m, r, cc, l, ar, f, ne = [A(i) for i in range(8)]
    bad = [n + ne == 0, m == 0, r == 0, cc == 0, l == 0, f.len == 0]
    if uniform:
        bad.append(ar == 0)
    else:
        bad += [ar.len != cc, Not(ForAll([k_], Implies(And(0 <= k_, k_ < ar.len), Select(ar.arr, k_) != 0), patterns=[Select(ar.arr, k_)]))]
    return Or(bad)


class CtorBase(ExprContract):
    uniform = False

    def prepare(self, ex, f):
        ex.seeded_by_us = False
        n = [k for k, q in enumerate(f['params']) if q['name'] == 'seed'] or [8]

        def seen(ex, term, arg):
            ex.seeded_by_us = True
            ex.oblige('the engine is seeded with the argument', arg == ex.ctx.arg(n[0]), 'seed')
        ex.on_seed = seen

    def requires(self, c):
        # assumption: the sizes implied by the dimensions fit the unsigned type
        a = lambda i: c.arg(i)
        rc = mul(a(2), a(3))
        if self.uniform:
            arr = KARR(a(5))
            S = SUMI(arr, IntVal(0), a(3))
        else:
            arr = a(5).arr
            S = SUMI(arr, IntVal(0), a(3))
        out = [('number of inputs fits', a(0) + a(7) < 2**32), ('sizes fit', And(a(0) + a(7) + rc < 2**32, rc + mul(a(2), S) + a(1) < 2**32, S < 2**32, S >= 0,
               )), ('number of kernels fits', a(6).len < 2**32)]
        if not self.uniform:
            out.append(('arities are unsigned', ForAll([k_], Implies(And(0 <= k_, k_ < a(5).len), And(Select(a(5).arr, k_) >= 0, Select(a(5).arr, k_) < 2**32)), patterns=[Select(a(5).arr, k_)])))
        return out

    def lemmas(self, c):
        return Lay(c.new()).facts() + layout.weight_facts(c.new())

    def throws(self, c):
        return dim_reject(c, self.uniform)

    def throw_modifies(self, c):
        return [c.this]

    def modifies(self, c):
        return [c.this]

    def ensures(self, c):
        S = c.new()
        a = lambda i: c.arg(i)
        out = layout.wf(S) + layout.act_base(S)
        out += [('dimensions are those given', And(S.m_n == a(0) + a(7), S.m_m == a(1), S.m_r == a(2), S.m_c == a(3), S.m_l == a(4))),
                ('kernels are those given', And(S.m_f.len == a(6).len, S.m_f.arr == a(6).arr)),
                ('number of constants', And(S.m_eph_val.len == a(7), S.m_eph_symb.len == a(7))),
                ('the engine has been seeded', BoolVal(bool(getattr(c.ex, 'seeded_by_us', True)))),
                ('constants are named c1, c2, ...', ForAll([k_], Implies(And(0 <= k_, k_ < a(7)), Select(S.m_eph_symb.arr, k_) == L.cat(L.slit('c'), L.SINT(L.norm(k_ + 1)))), patterns=[Select(S.m_eph_symb.arr, k_)])),
                ]
        return out

    def invs(self, li):
        v = Inv(li)
        X = ('this', ('f', 'm_x'))
        if X in li.mods and v.has('i'):
            def inb(ex, it):
                S = this(ex)
                x, lb, ub = S.m_x.arr, S.m_lb.arr, S.m_ub.arr
                return ForAll([p_], Implies(And(0 <= p_, p_ < v.rd(ex, 'i')), And(Select(lb, p_) <= Select(x, p_), Select(x, p_) <= Select(ub, p_))), patterns=[Select(x, p_)])
            v.add('genes drawn so far are within bounds', inb)
        if ('this', ('f', 'm_eph_symb')) in li.mods and v.has('i'):
            v.add('names so far', lambda ex, it: ForAll([k_], Implies(And(0 <= k_, k_ < this(ex).m_eph_symb.len), Select(this(ex).m_eph_symb.arr, k_) == L.cat(L.slit('c'), L.SINT(L.norm(k_ + 1)))), patterns=[Select(this(ex).m_eph_symb.arr, k_)]))
        return v.out


@reg
class CtorV(CtorBase):
    sig = CTOR_V


@reg
class CtorU(CtorBase):
    sig = CTOR_U
    uniform = True

    def hints(self, ex, c):
        return [L.TOUCH(Select(KARR(c.arg(5)), IntVal(0)))]


# ---- setters -----------------------------------------------------------------------------------------------------------
CE = E + '::check_cgp_encoding'
ITU = '__gnu_cxx::__normal_iterator<const unsigned int *, std::vector<unsigned int> >'
ITD = '__gnu_cxx::__normal_iterator<const double *, std::vector<double> >'
ITDM = '__gnu_cxx::__normal_iterator<double *, std::vector<double> >'


def bad_encoding(S, seq, s, n):
    """the chromosome seq[s .. s+n) is not acceptable"""
    if seq.arr.sort().range() == I:
        ok = lambda k: And(Select(S.m_lb.arr, k) <= Select(seq.arr, L.norm(s + k)), Select(seq.arr, L.norm(s + k)) <= Select(S.m_ub.arr, k))
    else:
        ok = lambda k: And(L.DLE(L.I2D(Select(S.m_lb.arr, k)), Select(seq.arr, L.norm(s + k))), L.DLE(Select(seq.arr, L.norm(s + k)), L.I2D(Select(S.m_ub.arr, k))))
    return Or(n != S.m_lb.len, Not(ForAll([k_], Implies(And(0 <= k_, k_ < n), ok(k_)), patterns=[Select(S.m_lb.arr, k_), Select(S.m_ub.arr, k_)])))


class CheckRange(Method):
    pre_act = False

    def iter_group(self, name):
        return 'range'

    def rng(self, c):
        a, b = c.arg(0), c.arg(1)
        seq = c.old(a.path)
        return seq, a.idx, L.norm(b.idx - a.idx)

    def requires(self, c):
        a, b = c.arg(0), c.arg(1)
        seq, s, n = self.rng(c)
        return super().requires(c) + [('valid range', And(0 <= a.idx, a.idx <= b.idx, b.idx <= seq.len)), ('range shorter than 2^32', n < 2**32)]

    def throws(self, c):
        return bad_encoding(c.old(), *self.rng(c))

    def ensures(self, c):
        return [('returns true', c.ret)]

    def invs(self, li):
        v = Inv(li)
        if v.has('begin', 'lb_iter', 'ub_iter'):
            b0 = li.entry(v.loc['begin'])

            def upto(ex, it):
                S = this(ex)
                b = v.rd(ex, 'begin')
                seq = ex.read(b.path)
                n = L.norm(b.idx - b0.idx)
                return Not(z3.simplify(z3.substitute(bad_encoding(S, seq, b0.idx, n).children()[1], [])) if False else bad_encoding(S, seq, b0.idx, n).children()[1])
            v.add('genes checked so far are within bounds', upto)
            v.add('the three positions advance together', lambda ex, it: And(v.rd(ex, 'lb_iter').idx == v.rd(ex, 'begin').idx - b0.idx, v.rd(ex, 'ub_iter').idx == v.rd(ex, 'begin').idx - b0.idx))
            v.add('position is within the range', lambda ex, it: And(v.rd(ex, 'begin').idx >= b0.idx, v.rd(ex, 'begin').idx <= v.rd(ex, 'end').idx))
        return v.out


for _it in (ITU, ITD, ITDM):
    reg(type('CheckRange', (CheckRange,), dict(sig='%s(%s, %s)' % (CE, _it, _it))))


@reg
class CheckVec(Method):
    sig = CE + '(' + VU + ')'
    pre_act = False

    def requires(self, c):
        return super().requires(c) + [('chromosome shorter than 2^32', c.arg(0).len < 2**32)]

    def throws(self, c):
        return bad_encoding(c.old(), c.arg(0), IntVal(0), c.arg(0).len)

    def ensures(self, c):
        return [('returns true', c.ret)]


class SetChrom(Method):
    def mods(self):
        return ('m_x', 'm_active_nodes', 'm_active_genes')

    def seq(self, c):
        return c.arg(0), IntVal(0), c.arg(0).len

    def requires(self, c):
        return super().requires(c) + [('chromosome shorter than 2^32', self.seq(c)[2] < 2**32)]

    def throws(self, c):
        return bad_encoding(c.old(), *self.seq(c))

    def conv(self, e):
        return e if e.sort() == I else L.D2I(e)

    def ensures(self, c):
        S = c.new()
        seq, s, n = self.seq(c)
        return inv_all_changed(S) + [('the chromosome is the one given', And(S.m_x.len == n, ForAll([k_], Implies(And(0 <= k_, k_ < n), Select(S.m_x.arr, k_) == self.conv(Select(seq.arr, L.norm(s + k_)))), patterns=[Select(S.m_x.arr, k_)])))]


def inv_all_changed(S):
    """what must be re-established when the chromosome changed (the rest of the invariant does not mention it)"""
    y = Lay(S)
    return [('chromosome keeps its length', S.m_x.len == y.size)] + layout.in_bounds(S) + layout.act(S)


@reg
class Set(SetChrom):
    sig = E + '::set(' + VU + ')'


class SetRange(SetChrom):
    def iter_group(self, name):
        return 'range'

    def seq(self, c):
        a, b = c.arg(0), c.arg(1)
        return c.old(a.path), a.idx, L.norm(b.idx - a.idx)

    def requires(self, c):
        a, b = c.arg(0), c.arg(1)
        return super().requires(c) + [('valid range', And(0 <= a.idx, a.idx <= b.idx, b.idx <= c.old(a.path).len))]


for _it in (ITU, ITD, ITDM):
    reg(type('SetRange', (SetRange,), dict(sig='%s::set_from_range(%s, %s)' % (E, _it, _it))))


@reg
class SetF(Method):
    sig = E + '::set_f_gene(unsigned int, unsigned int)'

    def mods(self):
        return ('m_x',)

    def throws(self, c):
        S = c.old()
        y = Lay(S)
        node, f = c.arg(0), c.arg(1)
        return Or(f >= S.m_f.len, node < y.n, node >= y.n + y.rc)

    def ensures(self, c):
        S, S0 = c.new(), c.old()
        y = Lay(S)
        g = y.G(c.arg(0) - y.n)
        return [('the function gene of that node is set and nothing else', S.m_x.arr == z3.Store(S0.m_x.arr, g, c.arg(1)))] + inv_all_changed(S)


class SetEph(Method):
    fld = None

    def mods(self):
        return (self.fld,)

    def throws(self, c):
        return c.arg(0).len != c.old().f[self.fld].len

    def ensures(self, c):
        w, a = c.new().f[self.fld], c.arg(0)
        return [('the values are those given', And(w.len == a.len, w.arr == a.arr))]


@reg
class SetEphVal(SetEph):
    sig = E + '::set_eph_val(' + VD + ')'
    fld = 'm_eph_val'


@reg
class SetEphSymb(SetEph):
    sig = E + '::set_eph_symb(const std::vector<string > &)'
    fld = 'm_eph_symb'


# ---- the engine --------------------------------------------------------------------------------------------------------
@reg
class SeedExpr(Method):
    sig = E + '::seed(long)'

    def mods(self):
        return ('m_e',)

    def ensures(self, c):
        e = c.new().f['m_e']
        return [('the engine starts as a function of the seed alone', Implies(And(0 <= c.arg(0), c.arg(0) < 2**32), e == stdmodel.SEED(e.sort())(c.arg(0))))]


# ---- mutations -----------------------------------------------------------------------------------------------------------
NCH = layout.NCH


class Mutate(Method):
    def mods(self):
        return ('m_x', 'm_active_nodes', 'm_active_genes', 'm_e')

    def ensures(self, c):
        return inv_all_changed(c.new()) + self.effect(c, c.new(), c.old())

    def effect(self, c, S, S0):
        return []


def free(S, p):
    return Select(S.m_lb.arr, p) < Select(S.m_ub.arr, p)


@reg
class Mutate1(Mutate):
    sig = E + '::mutate(unsigned int)'

    def throws(self, c):
        return c.arg(0) >= c.old().m_x.len

    def effect(self, c, S, S0):
        i = c.arg(0)
        x, x0 = S.m_x.arr, S0.m_x.arr
        return [('no other gene changes', x == z3.Store(x0, i, Select(x, i))),
                ('the gene changes when its bounds allow', If(free(S0, i), Select(x, i) != Select(x0, i), Select(x, i) == Select(x0, i)))]


def distinct(v):
    return ForAll([k_, q_], Implies(And(0 <= k_, k_ < q_, q_ < v.len), Select(v.arr, k_) != Select(v.arr, q_)), patterns=[MultiPattern(Select(v.arr, k_), Select(v.arr, q_))])


def counted(ex, x, x0, size, k):
    return NCH(x, x0, size) <= k


@reg
class MutateV(Mutate):
    sig = E + '::mutate(std::vector<unsigned int>)'

    def requires(self, c):
        v = c.arg(0)
        return super().requires(c) + [('indices are unsigned', ForAll([k_], Implies(And(0 <= k_, k_ < v.len), Select(v.arr, k_) >= 0), patterns=[Select(v.arr, k_)])),
                                      ('fewer than 2^32 indices', v.len < 2**32)]

    def throws(self, c):
        v = c.arg(0)
        return Not(ForAll([k_], Implies(And(0 <= k_, k_ < v.len), Select(v.arr, k_) < c.old().m_x.len), patterns=[Select(v.arr, k_)]))

    def effect(self, c, S, S0):
        v = c.arg(0)
        x, x0 = S.m_x.arr, S0.m_x.arr
        return [('no other gene changes', ForAll([p_], Implies(Not(MEM(v, p_)), Select(x, p_) == Select(x0, p_)), patterns=[Select(x, p_)])),
                ('each listed gene changes when its bounds allow (distinct indices)',
                 Implies(distinct(v), ForAll([k_], Implies(And(0 <= k_, k_ < v.len), If(free(S0, Select(v.arr, k_)), Select(x, Select(v.arr, k_)) != Select(x0, Select(v.arr, k_)), Select(x, Select(v.arr, k_)) == Select(x0, Select(v.arr, k_)))), patterns=[Select(v.arr, k_)]))),
                ('a gene with a single allowed value keeps it', ForAll([p_], Implies(And(0 <= p_, p_ < S.m_x.len, Not(free(S0, p_))), Select(x, p_) == Select(x0, p_)), patterns=[Select(x, p_)])),
                ('at most as many genes change as are listed', NCH(x, x0, S.m_x.len) <= v.len)]

    def invs(self, li):
        v = Inv(li)
        X = ('this', ('f', 'm_x'))
        if v.has('__ri', 'idxs') and X not in li.mods and li.loc_path('__ri') in li.mods:
            v.add('indices checked so far exist', lambda ex, it: ForAll([k_], Implies(And(0 <= k_, k_ < v.rd(ex, '__ri')), Select(v.rd(ex, 'idxs').arr, k_) < this(ex).m_x.len), patterns=[Select(v.rd(ex, 'idxs').arr, k_)]))
        elif v.has('i', 'idxs') and X not in li.mods:
            v.add('indices checked so far exist', lambda ex, it: ForAll([k_], Implies(And(0 <= k_, k_ < v.rd(ex, 'i')), Select(v.rd(ex, 'idxs').arr, k_) < this(ex).m_x.len), patterns=[Select(v.rd(ex, 'idxs').arr, k_)]))
        if v.has('i', 'idxs') and X in li.mods:
            x0 = li.entry(X)
            i, ix = (lambda ex: v.rd(ex, 'i')), (lambda ex: v.rd(ex, 'idxs'))
            x = lambda ex: this(ex).m_x.arr
            seen = lambda ex, p: L.MEM(ix(ex).arr, i(ex), p)
            v.add('only listed genes changed', lambda ex, it: ForAll([p_], Implies(Not(seen(ex, p_)), Select(x(ex), p_) == Select(x0.arr, p_)), patterns=[Select(x(ex), p_)]))
            v.add('listed genes changed when free', lambda ex, it: Implies(distinct(ix(ex)), ForAll([k_], Implies(And(0 <= k_, k_ < i(ex)), If(free(this(ex), Select(ix(ex).arr, k_)), Select(x(ex), Select(ix(ex).arr, k_)) != Select(x0.arr, Select(ix(ex).arr, k_)), Select(x(ex), Select(ix(ex).arr, k_)) == Select(x0.arr, Select(ix(ex).arr, k_)))), patterns=[Select(ix(ex).arr, k_)])))
            mut_common(v, li, x0)
            v.add('number of changes so far', lambda ex, it: NCH(x(ex), x0.arr, x0.len) <= i(ex))
            v.add('indices so far exist', lambda ex, it: ForAll([k_], Implies(And(0 <= k_, k_ < i(ex)), Select(ix(ex).arr, k_) < this(ex).m_x.len), patterns=[Select(ix(ex).arr, k_)]))
        return v.out


def mut_common(v, li, x0):
    """the chromosome stays within bounds, fixed genes stay, and an untouched flag means an untouched chromosome"""
    x = lambda ex: this(ex).m_x.arr
    v.add('genes stay within bounds', lambda ex, it: layout.in_bounds(this(ex))[0][1])
    v.add('fixed genes stay', lambda ex, it: ForAll([p_], Implies(And(0 <= p_, p_ < x0.len, Not(free(this(ex), p_))), Select(x(ex), p_) == Select(x0.arr, p_)), patterns=[Select(x(ex), p_)]))
    flags = [n for n, p in v.loc.items() if p in li.mods and isinstance(li.entry(p), z3.BoolRef)]
    for n in flags:
        v.add('chromosome unchanged while %s is unset' % n, lambda ex, it, n=n: Implies(Not(v.rd(ex, n)), x(ex) == x0.arr))


@reg
class MutateRandom(Mutate):
    sig = E + '::mutate_random(unsigned int)'

    def effect(self, c, S, S0):
        return [('at most N genes change', NCH(S.m_x.arr, S0.m_x.arr, S.m_x.len) <= c.arg(0)),
                ('a gene with a single allowed value keeps it', ForAll([p_], Implies(And(0 <= p_, p_ < S.m_x.len, Not(free(S0, p_))), Select(S.m_x.arr, p_) == Select(S0.m_x.arr, p_)), patterns=[Select(S.m_x.arr, p_)]))]

    def invs(self, li):
        v = Inv(li)
        X = ('this', ('f', 'm_x'))
        if v.has('i') and X in li.mods:
            x0 = li.entry(X)
            mut_common(v, li, x0)
            v.add('number of changes so far', lambda ex, it: NCH(this(ex).m_x.arr, x0.arr, x0.len) <= v.rd(ex, 'i'))
        return v.out


@reg
class MutateInactive(Mutate):
    sig = E + '::mutate_inactive(unsigned int)'

    def mods(self):
        return ('m_x', 'm_e')

    def effect(self, c, S, S0):
        return [('at most N genes change', NCH(S.m_x.arr, S0.m_x.arr, S.m_x.len) <= c.arg(0)),
                ('no active gene changes', ForAll([p_], Implies(MEM(S0.m_active_genes, p_), Select(S.m_x.arr, p_) == Select(S0.m_x.arr, p_)), patterns=[Select(S.m_x.arr, p_)]))]

    def invs(self, li):
        v = Inv(li)
        X = ('this', ('f', 'm_x'))
        if v.has('i') and X in li.mods:
            x0 = li.entry(X)
            mut_common(v, li, x0)
            v.add('number of changes so far', lambda ex, it: NCH(this(ex).m_x.arr, x0.arr, x0.len) <= v.rd(ex, 'i'))
            v.add('active genes unchanged', lambda ex, it: ForAll([p_], Implies(MEM(this(ex).m_active_genes, p_), Select(this(ex).m_x.arr, p_) == Select(x0.arr, p_)), patterns=[Select(this(ex).m_x.arr, p_), Select(x0.arr, p_)]))
            for n, f in inv_all_changed(this(li.ex)):
                v.add('invariant: ' + n, lambda ex, it, n=n: dict(inv_all_changed(this(ex)))[n])
        return v.out


@reg
class MutateActive(Mutate):
    sig = E + '::mutate_active(unsigned int)'

    def effect(self, c, S, S0):
        return [('at most N genes change', NCH(S.m_x.arr, S0.m_x.arr, S.m_x.len) <= c.arg(0)),
                ('only active genes change', ForAll([p_], Implies(Not(MEM(S0.m_active_genes, p_)), Select(S.m_x.arr, p_) == Select(S0.m_x.arr, p_)), patterns=[Select(S.m_x.arr, p_)]))]

    def invs(self, li):
        v = Inv(li)
        if v.has('i', 'idxs'):
            v.add('indices chosen so far are active genes', lambda ex, it: ForAll([k_], Implies(And(0 <= k_, k_ < v.rd(ex, 'i')), MEM(this(ex).m_active_genes, Select(v.rd(ex, 'idxs').arr, k_))), patterns=[Select(v.rd(ex, 'idxs').arr, k_)]))
        return v.out


class MutateKind(Mutate):
    """repeated mutation of single genes of one kind"""

    def hints(self, ex, c):
        S = this(ex)
        y = Lay(S)
        ag = S.m_active_genes
        return [layout.spread(ag), layout.spread(S.m_active_nodes), L.TOUCH(Select(S.m_x.arr, y.tot)), L.TOUCH(Select(ag.arr, L.norm(ag.len - 1))), L.TOUCH(Select(ag.arr, IntVal(0)))]

    def kind(self, S, p):
        raise NotImplementedError

    def effect(self, c, S, S0):
        return [('at most N genes change', NCH(S.m_x.arr, S0.m_x.arr, S.m_x.len) <= c.arg(0)),
                ('only genes of that kind change', ForAll([p_], Implies(And(0 <= p_, p_ < S.m_x.len, Not(self.kind(S0, p_))), Select(S.m_x.arr, p_) == Select(S0.m_x.arr, p_)), patterns=[Select(S.m_x.arr, p_)]))]

    def at_call(self, sig, ex, cx):
        if sig == E + '::mutate(unsigned int)':
            S, i = cx.old(), cx.arg(0)
            return [('the gene mutated is active at that moment', MEM(S.m_active_genes, i)), ('the gene mutated is of the kind asked for', self.kind(S, i))]
        return []

    def invs(self, li):
        v = Inv(li)
        X = ('this', ('f', 'm_x'))
        if v.has('i') and X in li.mods:
            x0 = li.entry(X)
            v.add('number of changes so far', lambda ex, it: NCH(this(ex).m_x.arr, x0.arr, x0.len) <= v.rd(ex, 'i'))
            v.add('only genes of that kind changed', lambda ex, it: ForAll([p_], Implies(And(0 <= p_, p_ < x0.len, Not(self.kind(this(ex), p_))), Select(this(ex).m_x.arr, p_) == Select(x0.arr, p_)), patterns=[Select(this(ex).m_x.arr, p_)]))
            for n, f in inv_all_changed(this(li.ex)):
                v.add('invariant: ' + n, lambda ex, it, n=n: dict(inv_all_changed(this(ex)))[n])
            nm = 'an active node that is not an input exists'
        if v.has('node_id') and v.loc['node_id'] in li.mods and X not in li.mods:
            v.add('node drawn is zero or an active node', lambda ex, it: Or(v.rd(ex, 'node_id') == 0, MEM(this(ex).m_active_nodes, v.rd(ex, 'node_id'))))
        if v.has('idx') and v.loc['idx'] in li.mods and X not in li.mods:
            v.add('node drawn is zero or an active node', lambda ex, it: Or(v.rd(ex, 'idx') == 0, MEM(this(ex).m_active_nodes, v.rd(ex, 'idx'))))
        return v.out


@reg
class MutateF(MutateKind):
    sig = E + '::mutate_active_fgene(unsigned int)'

    def kind(self, S, p):
        y = Lay(S)
        return And(p < y.tot, y.OFF(p) == 0)


@reg
class MutateC(MutateKind):
    sig = E + '::mutate_active_cgene(unsigned int)'

    def kind(self, S, p):
        y = Lay(S)
        return And(p < y.tot, y.OFF(p) >= 1)


@reg
class MutateO(MutateKind):
    sig = E + '::mutate_ogene(unsigned int)'

    def kind(self, S, p):
        y = Lay(S)
        return And(p >= y.tot, p < y.size)


# ---- queries ---------------------------------------------------------------------------------------------------------------
@reg
class IsActiveNode(Method):
    base_only = True
    sig = E + '::is_active_node(const unsigned int)'

    def ensures(self, c):
        return [('agrees with the list', c.ret == MEM(c.old().m_active_nodes, c.arg(0)))]


@reg
class IsActiveGene(Method):
    base_only = True
    sig = E + '::is_active_gene(const unsigned int)'

    def ensures(self, c):
        return [('agrees with the list', c.ret == MEM(c.old().m_active_genes, c.arg(0)))]


@reg
class GetArityOf(Method):
    base_only = True
    sig = E + '::get_arity(unsigned int)'

    def throws(self, c):
        y = Lay(c.old())
        return Or(c.arg(0) < y.n, c.arg(0) >= y.n + y.rc)

    def ensures(self, c):
        y = Lay(c.old())
        return [('arity of the column of the node', c.ret == y.AR(c.arg(0) - y.n))]


for _g, _f in (('get', 'm_x'), ('get_lb', 'm_lb'), ('get_ub', 'm_ub'), ('get_active_nodes', 'm_active_nodes'), ('get_active_genes', 'm_active_genes'),
               ('get_n', 'm_n'), ('get_m', 'm_m'), ('get_r', 'm_r'), ('get_c', 'm_c'), ('get_l', 'm_l'), ('get_arity', 'm_arity'), ('get_f', 'm_f'),
               ('get_gene_idx', 'm_gene_idx'), ('get_eph_val', 'm_eph_val'), ('get_eph_symb', 'm_eph_symb')):
    class Getter(Method):
        sig = E + '::' + _g + '()'
        fld = _f

        def ensures(self, c):
            return [('returns the member', same_val(c.ret, c.old().f[self.fld]))]
    Getter.getter = Getter.base_only = True
    reg(Getter)


def same_val(a, b):
    if isinstance(a, Vec):
        return And(a.len == b.len, a.arr == b.arr)
    return a == b
