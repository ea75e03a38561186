"""Theory of the chromosome layout (definitions used by the contracts) and the lemmas about it, proved by induction."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Select, Int, Function, IntVal, MultiPattern
import logic as L
from logic import I, AI, B, mul, div
from stdmodel import SUMI

# G(A,r,t): first gene position of the t-th non-input node when columns have arities A and r rows
G = Function('G', AI, I, I, I)
# node ordinal and offset inside the node of a gene position
NODE = Function('NODEof', AI, I, I, I)
OFF = Function('OFFof', AI, I, I, I)

# node and connection of a position in the weight vector
WN = Function('WNof', AI, I, I, I)
WO = Function('WOof', AI, I, I, I)

# marks the values for which an existential fact is to be unfolded (true of every value; stops instantiation chains)
MARK = Function('mark', I, B)

t_, s_, p_, k_, v_, q_ = z3.Ints('l!t l!s l!p l!k l!v l!q')


# number of positions below n at which two arrays differ
NCH = Function('nch', AI, AI, I, I)
_x, _x0, _n, _p, _v = z3.Const('l!xa', AI), z3.Const('l!xb', AI), Int('l!xn'), Int('l!xp'), Int('l!xv')
L.AX += [
    ForAll([_x, _n], NCH(_x, _x, _n) == 0, patterns=[NCH(_x, _x, _n)]),
    ForAll([_x, _x0, _n, _p, _v], And(NCH(z3.Store(_x, _p, _v), _x0, _n) <= NCH(_x, _x0, _n) + 1,
                                      NCH(_x, _x0, _n) >= 0),
           patterns=[NCH(z3.Store(_x, _p, _v), _x0, _n)]),
]


class Lay:
    """layout of an expression value S (a Rec with the data members of dcgp::expression)"""

    def __init__(self, S):
        self.S = S
        self.n, self.m, self.r, self.c, self.l = S.m_n, S.m_m, S.m_r, S.m_c, S.m_l
        self.A = S.m_arity.arr
        self.rc = mul(self.r, self.c)
        self.tot = self.G(self.rc)                 # number of node genes
        self.SUM = SUMI(self.A, IntVal(0), self.c)
        self.size = self.rc + mul(self.r, self.SUM) + self.m
        self.F = S.m_f.len

    def G(self, t):
        return G(self.A, self.r, L.norm(t))

    def COL(self, t):
        return L.DIV(L.norm(t), self.r)

    def AR(self, t):
        return Select(self.A, self.COL(t))

    def NODE(self, p):
        return NODE(self.A, self.r, p)

    def OFF(self, p):
        return OFF(self.A, self.r, p)

    def dims(self):
        """accepted dimensions (what the sanity checks establish), and the no-overflow assumption"""
        return [('dimensions are positive', And(self.n >= 1, self.m >= 1, self.r >= 1, self.c >= 1, self.l >= 1)),
                ('one arity per column', self.S.m_arity.len == self.c),
                ('arities are positive', ForAll([k_], Implies(And(0 <= k_, k_ < self.c), Select(self.A, k_) >= 1),
                                                patterns=[Select(self.A, k_)])),
                ('kernels exist', And(self.F >= 1, self.F < 2**32))]

    def fits(self):
        """assumption: the size of the chromosome and of the node table fit the unsigned type used for them"""
        return And(self.n + self.rc < 2**32, self.size < 2**32, self.SUM < 2**32, self.SUM >= 0)

    def facts(self):
        """definition of G and the lemmas about it (lemma obligations below prove each from the definition)"""
        A, r, rc = self.A, self.r, self.rc
        g = self.G
        d = [
            # definition
            self.G(IntVal(0)) == 0,
            ForAll([s_, t_], Implies(And(0 <= s_, t_ == s_ + 1), G(A, r, t_) == G(A, r, s_) + 1 + self.AR(s_)),
                   patterns=[MultiPattern(G(A, r, s_), G(A, r, t_))]),
            # lemma mono
            ForAll([s_, t_], Implies(And(0 <= s_, s_ < t_, t_ <= rc), G(A, r, s_) + 1 + self.AR(s_) <= G(A, r, t_)),
                   patterns=[MultiPattern(G(A, r, s_), G(A, r, t_))]),
            ForAll([t_], Implies(And(0 <= t_, t_ <= rc), And(G(A, r, t_) >= 0, G(A, r, t_) <= self.tot)),
                   patterns=[G(A, r, t_)]),
            ForAll([t_], Implies(And(0 <= t_, t_ < rc), And(G(A, r, t_) + 1 + self.AR(t_) <= self.tot,
                                                            self.COL(t_) >= 0, self.COL(t_) < self.c, self.AR(t_) >= 1,
                                                            mul(self.COL(t_), r) <= t_)),
                   patterns=[G(A, r, t_)]),
            # lemma closed form of the total
            self.tot == rc + mul(r, self.SUM),
            # lemma column range
            ForAll([t_], Implies(And(0 <= t_, t_ < rc), And(self.COL(t_) >= 0, self.COL(t_) < self.c)),
                   patterns=[self.COL(t_)]),
            # lemma prefix sums of the arities
            ForAll([s_, t_], Implies(And(0 <= s_, s_ < t_, t_ <= self.c), SUMI(A, IntVal(0), s_) + Select(A, s_) <= SUMI(A, IntVal(0), t_)),
                   patterns=[MultiPattern(SUMI(A, IntVal(0), s_), SUMI(A, IntVal(0), t_))]),
            ForAll([t_], Implies(And(0 <= t_, t_ <= self.c), And(SUMI(A, IntVal(0), t_) >= 0, SUMI(A, IntVal(0), t_) <= self.SUM)),
                   patterns=[SUMI(A, IntVal(0), t_)]),
            # lemma closed form
            ForAll([t_], Implies(And(0 <= t_, t_ < rc), self.closed(t_)), patterns=[G(A, r, t_)]),
            # blocks partition the node genes
            ForAll([p_], Implies(And(0 <= p_, p_ < self.tot),
                                 And(0 <= self.NODE(p_), self.NODE(p_) < rc, self.OFF(p_) == p_ - G(A, r, self.NODE(p_)),
                                     0 <= self.OFF(p_), self.OFF(p_) <= self.AR(self.NODE(p_)))),
                   patterns=[self.NODE(p_), self.OFF(p_)]),
            ForAll([t_, p_], Implies(And(0 <= t_, t_ < rc, G(A, r, t_) <= p_, p_ <= G(A, r, t_) + self.AR(t_)),
                                     And(self.NODE(p_) == t_, self.OFF(p_) == p_ - G(A, r, t_))),
                   patterns=[MultiPattern(G(A, r, t_), self.NODE(p_))]),
        ]
        return d

    def closed(self, t):
        """closed form of G at t (lemma)"""
        C = self.COL(t)
        return self.G(t) == mul(self.r, SUMI(self.A, IntVal(0), C)) + mul(L.MOD(L.norm(t), self.r), Select(self.A, C)) + t

    # bounds
    def ub(self, p):
        return If(p < self.tot, If(self.OFF(p) == 0, self.F - 1, self.n + mul(self.COL(self.NODE(p)), self.r) - 1),
                  self.n + self.rc - 1)

    def lb(self, p):
        C = self.COL(self.NODE(p))
        return If(p < self.tot,
                  If(Or(self.OFF(p) == 0, C < self.l), IntVal(0), self.n + mul(C, self.r) - mul(self.l, self.r)),
                  If(self.l <= self.c, self.n + self.rc - mul(self.l, self.r), IntVal(0)))


def wf_bounds(S):
    y = Lay(S)
    return [
        ('chromosome and bounds have the length the layout prescribes',
         And(S.m_x.len == y.size, S.m_lb.len == y.size, S.m_ub.len == y.size)),
        ('upper bounds are the Cartesian ones',
         ForAll([p_], Implies(And(0 <= p_, p_ < y.size), Select(S.m_ub.arr, p_) == y.ub(p_)), patterns=[Select(S.m_ub.arr, p_)])),
        ('lower bounds are the Cartesian ones',
         ForAll([p_], Implies(And(0 <= p_, p_ < y.size), Select(S.m_lb.arr, p_) == y.lb(p_)), patterns=[Select(S.m_lb.arr, p_)])),
        ('lower bounds do not exceed upper bounds',
         ForAll([p_], Implies(And(0 <= p_, p_ < y.size), And(0 <= Select(S.m_lb.arr, p_), Select(S.m_lb.arr, p_) <= Select(S.m_ub.arr, p_))),
                patterns=[Select(S.m_lb.arr, p_), Select(S.m_ub.arr, p_)])),
        ('gene positions of nodes are the ones of the layout',
         And(S.m_gene_idx.len == y.n + y.rc,
             ForAll([v_], Implies(And(y.n <= v_, v_ < y.n + y.rc), Select(S.m_gene_idx.arr, v_) == G(y.A, y.r, v_ - y.n)),
                    patterns=[Select(S.m_gene_idx.arr, v_)]),
             ForAll([v_], Implies(And(0 <= v_, v_ < y.n), Select(S.m_gene_idx.arr, v_) == 0),
                    patterns=[Select(S.m_gene_idx.arr, v_)]))),
    ]


def in_bounds(S):
    y = Lay(S)
    x, lb, ub = S.m_x.arr, S.m_lb.arr, S.m_ub.arr
    return [('genes are within their bounds',
             ForAll([p_], Implies(And(0 <= p_, p_ < y.size), And(Select(lb, p_) <= Select(x, p_), Select(x, p_) <= Select(ub, p_))),
                    patterns=[Select(x, p_)]))]


def eph(S):
    return [('constants and their names match', And(S.m_eph_val.len == S.m_eph_symb.len, S.m_eph_val.len <= S.m_n))]


def wf_static(S):
    """everything but the chromosome content and the activity data"""
    y = Lay(S)
    return y.dims() + [('sizes fit', y.fits())] + wf_bounds(S) + eph(S)


def wf(S):
    return wf_static(S) + in_bounds(S)


def MEM(v, x):
    return L.MEM(v.arr, v.len, x)


def act_members(S):
    """the active node list is exactly what the outputs depend on (members)"""
    y = Lay(S)
    x, an = S.m_x.arr, S.m_active_nodes
    return [
        ('nodes of output genes are active',
         ForAll([p_], Implies(And(y.tot <= p_, p_ < y.size), MEM(an, Select(x, p_))), patterns=[Select(x, p_)])),
        ('nodes that active nodes connect to are active',
         ForAll([p_], Implies(And(0 <= p_, p_ < y.tot, y.OFF(p_) >= 1, MEM(an, y.n + y.NODE(p_))), MEM(an, Select(x, p_))),
                patterns=[Select(x, p_)])),
        ('every active node is an output node or an active node connects to it',
         ForAll([v_], Implies(And(MEM(an, v_), MARK(v_)), Exists([p_], And(0 <= p_, p_ < y.size, Select(x, p_) == v_,
                                                            Or(p_ >= y.tot, And(y.OFF(p_) >= 1, MEM(an, y.n + y.NODE(p_))))))),
                patterns=[MultiPattern(MEM(an, v_), MARK(v_))])),
        ('active nodes exist', ForAll([k_], Implies(And(0 <= k_, k_ < an.len), And(Select(an.arr, k_) >= 0, Select(an.arr, k_) < y.n + y.rc)),
                                     patterns=[Select(an.arr, k_)])),
    ]


def strictly_sorted(v):
    return ForAll([k_, q_], Implies(And(0 <= k_, k_ < q_, q_ < v.len), Select(v.arr, k_) < Select(v.arr, q_)),
                  patterns=[MultiPattern(Select(v.arr, k_), Select(v.arr, q_))])


def spread(v):
    """lemma: the k-th element of a strictly increasing list of non-negative numbers is at least k"""
    return Implies(And(strictly_sorted(v), ForAll([k_], Implies(And(0 <= k_, k_ < v.len), Select(v.arr, k_) >= 0), patterns=[Select(v.arr, k_)])),
                   ForAll([k_], Implies(And(0 <= k_, k_ < v.len), Select(v.arr, k_) >= k_), patterns=[Select(v.arr, k_)]))


def ag_is(S, g, upto=None):
    y = Lay(S)
    an = S.m_active_nodes
    ln = an.len if upto is None else upto
    return And(0 <= g, g < y.tot, L.MEM(an.arr, ln, y.n + y.NODE(g)))


# number of connections into node v made by active nodes and output genes at chromosome positions below p
CNT = Function('cnt', AI, AI, I, I, I, AI, I, I, I, I)
CNTW = Function('cntw', AI, AI, I, I, I, AI, I, I, I, I, I)      # witnesses of the lemmas
CNTX = Function('cntx', AI, AI, AI, I, I, I, AI, I, I, I, I)


class Conn:
    """who uses the output of each node (the table an ANN expression keeps for back-propagation)"""

    def __init__(self, S, an=None):
        self.S, self.y = S, Lay(S)
        y = self.y
        an = an or S.m_active_nodes
        self.an = an
        self.a = (y.A, y.r, y.n, y.tot, an.arr, an.len)

    def edge(self, p, an=None):
        """chromosome position p is a connection of an active node, or an output gene"""
        y = self.y
        an = an or (self.an.arr, self.an.len)
        return Or(p >= y.tot, And(y.OFF(p) >= 1, L.MEM(an[0], an[1], y.n + y.NODE(p))))

    def cnt(self, v, p, x=None):
        return CNT(x if x is not None else self.S.m_x.arr, *self.a, v, p)

    def first(self, p):
        y = self.y
        return If(p < y.tot, y.n + y.NODE(p), y.n + y.rc + p - y.tot)

    def second(self, p):
        return If(p < self.y.tot, p - 1 - self.y.NODE(p), 0)

    def entry(self, v, k):
        return Select(L.v_arr(Select(self.S.m_connected.arr, v)), k)

    def len(self, v):
        return L.v_len(Select(self.S.m_connected.arr, v))

    def facts(self):
        y = self.y
        X, X1, AN = z3.Const('l!cx', AI), z3.Const('l!cx1', AI), z3.Const('l!can', AI)
        n_, p2 = Int('l!cn'), Int('l!cp2')
        a = (y.A, y.r, y.n, y.tot, AN, n_)
        c = lambda x, p: CNT(x, *a, v_, p)
        e = lambda p: self.edge(p, (AN, n_))
        W, WX = CNTW(X, *a, v_, p_, p2), CNTX(X, X1, *a, v_, p_)
        return [ForAll([X, AN, n_, v_, p_], c(X, IntVal(0)) == 0, patterns=[c(X, p_)]),
                ForAll([X, AN, n_, v_, p_, p2], Implies(And(0 <= p_, p2 == p_ + 1), c(X, p2) == c(X, p_) + If(And(e(p_), Select(X, p_) == v_), 1, 0)), patterns=[MultiPattern(c(X, p_), c(X, p2))]),
                ForAll([X, AN, n_, v_, p_, p2], Implies(And(0 <= p_, p_ <= p2), And(0 <= c(X, p_), c(X, p_) <= c(X, p2), Implies(And(p_ < p2, e(p_), Select(X, p_) == v_), c(X, p_) + 1 <= c(X, p2)), Or(c(X, p_) == c(X, p2), And(p_ <= W, W < p2, e(W), Select(X, W) == v_)))), patterns=[MultiPattern(c(X, p_), c(X, p2))]),
                ForAll([X, X1, AN, n_, v_, p_], Implies(0 <= p_, Or(c(X, p_) == c(X1, p_), And(0 <= WX, WX < p_, e(WX), Select(X, WX) != Select(X1, WX)))), patterns=[MultiPattern(c(X, p_), c(X1, p_))])]


    def gap(self, k):
        """no connections lie between the genes of one active node and those of the next (lemma, for a strictly increasing list);
        [(statement without the quantifiers, variables, pattern)] at position k of the list of active nodes"""
        y, x = self.y, self.S.m_x.arr
        an = self.an
        P1 = lambda nd: L.norm(y.G(nd - y.n) + 1 + y.AR(nd - y.n))
        nd, nx, pv = Select(an.arr, k), Select(an.arr, L.norm(k + 1)), Select(an.arr, L.norm(k - 1))
        ok = And(0 <= k, k < an.len)
        c = lambda p: self.cnt(v_, p)
        first = Or(k == 0, pv < y.n)
        gnx, gnd = y.G(nx - y.n), y.G(nd - y.n)
        e = Not(self.edge(p_))
        ing = And(0 <= p_, p_ < y.tot)
        out = []
        for pre, a, b in ((And(nd >= y.n, k + 1 < an.len, nx >= y.n), P1(nd), gnx), (And(nd >= y.n, k + 1 == an.len), P1(nd), y.tot),
                          (And(nd >= y.n, first), IntVal(0), gnd), (And(nd < y.n, k + 1 == an.len), IntVal(0), y.tot)):
            out.append((Implies(And(ok, pre), c(a) == c(b)), v_, c(b)))
            out.append((Implies(And(ok, pre, ing, a <= p_, p_ < b), e), p_, Select(x, p_)))
        return out

    def gaps(self, k):
        an, y = self.an, self.y
        inc = And(strictly_sorted(an), ForAll([k_], Implies(And(0 <= k_, k_ < an.len), And(Select(an.arr, k_) >= 0, Select(an.arr, k_) < y.n + y.rc)), patterns=[Select(an.arr, k_)]))
        return [Implies(inc, And([ForAll([v], f, patterns=[pt]) for f, v, pt in self.gap(k)]))]


class _LS:
    """a symbolic state for lemmas"""

    def __init__(self):
        from exec import Vec
        self.f = {}
        for k in ('m_n', 'm_m', 'm_r', 'm_c', 'm_l'):
            setattr(self, k, Int('L' + k))
        for k in ('m_arity', 'm_x', 'm_active_nodes'):
            setattr(self, k, Vec(Int('L%s.len' % k), z3.Const('L' + k, AI), None))
        self.m_f = Vec(Int('Lm_f.len'), z3.Const('Lm_f', AI), None)


def gap_lemmas():
    S = _LS()
    C = Conn(S)
    y, an, x = C.y, S.m_active_nodes, S.m_x.arr
    k, v, p, q = z3.Ints('k v p q')
    hyp = y.facts() + [g for _, g in y.dims()] + [strictly_sorted(an), ForAll([k_], Implies(And(0 <= k_, k_ < an.len), And(Select(an.arr, k_) >= 0, Select(an.arr, k_) < y.n + y.rc)), patterns=[Select(an.arr, k_)]), y.size < 2**32, y.m >= 1]
    gs = C.gap(k)
    names = ['between consecutive active nodes', 'after the last active node', 'before the first active node', 'when only inputs are active']
    nd = Select(an.arr, k)
    touch = [L.TOUCH(y.G(nd - y.n)), L.TOUCH(y.G(nd + 1 - y.n)), L.TOUCH(y.G(Select(an.arr, k + 1) - y.n)), L.TOUCH(y.tot), L.TOUCH(y.G(IntVal(0))), L.TOUCH(Select(an.arr, k - 1))]
    out = []
    for n in range(4):
        f, fv, _ = gs[2 * n + 1]
        c, cv, _ = gs[2 * n]
        out.append(('no connections %s' % names[n], hyp + touch + [L.TOUCH(y.NODE(p_)), L.TOUCH(y.OFF(p_)), L.TOUCH(y.G(y.NODE(p_)))], f))
        out.append(('counts do not change %s' % names[n], hyp + touch + C.facts() + [ForAll([fv], f, patterns=[y.OFF(p_)]), L.TOUCH(Select(x, p))] + [C.cnt(v_, IntVal(0)) == 0], c))
    return out


def conn_lemmas():
    """the facts above that are not the definition, by induction on the position"""
    N, N1 = Function('cnt_def', I, I), Function('cnt_def1', I, I)
    e, x, x1 = Function('cnt_edge', I, B), z3.Const('x', AI), z3.Const('x1', AI)
    v, p, q = Int('v'), Int('p'), Int('q')
    step = lambda F, xx, t: F(t + 1) == F(t) + If(And(e(t), Select(xx, t) == v), 1, 0)
    w = Int('w')
    ex1 = lambda lo, hi: Exists([w], And(lo <= w, w < hi, e(w), Select(x, w) == v))
    return [('count of connections: a connection makes it grow', [0 <= p, p < q, e(p), Select(x, p) == v, step(N, x, p), N(p + 1) <= N(q)], N(p) + 1 <= N(q)),
            ('count of connections: non-negative (step)', [p >= 0, N(p) >= 0, step(N, x, p)], N(p + 1) >= 0),
            ('count of connections: grows only at connections (step)', [0 <= p, p <= q, N(p) <= N(q), Or(N(p) == N(q), ex1(p, q)), step(N, x, q), L.TOUCH(Select(x, q))],
             And(N(p) <= N(q + 1), Or(N(p) == N(q + 1), And(p <= q, e(q), Select(x, q) == v), ex1(p, q)))),
            ('count of connections: depends on connections only (step)', [0 <= p, Or(N(p) == N1(p), Exists([w], And(0 <= w, w < p, e(w), Select(x, w) != Select(x1, w)))), step(N, x, p), step(N1, x1, p)],
             Or(N(p + 1) == N1(p + 1), And(e(p), Select(x, p) != Select(x1, p)), Exists([w], And(0 <= w, w < p, e(w), Select(x, w) != Select(x1, w)))))]


def conn_upto(S, P, size=None):
    """the table lists, for each node, the connections at positions below P, in order"""
    C = Conn(S)
    y = C.y
    t = C.entry(Select(S.m_x.arr, p_), C.cnt(Select(S.m_x.arr, p_), p_))
    acc = t.sort().accessor
    return [('table of connections has a list per node', And(S.m_connected.len == y.n + y.m + y.rc, y.n + y.m + y.rc < 2**32)),
            ('each list has one entry per connection into the node', ForAll([v_], Implies(And(0 <= v_, v_ < y.n + y.rc), C.len(v_) == C.cnt(v_, P)), patterns=[Select(S.m_connected.arr, v_)])),
            ('each connection is listed at its place', ForAll([p_], Implies(And(0 <= p_, p_ < P, C.edge(p_)), And(acc(0, 0)(t) == C.first(p_), acc(0, 1)(t) == C.second(p_))), patterns=[Select(S.m_x.arr, p_)]))]


def conn(S):
    return conn_upto(S, Lay(S).size)


def act(S):
    return act_base(S) + (conn(S) if 'm_connected' in S.f else [])


def act_base(S):
    y = Lay(S)
    an, ag = S.m_active_nodes, S.m_active_genes
    return act_members(S) + [
        ('active nodes are strictly increasing', strictly_sorted(an)),
        ('active genes are strictly increasing', strictly_sorted(ag)),
        ('active genes are the genes of active nodes and the output genes',
         And(ForAll([p_], Implies(MEM(ag, p_), Or(ag_is(S, p_), And(y.tot <= p_, p_ < y.size))), patterns=[MEM(ag, p_)]),
             ForAll([p_], Implies(ag_is(S, p_), MEM(ag, p_)), patterns=[MEM(ag, p_)]),
             ForAll([p_], Implies(And(y.tot <= p_, p_ < y.size), MEM(ag, p_)), patterns=[MEM(ag, p_)]),
             )),
        ('the output genes close the list of active genes',
         And(ag.len >= y.m, ForAll([k_], Implies(And(ag.len - y.m <= k_, k_ < ag.len),
                                                 Select(ag.arr, k_) == y.size - ag.len + k_), patterns=[Select(ag.arr, k_)]),
             ForAll([k_], Implies(And(0 <= k_, k_ < ag.len - y.m), And(Select(ag.arr, k_) >= 0, Select(ag.arr, k_) < y.tot)), patterns=[Select(ag.arr, k_)]))),
    ]


def lemma_obligations():
    """induction proofs of the facts used above: list of (name, hypotheses, goal)"""
    out = []
    A = z3.Const('A', AI)
    r, c, n, m = z3.Ints('r c n m')
    t, s, T, p = z3.Ints('t s T p')
    rc = mul(r, c)
    g = lambda x: G(A, r, L.norm(x))
    COL = lambda x: L.DIV(L.norm(x), r)
    AR = lambda x: Select(A, COL(x))
    hyp = [r >= 1, c >= 1, ForAll([k_], Implies(And(0 <= k_, k_ < c), Select(A, k_) >= 1), patterns=[Select(A, k_)])]
    define = [g(IntVal(0)) == 0,
              ForAll([s_, t_], Implies(And(0 <= s_, t_ == s_ + 1), G(A, r, t_) == G(A, r, s_) + 1 + Select(A, L.DIV(s_, r))),
                     patterns=[MultiPattern(G(A, r, s_), G(A, r, t_))])]
    # column range
    out.append(('column of a node is below the number of columns', hyp + [0 <= t, t < rc, mul(c, r) == rc],
                And(COL(t) >= 0, COL(t) < c)))
    colr = ForAll([t_], Implies(And(0 <= t_, t_ < rc), And(L.DIV(t_, r) >= 0, L.DIV(t_, r) < c)), patterns=[L.DIV(t_, r)])
    # mono by induction on t: P(t): for all s < t: G(s)+1+AR(s) <= G(t)
    IH = ForAll([s_], Implies(And(0 <= s_, s_ < t), G(A, r, s_) + 1 + Select(A, L.DIV(s_, r)) <= g(t)), patterns=[G(A, r, s_)])
    out.append(('G is increasing (induction step)', hyp + define + [colr, 0 <= t, t + 1 <= rc, IH, 0 <= s, s < t + 1, g(t) == g(t), g(s) == g(s)],
                g(s) + 1 + AR(s) <= g(t + 1)))
    out.append(('G is non-negative (induction step)', hyp + define + [colr, 0 <= t, t < rc, g(t) >= 0], g(t + 1) >= 0))
    # closed form
    def closed(x):
        C = COL(x)
        return mul(r, SUMI(A, IntVal(0), C)) + mul(L.MOD(L.norm(x), r), Select(A, C)) + x
    out.append(('closed form of G (base)', hyp + define + [COL(IntVal(0)) == COL(IntVal(0))], g(IntVal(0)) == closed(IntVal(0))))
    # case split on whether the column advances
    C, C1 = COL(t), COL(t + 1)
    out.append(('closed form of G (step, same column)', hyp + define + [colr, 0 <= t, t + 1 < rc, g(t) == closed(t), C1 == C], g(t + 1) == closed(t + 1)))
    # next column: t is the last node of column C, t = C*r + r - 1; the sum of arities advances by A[C] (lemma below)
    Cc = z3.Int('Cc')
    tt = mul(Cc, r) + r - 1
    S0 = SUMI(A, IntVal(0), Cc)
    here = mul(r, S0) + mul(L.MOD(L.norm(tt), r), Select(A, Cc)) + tt
    nxt = mul(r, L.norm(S0 + Select(A, Cc))) + mul(L.MOD(L.norm(tt + 1), r), Select(A, Cc + 1)) + L.norm(tt + 1)
    out.append(('closed form of G (step, next column)',
                hyp + [0 <= Cc, Cc < c, L.TOUCH(g(tt)), L.DIV(L.norm(tt), r) == Cc, L.DIV(L.norm(tt + 1), r) == Cc + 1, G(A, r, L.norm(tt + 1)) == G(A, r, L.norm(tt)) + 1 + Select(A, Cc), g(tt) == here],
                g(tt + 1) == nxt))
    out.append(('sum of arities advances with the column', [C1 == C + 1, C >= 0, L.TOUCH(SUMI(A, IntVal(0), C))], SUMI(A, IntVal(0), C1) == SUMI(A, IntVal(0), C) + Select(A, C)))
    IHs = ForAll([s_], Implies(And(0 <= s_, s_ < t), SUMI(A, IntVal(0), s_) + Select(A, s_) <= SUMI(A, IntVal(0), t)), patterns=[SUMI(A, IntVal(0), s_)])
    out.append(('prefix sums of the arities are increasing (induction step)',
                hyp + [0 <= s, s < t + 1, t + 1 <= c, IHs, L.TOUCH(SUMI(A, IntVal(0), t))], SUMI(A, IntVal(0), s) + Select(A, s) <= SUMI(A, IntVal(0), t + 1)))
    out.append(('prefix sums of the arities are non-negative (induction step)',
                hyp + [0 <= t, t + 1 <= c, SUMI(A, IntVal(0), t) >= 0], SUMI(A, IntVal(0), t + 1) >= 0))
    out.append(('column of the next node is the same or the next one', hyp + [0 <= t, L.TOUCH(C), L.TOUCH(C1)], Or(C1 == C, And(C1 == C + 1, t + 1 == mul(C, r) + r))))
    out.append(('closed form at the end of the grid', hyp + define + [g(rc) == closed(rc), COL(rc) == COL(rc), mul(c, r) == rc],
                g(rc) == rc + mul(r, SUMI(A, IntVal(0), c))))
    # partition: every position below G(T) lies in the block of some node (induction on T)
    IHp = ForAll([p_], Implies(And(0 <= p_, p_ < g(t)), And(0 <= NODE(A, r, p_), NODE(A, r, p_) < t,
                                                            G(A, r, NODE(A, r, p_)) <= p_,
                                                            p_ <= G(A, r, NODE(A, r, p_)) + Select(A, L.DIV(NODE(A, r, p_), r)))),
                 patterns=[NODE(A, r, p_)])
    out.append(('every gene position lies in the block of a node (induction step)',
                hyp + define + [0 <= t, t < rc, IHp, 0 <= p, p < g(t + 1), L.TOUCH(NODE(A, r, p)), L.TOUCH(g(t))],
                Exists([s_], And(0 <= s_, s_ <= t, G(A, r, s_) <= p, p <= G(A, r, s_) + Select(A, L.DIV(s_, r))))))
    mono = ForAll([s_, t_], Implies(And(0 <= s_, s_ < t_, t_ <= rc), G(A, r, s_) + 1 + Select(A, L.DIV(s_, r)) <= G(A, r, t_)),
                  patterns=[MultiPattern(G(A, r, s_), G(A, r, t_))])
    out.append(('the block of a gene position is unique', hyp + [mono, 0 <= s, s < rc, 0 <= t, t < rc, g(s) <= p, p <= g(s) + AR(s),
                                                                 g(t) <= p, p <= g(t) + AR(t)], s == t))
    k, n2 = z3.Ints('k n2')
    a2 = z3.Const('a2', AI)
    ss = ForAll([k_, q_], Implies(And(0 <= k_, k_ < q_, q_ < n2), Select(a2, k_) < Select(a2, q_)), patterns=[MultiPattern(Select(a2, k_), Select(a2, q_))])
    out.append(('k-th element of a strictly increasing list (base)', [ss, Select(a2, 0) >= 0], Select(a2, 0) >= 0))
    out.append(('k-th element of a strictly increasing list (step)', [ss, 0 <= k, k + 1 < n2, Select(a2, k) >= k], Select(a2, k + 1) >= k + 1))
    return out


def nch_lemmas():
    """the facts about NCH from its recursive definition (induction on the number of positions)"""
    x, x0, n, p, v = z3.Const('x', AI), z3.Const('x0', AI), Int('n'), Int('p'), Int('v')
    N = Function('nch_def', AI, AI, I, I)
    d = lambda a: [N(a, x0, n + 1) == N(a, x0, n) + If(Select(a, n) != Select(x0, n), 1, 0)]
    x1 = z3.Store(x, p, v)
    return [('count of differences: equal arrays (base)', [N(x, x, 0) == 0], N(x, x, 0) == 0),
            ('count of differences: equal arrays (step)', [n >= 0, N(x, x, n) == 0, N(x, x, n + 1) == N(x, x, n) + If(Select(x, n) != Select(x, n), 1, 0)], N(x, x, n + 1) == 0),
            ('count of differences: one store adds at most one (step)',
             [n >= 0, N(x1, x0, n) <= N(x, x0, n) + If(p < n, 1, 0), N(x, x0, n) >= 0, Implies(Not(And(0 <= p, p < n)), N(x1, x0, n) == N(x, x0, n))] + d(x) + d(x1),
             And(N(x1, x0, n + 1) <= N(x, x0, n + 1) + If(p < n + 1, 1, 0), N(x, x0, n + 1) >= 0,
                 Implies(Not(And(0 <= p, p < n + 1)), N(x1, x0, n + 1) == N(x, x0, n + 1))))]


def weight_facts(S):
    """positions of weights partition into nodes and connections (lemmas below)"""
    y = Lay(S)
    Aa, r = y.A, y.r
    WI = lambda t: L.norm(y.G(t) - t)
    return [ForAll([t_], Implies(And(0 <= t_, t_ < y.rc), And(WI(t_) >= 0, WI(t_) + y.AR(t_) <= mul(r, y.SUM))), patterns=[G(Aa, r, t_)]),
            ForAll([t_, p_], Implies(And(0 <= t_, t_ < y.rc, WI(t_) <= p_, p_ < WI(t_) + y.AR(t_)), And(WN(Aa, r, p_) == t_, WO(Aa, r, p_) == p_ - WI(t_))),
                   patterns=[MultiPattern(G(Aa, r, t_), WN(Aa, r, p_))]),
            ForAll([p_], Implies(And(0 <= p_, p_ < mul(r, y.SUM)), And(0 <= WN(Aa, r, p_), WN(Aa, r, p_) < y.rc, p_ == WI(WN(Aa, r, p_)) + WO(Aa, r, p_),
                                                                 0 <= WO(Aa, r, p_), WO(Aa, r, p_) < y.AR(WN(Aa, r, p_)))), patterns=[WN(Aa, r, p_)])]
