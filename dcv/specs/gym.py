"""Contracts of the benchmark generators: the documented function, domain, number and alignment of the data."""
import math
import sympy
import z3
from z3 import And, ForAll, Function, Implies, IntVal, Select
import logic as L
import ring
import stdmodel
from contract import Contract
from exec import Vec, Unsupported, IList

PI, E_ = ring.num(math.pi), ring.num(math.e)
G = 'dcgp::gym::'
VV = 'std::vector<std::vector<double> > &'


def f_(name):
    return lambda a: ring.mathfun(name, [a])


sin, cos, exp = f_('sin'), f_('cos'), f_('exp')
Q = ring.num
R_ = sympy.Rational
# documented functions (dcgpy/docstrings.cpp and the papers cited there)
FN = {
    'koza_quintic': (1, lambda x: x**5 - 2 * x**3 + x),
    'P1': (1, lambda x: x**5 - PI * x**3 + x),
    'P2': (1, lambda x: x**5 - PI * x**3 + 2 * PI / x),
    'P3': (1, lambda x: (E_ * x**5 + x**3) / (x + 1)),
    'P4': (1, lambda x: sin(PI * x) + 1 / x),
    'P5': (1, lambda x: E_ * x**5 - PI * x**3 + x),
    'P6': (1, lambda x: (E_ * x**2 - 1) / (PI * (x + 2))),
    'P7': (1, lambda x: cos(PI * x) + sin(E_ * x)),
    'kotanchek': (2, lambda x, y: exp(-(x - 1)**2) / (Q(1.2) + (y - Q(2.5))**2)),
    'salutowicz': (1, lambda x: exp(-x) * x**3 * cos(x) * sin(x) * (cos(x) * sin(x)**2 - 1)),
    'salutowicz2d': (2, lambda x, y: exp(-x) * x**3 * cos(x) * sin(x) * (cos(x) * sin(x)**2 - 1) * (y - 5)),
    'uball5d': (5, lambda a, b, c, d, e: 10 / (5 + (a - 3)**2 + (b - 3)**2 + (c - 3)**2 + (d - 3)**2 + (e - 3)**2)),
    'ratpol3d': (3, lambda x, y, z: 30 * (x - 1) * (z - 1) / (y**2 * (x - 10))),
    'sinecosine': (2, lambda x, y: 6 * sin(x) * cos(y)),
    'ripple': (2, lambda x, y: (x - 3) * (y - 3) + 2 * sin((x - 4) * (y - 4))),
    'ratpol2d': (2, lambda x, y: ((x - 3)**4 + (y - 3)**3 - (y - 3)) / ((y - 2)**4 + 10)),
}
GRID = {'koza_quintic': (-3., 3., 10), 'P1': (1., 3., 10), 'P2': (.1, 5., 10), 'P3': (-.9, 1., 10), 'P4': (-1., 1., 10), 'P5': (1., 3., 10),
        'P6': (-2.1, 1., 10), 'P7': (-1., 1., 10), 'salutowicz': (.05, 10., 100)}
RAND = {'kotanchek': ([(.3, 4.)] * 2, 100), 'salutowicz2d': ([(.05, 10.)] * 2, 601), 'uball5d': ([(.05, 6.05)] * 5, 1024),
        'ratpol3d': ([(.05, 2.), (1., 2.), (.05, 2.)], 300), 'sinecosine': ([(.1, 5.9)] * 2, 30), 'ripple': ([(.05, 6.05)] * 2, 300),
        'ratpol2d': ([(.05, 6.05)] * 2, 50)}
# the industrial data set has no published reference: its size and checksums are those of the pinned commit
LUCA1 = 631
TABLES = {'chwirut1': 214, 'chwirut2': 54, 'daniel_wood': 6, 'gauss1': 250, 'kirby2': 151, 'lanczos2': 24, 'misra1b': 14, 'luca1': LUCA1}
SPEC = {n: Function('gym_' + n, *[L.D] * k, L.D) for n, (k, g) in FN.items()}


class Fn(Contract):
    """one benchmark function"""

    def __init__(self, name):
        self.name = name
        self.k, self.form = FN[name]
        self.sig = G + 'detail::%s(const std::vector<double> &)' % name

    def requires(self, c):
        return [('the point has the dimension of the problem', c.arg(0).len >= self.k)]

    def xs(self, c):
        return [z3.simplify(Select(c.arg(0).arr, IntVal(j))) for j in range(self.k)]

    def ensures(self, c):
        xs = self.xs(c)
        if c.ex.con is self:
            return [('the value is the documented function', ring.nf(c.ret) == ring.from_s(self.form(*[ring.to_s(x) for x in xs])))]
        # arithmetic on the result sees the formula
        ring._keep[c.ret.get_id()] = (self.form(*[ring.to_s(x) for x in xs]), c.ret)
        return [('value', c.ret == SPEC[self.name](*xs))]


class Gen(Contract):
    def __init__(self, name):
        self.name = name
        self.sig = G + 'generate_%s(%s, %s)' % (name, VV, VV)

    def modifies(self, c):
        return [c.binds[0], c.binds[1]]

    def point(self, k, q):
        raise NotImplementedError

    def label(self, k, q, pt):
        return SPEC[self.name](*[Select(L.v_arr(pt), IntVal(j)) for j in range(k)])

    def facts(self, ex, P, Lb, seed):
        """what holds of the first P.len points and Lb.len labels"""
        q = z3.Int('q!gym')
        pq, lq = Select(P.arr, q), Select(Lb.arr, q)
        coords = [Select(L.v_arr(pq), IntVal(j)) == self.coord(ex, q, j, seed) for j in range(self.k)]
        own = [self.coord(ex, q, j, seed) for j in range(self.k)]
        return [('each point has the documented dimension and coordinates',
                 ForAll([q], Implies(And(0 <= q, q < P.len), And(L.v_len(pq) == self.k, *coords)), patterns=[pq])),
                ('each label is the documented function of its point',
                 ForAll([q], Implies(And(0 <= q, q < Lb.len), And(L.v_len(lq) == 1, Select(L.v_arr(lq), IntVal(0)) == SPEC[self.name](*own))), patterns=[lq]))]

    def ensures(self, c):
        P, Lb = c.new(c.binds[0]), c.new(c.binds[1])
        seed = self.seed_of(c.ex)
        return [('documented number of points', P.len == self.N), ('one label for each point', Lb.len == P.len)] + self.facts(c.ex, P, Lb, seed)

    def seed_of(self, ex):
        return None

    def invs(self, li):
        PL = lambda ex: (ex.read(ex.ctx.binds[0]), ex.read(ex.ctx.binds[1]))
        n_facts = len(self.facts(li.ex, *PL(li.ex), self.seed_of(li.ex)))
        names = ['point coordinates', 'labels are the function of their point']
        out = [(names[i], lambda ex, it, i=i: self.facts(ex, *PL(ex), self.seed_of(ex))[i][1]) for i in range(n_facts)]
        out.append(('as many labels as points', lambda ex, it: PL(ex)[1].len == PL(ex)[0].len))
        out.append(('one point for each iteration', lambda ex, it: PL(ex)[0].len == it))
        out.append(('one label for each iteration', lambda ex, it: PL(ex)[1].len == it))
        for nme, path in sorted(li.frame_locals().items()):
            v = li.ex.store.get(path[0])
            if len(path) != 1 or not isinstance(v, z3.ExprRef):
                continue
            rd = lambda ex, path=path: ex.read(path)
            if isinstance(v, z3.ArithRef):
                for w, nm in ((0, 'points'), (1, 'labels')):
                    out.append(('%s counts the %s' % (nme, nm), lambda ex, it, rd=rd, w=w: rd(ex) == PL(ex)[w].len))
                out.append(('%s at most N' % nme, lambda ex, it, rd=rd: And(rd(ex) <= self.N, 0 <= rd(ex))))
            elif self.k > 0 and isinstance(self, Rand):
                def adv(ex, it, rd=rd, w=0):
                    seed = self.seed_of(ex)
                    v = rd(ex)
                    if seed is None or not v.sort().eq(seed.sort()):
                        raise Unsupported('no engine')
                    return v == stdmodel.ADVR(v.sort())(seed, L.norm(self.k * PL(ex)[w].len))
                for w in (0, 1):
                    out.append(('%s has given %d numbers for each of the %s' % (nme, self.k, ('points', 'labels')[w]), lambda ex, it, adv=adv, w=w: adv(ex, it, w=w)))
        return out


class Grid(Gen):
    def __init__(self, name):
        super().__init__(name)
        self.k = 1
        self.lb, self.ub, self.N = GRID[name]

    def coord(self, ex, q, j, seed):
        lb, ub = ring.num(self.lb), ring.num(self.ub)
        return ring.from_s(lb + ring.int2s(q) * (ub - lb) / (self.N - 1))


class Rand(Gen):
    def __init__(self, name):
        super().__init__(name)
        self.dom, self.N = RAND[name]
        self.k = len(self.dom)

    def seed_of(self, ex):
        for g in ex.seeds:
            return g
        return None

    def prepare(self, ex, f):
        # remember the state the generator seeds its engine with: it has to be the same at every call
        ex.seeds = []
        contract = self

        def seen(ex, term, arg):
            if not z3.is_int_value(z3.simplify(arg)):
                ex.oblige('the engine is seeded with a constant', z3.BoolVal(False), 'post')
            if not any(s.eq(term) for s in ex.seeds):
                ex.seeds.append(term)
        ex.on_seed = seen

    def coord(self, ex, q, j, seed):
        if seed is None:
            return z3.Const('no_engine', L.D)
        es = seed.sort()
        A = stdmodel.ADVR(es)
        Dr, _ = stdmodel.draw('real', es, 2, L.D, L.D)
        lo, hi = self.dom[j]
        return Dr(A(seed, L.norm(self.k * q + j)), L.dlit(lo), L.dlit(hi))


class Table(Gen):
    """published data: copied from a table of the header; the tables themselves are checked by a scan"""
    N, k = None, 1

    def ensures(self, c):
        ex = c.ex
        P, Lb = c.new(c.binds[0]), c.new(c.binds[1])
        return [('the points are the published ones', ex.same(P, self.glob(c, '%s_points'))), ('the labels are the published ones', ex.same(Lb, self.glob(c, '%s_labels')))]

    def glob(self, c, nm):
        v = c.pre.get('glob:' + nm % self.name) or c.ex.store.get('glob:' + nm % self.name)
        if v is None:
            raise Unsupported('table ' + nm % self.name)
        return v

    def setup(self, ex, f):
        r = super().setup(ex, f)
        for s in ('_points', '_labels'):
            g = [g for g in ex.p.G if g['qn'].split('::')[-1] == self.name + s]
            if g:
                ex.store['glob:' + self.name + s] = ex.fresh(g[0]['t'], self.name + s)
        return r

    def invs(self, li):
        return []


# NIST StRD: model, certified parameters, certified residual sum of squares
_e = math.exp
CERT = {
    'chwirut1': (lambda b, x: _e(-b[0] * x) / (b[1] + b[2] * x), [1.9027818370E-01, 6.1314004477E-03, 1.0530908399E-02], 2.3844771393E+03),
    'chwirut2': (lambda b, x: _e(-b[0] * x) / (b[1] + b[2] * x), [1.6657666537E-01, 5.1653291286E-03, 1.2150007096E-02], 5.1304802941E+02),
    'daniel_wood': (lambda b, x: b[0] * x**b[1], [7.6886226176E-01, 3.8604055871E+00], 4.3173084083E-03),
    'gauss1': (lambda b, x: b[0] * _e(-b[1] * x) + b[2] * _e(-(x - b[3])**2 / b[4]**2) + b[5] * _e(-(x - b[6])**2 / b[7]**2),
               [9.8778210871E+01, 1.0497276517E-02, 1.0048990633E+02, 6.7481111276E+01, 2.3129773360E+01, 7.1994503004E+01, 1.7899805021E+02, 1.8389389025E+01], 1.3158222432E+03),
    'kirby2': (lambda b, x: (b[0] + b[1] * x + b[2] * x * x) / (1 + b[3] * x + b[4] * x * x),
               [1.6745063063E+00, -1.3927397867E-01, 2.5961181191E-03, -1.7241811870E-03, 2.1664802578E-05], 3.9050739624E+00),
    'lanczos2': (lambda b, x: b[0] * _e(-b[1] * x) + b[2] * _e(-b[3] * x) + b[4] * _e(-b[5] * x),
                 [9.6251029939E-02, 1.0057332849E+00, 8.6424689056E-01, 3.0078283915E+00, 1.5529016879E+00, 5.0028798100E+00], 2.2299428125E-11),
    'misra1b': (lambda b, x: b[0] * (1 - (1 + b[1] * x / 2)**-2), [3.3799746163E+02, 3.9039091287E-04], 7.5464681533E-02),
}


def residual(n, rp, rl):
    f, b, r = CERT[n]
    try:
        return abs(sum((f(b, x[0]) - y[0])**2 for x, y in zip(rp, rl)) - r) <= 1e-8 * r
    except (ArithmeticError, ValueError):
        return False


REG = {c.sig: c for c in [Fn(n) for n in FN] + [Grid(n) for n in GRID] + [Rand(n) for n in RAND] + [Table(n) for n in TABLES]}


def rows(init):
    """nested initialiser -> list of lists of literals"""
    def lits(e):
        k = e.get('k')
        if k in ('flt', 'int'):
            return float(e['v'])
        if k == 'un' and e['op'] == '-':
            return -lits(e['e'])
        if k in ('cast', 'mat', 'stdil'):
            return lits(e['e'])
        if k == 'ilist':
            return [lits(x) for x in e.get('es', [])]
        if k == 'ctor':
            if e['args']:
                return lits(e['args'][0])
            return []
        raise Unsupported('table entry ' + str(k))
    return lits(init)


def scan(P):
    out = []
    gl = {g['qn'].split('::')[-1]: g for g in P.G}
    for n, cnt in sorted(TABLES.items()):
        p, l = gl.get(n + '_points'), gl.get(n + '_labels')
        if not p or not l or p.get('init') is None or l.get('init') is None:
            out.append(('tables of %s not found as initialised globals' % n, None, n))
            continue
        try:
            rp, rl = rows(p['init']), rows(l['init'])
        except Unsupported as u:
            out.append(('table of %s: %s' % (n, u), None, n))
            continue
        loc = 'dcgp table %s:%s' % (n, p.get('line'))
        out.append(('%s: as many labels as points' % n, len(rp) == len(rl), loc))
        out.append(('%s: every point has one coordinate and every label one value' % n, all(isinstance(r, list) and len(r) == 1 for r in rp + rl), loc))
        if cnt:
            out.append(('%s: the published number of observations (%d)' % (n, cnt), len(rp) == cnt, loc))
        else:
            out.append(('%s: not empty' % n, len(rp) > 0, loc))
        if n == 'luca1':
            w = [sum((i + 1) * x[0] for i, x in enumerate(t)) for t in (rp, rl)]
            out.append(('luca1: checksums of the data set', abs(w[0] - 5099757660.0) < 1e-3 and abs(w[1] - 61293936.8712583) < 1e-5, loc))
        if n in CERT:
            out.append(('%s: the observations give the certified residual sum of squares' % n, residual(n, rp, rl), loc))
        out.append(('%s: finite values' % n, all(abs(v[0]) < 1e300 for v in rp + rl), loc))
    return out
