"""Contracts of the kernels: the number a kernel computes, the text it prints, and the kernel a name stands for."""
import sympy
import z3
from z3 import And, ForAll, Function, If, Implies, IntVal, Not, Or, Select
import logic as L
import ring
import stdmodel
from contract import Contract
from exec import Exec, Iter, Rec, Vec, Unsupported
from logic import D, S, I, B

GD, VZ = 'audi::gdual', 'audi::vectorized'
CF = Function('constant_cf', D, D)


class KernelExec(ring.RingExec):
    """doubles as reals; differential numbers as elements of the same ring, of which constant_cf takes the value"""

    def isg(self, t):
        ty = self.p.ty(t)
        return ty['c'] == 'rec' and ty.get('qn') in (GD, VZ)

    def sort(self, t):
        return D if self.isg(t) else super().sort(t)

    def fresh(self, t, name):
        return z3.Const(self.nm(name), D) if self.isg(t) else super().fresh(t, name)

    def mathcall(self, name, args):
        return super().mathcall({'fabs': 'abs'}.get(name, name), args)


def val(ex, a):
    v = ex.ev(a)
    if isinstance(v, tuple):
        v = ex.read(v)
    if isinstance(v, z3.ArithRef):
        v = ex.i2d(v)
    if not (isinstance(v, z3.ExprRef) and v.sort() == D):
        raise Unsupported('operand of a differential number')
    return v


MODELS = {}


def _bin(op):
    def h(ex, e, f, w):
        a = e['args'] if e['k'] != 'mcall' else [e['obj']] + e['args']
        if len(a) == 1:
            if op == '-':
                return ex.dneg(val(ex, a[0]))
            raise Unsupported('unary ' + op)
        return ex.darith(op, val(ex, a[0]), val(ex, a[1]))
    return h


def _asg(op):
    def h(ex, e, f, w):
        p, a = stdmodel.objpath(ex, e)
        v = val(ex, a[0])
        ex.write(p, v if op == '' else ex.darith(op, ex.read(p), v))
        return p
    return h


LANES, LANE = Function('lanes', D, I), Function('lane_values', D, z3.ArraySort(I, D))   # of a vectorised coefficient
STEPV = Function('step_by_lane', D, D)
LCMP = {}


def _cmp(op):
    def h(ex, e, f, w):
        a, b = val(ex, e['args'][0]), val(ex, e['args'][1])
        if ex.p.ty(ex.p.strip(e['args'][0]['t'])).get('qn') == VZ:
            # one answer for all the lanes: says nothing of any of them
            if op not in LCMP:
                LCMP[op] = Function('lanes' + op, D, D, B)
            return LCMP[op](a, b)
        return ex.dcompare(op, a, b)
    return h


def _lanes(end):
    def h(ex, e, f, w):
        p, a = stdmodel.objpath(ex, e)
        v = ex.read(p)
        memo = ex.__dict__.setdefault('lane_paths', {})
        if v.get_id() not in memo:
            et = [i for i, t in enumerate(ex.p.T) if ex.p.ts(i) == 'double'][0]
            ex.assume(And(LANES(v) >= 1, LANES(v) < ex.MAXLEN))
            memo[v.get_id()] = (v, ex.temp(Vec(LANES(v), LANE(v), et), 'lanes'))
        q = memo[v.get_id()][1]
        return Iter(q, LANES(v) if end else 0)
    return h


MODELS[VZ + '::begin'], MODELS[VZ + '::end'] = _lanes(False), _lanes(True)


for _o in '+-*/':
    MODELS['audi::operator' + _o] = _bin(_o)
    MODELS[GD + '::operator' + _o] = _bin(_o)
    MODELS[GD + '::operator' + _o + '='] = _asg(_o)
MODELS[GD + '::operator='] = _asg('')
for _o in ('<', '>', '<=', '>=', '=='):
    MODELS['audi::operator' + _o] = _cmp(_o)


def _math(n):
    def h(ex, e, f, w):
        return ex.mathcall(n, [val(ex, a) for a in e['args']])
    return h


for _n in ('exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'sqrt', 'abs', 'pow', 'erf', 'cbrt'):
    MODELS['audi::' + _n] = _math(_n)


def _cf(ex, e, f, w):
    p, a = stdmodel.objpath(ex, e)
    v = ex.read(p)
    s = ring.to_s(v)
    return v if s.is_Rational else CF(v)


MODELS[GD + '::constant_cf'] = _cf


def _gctor(ex, e, f):
    if f.get('copy') or f.get('move') or len(e['args']) == 1:
        if ex.p.ty(ex.p.strip(e['args'][0]['t'])).get('qn') == 'std::vector':
            v = ex.ev(e['args'][0])
            v = ex.read(v) if isinstance(v, tuple) else v
            r = z3.Const(ex.nm('constant'), D)
            ex.assume(And(LANES(CF(r)) == v.len, LANE(CF(r)) == v.arr))
            return r
        return val(ex, e['args'][0])
    if not e['args']:
        return ex.dlit(0)
    raise Unsupported('constructor of a differential number')


MODELS['ctor:' + GD] = MODELS['ctor:' + VZ] = _gctor
KW = dict(ex_cls=KernelExec, opaque={GD, VZ}, extra_models=MODELS)

# ---- folds over the arguments -------------------------------------------------------------------------------------------
A = z3.ArraySort(I, D)
AS = z3.ArraySort(I, S)
K = {n: Function('k_' + n, A, I, D) for n in ('sum', 'diff', 'mul', 'div', 'rest')}
PJ = {s: Function('joined_' + str(ord(s)), AS, I, S) for s in '+-*/'}
Sy = ring.to_s
x_, y_, z_ = [z3.Const('k!' + n, D) for n in 'xyz']
s1_, s2_, s3_ = [z3.Const('k!s%d' % n, S) for n in range(3)]
FIN = Function('isfinite', D, B)
ONE, ZERO = L.dlit(1), L.dlit(0)
REALS = [ForAll([x_, y_], L.DLT(x_, y_) == Not(L.DLE(y_, x_)), patterns=[L.DLT(x_, y_)]),
         ForAll([x_, y_], L.DLT(x_, y_) == Not(L.DLE(y_, x_)), patterns=[L.DLE(y_, x_)]),
         ForAll([x_, y_], Implies(And(L.DLE(x_, y_), L.DLE(y_, x_)), x_ == y_), patterns=[z3.MultiPattern(L.DLE(x_, y_), L.DLE(y_, x_))]),
         ForAll([x_], L.DLE(x_, x_), patterns=[L.DLE(x_, x_)]),
         ForAll([x_, y_], L.DEQ(x_, y_) == (x_ == y_), patterns=[L.DEQ(x_, y_)]),
         FIN(ONE)]
ASSOC = [ForAll([s1_, s2_, s3_], L.SCAT(L.SCAT(s1_, s2_), s3_) == L.SCAT(s1_, L.SCAT(s2_, s3_)), patterns=[L.SCAT(L.SCAT(s1_, s2_), s3_)])]


def at(a, n):
    return z3.simplify(Select(a, L.norm(n)))


def unfold(a, n):
    """value of each fold after n + 1 arguments in terms of that after n, for n >= 1"""
    n = L.norm(n)
    m = L.norm(n + 1)
    x = Sy(at(a, n))
    f = ring.from_s
    g = lambda k: Sy(K[k](a, n))
    return [Implies(n >= 0, And(K['sum'](a, m) == f(g('sum') + x), K['mul'](a, m) == f(g('mul') * x))),
            Implies(n >= 1, And(K['diff'](a, m) == f(g('diff') - x), K['div'](a, m) == f(g('div') / x), K['rest'](a, m) == f(g('rest') * x)))]


def base(a):
    x = at(a, IntVal(0))
    one = IntVal(1)
    return [K['sum'](a, IntVal(0)) == ZERO, K['mul'](a, IntVal(0)) == ONE, K['rest'](a, one) == ONE] + \
        [K[k](a, one) == x for k in ('sum', 'diff', 'mul', 'div')]


def sunfold(a, n):
    n = L.norm(n)
    m = L.norm(n + 1)
    return [Implies(n >= 1, PJ[s](a, m) == L.cat(PJ[s](a, n), L.slit(s), at(a, n))) for s in PJ]


def sbase(a):
    return [PJ[s](a, IntVal(1)) == at(a, IntVal(0)) for s in PJ]


class Fold(Contract):
    def requires(self, c):
        return [('there is an argument', And(c.arg(0).len >= 1, c.arg(0).len < 2**32))]

    def ints(self, ex):
        out = []
        for fr in ex.frames:
            for vid, path in fr.loc.items():
                v = ex.store.get(path[0]) if len(path) == 1 else None
                if isinstance(v, z3.ArithRef):
                    out.append(v)
                elif hasattr(v, 'idx') and hasattr(v, 'rev'):
                    out.append(v.idx)
        if ex.itc is not None:
            out.append(ex.itc)
        return out

    def hints(self, ex, c):
        a = c.arg(0)
        res, seen = self.base(a.arr), set()
        for v in self.ints(ex) + [a.len]:
            for n in (v, v + 1, v - 1):
                n = L.norm(n)
                if n.get_id() not in seen:
                    seen.add(n.get_id())
                    res += self.unfold(a.arr, n)
        return res

    def invs(self, li):
        out = []
        a = li.ex.ctx.arg(0)
        loc = [(n, p) for n, p in sorted(li.frame_locals().items()) if len(p) == 1]
        ints = [(n, p) for n, p in loc if isinstance(li.ex.store.get(p[0]), z3.ArithRef)]
        out.append(('counted', lambda ex, it: it >= 0))
        for n, p in ints:
            rd = lambda ex, p=p: ex.read(p)
            for k in (0, 1):
                out.append(('%s counts the arguments from %d' % (n, k), lambda ex, it, rd=rd, k=k: rd(ex) == L.norm(it + k)))
            out.append(('%s at most the number of arguments' % n, lambda ex, it, rd=rd: And(0 <= rd(ex), rd(ex) <= a.len)))
        out.append(('not past the arguments', lambda ex, it: it <= a.len))
        out.append(('not past the other arguments', lambda ex, it: it + 1 <= a.len))
        for n, p in loc:
            v = li.ex.store.get(p[0])
            if not (isinstance(v, z3.ExprRef) and v.sort() == self.elem):
                continue
            for nm, g in self.cands(a.arr):
                for k in (0, 1):
                    out.append(('%s is the %s of the first it+%d' % (n, nm, k), lambda ex, it, p=p, g=g, k=k: ex.read(p) == g(L.norm(it + k))))
        return out


class Num(Fold):
    """the value a kernel computes"""
    elem = D

    def __init__(self, name, ty, spec, folds=()):
        self.name, self.ty, self.spec, self.folds = name, ty, spec, folds
        self.cls = 'dcgp::my_%s_func<%s>' % (name, ty)
        self.sig = '%s::operator()(const std::vector<%s> &)' % (self.cls, ty.replace('>>', '> >') + (' ' if ty.endswith('>') else ''))

    base = staticmethod(base)
    unfold = staticmethod(unfold)

    def background(self, c):
        return REALS

    def cands(self, a):
        return [(k, lambda n, k=k: K[k](a, n)) for k in self.folds]

    def neg(self, v):
        """the test that takes the other branch"""
        return L.DLT(v if self.ty == 'double' else CF(v), ZERO)

    def ensures(self, c):
        a = c.arg(0)
        F = {k: K[k](a.arr, a.len) for k in self.folds}
        r = self.spec(self, a, F)
        out = [('the value is the function the name stands for', c.ret == r)]
        if self.name == 'pdiv':
            out.append(('protected division is finite', FIN(c.ret)))
        return out


R_ = ring.from_s


def mf(n, v):
    return R_(ring.mathfun(n, [v]))


def s_(F):
    return Sy(F['sum'])


def x0(a):
    return Sy(at(a.arr, IntVal(0)))


def inv(v):
    return 1 / v


SPECS = {
    'sum': (('sum',), lambda q, a, F: F['sum']),
    'diff': (('diff',), lambda q, a, F: F['diff']),
    'mul': (('mul',), lambda q, a, F: F['mul']),
    'div': (('div',), lambda q, a, F: F['div']),
    'pdiv': (('rest',), lambda q, a, F: If(FIN(R_(x0(a) / Sy(F['rest']))), R_(x0(a) / Sy(F['rest'])), ONE)),
    'sig': (('sum',), lambda q, a, F: R_(1 / (1 + ring.mathfun('exp', [-s_(F)])))),
    'tanh': (('sum',), lambda q, a, F: mf('tanh', s_(F))),
    'relu': (('sum',), lambda q, a, F: If(q.neg(F['sum']), ZERO, F['sum'])),
    'elu': (('sum',), lambda q, a, F: If(q.neg(F['sum']), R_(ring.mathfun('exp', [s_(F)]) - 1), F['sum'])),
    'isru': (('sum',), lambda q, a, F: R_(s_(F) / ring.mathfun('sqrt', [1 + s_(F)**2]))),
    'sin_nu': (('sum',), lambda q, a, F: mf('sin', s_(F))),
    'cos_nu': (('sum',), lambda q, a, F: mf('cos', s_(F))),
    'gaussian_nu': (('sum',), lambda q, a, F: mf('exp', -s_(F)**2)),
    'inv_sum': (('sum',), lambda q, a, F: R_(-s_(F))),
    'abs': (('sum',), lambda q, a, F: mf('abs', s_(F))),
    'step': (('sum',), lambda q, a, F: If(q.neg(F['sum']), ZERO, ONE)),
    'sin': ((), lambda q, a, F: mf('sin', x0(a))),
    'cos': ((), lambda q, a, F: mf('cos', x0(a))),
    'log': ((), lambda q, a, F: mf('log', x0(a))),
    'exp': ((), lambda q, a, F: mf('exp', x0(a))),
    'gaussian': ((), lambda q, a, F: mf('exp', -x0(a)**2)),
    'sqrt': ((), lambda q, a, F: mf('sqrt', x0(a))),
    'psqrt': ((), lambda q, a, F: R_(ring.mathfun('sqrt', [ring.mathfun('abs', [x0(a)])]))),
}
VSPECS = {
    'relu': lambda q, a, F: R_(s_(F) * Sy(STEPV(F['sum']))),
    'elu': lambda q, a, F: R_(s_(F) * Sy(STEPV(F['sum'])) + ring.mathfun('exp', [s_(F) * (1 - Sy(STEPV(F['sum'])))]) - 1),
    'step': lambda q, a, F: STEPV(F['sum']),
}
# printed form: what precedes, the separator of the arguments (None: the first argument only), what follows
PRINT = {
    'sum': ('(', '+', ')'), 'diff': ('(', '-', ')'), 'mul': ('(', '*', ')'), 'div': ('(', '/', ')'), 'pdiv': ('(', '/', ')'),
    'sig': ('sig(', '+', ')'), 'tanh': ('tanh(', '+', ')'), 'relu': ('ReLu(', '+', ')'), 'elu': ('ELU(', '+', ')'), 'isru': ('ISRU(', '+', ')'),
    'sin_nu': ('sin(', '+', ')'), 'cos_nu': ('cos(', '+', ')'), 'gaussian_nu': ('exp(-(', '+', ')**2)'), 'inv_sum': ('-(', '+', ')'),
    'abs': ('abs(', '+', ')'), 'step': ('step(', '+', ')'), 'sin': ('sin(', None, ')'), 'cos': ('cos(', None, ')'), 'log': ('log(', None, ')'),
    'exp': ('exp(', None, ')'), 'gaussian': ('exp(-(', None, ')**2)'), 'sqrt': ('sqrt(', None, ')'), 'psqrt': ('sqrt(abs(', None, '))'),
}


class Print(Fold):
    elem = S

    def __init__(self, name):
        self.name = name
        self.pre, self.sep, self.suf = PRINT[name]
        self.sig = 'dcgp::print_my_%s_func::operator()(const std::vector<string > &)' % name

    base = staticmethod(sbase)
    unfold = staticmethod(sunfold)

    def background(self, c):
        return ASSOC

    def cands(self, a):
        if not self.sep:
            return []
        g = PJ[self.sep]
        return [('list', lambda n: g(a, n)), ('list after the name', lambda n: L.cat(L.slit(self.pre), g(a, n)))]

    def ensures(self, c):
        a = c.arg(0)
        m = PJ[self.sep](a.arr, a.len) if self.sep else at(a.arr, IntVal(0))
        return [('the text is the function the name stands for', c.ret == L.cat(L.slit(self.pre), m, L.slit(self.suf)))]


TYPES = ['double', 'audi::gdual<double>', 'audi::gdual<audi::vectorized<double>>']
REG = {}
for _n, (_fl, _sp) in SPECS.items():
    for _t in TYPES:
        if _n == 'pdiv' and _t != 'double':
            continue
        _c = Num(_n, _t, VSPECS.get(_n, _sp) if 'vectorized' in _t else _sp, _fl)
        REG[_c.sig] = _c
    _c = Print(_n)
    REG[_c.sig] = _c


class NoGradient(Contract):
    """protected division has no derivative: the differential one refuses"""
    exc_type = 'std::invalid_argument'

    def __init__(self, ty):
        self.sig = 'dcgp::my_pdiv_func<%s>::operator()(const std::vector<%s> &)' % (ty, ty.replace('>>', '> >') + ' ')

    def throws(self, c):
        return z3.BoolVal(True)


for _t in TYPES[1:]:
    _c = NoGradient(_t)
    REG[_c.sig] = _c


class StepCall(Contract):
    """stands for StepByLane where the lanes do not matter: no state, so a function of its argument"""
    sig = 'dcgp::step_by_component(const audi::gdual<audi::vectorized<double> > &)'
    assumed = optional = True

    def ensures(self, c):
        return [('a function of the argument', c.ret == STEPV(c.arg(0)))]


class StepByLane(Contract):
    sig = StepCall.sig
    optional = True

    def ensures(self, c):
        q = z3.Int('q!sl')
        x, r = CF(c.arg(0)), CF(c.ret)
        return [('as many components', LANES(r) == LANES(x)),
                ('zero on the negative components, one on the others',
                 ForAll([q], Implies(And(0 <= q, q < LANES(x)), Select(LANE(r), q) == If(L.DLT(Select(LANE(x), q), ZERO), ZERO, ONE))))]

    def background(self, c):
        return REALS

    def invs(self, li):
        q = z3.Int('q!si')
        ex0 = li.ex
        x = CF(ex0.ctx.arg(0))
        out = []
        for n, p in sorted(li.frame_locals().items()):
            v = ex0.store.get(p[0])
            if len(p) == 1 and isinstance(v, Vec):
                at = lambda ex, p=p: ex.read(p)
                st = lambda k: If(L.DLT(Select(LANE(x), k), ZERO), ZERO, ONE)
                out += [(n + ' has a place for each component', lambda ex, it, at=at: at(ex).len == LANES(x)),
                        (n + ' done', lambda ex, it, at=at: ForAll([q], Implies(And(0 <= q, q < it), Select(at(ex).arr, q) == st(q)))),
                        (n + ' to do', lambda ex, it, at=at: ForAll([q], Implies(And(it <= q, q < LANES(x)), Select(at(ex).arr, q) == Select(LANE(x), q))))]
        out.append(('in range', lambda ex, it: And(0 <= it, it <= LANES(x))))
        return out


REG[StepCall.sig] = StepCall()
REGL = {StepByLane.sig: StepByLane()}


# ---- the kernel set ------------------------------------------------------------------------------------------------------
PUBLIC = {n: {'relu': 'ReLu', 'elu': 'ELU', 'isru': 'ISRU'}.get(n, n) for n in PRINT}
NTAG = {n: i for i, n in enumerate(PRINT)}
NAME_TAG = Function('kernel_of_name', S, I)      # index of the kernel a name stands for, -1 when there is none
_wrap = {}


def wrap(sort, tag):
    """the wrapper of the functor with this tag"""
    if str(sort) not in _wrap:
        _wrap[str(sort)] = Function('wrapped_' + str(sort), I, sort)
    return _wrap[str(sort)](IntVal(tag) if isinstance(tag, int) else tag)


def TSK(sort):
    return Function('thread_safety_' + str(sort), sort, I)


def fctor(ex, e, f):
    if f.get('copy') or f.get('move'):
        return ex.ev(e['args'][0])
    import re
    if len(e['args']) == 1:
        m = re.search(r'dcgp::(?:print_)?my_(\w+)_func\b', ex.p.ts(ex.p.strip(e['args'][0]['t'])))
        if m and m.group(1) in NTAG:
            ex.ev(e['args'][0])
            return wrap(ex.sort(e['t']), NTAG[m.group(1)])
    raise Unsupported('wrapper of ' + (ex.p.ts(e['args'][0]['t']) if e['args'] else 'nothing'))


def emplace(ex, e, f, w):
    p, a = stdmodel.objpath(ex, e)
    v = stdmodel.vecval(ex, p)
    if len(a) == 1:
        return stdmodel.MODELS['std::vector::emplace_back'](ex, e, f, w)
    kt = ex.p.tkey(v.et)
    al = lambda t: ex.p.ts(ex.p.strip(t)).replace('const ', '').replace(' ', '')
    want = [al(q['t']) for q in f['params']]
    for c in ex.p.F:
        if c['kind'] == 'ctor' and c.get('cls') is not None and ex.p.tkey(c['cls']) == kt and 'body' in c and [al(q['t']) for q in c['params']] == want:
            t = ex.temp(ex.blank(v.et), 'obj')
            ex.inline(c, t, ex.bind_args(c, a))
            stdmodel.append(ex, p, ex.read(t))
            return p + (('i', L.norm(stdmodel.vecval(ex, p).len - 1)),)
    raise Unsupported('constructor of the element')


def fapply(ex, e, f, w):
    p, a = stdmodel.objpath(ex, e)
    fv = ex.read(p)
    v = ex.ev(a[0])
    r = ex.sort(e['t'])
    x = ex.pack(v)
    return Function('apply_' + str(fv.sort()), fv.sort(), x.sort(), r)(fv, x)


def fts(ex, e, f, w):
    p, a = stdmodel.objpath(ex, e)
    fv = ex.read(p)
    return TSK(fv.sort())(fv)


class KSetExec(Exec):
    def fresh(self, t, name):
        ty = self.p.ty(t)
        if ty['c'] == 'rec' and ty.get('qn') == 'std::initializer_list':
            n = z3.Int(self.nm(name + '.len'))
            self.assume(And(n >= 0, n < self.MAXLEN))
            return Vec(n, z3.Const(self.nm(name), z3.ArraySort(I, self.sort(ty['args'][0]))), ty['args'][0])
        return super().fresh(t, name)


KSM = {'ctor:dcgp::function': fctor, 'std::vector::emplace_back': emplace, 'dcgp::function::operator()': fapply, 'dcgp::function::get_thread_safety': fts}
KSKW = dict(ex_cls=KSetExec, opaque={'dcgp::function', GD, VZ}, extra_models=KSM)
NAMES = [(PUBLIC[n], n) for n in PRINT]


def fa(q, body, *arrs):
    """for all q, with the selects of plain arrays as triggers"""
    ps = [Select(a, q) for a in arrs if z3.is_const(a)]
    return ForAll([q], body, patterns=ps) if ps else ForAll([q], body)


class KS(Contract):
    def __init__(self, ty, m):
        self.ty = ty
        self.cls = 'dcgp::kernel_set<%s>::' % ty
        self.kt = 'dcgp::kernel<%s>' % {'double': 'double', GD + '<double>': 'audi::gdual_d'}.get(ty, 'audi::gdual_v')
        self.sig = self.cls + m.replace('KERNEL', self.kt)

    def names(self):
        return [(p, n) for p, n in NAMES if n != 'pdiv' or self.ty == 'double']

    def known(self, s):
        return Or([s == L.slit(p) for p, n in self.names()])

    def tag_facts(self):
        out = []
        for p, n in self.names():
            out.append(NAME_TAG(L.slit(p)) == NTAG[n])
        return out

    def background(self, c):
        return self.tag_facts()

    def stands(self, c, k, name):
        """kernel value k (a term) is the kernel the name stands for"""
        kv = c.ex.unpack(k, c.new().m_kernels.et) if not isinstance(k, Rec) else k
        return [('has the name', kv.m_name == name),
                ('computes the function of the name', kv.m_f == wrap(kv.m_f.sort(), NAME_TAG(name))),
                ('prints the function of the name', kv.m_pf == wrap(kv.m_pf.sort(), NAME_TAG(name)))]

    def kept(self, c, n):
        q = z3.Int('q!ks')
        o, w = c.old().m_kernels, c.new().m_kernels
        return [('one kernel is added at the end', w.len == L.norm(o.len + n)),
                ('the kernels already there are unchanged', fa(q, Implies(And(0 <= q, q < o.len), Select(w.arr, q) == Select(o.arr, q)), w.arr, o.arr))]


class PushName(KS):
    def throws(self, c):
        return Not(self.known(c.arg(0)))

    def modifies(self, c):
        return [c.fpath('m_kernels')]

    def ensures(self, c):
        o, w = c.old().m_kernels, c.new().m_kernels
        last = c.ex.elem(w, o.len)
        return self.kept(c, 1) + self.stands(c, last, c.arg(0))


class PushKernel(KS):
    def modifies(self, c):
        return [c.fpath('m_kernels')]

    def ensures(self, c):
        o, w = c.old().m_kernels, c.new().m_kernels
        return self.kept(c, 1) + [('the kernel added is the one given', Select(w.arr, o.len) == c.ex.pack(c.arg(0)))]


class Clear(KS):
    def modifies(self, c):
        return [c.fpath('m_kernels')]

    def ensures(self, c):
        return [('no kernel is left', c.new().m_kernels.len == 0)]


class GetAll(KS):
    def ensures(self, c):
        return [('all kernels in the order they were added', c.ex.same(c.ret, c.old().m_kernels))]


class GetOne(KS):
    def requires(self, c):
        return [('the kernel exists', And(0 <= c.arg(0), c.arg(0) < c.old().m_kernels.len))]

    def ensures(self, c):
        return [('the kernel at that position', c.ex.pack(c.ret) == Select(c.old().m_kernels.arr, c.arg(0)))]


class DefCtor(KS):
    def modifies(self, c):
        return [c.this]

    def ensures(self, c):
        return [('empty', c.new().m_kernels.len == 0)]


class ListCtor(KS):
    def throws(self, c):
        q = z3.Int('q!kl')
        a = c.arg(0)
        return z3.Exists([q], And(0 <= q, q < a.len, Not(self.known(Select(a.arr, q)))), patterns=[Select(a.arr, q)])

    def modifies(self, c):
        return [c.this]
    frame_on_throw = False

    def facts(self, ex, w, a, n):
        q = z3.Int('q!kc')
        k = Select(w.arr, q)
        s = ex.sort(w.et)
        fs = [f['name'] for f in ex.p.all_fields(ex.p.record(w.et))]
        acc = lambda nm: s.accessor(0, fs.index(nm))(k)
        nm = Select(a.arr, q)
        g = And(0 <= q, q < n)
        return [('the kernels have the names listed', fa(q, Implies(g, acc('m_name') == nm), w.arr)),
                ('the kernels compute the functions listed', fa(q, Implies(g, acc('m_f') == wrap(acc('m_f').sort(), NAME_TAG(nm))), w.arr)),
                ('the kernels print the functions listed', fa(q, Implies(g, acc('m_pf') == wrap(acc('m_pf').sort(), NAME_TAG(nm))), w.arr))]

    def ensures(self, c):
        w, a = c.new().m_kernels, c.arg(0)
        return [('one kernel for each name', w.len == a.len)] + self.facts(c.ex, w, a, a.len)

    def invs(self, li):
        this = lambda ex: ex.read(ex.ctx.this).m_kernels
        a = li.ex.ctx.arg(0)
        q = z3.Int('q!kn')
        out = [('one kernel for each name seen', lambda ex, it: this(ex).len == it),
               ('names seen are known', lambda ex, it: ForAll([q], Implies(And(0 <= q, q < it), self.known(Select(a.arr, q))), patterns=[Select(a.arr, q)])),
               ('not past the names', lambda ex, it: And(0 <= it, it <= a.len))]
        n = len(self.facts(li.ex, this(li.ex), a, IntVal(0)))
        for i in range(n):
            out.append(('listed %d' % i, lambda ex, it, i=i: self.facts(ex, this(ex), a, it)[i][1]))
        return out


class KernelC(Contract):
    def __init__(self, ty, m, **kw):
        self.ty = ty
        ps = ty.replace('>>', '> >') + (' ' if ty.endswith('>') else '')
        self.sig = 'dcgp::kernel<%s>::%s' % (ty, m.replace('T_', ps))
        self.__dict__.update(kw)


class KApply(KernelC):
    def ensures(self, c):
        fv = c.old().f[self.field]
        x = c.ex.pack(c.arg(0))
        return [('the value is that of the wrapped callable, with the same arguments', c.ret == Function('apply_' + str(fv.sort()), fv.sort(), x.sort(), c.ret.sort())(fv, x))]


class KName(KernelC):
    def ensures(self, c):
        return [('the name given', c.ret == c.old().m_name)]


class KTs(KernelC):
    def ensures(self, c):
        return [('the thread safety level', c.ret == c.old().m_thread_safety)]


class KCtor(KernelC):
    def modifies(self, c):
        return [c.this]

    def ensures(self, c):
        n = c.new()
        a, b = TSK(n.m_f.sort())(n.m_f), TSK(n.m_pf.sort())(n.m_pf)
        t = self.name
        return [('computes the first callable', n.m_f == wrap(n.m_f.sort(), NTAG[t])), ('prints with the second', n.m_pf == wrap(n.m_pf.sort(), NTAG[t])),
                ('keeps the name', n.m_name == c.arg(2)), ('thread safety is the lower of the two', n.m_thread_safety == If(b < a, b, a))]


REGK = {}
for _t in TYPES:
    _l = [PushName(_t, 'push_back(string)'), PushKernel(_t, 'push_back(const KERNEL &)'), Clear(_t, 'clear()'), GetAll(_t, 'operator()()'),
          GetOne(_t, 'operator[](const unsigned long)'), DefCtor(_t, 'kernel_set()'), ListCtor(_t, 'kernel_set(const std::vector<string > &)')]
    _l += [KApply(_t, 'operator()(const std::vector<T_> &)', field='m_f'), KApply(_t, 'operator()(const std::initializer_list<T_> &)', field='m_f'),
           KApply(_t, 'operator()(const std::vector<string > &)', field='m_pf'), KName(_t, 'get_name()'), KTs(_t, 'get_thread_safety()'),
           KCtor(_t, 'kernel(const dcgp::my_sum_func<T_> &, const dcgp::print_my_sum_func &, string)', name='sum')]
    for _c in _l:
        REGK[_c.sig] = _c
        if isinstance(_c, KernelC):
            _c.getter = True
