"""Contracts of the type-erased function wrapper and of the kernel built from two wrappers.

A wrapper holds nothing or an "inner" value; the value wraps a callable of some type. What a callable of unknown type gives is an
uninterpreted function of the callable and of the arguments, so each contract holds for every callable of that kind."""
import z3
from z3 import And, BoolVal, ForAll, Function, If, Implies, IntVal, Not, Or
import logic as L
import stdmodel
from contract import Contract
from exec import Exec, Iter, Opt, Ptr, Rec, Unsupported, ThrowSig, Vec, VOID
from logic import D, S, I, B

UI = L.usort('InnerFunction')
PS = L.usort('Ptr')
NULLP = z3.Const('null_pointer', PS)
VS = L.vec_sort(D)
CALL = Function('call_inner', UI, VS, D)
TSL = Function('inner_thread_safety', UI, I)
TAG = Function('inner_type', UI, I)
BASIC = IntVal(1)
SIG = 'double (const std::vector<double> &)'
FN = 'dcgp::function<%s>::' % SIG
FT = 'dcgp::function<%s>' % SIG
INB = 'dcgp::detail::function_inner_base<double, const std::vector<double> &>'
FPTR = 'double (*)(const std::vector<double> &)'
CALLABLES = {'dcv_callable': 1, 'dcv_callable_ts': 2, FPTR: 3}
SO = {k: (PS if k == FPTR else L.usort('U_' + k)) for k in CALLABLES}
INNER = {k: Function('inner_of_%d' % t, SO[k], UI) for k, t in CALLABLES.items()}
HELD = {k: Function('held_%d' % t, UI, SO[k]) for k, t in CALLABLES.items()}
CALLT = {k: Function('call_%d' % t, SO[k], VS, D) for k, t in CALLABLES.items()}
TSV = Function('thread_safety_of', SO['dcv_callable_ts'], I)
_x = {k: z3.Const('fx!%d' % t, SO[k]) for k, t in CALLABLES.items()}
_a = z3.Const('fx!a', VS)
AXF = []
for _k in CALLABLES:
    x, m = _x[_k], INNER[_k](_x[_k])
    AXF += [ForAll([x], And(TAG(m) == CALLABLES[_k], HELD[_k](m) == x, TSL(m) == (TSV(x) if _k == 'dcv_callable_ts' else BASIC)), patterns=[m]),
            ForAll([x, _a], CALL(m, _a) == CALLT[_k](x, _a), patterns=[CALL(m, _a)])]
_u = z3.Const('fx!u', UI)
for _k in CALLABLES:
    AXF.append(ForAll([_u], Implies(TAG(_u) == CALLABLES[_k], _u == INNER[_k](HELD[_k](_u))), patterns=[HELD[_k](_u)]))


def key(s):
    if s.startswith('double (const'):
        return FPTR
    s = s.replace('const ', '').replace(' const', '').strip()
    while s.endswith('&'):
        s = s[:-1].strip()
    if s.startswith('double (const'):
        return FPTR
    if s.startswith('double (*'):
        return FPTR
    return s


class FuncExec(Exec):
    def uptr(self, t):
        ty = self.p.ty(t)
        return ty['c'] == 'rec' and ty.get('qn') == 'std::unique_ptr'

    def fresh(self, t, name):
        if self.uptr(t):
            return Opt(z3.Bool(self.nm(name + '.has')), z3.Const(self.nm(name + '.val'), UI), None)
        ty = self.p.ty(t)
        if ty['c'] == 'rec' and ty.get('qn') == 'std::initializer_list':
            n = z3.Int(self.nm(name + '.len'))
            self.assume(And(n >= 0, n < self.MAXLEN))
            return Vec(n, z3.Const(self.nm(name), z3.ArraySort(I, self.sort(ty['args'][0]))), ty['args'][0])
        if key(self.p.ts(self.p.strip(t))) == FPTR:
            return z3.Const(self.nm(name), PS)
        return super().fresh(t, name)

    def default(self, t):
        return Opt(BoolVal(False), z3.Const('no_inner', UI), None) if self.uptr(t) else super().default(t)

    def pack(self, v):
        if isinstance(v, Ptr) and v.path is None:
            return NULLP
        return super().pack(v)

    def same(self, a, b):
        return super().same(self.unnull(a), self.unnull(b))

    def unnull(self, v):
        return NULLP if isinstance(v, Ptr) and v.path is None else v

    def compare(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            r = BoolVal(a.path == b.path)
            return r if op == '==' else Not(r)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = self.unnull(a), self.unnull(b)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Unsupported('comparison of pointers')
        return super().compare(op, a, b)

    def step(self, v, st):
        if st[0] == 'inner':
            return Rec(None, {'m_value': HELD[st[1]](v)})
        return super().step(v, st)

    def e_cast(self, e):
        if e['ck'] == 'Dynamic':
            v = self.ev(e['e'])
            if not isinstance(v, Ptr):
                raise Unsupported('dynamic_cast')
            if v.path is None:
                return v
            to = self.p.T[e['t']]
            a = self.p.ty(to['to']).get('args') if to['c'] == 'ptr' else None
            k = key(self.p.ts(a[0])) if a else None
            if k not in CALLABLES:
                raise Unsupported('dynamic_cast to ' + self.p.ts(e['t']))
            cur = self.read(v.path)
            if not (isinstance(cur, z3.ExprRef) and cur.sort() == UI):
                raise Unsupported('dynamic_cast of something else')
            if self.choose(TAG(cur) == CALLABLES[k]):
                return Ptr(v.path + (('inner', k),))
            return Ptr(None)
        if e['ck'] == 'PointerToBoolean':
            v = self.ev(e['e'])
            if isinstance(v, z3.ExprRef):
                return v != NULLP
            return BoolVal(v.path is not None)
        if e['ck'] == 'FunctionToPointerDecay':
            return self.ev(e['e'])
        return super().e_cast(e)

    def e_ctor(self, e, target=None):
        f = self.p.F[e['fn']]
        if f.get('move') and 'body' not in f and f['sig'] not in self.contracts and f['bqn'] == 'dcgp::function::function':
            # defaulted: member by member
            p = self.lv(e['args'][0])
            v = self.read(p)
            self.write(p + (('f', 'm_ptr'),), Opt(BoolVal(False), v.f['m_ptr'].val, None))
            return v
        if f['bqn'] == 'dcgp::detail::function_inner::function_inner' and 'body' in f and f['sig'] not in self.contracts:
            p = self.temp(Rec(e['t'], {'m_value': self.default(self.p.all_fields(self.p.record(e['t']))[0]['t'])}), 'inner')
            self.inline(f, p, self.bind_args(f, e['args']))
            return self.read(p)
        return super().e_ctor(e, target)


MODELS = {}


def model(*qns):
    def d(h):
        for q in qns:
            MODELS[q] = h
        return h
    return d


def held_type(ex, t):
    """callable type of function_inner<T, ...> (given its type)"""
    a = ex.p.ty(t).get('args')
    k = key(ex.p.ts(a[0])) if a else None
    if k not in CALLABLES:
        raise Unsupported('wrapped type %s' % k)
    return k


@model('std::make_unique')
def _(ex, e, f, w):
    if len(e['args']) != 1:
        raise Unsupported('make_unique')
    v = ex.unnull(ex.ev(e['args'][0]))
    inner = ex.p.ty(e['t'])['args'][0]
    if 'function_inner<' not in ex.p.ts(inner):
        raise Unsupported('make_unique of ' + ex.p.ts(inner))
    k = held_type(ex, inner)
    # the constructor of the inner class that takes the argument
    want = key(ex.p.ts(e['args'][0]['t'])) if e['args'][0].get('t') is not None else None
    for c in ex.p.F:
        if c['kind'] == 'ctor' and c.get('cls') is not None and ex.p.tkey(c['cls']) == ex.p.tkey(inner) and 'body' in c and len(c['params']) == 1 \
                and key(ex.p.ts(c['params'][0]['t'])) == k:
            p = ex.temp(Rec(inner, {'m_value': z3.Const(ex.nm('unset'), SO[k])}), 'inner')
            ex.inline(c, p, [ex.temp(v, 'arg')])
            m = ex.unnull(ex.read(p).f['m_value'])
            return Opt(BoolVal(True), INNER[k](m), None)
    raise Unsupported('constructor of the inner class')


def uctor(ex, e, f):
    if not e['args']:
        return Opt(BoolVal(False), z3.Const('no_inner', UI), None)
    a = e['args'][0]
    if a['k'] == 'null' or (f['params'] and 'nullptr' in ex.p.ts(f['params'][0]['t'])):
        return Opt(BoolVal(False), z3.Const('no_inner', UI), None)
    p = ex.lv(a)
    v = ex.read(p)
    if not isinstance(v, Opt):
        raise Unsupported('unique_ptr of a raw pointer')
    ex.write(p, Opt(BoolVal(False), v.val, None))
    return v


MODELS['ctor:std::unique_ptr'] = uctor


@model('std::unique_ptr::operator=', 'std::unique_ptr::reset')
def _(ex, e, f, w):
    p, a = stdmodel.objpath(ex, e)
    cur = ex.read(p)
    none = Opt(BoolVal(False), cur.val, None)
    if not a or a[0]['k'] == 'null' or (f['params'] and 'nullptr' in ex.p.ts(f['params'][0]['t'])):
        ex.write(p, none)
        return p
    src = ex.lv(a[0])
    v = ex.read(src)
    if not isinstance(v, Opt):
        raise Unsupported('unique_ptr from a raw pointer')
    if src != p:
        ex.write(p, v)
        ex.write(src, Opt(BoolVal(False), v.val, None))
    return p


@model('std::unique_ptr::operator bool')
def _(ex, e, f, w):
    p, a = stdmodel.objpath(ex, e)
    return ex.read(p).has


@model('std::unique_ptr::get')
def _(ex, e, f, w):
    p, a = stdmodel.objpath(ex, e)
    return Ptr(p + (('o',),)) if ex.choose(ex.read(p).has) else Ptr(None)


@model('std::unique_ptr::operator->', 'std::unique_ptr::operator*')
def _(ex, e, f, w):
    p, a = stdmodel.objpath(ex, e)
    ex.oblige('the pointer followed is not null', ex.read(p).has, 'safety')
    return Ptr(p + (('o',),)) if f['bqn'].endswith('->') else p + (('o',),)


@model('std::operator==', 'std::operator!=')
def _(ex, e, f, w):
    a, b = [ex.ev(x) if x['k'] != 'null' else None for x in e['args']]
    o = a if isinstance(a, Opt) else b
    n = b if o is a else a
    if not isinstance(o, Opt) or isinstance(n, Opt):
        raise Unsupported('comparison')
    return Not(o.has) if f['bqn'].endswith('==') else o.has


def fptr_call(ex, c, e):
    c = ex.unnull(c)
    if isinstance(c, z3.ExprRef) and c.sort() == PS:
        ex.oblige('the function pointer called is not null', c != NULLP, 'safety')
        vals = [ex.ev(a) for a in e['args']]
        return CALLT[FPTR](c, ex.pack(vals[0]))
    raise Unsupported('indirect call')


MODELS['callee'] = fptr_call


def opq(k):
    def h(ex, e, f, w):
        p, a = stdmodel.objpath(ex, e)
        return CALLT[k](ex.read(p), ex.pack(ex.ev(a[0])))
    return h


for _k in ('dcv_callable', 'dcv_callable_ts'):
    MODELS[_k + '::operator()'] = opq(_k)


@model('dcv_callable_ts::get_thread_safety')
def _(ex, e, f, w):
    p, a = stdmodel.objpath(ex, e)
    return TSV(ex.read(p))


KW = dict(ex_cls=FuncExec, opaque={'dcv_callable', 'dcv_callable_ts'}, extra_models=MODELS)


class FC(Contract):
    def __init__(self, sig, **kw):
        self.sig = sig
        self.__dict__.update(kw)

    getter = True           # inlined at calls, verified on its own

    def background(self, c):
        return AXF


# ---- what every inner function does (assumed at virtual calls, proved of the classes below) ----------------------------------
class BaseClone(FC):
    assumed = True
    getter = False

    def result(self, c):
        return Opt(BoolVal(True), c.old(), None)


class BaseCall(FC):
    assumed = True
    getter = False

    def result(self, c):
        return CALL(c.old(), c.ex.pack(c.arg(0)))


class BaseTS(FC):
    assumed = True
    getter = False

    def result(self, c):
        return TSL(c.old())


IN = lambda k: 'dcgp::detail::function_inner<%s, double, const std::vector<double> &>' % k


class InnerSetup(FC):
    def held(self, c):
        return INNER[self.key](c.ex.unnull(c.old().f['m_value']))


class InnerClone(InnerSetup):
    def ensures(self, c):
        return [('the clone is there', c.ret.has), ('the clone wraps an equal callable', c.ret.val == self.held(c))]


class InnerCall(InnerSetup):
    def requires(self, c):
        return [('the pointer is not null', c.old().f['m_value'] != NULLP)] if self.key == FPTR else []

    def ensures(self, c):
        return [('the call is that of the callable, with the same arguments', c.ret == CALL(self.held(c), c.ex.pack(c.arg(0))))]


class InnerTS(InnerSetup):
    def ensures(self, c):
        return [('the thread safety level is that of the callable', c.ret == TSL(self.held(c)))]


BASE = {INB + '::clone()': BaseClone(INB + '::clone()'),
        INB + '::operator()(const std::vector<double> &)': BaseCall(INB + '::operator()(const std::vector<double> &)'),
        INB + '::get_thread_safety()': BaseTS(INB + '::get_thread_safety()')}


# ---- the wrapper -------------------------------------------------------------------------------------------------------------
def eqf(c, new, old):
    """wraps the same callable with the same thread safety level"""
    return [('holds a callable exactly when the other does', new.m_ptr.has == old.m_ptr.has),
            ('wraps the same callable', Implies(old.m_ptr.has, new.m_ptr.val == old.m_ptr.val)),
            ('keeps the thread safety level', new.m_thread_safety == old.m_thread_safety)]


class Ctor(FC):
    """from a callable"""

    def ensures(self, c):
        n = c.new()
        x = c.ex.unnull(c.arg(0)) if c.binds else NULLP
        m = INNER[self.key](x)
        out = [('holds a callable', n.m_ptr.has), ('wraps the callable given', n.m_ptr.val == m)]
        if not self.part:
            out.append(('has the thread safety level of the callable', n.m_thread_safety == TSL(m)))
        return out

    def modifies(self, c):
        return [c.this]
    part = False


class CopyCtor(FC):
    def ensures(self, c):
        return eqf(c, c.new(), c.arg(0))

    def modifies(self, c):
        return [c.this]


class Assign(FC):
    alias = False
    move = False

    def setup(self, ex, f):
        t, b = super().setup(ex, f)
        if self.alias:
            b = [('this',)]
        return t, b

    def modifies(self, c):
        return [c.this] + ([c.binds[0]] if self.move else [])

    def ensures(self, c):
        out = eqf(c, c.new(), c.arg(0))
        if self.move and not self.alias:
            out.append(('the wrapper moved from holds nothing', Not(c.arg(0, post=True).m_ptr.has)))
        return out


class MoveCtor(FC):
    optional = True

    def modifies(self, c):
        return [c.this, c.binds[0]]

    def ensures(self, c):
        return eqf(c, c.new(), c.arg(0)) + [('the wrapper moved from holds nothing', Not(c.arg(0, post=True).m_ptr.has))]


class Call(FC):
    exc_type = 'std::runtime_error'

    def throws(self, c):
        m = c.old().m_ptr
        return Or(Not(m.has), And(TAG(m.val) == CALLABLES[FPTR], HELD[FPTR](m.val) == NULLP))

    def ensures(self, c):
        return [('the value is that of the callable, with the same arguments', c.ret == CALL(c.old().m_ptr.val, c.ex.pack(c.arg(0))))]


class GetTS(FC):
    def ensures(self, c):
        return [('the thread safety level', c.ret == c.old().m_thread_safety)]


class IsValid(FC):
    def ensures(self, c):
        return [('valid exactly when it holds something', c.ret == c.old().m_ptr.has)]


class Extract(FC):
    def ensures(self, c):
        m = c.old().m_ptr
        is_t = And(m.has, TAG(m.val) == CALLABLES[self.key])
        r = c.retv
        if isinstance(r, Ptr):
            if r.path is None:
                return [('null only when it holds no callable of that type', Not(is_t))]
            return [('points to the callable held', And(is_t, BoolVal(r.path == c.this + (('f', 'm_ptr'), ('o',), ('inner', self.key), ('f', 'm_value')))))]
        return [('a pointer', BoolVal(False))]


class Is(FC):
    def ensures(self, c):
        m = c.old().m_ptr
        return [('says whether it holds a callable of that type', c.ret == And(m.has, TAG(m.val) == CALLABLES[self.key]))]


REG = {}


def add(con, tag=''):
    REG[con.sig + tag] = con
    con.rkey = con.sig + tag


for k in BASE:
    REG[k] = BASE[k]
for k in CALLABLES:
    ck = k
    for cls, m in ((InnerClone, 'clone()'), (InnerCall, 'operator()(const std::vector<double> &)'), (InnerTS, 'get_thread_safety()')):
        add(cls(IN(ck) + '::' + m, key=k))
add(Ctor(FN + 'function()', key=FPTR))
TF = ', std::integral_constant<_Bool, false>)'
for k, spell in (('dcv_callable', 'dcv_callable &'), ('dcv_callable_ts', 'dcv_callable_ts &'), (FPTR, 'double (*&)(const std::vector<double> &)')):
    add(Ctor(FN + 'function(' + spell + TF, key=k, part=True))
    add(Ctor(FN + 'function(' + spell + ')', key=k))
add(Ctor(FN + 'function(double (*&&)(const std::vector<double> &)' + TF, key=FPTR, part=True))
add(Ctor(FN + 'function(double (&)(const std::vector<double> &))', key=FPTR))
add(CopyCtor(FN + 'function(const %s &)' % FT))
add(MoveCtor(FN + 'function(%s &&)' % FT))
for al in (False, True):
    add(Assign(FN + 'operator=(%s &&)' % FT, move=True, alias=al), '#self' if al else '')
    add(Assign(FN + 'operator=(const %s &)' % FT, alias=al), '#self' if al else '')
add(Call(FN + 'operator()(const std::vector<double> &)'))
add(GetTS(FN + 'get_thread_safety()'))
add(IsValid(FN + 'is_valid()'))
add(Is(FN + 'is()', key='dcv_callable'))
