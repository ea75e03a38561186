"""Contracts assumed on the standard library, Boost and TBB functions the code calls (trusted; listed in the evidence)."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Select, Store, Const, IntVal, BoolVal, Function
import logic as L
from logic import I, B, D, S, iv
from exec import (Vec, Rec, Iter, Lam, Opt, Undef, IList, Dist, Ptr, VOID, Void, Unsupported, SpecFail, Infeasible, WIDTH,
                  ThrowSig, Guard, held)

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ---- helpers --------------------------------------------------------------------------------------------------------
def objpath(ex, e):
    """path of the object of a member (operator) call, and the remaining argument nodes"""
    if e['k'] == 'mcall':
        return (ex.ptr_target(e['obj']) if e.get('arrow') else ex.lv(e['obj'])), e['args']
    return ex.lv(e['args'][0]), e['args'][1:]


def vecval(ex, path):
    v = ex.read(path)
    if not isinstance(v, Vec):
        raise Unsupported('vector expected, got %s' % type(v).__name__)
    return v


def const_arr(ex, val, et):
    v = ex.pack(val)
    if z3.is_expr(v) and v.sort() == I and not z3.is_int_value(v):
        return KARR(v)
    return z3.K(I, v)


KARR = Function('karr', I, L.AI)            # the array holding one value everywhere
_ka, _kk = z3.Ints('l!ka l!kk')
L.AX += [ForAll([_ka, _kk], Select(KARR(_ka), _kk) == _ka, patterns=[Select(KARR(_ka), _kk)])]


def sub_vec(ex, src, a, n, et):
    """fresh vector holding src[a .. a+n)"""
    a, n = z3.simplify(iv(a)), z3.simplify(iv(n))
    if z3.is_int_value(a) and a.as_long() == 0:
        return Vec(n, src.arr, et)
    arr = Const(ex.nm('sub'), src.arr.sort())
    q = z3.Int('q!sub')
    ex.assume(ForAll([q], Implies(And(0 <= q, q < n), Select(arr, q) == Select(src.arr, L.norm(a + q))),
                     patterns=[Select(arr, q)]))
    return Vec(n, arr, et)


def range_of(ex, ia, ib, what='range'):
    """(vector value, start, count) of an iterator range; emits validity obligations"""
    if isinstance(ia, Ptr) or isinstance(ib, Ptr):
        raise Unsupported('pointer range')
    if not isinstance(ia, Iter) or not isinstance(ib, Iter):
        raise Unsupported('iterator range expected')
    if ia.path != ib.path or ia.rev != ib.rev:
        raise Unsupported('iterators of different containers in a range')
    v = vecval(ex, ia.path)
    if not ia.rev:
        ex.oblige('valid iterator range', And(0 <= ia.idx, ia.idx <= ib.idx, ib.idx <= v.len), 'safety')
        return v, ia.idx, L.norm(ib.idx - ia.idx)
    raise Unsupported('reverse range')


def in_bounds(ex, v, i, what='index within bounds'):
    ex.oblige(what, And(0 <= i, i < v.len), 'safety')


# ---- std::vector ------------------------------------------------------------------------------------------------------
@model('std::vector::size')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    v = ex.read(p)
    if isinstance(v, IList):
        return IntVal(len(v.vals))
    return vecval(ex, p).len


@model('std::vector::empty')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return vecval(ex, p).len == 0


@model('std::vector::operator[]')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    i = ex.ev(a[0])
    v = vecval(ex, p)
    in_bounds(ex, v, i)
    return p + (('i', i),)


@model('std::vector::at')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    i = ex.ev(a[0])
    v = vecval(ex, p)
    if not ex.choose(And(0 <= i, i < v.len)):
        raise ThrowSig('std::out_of_range')
    return p + (('i', i),)


@model('std::vector::back')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    v = vecval(ex, p)
    in_bounds(ex, v, v.len - 1, 'back() of a non-empty vector')
    return p + (('i', L.norm(v.len - 1)),)


@model('std::vector::front')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    v = vecval(ex, p)
    in_bounds(ex, v, IntVal(0), 'front() of a non-empty vector')
    return p + (('i', IntVal(0)),)


@model('std::vector::begin', 'std::vector::cbegin')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return Iter(p, 0)


@model('std::vector::end', 'std::vector::cend')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return Iter(p, vecval(ex, p).len)


@model('std::vector::rbegin')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return Iter(p, L.norm(vecval(ex, p).len - 1), True)


@model('std::vector::rend')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return Iter(p, -1, True)


@model('std::vector::clear')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    v = vecval(ex, p)
    ex.write(p, ex.empty_vec(v.et))
    return VOID


def append(ex, p, val):
    v = vecval(ex, p)
    ex.assume(v.len + 1 < ex.MAXLEN)
    val = ex.pack(val)
    arr = Store(v.arr, v.len, val)
    if v.arr.sort().range() == I:
        a = Const(ex.nm('app'), v.arr.sort())
        ex.assume(a == arr)
        arr, x = a, z3.Int('x!ml')
        n1 = L.norm(v.len + 1)
        ex.assume(ForAll([x], L.MEM(arr, n1, x) == Or(L.MEM(v.arr, v.len, x), x == val),
                         patterns=[L.MEM(arr, n1, x), L.MEM(v.arr, v.len, x)]))
    ex.write(p, Vec(L.norm(v.len + 1), arr, v.et))


@model('std::vector::push_back')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    append(ex, p, ex.ev(a[0]))
    return VOID


@model('std::vector::emplace_back')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    v = vecval(ex, p)
    h = ex.models.get('emplace:' + ex.p.tkey(v.et))
    if h:
        val = h(ex, [ex.ev(x) for x in a], v.et)
    elif len(a) == 1:
        val = ex.ev(a[0])
    elif len(a) == 2 and ex.is_vec(v.et) and ex.ct(a[0]['t']) in WIDTH:
        n = ex.ev(a[0])
        ex.assume(n < ex.MAXLEN)
        val = Vec(n, const_arr(ex, ex.ev(a[1]), ex.targs(v.et)[0]), ex.targs(v.et)[0])
    elif ex.is_pair(v.et) and len(a) == len(ex.targs(v.et)):
        val = Rec(v.et, {str(n): ex.ev(x) for n, x in enumerate(a)})
    else:
        raise Unsupported('emplace_back with several arguments')
    append(ex, p, val)
    n = vecval(ex, p).len
    return p + (('i', L.norm(n - 1)),)


@model('std::vector::pop_back')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    v = vecval(ex, p)
    in_bounds(ex, v, v.len - 1, 'pop_back() of a non-empty vector')
    ex.write(p, Vec(L.norm(v.len - 1), v.arr, v.et))
    return VOID


@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def _(ex, e, f, w):
    return VOID


@model('std::vector::resize')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    n = ex.ev(a[0])
    v = vecval(ex, p)
    fill = ex.ev(a[1]) if len(a) > 1 else ex.default(v.et)
    v = vecval(ex, p)
    arr = Const(ex.nm('rsz'), v.arr.sort())
    q = z3.Int('q!rs')
    ex.assume(ForAll([q], Select(arr, q) == If(q < v.len, Select(v.arr, q), ex.pack(fill)), patterns=[Select(arr, q)]))
    ex.write(p, Vec(n, arr, v.et))
    return VOID


@model('std::vector::assign')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    v = vecval(ex, p)
    if ex.ct(f['params'][0]['t']) in WIDTH:
        n = ex.ev(a[0])
        ex.write(p, Vec(n, const_arr(ex, ex.ev(a[1]), v.et), v.et))
        return VOID
    ia, ib = ex.ev(a[0]), ex.ev(a[1])
    src, s, n = range_of(ex, ia, ib)
    ex.write(p, sub_vec(ex, src, s, n, v.et))
    return VOID


@model('std::vector::operator=')
def _(ex, e, f, w):
    p, a = objpath(ex, e) if e['k'] == 'mcall' else (None, None)
    if e['k'] == 'mcall':
        v = ex.ev(a[0])
    else:
        v = ex.ev(e['args'][1])
        p = ex.lv(e['args'][0])
    if isinstance(v, IList):
        v = vec_of_list(ex, v, ex.read(p).et)
    ex.write(p, v)
    return p


def vec_of_list(ex, il, et):
    v = ex.empty_vec(et)
    arr = v.arr
    for n, x in enumerate(il.vals):
        if isinstance(x, IList):
            x = vec_of_list(ex, x, ex.targs(et)[0])
        arr = Store(arr, IntVal(n), ex.pack(x))
    return Vec(len(il.vals), arr, et)


def it_of(ex, x):
    while isinstance(x, tuple):
        x = ex.read(x)
    return x


@model('std::vector::insert')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    pos = ex.ev(a[0])
    if len(a) != 3:
        raise Unsupported('insert form')
    ia, ib = ex.ev(a[1]), ex.ev(a[2])
    if not isinstance(ia, Iter):
        raise Unsupported('insert form')
    src, s, n = range_of(ex, ia, ib)
    v = vecval(ex, p)
    s, n = z3.simplify(s), z3.simplify(n)
    if not ex.valid(pos.idx == v.len):
        raise Unsupported('insert not at the end')
    arr = Const(ex.nm('ins'), v.arr.sort())
    q = z3.Int('q!ins')
    l0 = v.len
    ex.assume(ForAll([q], Implies(And(0 <= q, q < l0), Select(arr, q) == Select(v.arr, q)),
                     patterns=[Select(arr, q)] + ([Select(v.arr, q)] if z3.is_const(v.arr) else [])))
    ex.assume(ForAll([q], Implies(And(l0 <= q, q < l0 + n), Select(arr, q) == Select(src.arr, L.norm(s + q - l0))),
                     patterns=[Select(arr, q)]))
    if z3.is_int_value(s) and s.as_long() == 0 and z3.is_const(src.arr):
        ex.assume(ForAll([q], Implies(And(0 <= q, q < n), Select(arr, L.norm(l0 + q)) == Select(src.arr, q)),
                         patterns=[Select(src.arr, q)]))
    ex.assume(l0 + n < ex.MAXLEN)
    if v.arr.sort().range() == I and z3.is_int_value(s) and s.as_long() == 0:
        x, n1 = z3.Int('x!ml'), L.norm(l0 + n)
        ex.assume(ForAll([x], L.MEM(arr, n1, x) == Or(L.MEM(v.arr, l0, x), L.MEM(src.arr, n, x)),
                         patterns=[L.MEM(arr, n1, x), L.MEM(v.arr, l0, x), L.MEM(src.arr, n, x)]))
    ex.write(p, Vec(L.norm(l0 + n), arr, v.et))
    return Iter(p, l0)


@model('std::vector::erase')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    if len(a) != 2:
        raise Unsupported('erase form')
    ia, ib = ex.ev(a[0]), ex.ev(a[1])
    v = vecval(ex, p)
    ex.oblige('valid iterator range', And(0 <= ia.idx, ia.idx <= ib.idx, ib.idx <= v.len), 'safety')
    if ex.valid(ib.idx == v.len):
        ex.write(p, Vec(ia.idx, v.arr, v.et))
        return Iter(p, ia.idx)
    arr = Const(ex.nm('ers'), v.arr.sort())
    q = z3.Int('q!er')
    ex.assume(ForAll([q], Select(arr, q) == If(q < ia.idx, Select(v.arr, q), Select(v.arr, L.norm(q + ib.idx - ia.idx))),
                     patterns=[Select(arr, q)]))
    ex.write(p, Vec(L.norm(v.len - (ib.idx - ia.idx)), arr, v.et))
    return Iter(p, ia.idx)


@model('std::vector::data')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return Iter(p, 0)


@model('std::vector::swap')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    q = ex.lv(a[0])
    x, y = ex.read(p), ex.read(q)
    ex.write(p, y)
    ex.write(q, x)
    return VOID


@model('std::swap')
def _(ex, e, f, w):
    p, q = ex.lv(e['args'][0]), ex.lv(e['args'][1])
    x, y = ex.read(p), ex.read(q)
    ex.write(p, y)
    ex.write(q, x)
    return VOID


# ---- iterators ----------------------------------------------------------------------------------------------------------
@model('__gnu_cxx::__normal_iterator::operator*', 'std::reverse_iterator::operator*',
       '__gnu_cxx::__normal_iterator::operator->')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    it = ex.read(p)
    v = vecval(ex, it.path)
    ex.oblige('iterator is dereferenceable', And(0 <= it.idx, it.idx < v.len), 'safety')
    if f['bqn'].endswith('->'):
        return Ptr(it.path + (('i', it.idx),))
    return it.path + (('i', it.idx),)


@model('__gnu_cxx::__normal_iterator::operator[]')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    it = ex.read(p)
    v = vecval(ex, it.path)
    i = L.norm(it.idx + ex.ev(a[0]))
    ex.oblige('iterator is dereferenceable', And(0 <= i, i < v.len), 'safety')
    return it.path + (('i', i),)


@model('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--',
       'std::reverse_iterator::operator++')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    it = ex.read(p)
    d = 1 if f['bqn'].endswith('++') else -1
    if it.rev:
        d = -d
    if not it.rev:
        v = vecval(ex, it.path)
        n = L.norm(it.idx + d)
        ex.oblige('iterator stays within its range', And(0 <= n, n <= v.len), 'safety')
    ex.write(p, Iter(it.path, L.norm(it.idx + d), it.rev))
    if len(f['params']) == 1:
        return it
    return p


@model('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    it = ex.read(p)
    d = ex.ev(a[0])
    if isinstance(d, Iter):
        return L.norm(it.idx - d.idx)
    v = vecval(ex, it.path)
    n = L.norm(it.idx + d if f['bqn'].endswith('+') else it.idx - d)
    ex.oblige('iterator stays within its range', And(0 <= n, n <= v.len), 'safety')
    return Iter(it.path, n, it.rev)


@model('__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    it = ex.read(p)
    d = ex.ev(a[0])
    v = vecval(ex, it.path)
    n = L.norm(it.idx + d if f['bqn'].endswith('+=') else it.idx - d)
    ex.oblige('iterator stays within its range', And(0 <= n, n <= v.len), 'safety')
    ex.write(p, Iter(it.path, n, it.rev))
    return p


@model('__gnu_cxx::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator<', '__gnu_cxx::operator>',
       '__gnu_cxx::operator<=', '__gnu_cxx::operator>=', 'std::operator!=', 'std::operator==', 'std::operator<',
       'std::operator>')
def _(ex, e, f, w):
    a, b = it_of(ex, ex.ev(e['args'][0])), it_of(ex, ex.ev(e['args'][1]))
    op = f['bqn'].split('operator')[-1]
    if isinstance(a, z3.ExprRef) and a.sort() == S and op in ('==', '!='):
        return a == b if op == '==' else a != b
    return ex.compare(op, a, b)


@model('__gnu_cxx::operator-')
def _(ex, e, f, w):
    a, b = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    if a.path != b.path:
        raise Unsupported('difference of iterators into different containers')
    return L.norm(a.idx - b.idx)


@model('__gnu_cxx::__normal_iterator::operator=')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    ex.write(p, ex.ev(a[0]))
    return p


@model('std::distance')
def _(ex, e, f, w):
    a, b = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    if a.path != b.path:
        raise Unsupported('distance between different containers')
    return L.norm(b.idx - a.idx)


@model('std::next', 'std::prev')
def _(ex, e, f, w):
    a = ex.ev(e['args'][0])
    n = ex.ev(e['args'][1]) if len(e['args']) > 1 else IntVal(1)
    return Iter(a.path, L.norm(a.idx + n if f['bqn'] == 'std::next' else a.idx - n), a.rev)


@model('std::begin', 'std::cbegin')
def _(ex, e, f, w):
    return Iter(ex.lv(e['args'][0]), 0)


@model('std::end', 'std::cend')
def _(ex, e, f, w):
    p = ex.lv(e['args'][0])
    return Iter(p, vecval(ex, p).len)


# ---- algorithms -----------------------------------------------------------------------------------------------------------
def pure_apply(ex, fnv, args, may_throw=False):
    """result term of calling a side-effect free callable on the given values (and when it throws)"""
    if not isinstance(fnv, Lam):
        raise Unsupported('callable %s' % type(fnv).__name__)
    f = ex.p.F[fnv.fn]
    snap = ex.snapshot()

    def thunk():
        binds = []
        for prm, a in zip(f['params'], args):
            binds.append(ex.temp(a, 'arg'))
        return ex.call_lambda(fnv, binds)
    base = len(ex.decs)
    ex.writes.append(set())
    ns, om = ex.nospec, ex.mode
    leaves = ex.explore(thunk)
    wr = ex.writes.pop()
    if any(p[0] in snap[0] for p in wr):
        raise Unsupported('callable with side effects')
    res, thr, exc = None, [], None
    for kind, v, sn in reversed(leaves):
        if kind == 'throw' and may_throw:
            thr.append(And(sn[5][base:]) if sn[5][base:] else BoolVal(True))
            exc = v
            continue
        if kind != 'ok':
            raise Unsupported('callable may throw')
        if isinstance(v, tuple):
            ex.restore(sn)
            v = ex.read(v)
        cs = sn[5][base:]
        # facts that the callee's models asserted about their results (for instance contracts of math functions)
        res = v if res is None else If(And(cs) if len(cs) != 1 else cs[0], v, res)
    ex.restore(snap)
    if res is None:
        raise Unsupported('callable always throws')
    return (res, Or(thr) if thr else None, exc) if may_throw else res


def forall1(q, body, pats):
    return ForAll([q], body, patterns=pats)


@model('std::any_of', 'std::all_of', 'std::none_of')
def _(ex, e, f, w):
    ia, ib = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    lam = ex.ev(e['args'][2])
    v, s, n = range_of(ex, ia, ib)
    q = z3.Int(ex.nm('q'))
    P = pure_apply(ex, lam, [ex.elem(v, L.norm(s + q))])
    pat = [Select(v.arr, L.norm(s + q))]
    b = z3.Bool(ex.nm(f['name']))
    wit = z3.Int(ex.nm('wit'))
    inr = And(0 <= q, q < n)
    Pw = z3.substitute(P, (q, wit))
    # b: some element satisfies P (all_of: negated)
    if f['name'] == 'all_of':
        ex.assume(Implies(b, forall1(q, Implies(inr, P), pat)))
        ex.assume(Implies(Not(b), And(0 <= wit, wit < n, Not(Pw))))
    else:
        some = b if f['name'] == 'any_of' else Not(b)
        ex.assume(Implies(some, And(0 <= wit, wit < n, Pw)))
        ex.assume(Implies(Not(some), forall1(q, Implies(inr, Not(P)), pat)))
    return b


@model('std::find', 'std::find_if')
def _(ex, e, f, w):
    ia, ib = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    v, s, n = range_of(ex, ia, ib)
    x = ex.ev(e['args'][2])
    r = z3.Int(ex.nm('found'))
    q = z3.Int(ex.nm('q'))
    if f['name'] == 'find':
        P = lambda i: ex.pack(ex.elem(v, i)) == ex.pack(x) if not isinstance(x, Rec) else ex.same(ex.elem(v, i), x)
        body = Select(v.arr, q) != ex.pack(x)
        if ex.sort(v.et) == D:
            body = Not(L.DEQ(Select(v.arr, q), x))
            P = lambda i: L.DEQ(Select(v.arr, i), x)
    else:
        Pq = pure_apply(ex, x, [ex.elem(v, q)])
        body = Not(Pq)
        P = lambda i: z3.substitute(Pq, (q, i))
    ex.assume(And(s <= r, r <= s + n))
    ex.assume(Implies(r < s + n, P(r)))
    ex.assume(forall1(q, Implies(And(s <= q, q < r), body), [Select(v.arr, q)]))
    return Iter(ia.path, r)


@model('std::sort')
def _(ex, e, f, w):
    if len(e['args']) != 2:
        raise Unsupported('sort with a comparator')
    ia, ib = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    v, s, n = range_of(ex, ia, ib)
    if not (z3.is_int_value(z3.simplify(s)) and z3.simplify(s).as_long() == 0):
        raise Unsupported('sort of an inner range')
    if not ex.valid(n == v.len):
        raise Unsupported('sort of an inner range')
    if ex.sort(v.et) != I:
        raise Unsupported('sort of non-integers')
    arr = Const(ex.nm('sorted'), v.arr.sort())
    pi, sg = Function(ex.nm('perm'), I, I), Function(ex.nm('perminv'), I, I)
    q, q2 = z3.Int('q!so'), z3.Int('q!so2')
    ex.assume(ForAll([q, q2], Implies(And(0 <= q, q <= q2, q2 < n), Select(arr, q) <= Select(arr, q2)),
                     patterns=[z3.MultiPattern(Select(arr, q), Select(arr, q2))]))
    ex.assume(forall1(q, Implies(And(0 <= q, q < n), And(0 <= pi(q), pi(q) < n, sg(pi(q)) == q,
                                                         Select(arr, q) == Select(v.arr, pi(q)))), [Select(arr, q)]))
    pats = [sg(q)]
    if z3.is_const(v.arr):
        pats.append(Select(v.arr, q))
    ex.assume(forall1(q, Implies(And(0 <= q, q < n), And(0 <= sg(q), sg(q) < n, pi(sg(q)) == q,
                                                         Select(arr, sg(q)) == Select(v.arr, q))), pats))
    memlink(ex, v.arr, n, arr, n)
    ex.write(ia.path, Vec(v.len, arr, v.et))
    return VOID


def memlink(ex, a, la, b, lb):
    """same set of values in a[0..la) and b[0..lb)"""
    x = z3.Int('x!ml')
    ex.assume(ForAll([x], L.MEM(a, la, x) == L.MEM(b, lb, x), patterns=[L.MEM(a, la, x), L.MEM(b, lb, x)]))


@model('std::unique')
def _(ex, e, f, w):
    ia, ib = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    v, s, n = range_of(ex, ia, ib)
    if not (z3.is_int_value(z3.simplify(s)) and z3.simplify(s).as_long() == 0) or ex.sort(v.et) != I:
        raise Unsupported('unique of an inner range')
    if not ex.valid(n == v.len):
        raise Unsupported('unique of an inner range')
    arr = Const(ex.nm('uniq'), v.arr.sort())
    m = z3.Int(ex.nm('uniqend'))
    pi, sg = Function(ex.nm('upos'), I, I), Function(ex.nm('usrc'), I, I)
    q, q2 = z3.Int('q!un'), z3.Int('q!un2')
    ex.assume(And(0 <= m, m <= n, Implies(n > 0, m > 0)))
    ex.assume(forall1(q, Implies(And(0 <= q, q < m), And(0 <= pi(q), pi(q) < n, Select(arr, q) == Select(v.arr, pi(q)))),
                      [Select(arr, q)]))
    pats = [sg(q)]
    if z3.is_const(v.arr):
        pats.append(Select(v.arr, q))
    ex.assume(forall1(q, Implies(And(0 <= q, q < n), And(0 <= sg(q), sg(q) < m, Select(arr, sg(q)) == Select(v.arr, q))),
                      pats))
    # adjacent elements differ; on a sorted range that means strictly increasing
    ex.assume(Implies(ForAll([q, q2], Implies(And(0 <= q, q <= q2, q2 < n), Select(v.arr, q) <= Select(v.arr, q2)),
                             patterns=[z3.MultiPattern(Select(v.arr, q), Select(v.arr, q2))]),
                      And(ForAll([q, q2], Implies(And(0 <= q, q < q2, q2 < m), Select(arr, q) < Select(arr, q2)),
                                 patterns=[z3.MultiPattern(Select(arr, q), Select(arr, q2))]),
                          # and (by induction) the k-th is at least k larger than the first
                          ForAll([q], Implies(And(0 <= q, q < m), Select(arr, q) >= Select(arr, 0) + q), patterns=[Select(arr, q)]))))
    memlink(ex, v.arr, n, arr, m)
    ex.write(ia.path, Vec(v.len, arr, v.et))
    return Iter(ia.path, m)


SUMI = Function('sumi', L.AI, I, I, I)       # sum of a[lo .. lo+n)
FOLD = Function('foldd', L.AD, I, I, D, D)   # left fold of dadd from an initial value
_a, _lo, _n, _m = Const('ax!sa', L.AI), z3.Int('ax!lo'), z3.Int('ax!sn'), z3.Int('ax!sm')
_b, _d = Const('ax!sb', L.AD), Const('ax!sd', D)
L.AX += [
    ForAll([_a, _lo, _n], Implies(_n == 0, SUMI(_a, _lo, _n) == 0), patterns=[SUMI(_a, _lo, _n)]),
    ForAll([_a, _lo, _n, _m], Implies(And(_n >= 0, _m == _n + 1), SUMI(_a, _lo, _m) == SUMI(_a, _lo, _n) + Select(_a, _lo + _n)),
           patterns=[z3.MultiPattern(SUMI(_a, _lo, _n), SUMI(_a, _lo, _m))]),
    ForAll([_b, _lo, _n, _d], Implies(_n == 0, FOLD(_b, _lo, _n, _d) == _d), patterns=[FOLD(_b, _lo, _n, _d)]),
    ForAll([_b, _lo, _n, _m, _d], Implies(And(_n >= 0, _m == _n + 1), FOLD(_b, _lo, _m, _d) ==
                                          L.DADD(FOLD(_b, _lo, _n, _d), Select(_b, _lo + _n))),
           patterns=[z3.MultiPattern(FOLD(_b, _lo, _n, _d), FOLD(_b, _lo, _m, _d))]),
]


@model('std::accumulate')
def _(ex, e, f, w):
    ia, ib = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    init = ex.ev(e['args'][2])
    v, s, n = range_of(ex, ia, ib)
    if len(e['args']) > 3:
        raise Unsupported('accumulate with an operation')
    if ex.sort(v.et) == I and init.sort() == I:
        return ex.wrap(L.norm(init + SUMI(v.arr, s, n)), e['t'])
    if ex.sort(v.et) == D and init.sort() == D:
        return ex.fold(v.arr, s, n, init)
    raise Unsupported('accumulate type')


def fold(ex, arr, s, n, init):
    return FOLD(arr, s, n, init)


@model('std::transform')
def _(ex, e, f, w):
    a = e['args']
    two = len(a) == 5
    ia, ib = ex.ev(a[0]), ex.ev(a[1])
    v, s, n = range_of(ex, ia, ib)
    if two:
        i2 = ex.ev(a[2])
        v2 = vecval(ex, i2.path)
        ex.oblige('second range is long enough', And(0 <= i2.idx, i2.idx + n <= v2.len), 'safety')
    io = ex.ev(a[3] if two else a[2])
    lam = ex.ev(a[4] if two else a[3])
    q = z3.Int(ex.nm('q'))
    if not isinstance(io, Iter):
        raise Unsupported('transform output')
    o = vecval(ex, io.path)
    ex.oblige('output range is long enough', And(0 <= io.idx, io.idx + n <= o.len), 'safety')
    args = [ex.elem(v, L.norm(s + q - io.idx))]
    if two:
        args.append(ex.elem(v2, L.norm(i2.idx + q - io.idx)))
    npc = len(ex.pc)
    r, th, exc = pure_apply(ex, lam, args, may_throw=True)
    if th is not None:
        b, wit = z3.Bool(ex.nm('throws')), z3.Int(ex.nm('wit'))
        inr = And(io.idx <= q, q < io.idx + n)
        ex.assume(Implies(b, z3.substitute(And(inr, th), (q, wit))))
        ex.assume(Implies(Not(b), forall1(q, Implies(inr, Not(th)), [Select(v.arr, L.norm(s + q - io.idx))])))
        if ex.choose(b):
            raise ThrowSig(exc)
    arr = Const(ex.nm('transf'), o.arr.sort())
    ex.assume(forall1(q, Select(arr, q) == If(And(io.idx <= q, q < io.idx + n), ex.pack(r), Select(o.arr, q)),
                      [Select(arr, q)]))
    ex.write(io.path, Vec(o.len, arr, o.et))
    return Iter(io.path, L.norm(io.idx + n))


@model('std::copy')
def _(ex, e, f, w):
    a = e['args']
    return copy_to(ex, ex.ev(a[0]), ex.ev(a[1]), ex.ev(a[2]))


@model('std::copy_n')
def _(ex, e, f, w):
    a = e['args']
    ia, n = ex.ev(a[0]), ex.ev(a[1])
    return copy_to(ex, ia, after(ia, n), ex.ev(a[2]))


def after(ia, n):
    if not isinstance(ia, Iter) or ia.rev:
        raise Unsupported('iterator expected')
    return Iter(ia.path, L.norm(ia.idx + n))


def copy_to(ex, ia, ib, io):
    v, s, n = range_of(ex, ia, ib)
    if not isinstance(io, Iter):
        raise Unsupported('copy output')
    o = vecval(ex, io.path)
    ex.oblige('output range is long enough', And(0 <= io.idx, io.idx + n <= o.len), 'safety')
    arr = Const(ex.nm('copied'), o.arr.sort())
    q = z3.Int('q!cp')
    val = Select(v.arr, L.norm(s + q - io.idx))
    if v.arr.sort().range() == I and o.arr.sort().range() == D:
        val = ex.i2d(val)
    if v.arr.sort().range() == D and o.arr.sort().range() == I:
        ex.oblige('the values copied fit the integers they are copied to', forall1(q, Implies(And(s <= q, q < s + n), FITS(Select(v.arr, q))), [Select(v.arr, q)]), 'safety')
        val = L.D2I(val)
    ex.assume(forall1(q, Select(arr, q) == If(And(io.idx <= q, q < io.idx + n), val,
                                              Select(o.arr, q)), [Select(arr, q)]))
    ex.write(io.path, Vec(o.len, arr, o.et))
    return Iter(io.path, L.norm(io.idx + n))


@model('std::fill')
def _(ex, e, f, w):
    a = e['args']
    fill_with(ex, ex.ev(a[0]), ex.ev(a[1]), ex.ev(a[2]))
    return VOID


@model('std::fill_n')
def _(ex, e, f, w):
    a = e['args']
    ia, n = ex.ev(a[0]), ex.ev(a[1])
    fill_with(ex, ia, after(ia, n), ex.ev(a[2]))
    return after(ia, n)


@model('std::equal')
def _(ex, e, f, w):
    a = [ex.ev(x) for x in e['args']]
    v, s, n = range_of(ex, a[0], a[1])
    if not isinstance(a[2], Iter) or a[2].rev or len(a) > 4 or (len(a) == 4 and not isinstance(a[3], Iter)):
        raise Unsupported('std::equal with a predicate')
    v2 = vecval(ex, a[2].path)
    if v2.arr.sort() != v.arr.sort():
        raise Unsupported('std::equal of different types')
    s2, same = a[2].idx, BoolVal(True)
    if len(a) == 4:
        _v, s2, n2 = range_of(ex, a[2], a[3])
        same = n2 == n
    else:
        ex.oblige('second range is long enough', And(0 <= s2, s2 + n <= v2.len), 'safety')
    q = z3.Int('q!se')
    return And(same, forall1(q, Implies(And(s <= q, q < s + n), Select(v.arr, q) == Select(v2.arr, L.norm(q - s + s2))), [Select(v.arr, q)]))


def fill_with(ex, ia, ib, x):
    v, s, n = range_of(ex, ia, ib)
    arr = Const(ex.nm('filled'), v.arr.sort())
    q = z3.Int('q!fl')
    ex.assume(forall1(q, Select(arr, q) == If(And(s <= q, q < s + n), ex.pack(x), Select(v.arr, q)), [Select(arr, q)]))
    ex.write(ia.path, Vec(v.len, arr, v.et))


@model('std::iota')
def _(ex, e, f, w):
    a = e['args']
    ia, ib = ex.ev(a[0]), ex.ev(a[1])
    x = ex.ev(a[2])
    v, s, n = range_of(ex, ia, ib)
    arr = Const(ex.nm('iota'), v.arr.sort())
    q = z3.Int('q!io')
    ex.assume(forall1(q, Select(arr, q) == If(And(s <= q, q < s + n), x + q - s, Select(v.arr, q)), [Select(arr, q)]))
    ex.write(ia.path, Vec(v.len, arr, v.et))
    return VOID


@model('std::max_element', 'std::min_element')
def _(ex, e, f, w):
    ia, ib = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    if len(e['args']) > 2:
        raise Unsupported('max_element with comparator')
    v, s, n = range_of(ex, ia, ib)
    r = z3.Int(ex.nm('extr'))
    q = z3.Int('q!mx')
    ex.assume(And(s <= r, Implies(n > 0, r < s + n), Implies(n == 0, r == s)))
    gt = ex.compare('<', Select(v.arr, r), Select(v.arr, q)) if f['name'] == 'max_element' else \
        ex.compare('<', Select(v.arr, q), Select(v.arr, r))
    ex.assume(forall1(q, Implies(And(s <= q, q < s + n), Not(gt)), [Select(v.arr, q)]))
    return Iter(ia.path, r)


@model('std::max', 'std::min')
def _(ex, e, f, w):
    a, b = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    lt = ex.compare('<', a, b) if f['name'] == 'max' else ex.compare('<', b, a)
    return If(lt, b, a)


@model('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref')
def _(ex, e, f, w):
    a = e['args'][0]
    if w and (a.get('lv') or a['k'] in ('ref', 'mem', 'mat')):
        return ex.lv(a)
    return ex.ev(a)


@model('std::get')
def _(ex, e, f, w):
    p = ex.lv(e['args'][0])
    n = None
    for x in f.get('targs') or []:
        if isinstance(x, dict) and 'int' in x:
            n = x['int']
            break
    if n is None:
        raise Unsupported('std::get by type')
    return p + (('f', str(n)),)


@model('std::make_pair', 'std::make_tuple', 'std::tie')
def _(ex, e, f, w):
    vals = [ex.ev(a) for a in e['args']]
    return Rec(e['t'], {str(n): v for n, v in enumerate(vals)})


# ---- strings ----------------------------------------------------------------------------------------------------------
@model('std::to_string')
def _(ex, e, f, w):
    v = ex.ev(e['args'][0])
    if v.sort() == D:
        return L.SDBL(v)
    return L.SINT(v)


@model('std::operator+')
def _(ex, e, f, w):
    a, b = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    if isinstance(a, Iter):
        return Iter(a.path, L.norm(a.idx + b), a.rev)
    return L.cat(a, b)


@model('std::basic_string::operator+=', 'std::basic_string::append')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    v = ex.ev(a[0])
    ex.write(p, L.cat(ex.read(p), v))
    return p


@model('std::basic_string::operator=')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    ex.write(p, ex.ev(a[0]))
    return p


@model('std::basic_string::size', 'std::basic_string::length')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    r = L.SLEN(ex.read(p))
    ex.assume(And(r >= 0, r < ex.MAXLEN))
    return r


@model('std::basic_string::compare')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    r = z3.Int(ex.nm('cmp'))
    ex.assume((r == 0) == (ex.read(p) == ex.ev(a[0])))
    return r


@model('std::basic_string::empty')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return ex.read(p) == L.slit('')


# ---- random numbers ----------------------------------------------------------------------------------------------------
_draws = {}


def engine_sort(ex, v):
    return v.sort()


def draw(name, es, nargs, argsort, res):
    k = (name, str(es), res.name())
    if k not in _draws:
        _draws[k] = (Function('draw_' + name + '_' + str(es), es, *[argsort] * nargs, res),
                     Function('next_' + name + '_' + str(es), es, *[argsort] * nargs, es))
    return _draws[k]


@model('std::uniform_int_distribution::operator()', 'std::uniform_real_distribution::operator()',
       'std::normal_distribution::operator()', 'std::bernoulli_distribution::operator()')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    d = ex.read(p)
    ep = ex.lv(a[0])
    eng = ex.read(ep)
    if not isinstance(d, Dist):
        raise Unsupported('distribution')
    if not isinstance(eng, z3.ExprRef):
        raise Unsupported('random engine')
    if d.kind == 'int':
        ex.oblige('uniform_int_distribution is given a non-empty range', d.a <= d.b, 'safety')
        D_, N_ = draw('int', eng.sort(), 2, I, I)
        r = D_(eng, d.a, d.b)
        ex.assume(And(d.a <= r, r <= d.b))
        ex.write(ep, N_(eng, d.a, d.b))
        return r
    if d.kind == 'real':
        D_, N_ = draw('real', eng.sort(), 2, ex.dsort(), ex.dsort())
        r = D_(eng, d.a, d.b)
        ex.real_draw_fact(r, d.a, d.b)
        ex.write(ep, NEXTR(eng.sort())(eng))     # the number of words taken from the engine does not depend on the range
        return r
    if d.kind == 'normal':
        D_, N_ = draw('normal', eng.sort(), 2, ex.dsort(), ex.dsort())
        r = Const(ex.nm('ndraw'), ex.dsort())
        ex.write(ep, Const(ex.nm('eng'), eng.sort()))
        return r
    raise Unsupported('distribution')


@model('std::mersenne_twister_engine::seed')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    eng = ex.read(p)
    s = ex.ev(a[0])
    if getattr(ex, 'on_seed', None):
        ex.on_seed(ex, SEED(eng.sort())(s), s)
    ex.write(p, SEED(eng.sort())(s))
    return VOID


_nr = {}


def NEXTR(es):
    """engine state after one draw of a double; ADVR(s, k): after k draws"""
    if str(es) not in _nr:
        n, a = Function('next_real_' + str(es), es, es), Function('advr_' + str(es), es, I, es)
        s_, k_ = Const('ax!es' + str(es), es), z3.Int('ax!ek')
        L.AX.extend([ForAll([s_], a(s_, IntVal(0)) == s_, patterns=[a(s_, IntVal(0))]),
                     ForAll([s_, k_], n(a(s_, k_)) == a(s_, k_ + 1), patterns=[n(a(s_, k_))])])
        _nr[str(es)] = (n, a)
    return _nr[str(es)][0]


def ADVR(es):
    NEXTR(es)
    return _nr[str(es)][1]


# ---- locks -------------------------------------------------------------------------------------------------------------
def lock(ex, p):
    h = held(p)
    cur = ex.store.get(h, BoolVal(False))
    ex.oblige('no mutex is locked twice by one thread', Not(cur), 'lock')
    ex.store[h] = BoolVal(True)


def ctor_guard(ex, e, f):
    if f.get('move') or f.get('copy'):
        raise Unsupported('moved lock')
    if len(e['args']) > 1 or not e['args']:
        raise Unsupported('lock constructor form')
    p = ex.lv(e['args'][0])
    lock(ex, p)
    return Guard(p, True)


for _q in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'tbb::spin_mutex::scoped_lock',
           'tbb::detail::d1::unique_scoped_lock', 'tbb::detail::d1::rw_scoped_lock'):
    MODELS['ctor:' + _q] = ctor_guard


@model('std::mutex::lock')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    lock(ex, p)
    return VOID


@model('std::mutex::unlock')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    ex.oblige('a mutex is unlocked by the thread that holds it', ex.store.get(held(p), BoolVal(False)), 'lock')
    ex.store[held(p)] = BoolVal(False)
    return VOID


@model('std::unique_lock::unlock', 'std::unique_lock::lock')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    g = ex.read(p)
    if f['name'] == 'unlock':
        ex.oblige('a lock is released only when it is held', BoolVal(g.owns), 'lock')
        g.release(ex)
        ex.store[p[0]] = Guard(g.mtx, False)
    else:
        lock(ex, g.mtx)
        ex.store[p[0]] = Guard(g.mtx, True)
    return VOID


# ---- mathematical functions ------------------------------------------------------------------------------------------------
for _n, _k in [('sin', 1), ('cos', 1), ('tan', 1), ('exp', 1), ('log', 1), ('sqrt', 1), ('tanh', 1), ('abs', 1), ('fabs', 1),
               ('pow', 2), ('erf', 1), ('cbrt', 1)]:
    def _mk(n, k):
        def h(ex, e, f, w):
            vals = []
            for a in e['args']:
                v = ex.ev(a)
                if isinstance(v, z3.ArithRef):
                    v = ex.i2d(v)
                if not (isinstance(v, z3.ExprRef) and v.sort() == L.D):
                    raise Unsupported('argument of ' + n)
                vals.append(v)
            if ex.ct(e['t']) not in ('f64',):
                raise Unsupported(n + ' of this type')
            return ex.mathcall(n, vals)
        return h
    for _q in ('std::' + _n, _n):
        MODELS[_q] = _mk(_n, _k)

_seed = {}


def SEED(es):
    if str(es) not in _seed:
        _seed[str(es)] = Function('seeded_' + str(es), I, es)
    return _seed[str(es)]


@model('std::mersenne_twister_engine::operator()')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    eng = ex.read(p)
    D_, N_ = draw('raw', eng.sort(), 0, I, I)
    r = D_(eng)
    ex.assume(And(0 <= r, r < 2**32))       # 32-bit words
    ex.write(p, N_(eng))
    return r


@model('std::shuffle')
def _(ex, e, f, w):
    ia, ib = ex.ev(e['args'][0]), ex.ev(e['args'][1])
    ep = ex.lv(e['args'][2])
    v, s, n = range_of(ex, ia, ib)
    h = ex.models.get('hook:shuffle')
    if h:
        return h(ex, v, s, n, ia, ep)
    raise Unsupported('shuffle')


# ---- optional -----------------------------------------------------------------------------------------------------------
@model('boost::optional::operator bool', 'boost::optional::has_value', 'boost::optional::is_initialized')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return ex.read(p).has


@model('boost::optional::operator*', 'boost::optional::get', 'boost::optional::operator->')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    ex.oblige('optional holds a value', ex.read(p).has, 'safety')
    if f['bqn'].endswith('->'):
        return Ptr(p + (('o',),))
    return p + (('o',),)


@model('boost::optional::operator=')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    cur = ex.read(p)
    x = a[0]
    v = ex.ev(x)
    if isinstance(v, Opt):
        ex.write(p, v)
    elif isinstance(v, tuple) and v[0] == 'none':
        ex.write(p, Opt(BoolVal(False), cur.val, cur.et))
    else:
        ex.write(p, Opt(BoolVal(True), v, cur.et))
    return p


@model('std::isnan', 'std::isfinite', 'std::isinf')
def _(ex, e, f, w):
    F_ = Function(f['name'], ex.dsort(), B)
    return F_(ex.ev(e['args'][0]))


FITS = Function('fits_the_integer_type', D, B)      # boost::numeric_cast accepts this double


@model('boost::numeric_cast')
def _(ex, e, f, w):
    v = ex.ev(e['args'][0])
    if ex.ct(e['t']) == 'f64' and isinstance(v, z3.ArithRef):
        return ex.i2d(v)
    if v.sort() == D and ex.ct(e['t']) in WIDTH:
        if not ex.choose(FITS(v)):
            raise ThrowSig('boost::bad_numeric_cast')
        return ex.d2i(v, e['t'])
    rng = ex.trange(e['t'], v)
    if rng is not None and not ex.choose(rng):
        raise ThrowSig('boost::bad_numeric_cast')
    return v


# ---- callables -----------------------------------------------------------------------------------------------------------
def call_callee(ex, e):
    c = ex.ev(e['callee'])
    if isinstance(c, tuple) and c[0] == 'fn':
        f = ex.p.F[c[1]]
        con = ex.contracts.get(f['sig'])
        if con is not None and not getattr(con, 'getter', False):
            return ex.use_contract(con, f, None, ex.bind_args(f, e['args']))
        if 'body' not in f:
            raise Unsupported('call of %s through a pointer' % f['qn'])
        return ex.inline(f, None, ex.bind_args(f, e['args']))
    h = ex.models.get('callee')
    if h:
        return h(ex, c, e)
    if isinstance(c, Lam):
        f = ex.p.F[c.fn]
        return ex.call_lambda(c, ex.bind_args(f, e['args']))
    raise Unsupported('indirect call')


def ctor_model(ex, e, f):
    ty = ex.p.ty(e['t'])
    q = ty.get('qn')
    args = e['args']
    if q == 'std::vector':
        et = ex.targs(e['t'])[0]
        ps = f['params']
        if f.get('copy') or f.get('move'):
            return ex.ev(args[0])
        if not ps or (len(ps) == 1 and 'allocator' in ex.p.ts(ps[0]['t']) and ex.ct(ps[0]['t']) == 'rec'
                      and ex.p.ty(ps[0]['t']).get('qn') == 'std::allocator'):
            return ex.empty_vec(et)
        c0 = ex.ct(ps[0]['t'])
        if c0 in WIDTH:
            n = ex.ev(args[0])
            if len(ps) >= 2 and ex.p.ty(ps[1]['t']).get('qn') != 'std::allocator':
                val = ex.ev(args[1])
                if isinstance(val, IList):
                    val = vec_of_list(ex, val, ex.targs(et)[0])
            else:
                val = ex.default(et)
            ex.assume(n < ex.MAXLEN)
            return Vec(n, const_arr(ex, val, et), et)
        if ex.p.ty(ps[0]['t']).get('qn') == 'std::initializer_list':
            il = ex.ev(args[0])
            if isinstance(il, IList):
                return vec_of_list(ex, il, et)
            if isinstance(il, Vec):
                return il
            raise Unsupported('initializer_list')
        if ex.is_iter(ps[0]['t']) or ex.ct(ps[0]['t']) == 'ptr':
            ia, ib = ex.ev(args[0]), ex.ev(args[1])
            src, s, n = range_of(ex, ia, ib)
            if ex.sort(src.et) != ex.sort(et):
                raise Unsupported('vector of converted range')
            return sub_vec(ex, src, s, n, et)
        if ex.is_vec(ps[0]['t']):
            return ex.ev(args[0])
        return NotImplemented
    if q == 'std::basic_string':
        if not args or (len(args) == 1 and 'allocator' in ex.p.ts(f['params'][0]['t']) and 'char' not in ex.p.ts(f['params'][0]['t'])):
            return L.slit('')
        return ex.ev(args[0])
    if q in ('std::pair', 'std::tuple'):
        if f.get('copy') or f.get('move'):
            return ex.ev(args[0])
        ta = ex.targs(e['t'])
        if not args:
            return ex.default(e['t'])
        vals = [ex.ev(a) for a in args]
        if len(vals) == len(ta):
            return Rec(e['t'], {str(n): v for n, v in enumerate(vals)})
        if len(vals) == 1 and isinstance(vals[0], Rec):
            return Rec(e['t'], dict(vals[0].f))
        return NotImplemented
    if q == '__gnu_cxx::__normal_iterator' or q == 'std::reverse_iterator':
        if not args:
            return Undef(e['t'])
        return ex.ev(args[0])
    if q == 'std::uniform_int_distribution':
        if f.get('copy') or f.get('move'):
            return ex.ev(args[0])
        a = ex.ev(args[0]) if args else IntVal(0)
        if len(args) > 1 and args[1] is not None and args[1]['k'] != 'unk':
            b = ex.ev(args[1])
        else:
            b = IntVal(2**31 - 1)
        return Dist('int', a, b, None, ex.targs(e['t'])[0])
    if q == 'std::uniform_real_distribution':
        if f.get('copy') or f.get('move'):
            return ex.ev(args[0])
        return Dist('real', ex.ev(args[0]) if args else ex.dlit(0), ex.ev(args[1]) if len(args) > 1 else ex.dlit(1))
    if q == 'std::normal_distribution':
        if f.get('copy') or f.get('move'):
            return ex.ev(args[0])
        return Dist('normal', ex.ev(args[0]) if args else ex.dlit(0), ex.ev(args[1]) if len(args) > 1 else ex.dlit(1))
    if q == 'std::mersenne_twister_engine':
        if f.get('copy') or f.get('move'):
            return ex.ev(args[0])
        es = ex.sort(e['t'])
        a = ex.ev(args[0]) if args else IntVal(5489)
        if getattr(ex, 'on_seed', None) and args:
            ex.on_seed(ex, SEED(es)(a), a)
        return SEED(es)(a)
    if q == 'boost::optional':
        if f.get('copy') or f.get('move'):
            return ex.ev(args[0])
        et = ex.targs(e['t'])[0]
        if not args:
            return Opt(BoolVal(False), ex.fresh(et, 'none'), et)
        v = ex.ev(args[0])
        if isinstance(v, tuple) and v and v[0] == 'none':
            return Opt(BoolVal(False), ex.fresh(et, 'none'), et)
        return Opt(BoolVal(True), v, et)
    if q == 'boost::none_t':
        return ('none',)
    if q in ('std::invalid_argument', 'std::runtime_error', 'std::out_of_range', 'std::logic_error', 'std::domain_error'):
        for a in args:
            ex.ev(a)
        return Rec(e['t'], {})
    if q == 'std::initializer_list':
        return ex.ev(args[0]) if args else IList([], None)
    if q == 'std::allocator':
        return VOID
    if q == 'std::function':
        h = ex.models.get('ctor:std::function')
        if h:
            return h(ex, e, f)
        if len(args) == 1:
            return ex.ev(args[0])
        return Ptr(None)
    if ex.p.ty(e['t']).get('lambda') is not None and (f.get('copy') or f.get('move')):
        return ex.ev(args[0])
    h = ex.models.get('ctor:' + str(q))
    if h:
        return h(ex, e, f)
    k = ex.p.tkey(e['t'])
    if (k in ex.opaque or q in ex.opaque) and (f.get('copy') or f.get('move')):
        return ex.ev(args[0])
    return NotImplemented


@model('std::function::operator()', 'dcgp::function::operator()')
def _(ex, e, f, w):
    """call through a std::function: a known lambda is executed; an opaque one is what the contract says about it"""
    fv = ex.ev(e['args'][0])
    if isinstance(fv, Lam):
        lf = ex.p.F[fv.fn]
        return ex.call_lambda(fv, ex.bind_args(lf, e['args'][1:]))
    vals = [ex.ev(a) for a in e['args'][1:]]
    con = getattr(ex, 'con', None)
    if con is None or not hasattr(con, 'opaque_call'):
        raise Unsupported('call of an unknown std::function')
    return con.opaque_call(ex, fv, vals, f)


@model('std::function::operator bool')
def _(ex, e, f, w):
    fv = ex.ev(e['obj'])
    return BoolVal(True) if isinstance(fv, Lam) else Function('callable', fv.sort(), z3.BoolSort())(fv)
