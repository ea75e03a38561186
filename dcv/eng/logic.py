"""Logical vocabulary: sorts, background functions with their axioms, and the prover."""
import time, os
import z3
from z3 import (Int, IntVal, Bool, BoolVal, And, Or, Not, Implies, If, ForAll, Function, IntSort, BoolSort, DeclareSort,
                ArraySort, Select, Store, Const, Array, simplify, is_int_value, is_true, is_false)

I, B = IntSort(), BoolSort()
D = DeclareSort('Dbl')        # an IEEE double, abstract: nothing is assumed about the operations but commutativity
S = DeclareSort('Str')        # std::string
AI = ArraySort(I, I)
AD = ArraySort(I, D)
AS = ArraySort(I, S)

_sorts = {}


def usort(name):
    if name not in _sorts:
        _sorts[name] = DeclareSort(name)
    return _sorts[name]


TOUCH = z3.Function('touch', I, z3.BoolSort())   # names a term so that triggers can see it


def touch(t):
    return TOUCH(t)


class AxiomSet(list):
    pass


AX = AxiomSet()               # background axioms (definitions of the vocabulary); reported as assumptions

x, y, z, k, i_, j_ = z3.Ints('ax!x ax!y ax!z ax!k ax!i ax!j')
r_ = Int('ax!r')

# ---- integers: products of symbols are kept abstract with the ring normal form built by `mul` below -----------------
MUL = Function('mul', I, I, I)
DIV = Function('udiv', I, I, I)
MOD = Function('umod', I, I, I)
_mono_keys = {}


def _akey(t):
    return t.sexpr()


def poly(t):
    """normal form {monomial(tuple of atoms as (key,term)) : coeff} of an integer term"""
    if is_int_value(t):
        v = t.as_long()
        return {(): v} if v else {}
    d = t.decl().kind() if z3.is_app(t) else None
    if d == z3.Z3_OP_ADD:
        out = {}
        for c in t.children():
            _acc(out, poly(c), 1)
        return out
    if d == z3.Z3_OP_SUB:
        cs = t.children()
        out = dict(poly(cs[0]))
        for c in cs[1:]:
            _acc(out, poly(c), -1)
        return out
    if d == z3.Z3_OP_UMINUS:
        out = {}
        _acc(out, poly(t.children()[0]), -1)
        return out
    if d == z3.Z3_OP_MUL:
        out = {(): 1}
        for c in t.children():
            out = pmul(out, poly(c))
        return out
    if z3.is_app(t) and t.decl().name() == 'mul':
        return pmul(poly(t.arg(0)), poly(t.arg(1)))
    return {((_akey(t), Ref(t)),): 1}


class Ref:
    """term wrapper that takes no part in comparisons"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return True

    def __lt__(self, o):
        return False

    def __hash__(self):
        return 0


def _acc(out, p, s):
    for m, c in p.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)


def pmul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = out.get(m, 0) + c1 * c2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


def unpoly(p):
    terms = []
    for m, c in sorted(p.items(), key=lambda mc: [a[0] for a in mc[0]]):
        if not m:
            terms.append(IntVal(c))
            continue
        t = m[-1][1].t
        for a in reversed(m[:-1]):
            t = MUL(a[1].t, t)
        terms.append(t if c == 1 else IntVal(c) * t)
    if not terms:
        return IntVal(0)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


def iv(a):
    return IntVal(a) if isinstance(a, int) else a


def mul(a, b):
    a, b = iv(a), iv(b)
    if is_int_value(a) or is_int_value(b):
        return simplify(a * b) if is_int_value(a) and is_int_value(b) else a * b
    return unpoly(pmul(poly(a), poly(b)))


def norm(t):
    return unpoly(poly(t))


def div(a, b):
    a, b = iv(a), iv(b)
    if is_int_value(b) and b.as_long() > 0:
        return a / b
    return DIV(a, b)


def mod(a, b):
    a, b = iv(a), iv(b)
    if is_int_value(b) and b.as_long() > 0:
        return a % b
    return MOD(a, b)


AX += [
    ForAll([x, y], MUL(x, y) == MUL(y, x), patterns=[MUL(x, y)]),
    ForAll([x, y], And(Implies(And(x >= 0, y >= 0), MUL(x, y) >= 0),
                       Implies(And(x >= 1, y >= 1), And(MUL(x, y) >= x, MUL(x, y) >= y)),
                       Implies(x == 0, MUL(x, y) == 0), Implies(x == 1, MUL(x, y) == y)), patterns=[MUL(x, y)]),
    ForAll([x, y, r_], Implies(r_ >= 0, And(Implies(x < y, MUL(x, r_) + r_ <= MUL(y, r_)),
                                            Implies(y < x, MUL(y, r_) + r_ <= MUL(x, r_)),
                                            Implies(x + 1 < y, MUL(x, r_) + 2 * r_ <= MUL(y, r_)),
                                            Implies(y == x + 1, MUL(x, r_) + r_ == MUL(y, r_)),
                                            Implies(x == y, MUL(x, r_) == MUL(y, r_)))),
           patterns=[z3.MultiPattern(MUL(x, r_), MUL(y, r_))]),
    ForAll([x, y], Implies(y > 0, And(MUL(DIV(x, y), y) <= x, x < MUL(DIV(x, y), y) + y,
                                      Implies(x >= 0, DIV(x, y) >= 0))), patterns=[DIV(x, y)]),
    ForAll([x, y], Implies(y > 0, And(MOD(x, y) == x - MUL(DIV(x, y), y), MOD(x, y) >= 0, MOD(x, y) < y)),
           patterns=[MOD(x, y)]),
]

# ---- doubles ------------------------------------------------------------------------------------------------------
DADD, DSUB, DMUL, DDIV = [Function(n, D, D, D) for n in ('dadd', 'dsub', 'dmul', 'ddiv')]
DNEG = Function('dneg', D, D)
DLT, DLE, DEQ = [Function(n, D, D, B) for n in ('dlt', 'dle', 'deq')]
I2D = Function('i2d', I, D)
D2I = Function('d2i', D, I)
DFLIT = Function('dlit', I, D)     # floating literals that are not integers, by table index
u_, v_ = Const('ax!u', D), Const('ax!v', D)
AX += [
    ForAll([u_, v_], DADD(u_, v_) == DADD(v_, u_), patterns=[DADD(u_, v_)]),
    ForAll([u_, v_], DMUL(u_, v_) == DMUL(v_, u_), patterns=[DMUL(u_, v_)]),
    ForAll([u_, v_], DEQ(u_, v_) == DEQ(v_, u_), patterns=[DEQ(u_, v_)]),
]
_ilo, _ihi = z3.Ints('ax!lo ax!hi')
AX += [
    # truncation of a double that lies between two integers lies between them
    ForAll([u_, _ilo], Implies(DLE(I2D(_ilo), u_), D2I(u_) >= _ilo), patterns=[z3.MultiPattern(DLE(I2D(_ilo), u_), D2I(u_))]),
    ForAll([u_, _ihi], Implies(DLE(u_, I2D(_ihi)), D2I(u_) <= _ihi), patterns=[z3.MultiPattern(DLE(u_, I2D(_ihi)), D2I(u_))]),
]
_flits = {}


def dlit(v):
    f = float(v)
    if f == int(f) and abs(f) < 2**53:
        return I2D(IntVal(int(f)))
    if f not in _flits:
        _flits[f] = len(_flits)
    return DFLIT(IntVal(_flits[f]))


# ---- strings ------------------------------------------------------------------------------------------------------
SCAT = Function('scat', S, S, S)
SINT = Function('sint', I, S)      # std::to_string of an integer
SDBL = Function('sdbl', D, S)
SID = Function('slit_id', S, I)
SLEN = Function('slen', S, I)
_slits = {}


def slit(v):
    if v not in _slits:
        c = Const('str!%d' % len(_slits), S)
        _slits[v] = c
        AX.append(SID(c) == len(_slits))
        AX.append(SLEN(c) == len(v))
    return _slits[v]


def cat(*ss):
    """string concatenation in right-associated normal form, adjacent literals fused"""
    parts = []

    def flat(s):
        if z3.is_app(s) and s.decl().name() == 'scat':
            flat(s.arg(0))
            flat(s.arg(1))
        else:
            parts.append(s)
    for s in ss:
        flat(s)
    inv = {c.get_id(): v for v, c in _slits.items()}
    fused = []
    for p in parts:
        if p.get_id() in inv:
            if inv[p.get_id()] == '':
                continue
            if fused and isinstance(fused[-1], str):
                fused[-1] += inv[p.get_id()]
                continue
            fused.append(inv[p.get_id()])
        else:
            fused.append(p)
    fused = [slit(p) if isinstance(p, str) else p for p in fused]
    if not fused:
        return slit('')
    r = fused[-1]
    for p in reversed(fused[:-1]):
        r = SCAT(p, r)
    return r


# ---- vectors (as elements of other vectors) and tuples ---------------------------------------------------------------
_vsorts = {}


def vec_sort(es):
    key = es.name() if es.kind() != z3.Z3_ARRAY_SORT else str(es)
    if key not in _vsorts:
        dt = z3.Datatype('Vec_' + key)
        dt.declare('mk_' + key, ('len_' + key, I), ('arr_' + key, ArraySort(I, es)))
        _vsorts[key] = dt.create()
    return _vsorts[key]


def v_mk(s, ln, arr):
    return s.constructor(0)(ln, arr)


def v_len(e):
    return e.sort().accessor(0, 0)(e)


def v_arr(e):
    return e.sort().accessor(0, 1)(e)


_tsorts = {}


def tup_sort(name, sorts):
    if name not in _tsorts:
        dt = z3.Datatype('T_' + name)
        dt.declare('mkT_' + name, *[('f%d_%s' % (n, name), s) for n, s in enumerate(sorts)])
        _tsorts[name] = dt.create()
    return _tsorts[name]


# membership of a value in the first `len` cells of an integer array, with a position witness
MEM = Function('mem', AI, I, I, B)
MEMW = Function('memw', AI, I, I, I)
a_ = Const('ax!a', AI)
AX += [
    ForAll([a_, y, x], Implies(MEM(a_, y, x), And(0 <= MEMW(a_, y, x), MEMW(a_, y, x) < y,
                                                  Select(a_, MEMW(a_, y, x)) == x)), patterns=[MEM(a_, y, x)]),
    ForAll([a_, y, x, k], Implies(And(0 <= k, k < y, Select(a_, k) == x), MEM(a_, y, x)),
           patterns=[z3.MultiPattern(MEM(a_, y, x), Select(a_, k))]),
]

# kernels: an opaque value; what the numeric / printing callable of a kernel returns on a list of arguments.
# The result depends on the first `len` arguments only (extensionality).
_kap = {}


def extfun(name, pre_sorts, arr_elem, res):
    """uninterpreted function name(pre..., len, array) that depends on the first len cells only"""
    if name in _kap:
        return _kap[name]
    A = ArraySort(I, arr_elem)
    f = Function(name, *pre_sorts, I, A, res)
    d = Function(name + '_diff', I, A, A, I)
    pre = [Const('ax!p%d' % n, s) for n, s in enumerate(pre_sorts)]
    n, a, b = Int('ax!n'), Const('ax!aa', A), Const('ax!bb', A)
    t = d(n, a, b)
    AX.append(ForAll(pre + [n, a, b], Or(f(*pre, n, a) == f(*pre, n, b),
                                         And(0 <= t, t < n, Select(a, t) != Select(b, t))),
                     patterns=[z3.MultiPattern(f(*pre, n, a), f(*pre, n, b))]))
    _kap[name] = f
    return f


# ---- prover -------------------------------------------------------------------------------------------------------
class Stats:
    queries = 0
    time = 0.0
    slowest = (0.0, '')


def has_quant(e, _cache={}):
    kx = e.get_id()
    r = _cache.get(kx)
    if r is not None:
        return r[0]
    res = False
    st = [e]
    seen = set()
    while st:
        t = st.pop()
        if z3.is_quantifier(t):
            res = True
            break
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        st.extend(t.children())
    _cache[kx] = (res, e)
    return res


SEEDS = (7, 'arith')      # an unproved goal is tried again with another search: whether instances are found depends on it


def mk_solver(timeout_ms, seed=7):
    s = z3.SimpleSolver()
    s.set('smt.auto_config', False)
    s.set('smt.mbqi', False)
    if seed == 'arith':
        s.set('smt.arith.solver', 2)
        seed = 31
    s.set('timeout', int(timeout_ms))
    s.set('smt.random_seed', seed)
    return s


def relevant_axioms(fs, axioms):
    """background axioms whose trigger symbols can occur (cheap reachability over uninterpreted symbols)"""
    syms = set()
    for f in fs:
        syms |= symbols(f)
    ax_syms = _axsyms(axioms)
    key = frozenset(syms & ax_syms)
    hit = _rel_cache.get(key)
    if hit is not None:
        return hit
    out, todo = [], list(axioms)
    changed = True
    while changed:
        changed = False
        rest = []
        for a in todo:
            need = trig_symbols(a)
            if need <= syms:
                out.append(a)
                n = symbols(a)
                if not n <= syms:
                    syms |= n
                changed = True
            else:
                rest.append(a)
        todo = rest
    _rel_cache[key] = out
    return out


_rel_cache = {}
_axs = [0, set()]


def _axsyms(axioms):
    if _axs[0] != len(axioms):
        _axs[0] = len(axioms)
        _rel_cache.clear()
        for a in axioms:
            _axs[1] |= symbols(a) | trig_symbols(a)
    return _axs[1]


def fast_add(s, fs):
    ctx, sv = s.ctx.ref(), s.solver
    for f in fs:
        z3.Z3_solver_assert(ctx, sv, f.as_ast())


_sym_cache = {}


def symbols(e):
    c = _sym_cache.get(e.get_id())
    if c is not None:
        return c[1]
    out, st, seen = set(), [e], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            for p in range(t.num_patterns()):
                st.append(t.pattern(p))
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() != 'pattern':
                out.add(t.decl().name())
            st.extend(t.children())
    _sym_cache[e.get_id()] = (e, out)
    return out


_trig_cache = {}


def trig_symbols(a):
    c = _trig_cache.get(a.get_id())
    if c is not None:
        return c[1]
    out = set()
    if z3.is_quantifier(a):
        # any one pattern suffices; take the first
        if a.num_patterns():
            out = {s for s in symbols(a.pattern(0)) if not s.startswith('ax!')}
    else:
        out = {s for s in symbols(a)}
        out = {s for s in out if s.startswith('str!')} or out
    _trig_cache[a.get_id()] = (a, out)
    return out


def prove(pc, goal, timeout_ms=3000, qf=False, extra=()):
    """True if pc (with the background axioms) entails goal; 'sat'/'unknown' strings are not returned, only a bool"""
    if is_true(goal):
        return True
    t0 = time.time()
    Stats.queries += 1
    fs = [f for f in pc if not (qf and has_quant(f))]
    g = Not(goal)
    # several searches, the first one short: which instances are found depends on the search, and a hopeless one is better left early
    plan = [(7, min(timeout_ms, 2500)), ('pre', timeout_ms // 2), (7, timeout_ms), ('arith', timeout_ms)]
    ax = None
    for n, (seed, ms) in enumerate(plan):
        if n == 2 and timeout_ms <= 2500 or n == 3 and time.time() - t1 > timeout_ms / 2000:
            continue
        t1 = time.time()
        if seed == 'pre':
            s = z3.Solver()
            s.set('smt.auto_config', False)
            s.set('smt.mbqi', False)
            s.set('timeout', int(ms))
        else:
            s = mk_solver(ms, seed)
        if not qf:
            if ax is None:
                ax = relevant_axioms(fs + [g] + list(extra), AX)
            fast_add(s, ax)
            fast_add(s, extra)
        fast_add(s, fs)
        s.add(g)
        r = s.check()
        if r != z3.unknown:
            break
    dt = time.time() - t0
    Stats.time += dt
    if dt > Stats.slowest[0]:
        Stats.slowest = (dt, str(goal)[:200])
    return r == z3.unsat


def infeasible(pc, timeout_ms=300):
    s = mk_solver(timeout_ms)
    fast_add(s, [f for f in pc if not has_quant(f)])
    Stats.queries += 1
    t0 = time.time()
    r = s.check()
    Stats.time += time.time() - t0
    return r == z3.unsat


class Batch:
    """one set of hypotheses, many goals"""

    def __init__(self, pc, goals, timeout_ms):
        self.s = mk_solver(timeout_ms, SEEDS[0])
        self.ms = timeout_ms
        t0 = time.time()
        self.fs = list(relevant_axioms(list(pc) + [g for g in goals if g is not None], AX)) + list(pc)
        fast_add(self.s, self.fs)
        Stats.time += time.time() - t0

    def valid(self, goal):
        if is_true(goal):
            return True
        t0 = time.time()
        Stats.queries += 1
        self.s.push()
        self.s.add(Not(goal))
        r = self.s.check()
        self.s.pop()
        for seed in SEEDS[1:]:
            if r == z3.unknown and time.time() - t0 < self.ms / 2000:
                s = mk_solver(self.ms, seed)
                fast_add(s, self.fs)
                s.add(Not(goal))
                r = s.check()
        dt = time.time() - t0
        Stats.time += dt
        if dt > Stats.slowest[0]:
            Stats.slowest = (dt, str(goal)[:200])
        return r == z3.unsat


def dump(pc, goal, fn):
    sv = mk_solver(1000)
    fast_add(sv, relevant_axioms(list(pc) + [goal], AX))
    fast_add(sv, pc)
    sv.add(Not(goal))
    open(fn, 'w').write(sv.to_smt2())
