"""Execution with doubles read as real numbers: every arithmetic term is kept in the normal form of rational functions, so
that two ways of writing the same formula give the same term. Used where a property speaks about a mathematical formula."""
import math
import sympy
import z3
from z3 import Function, IntVal, Select
import logic as L
from logic import I, D
from exec import Exec

RLIT = Function('rlit', I, D)
_rl = {}
_sym, _atom = {}, {}
_keep = {}


def sym(t):
    """sympy symbol of an atomic term"""
    k = t.sexpr()
    if k not in _sym:
        _sym[k] = sympy.Symbol('a%05d' % len(_sym), real=True)
        _atom[_sym[k]] = t
    return _sym[k]


def int2s(t):
    """sympy expression of an integer term (polynomial over its atoms)"""
    r = sympy.Integer(0)
    for mono, c in L.poly(t).items():
        m = sympy.Integer(c)
        for k, a in mono:
            m *= sym(L.I2D(a.t))
        r += m
    return r


FUN = {}


def fun(name, n=1):
    if name not in FUN:
        FUN[name] = Function('m_' + name, *[D] * n, D)
    return FUN[name]


def to_s(t):
    i = t.get_id()
    if i in _keep:
        return _keep[i][0]
    t0 = t
    t = z3.simplify(t) if t.decl().kind() == z3.Z3_OP_SELECT else t
    n = t.decl().name()
    if n == 'dadd':
        r = to_s(t.arg(0)) + to_s(t.arg(1))
    elif n == 'dsub':
        r = to_s(t.arg(0)) - to_s(t.arg(1))
    elif n == 'dmul':
        r = to_s(t.arg(0)) * to_s(t.arg(1))
    elif n == 'ddiv':
        r = to_s(t.arg(0)) / to_s(t.arg(1))
    elif n == 'dneg':
        r = -to_s(t.arg(0))
    elif n == 'i2d':
        r = int2s(t.arg(0))
    elif n == 'dlit' and z3.is_int_value(t.arg(0)):
        f = [x for x, k in L._flits.items() if k == t.arg(0).as_long()][0]
        r = sympy.Rational(*f.as_integer_ratio())
    elif n == 'rlit':
        r = [x for x, k in _rl.items() if k == t.arg(0).as_long()][0]
    elif n.startswith('m_') and t.num_args():
        r = mathfun(n[2:], [to_s(a) for a in t.children()])
    else:
        r = sym(t)
    _keep[i] = (r, t0)
    return r


def mathfun(name, args):
    if name == 'pow':
        b, x = args
        if x.is_Integer:
            return b**x
        if x.is_Rational and x == sympy.Rational(1, 2):
            return mathfun('sqrt', [b])
    if name == 'exp' and args[0] == 0:
        return sympy.Integer(1)
    if name == 'fabs':
        name = 'abs'
    args = [norm_s(a) for a in args]
    sign = 1
    if name in ('sin', 'tanh', 'cos', 'abs') and len(args) == 1 and args[0].could_extract_minus_sign():
        args = [norm_s(-args[0])]
        sign = -1 if name in ('sin', 'tanh') else 1
    return sign * sym(fun(name, len(args))(*[from_s(a) for a in args]))


def norm_s(e):
    if e.is_Symbol or e.is_Rational:
        return e
    return sympy.cancel(sympy.together(e))


def lit(r):
    r = sympy.Rational(r)
    if r.q == 1 and abs(r.p) < 2**53:
        return L.I2D(IntVal(int(r.p)))
    try:
        f = r.p / r.q
        if sympy.Rational(*float(f).as_integer_ratio()) == r:
            return L.dlit(f)
    except OverflowError:
        pass
    if r not in _rl:
        _rl[r] = len(_rl)
    return RLIT(IntVal(_rl[r]))


def poly_z(e):
    e = sympy.expand(e)
    terms = sorted(e.as_ordered_terms(), key=lambda m: str(m))
    out = None
    for m in terms:
        c, rest = m.as_coeff_Mul()
        fs = []
        for f in sympy.Mul.make_args(rest):
            b, x = f.as_base_exp()
            if b == 1:
                continue
            if not (x.is_Integer and x > 0):
                raise ValueError('not a polynomial: %s' % e)
            fs += [_atom[b]] * int(x)
        t = None
        for f in sorted(fs, key=lambda a: a.sexpr()):
            t = f if t is None else L.DMUL(t, f)
        if t is None:
            t = lit(c)
        elif c != 1:
            t = L.DMUL(lit(c), t)
        out = t if out is None else L.DADD(out, t)
    return out


def from_s(e):
    e = norm_s(e)
    if e.is_Symbol:
        return _atom[e]
    if e.is_Rational:
        r = lit(e)
    else:
        n, d = sympy.fraction(e)
        # common normalisation: leading numeric content into the numerator
        n, d = sympy.expand(n), sympy.expand(d)
        if d.is_Rational:
            r = poly_z(n / d)
        else:
            c = sympy.Poly(d, *sorted(d.free_symbols, key=str)).LC()
            r = L.DDIV(poly_z(n / c), poly_z(d / c))
    _keep[r.get_id()] = (e, r)
    return r


def nf(t):
    return from_s(to_s(t))


class RingExec(Exec):
    """doubles as reals"""

    def darith(self, op, a, b):
        x, y = to_s(a), to_s(b)
        if op == '/' and y == 0:
            return super().darith(op, a, b)
        return from_s({'+': x + y, '-': x - y, '*': x * y}[op] if op != '/' else x / y)

    def dneg(self, v):
        return from_s(-to_s(v))

    def i2d(self, v):
        return from_s(int2s(v))

    def mathcall(self, name, args):
        return from_s(mathfun(name, [to_s(a) for a in args]))


# the same operations for specifications: small expression class over sympy
def S(t):
    return to_s(t)


def num(v):
    if isinstance(v, float):
        return sympy.Rational(*v.as_integer_ratio())
    return sympy.Integer(v)
