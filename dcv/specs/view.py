"""Expressions as their users see them: what is fixed (grid, kernels, names, correction), the chromosome, the constants and
the engine. The contracts of the members of expression proved in group expr say that these parts behave as used here."""
import re
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Function, Select, IntVal, BoolVal, MultiPattern, Const, Int
import logic as L
from logic import I, D, B, S as STR, AI, AD, AS
from exec import Exec, Vec, Rec, Iter, Unsupported, ThrowSig, VOID
from stdmodel import objpath, vecval
import stdmodel

ED, EG = 'dcgp::expression<double>', 'dcgp::expression<audi::gdual<audi::vectorized<double>>>'
GDV, VZ = 'audi::gdual<audi::vectorized<double>>', 'audi::vectorized<double>'
KEYD, KEYG = L.usort('U_fixed_part'), L.usort('U_fixed_part_of_differential')
KEYS = {ED: KEYD, EG: KEYG}
GU = L.usort('U_audi_gdual_audi_vectorized_double_')
ENG = L.usort('U_engine')
KU = L.usort('U_dcgp_kernel_double_')
SQI, SQD, SQS, SQG = [L.usort('Seq' + n) for n in ('Unsigned', 'Double', 'String', 'Gdual')]
AG = z3.ArraySort(I, GU)
# a sequence of n values, whatever array they are kept in
SI, SD, SS, SG = (L.extfun('seq_unsigned', [], I, SQI), L.extfun('seq_double', [], D, SQD), L.extfun('seq_string', [], STR, SQS), L.extfun('seq_gdual', [], GU, SQG))
SEQ = {I: SI, D: SD, STR: SS, GU: SG}


def fs(name, *sig):
    return Function(name, *sig)


# parts of the fixed part
XLEN = {k: fs('xlen_' + k.name(), k, I) for k in (KEYD, KEYG)}
NEPH = {k: fs('neph_' + k.name(), k, I) for k in (KEYD, KEYG)}
LBA = {k: fs('lb_' + k.name(), k, AI) for k in (KEYD, KEYG)}
UBA = {k: fs('ub_' + k.name(), k, AI) for k in (KEYD, KEYG)}
ESY = {k: fs('eph_names_' + k.name(), k, AS) for k in (KEYD, KEYG)}
PCSET = {k: fs('with_correction_' + k.name(), k, L.usort('PC' + k.name()), k) for k in (KEYD, KEYG)}
PCNO = {k: fs('without_correction_' + k.name(), k, k) for k in (KEYD, KEYG)}
VS = L.vec_sort(D)
PTS = z3.ArraySort(I, VS)
# what queries return: functions of the fixed part, the chromosome and the constants
AGL, AGA = fs('active_genes_len', KEYD, SQI, I), fs('active_genes', KEYD, SQI, AI)
EVL, EVA = fs('eval_len', KEYD, SQI, SQD, SQD, I), fs('eval', KEYD, SQI, SQD, SQD, AD)
EVSL, EVSA = fs('formula_len', KEYD, SQI, SQD, SQS, I), fs('formula', KEYD, SQI, SQD, SQS, AS)
ACC = fs('accepts_a_point_of_size', KEYD, I, B)
LOSSD = fs('loss', KEYD, SQI, SQD, I, PTS, I, PTS, STR, I, D)
LACC = fs('loss_accepts', KEYD, I, PTS, I, PTS, STR, I, B)
LOSSG = fs('differential_loss', KEYG, SQI, SQG, I, AG, I, AG, I, GU)
GVAR = fs('gdual_variable', D, STR, I, GU)
GCST = fs('gdual_constant', SQD, GU)
DERL, DERA = fs('derivative_lanes', GU, z3.ArraySort(STR, I), I), fs('derivative', GU, z3.ArraySort(STR, I), AD)
CCL, CCA = fs('constant_lanes', GU, I), fs('constant_coefficient', GU, AD)
ORD, EXT = fs('order', GU, I), fs('with_symbols', GU, SQS, GU)
TXT = {STR: fs('text_of_string', STR, STR), SQS: fs('text_of_strings', SQS, STR), D: fs('text_of_double', D, STR), I: L.SINT}
_k, _q, _n = Int('l!vk'), Int('l!vq'), Int('l!vn')
_xa = Const('l!vxa', AD)
_g, _ss = Const('l!vg', GU), Const('l!vss', SQS)
L.AX.append(ForAll([_g, _ss], And(CCL(EXT(_g, _ss)) == CCL(_g), CCA(EXT(_g, _ss)) == CCA(_g)), patterns=[EXT(_g, _ss)]))
# integer values of the cells k, k+1, ... of an array of doubles
MAPX = fs('genes_from', I, AD, AI)
L.AX.append(ForAll([_k, _xa, _q], Select(MAPX(_k, _xa), _q) == L.D2I(Select(_xa, _k + _q)), patterns=[Select(MAPX(_k, _xa), _q)]))
for _ks in (KEYD, KEYG):
    _c = Const('l!vkey' + _ks.name(), _ks)
    _p = Const('l!vpc' + _ks.name(), L.usort('PC' + _ks.name()))
    L.AX += [ForAll([_c], And(XLEN[_ks](_c) >= 1, XLEN[_ks](_c) < 2**32), patterns=[XLEN[_ks](_c)]),
             ForAll([_c], And(NEPH[_ks](_c) >= 0, NEPH[_ks](_c) < 2**32), patterns=[NEPH[_ks](_c)])]
    for _t, _pt in ((PCSET[_ks](_c, _p), [_c, _p]), (PCNO[_ks](_c), [_c])):
        L.AX.append(ForAll(_pt, And([F_[_ks](_t) == F_[_ks](_c) for F_ in (XLEN, NEPH, LBA, UBA, ESY)]), patterns=[_t]))


def vtype(p, s):
    """type id of a spelled type"""
    for n, ty in enumerate(p.T):
        if ty.get('s') == s:
            return n
    raise Unsupported('no type ' + s)


class ViewExec(Exec):
    def view(self, t):
        return self.p.tkey(t) if self.ct(t) == 'rec' else None

    def sort(self, t):
        if self.ct(t) == 'rec' and self.view(t) == GDV:
            return GU
        if self.ct(t) == 'rec' and self.p.ty(t)['qn'] == 'dcgp::kernel' and self.view(t) != 'dcgp::kernel<double>':
            return GKU
        return super().sort(t)

    def fresh(self, t, name):
        if self.ct(t) == 'rec':
            k = self.view(t)
            if k in KEYS:
                u, g = self.u32(), self.f64() if k == ED else self.gd()
                return Rec(self.p.strip(t), {'key': Const(self.nm(name + '.fixed'), KEYS[k]), 'x': self.vec(name + '.x', u), 'eph': self.vec(name + '.eph', g),
                                             'eng': Const(self.nm(name + '.eng'), ENG)})
            if k == VZ:
                return Rec(self.p.strip(t), {'c': self.vec(name + '.c', self.f64())})
            if k.startswith('std::basic_ostringstream'):
                return Rec(self.p.strip(t), {'s': Const(self.nm(name), STR)})
            if self.p.ty(t)['qn'] == 'std::unordered_map':
                a = self.targs(t)
                return Vec(0, Const(self.nm(name), z3.ArraySort(self.sort(a[0]), self.sort(a[1]))), a[1])
            if self.p.ty(t)['qn'] == 'dcgp::kernel_set':
                return Rec(self.p.strip(t), {'names': Vec(z3.Int(self.nm(name)), Const(self.nm(name + '.names'), AS), vtype(self.p, 'class std::basic_string<char>'))})
        return super().fresh(t, name)

    def default(self, t):
        if self.ct(t) == 'rec':
            qn = self.p.ty(t)['qn']
            if qn == 'std::unordered_map':
                a = self.targs(t)
                return Vec(0, z3.K(self.sort(a[0]), IntVal(0)), a[1])
            if qn == 'std::basic_ostringstream':
                return Rec(self.p.strip(t), {'s': L.slit('')})
            if qn == 'dcgp::kernel_set':
                return Rec(self.p.strip(t), {'names': self.empty_vec(vtype(self.p, 'class std::basic_string<char>'))})
        return super().default(t)

    def vec(self, name, et):
        n = z3.Int(self.nm(name + '.len'))
        self.assume(And(n >= 0, n < self.MAXLEN))
        return Vec(n, Const(self.nm(name), z3.ArraySort(I, self.sort(et))), et)

    def u32(self):
        return vtype(self.p, 'unsigned int')

    def f64(self):
        return vtype(self.p, 'double')

    def gd(self):
        for n, ty in enumerate(self.p.T):
            if ty['c'] == 'rec' and self.p.tkey(n) == GDV:
                return n
        raise Unsupported('no type gdual')


MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def obj(ex, e):
    p, a = objpath(ex, e)
    v = ex.read(p)
    if not (isinstance(v, Rec) and 'key' in v.f):
        raise Unsupported('expression expected')
    return p, v, a


def part(ex, name, key, val):
    """a part returned by reference: the same object at every call"""
    r = 'view:%s:%d' % (name, key.get_id())
    ex.store[r] = val
    return (r,)


def args(ex, a):
    out = []
    for x in a:
        v = ex.ev(x)
        if isinstance(v, tuple) and v and v[0] != 'fn':
            v = ex.read(v)
        out.append(v)
    return out


def sq(v):
    return SEQ[v.arr.sort().range()](v.len, v.arr)


def inb(K, arr):
    """the genes are within the bounds of the fixed part"""
    s = K.sort()
    return ForAll([_q], Implies(And(0 <= _q, _q < XLEN[s](K)), And(Select(LBA[s](K), _q) <= Select(arr, _q), Select(arr, _q) <= Select(UBA[s](K), _q))),
                  patterns=[Select(arr, _q)])


def set_chromosome(ex, p, v, x):
    K = v.key
    ok = z3.Bool(ex.nm('accepted'))
    w = z3.Int(ex.nm('wit'))
    s = K.sort()
    ex.assume(Implies(ok, And(x.len == XLEN[s](K), inb(K, x.arr))))
    ex.assume(Implies(Not(ok), Or(x.len != XLEN[s](K), And(0 <= w, w < XLEN[s](K), Or(Select(x.arr, w) < Select(LBA[s](K), w), Select(x.arr, w) > Select(UBA[s](K), w))))))
    if not ex.choose(ok):
        raise ThrowSig('std::invalid_argument')
    ex.write(p + (('f', 'x'),), Vec(x.len, x.arr, v.x.et))
    return VOID


@model('dcgp::expression::set')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    return set_chromosome(ex, p, v, args(ex, a)[0])


@model('dcgp::expression::set_from_range')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    ia, ib = args(ex, a)
    src, s, n = stdmodel.range_of(ex, ia, ib)
    if src.arr.sort() != AI:
        raise Unsupported('range of doubles')
    return set_chromosome(ex, p, v, stdmodel.sub_vec(ex, src, s, n, src.et))


@model('dcgp::expression::set_eph_val')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    x = args(ex, a)[0]
    if not ex.choose(x.len == NEPH[v.key.sort()](v.key)):
        raise ThrowSig('std::invalid_argument')
    ex.write(p + (('f', 'eph'),), Vec(x.len, x.arr, v.eph.et))
    return VOID


@model('dcgp::expression::get')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    return p + (('f', 'x'),)


@model('dcgp::expression::get_eph_val')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    return p + (('f', 'eph'),)


@model('dcgp::expression::get_lb', 'dcgp::expression::get_ub')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    F_ = LBA if f['name'] == 'get_lb' else UBA
    return part(ex, f['name'], v.key, Vec(XLEN[v.key.sort()](v.key), F_[v.key.sort()](v.key), v.x.et))


@model('dcgp::expression::get_eph_symb')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    return part(ex, 'symb', v.key, Vec(NEPH[v.key.sort()](v.key), ESY[v.key.sort()](v.key), vtype(ex.p, 'class std::basic_string<char>')))


@model('dcgp::expression::get_active_genes')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    s = sq(v.x)
    n = AGL(v.key, s)
    ex.assume(And(n >= 0, n < 2**32))
    return part(ex, 'active', s, Vec(n, AGA(v.key, s), v.x.et))


@model('dcgp::expression::operator()')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    pt = args(ex, a)[0]
    if v.key.sort() != KEYD:
        raise Unsupported('evaluation of a differential expression')
    s = sq(pt)
    FL, FA = (EVL, EVA) if s.sort() == SQD else (EVSL, EVSA)
    if s.sort() not in (SQD, SQS):
        raise Unsupported('evaluation at these values')
    if not ex.choose(ACC(v.key, pt.len)):
        raise ThrowSig('std::invalid_argument')
    t = (v.key, sq(v.x), sq(v.eph), s)
    ex.assume(And(FL(*t) >= 0, FL(*t) < 2**32))
    return Vec(FL(*t), FA(*t), pt.et)


@model('dcgp::expression::loss')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    pt, lb, kind = args(ex, a[:3])
    par = args(ex, a[3:4])[0] if len(a) > 3 and a[3] is not None and a[3]['k'] != 'unk' else IntVal(0)
    if v.key.sort() == KEYD and pt.arr.sort() == PTS and kind.sort() == STR:
        if not ex.choose(LACC(v.key, pt.len, pt.arr, lb.len, lb.arr, kind, par)):
            raise ThrowSig('std::invalid_argument')
        return LOSSD(v.key, sq(v.x), sq(v.eph), pt.len, pt.arr, lb.len, lb.arr, kind, par)
    if v.key.sort() == KEYG and pt.arr.sort() == AG and kind.sort() == I:
        return LOSSG(v.key, sq(v.x), sq(v.eph), pt.len, pt.arr, lb.len, lb.arr, kind)
    raise Unsupported('this loss')


@model('dcgp::expression::set_phenotype_correction', 'dcgp::expression::unset_phenotype_correction')
def _(ex, e, f, w):
    p, v, a = obj(ex, e)
    s = v.key.sort()
    if a:
        fv = args(ex, a)[0]
        K = PCSET[s](v.key, Function('pc_of', fv.sort(), L.usort('PC' + s.name()))(fv))
    else:
        K = PCNO[s](v.key)
    ex.write(p + (('f', 'key'),), K)
    return VOID


# ---- construction: the fixed part is that of these arguments ----------------------------------------------------------------
KUG = None
GKU = L.usort('U_kernel_of_gdual')
SKD, SKG = L.extfun('seq_kernel', [], KU, L.usort('SeqKernel')), L.extfun('seq_gkernel', [], GKU, L.usort('SeqGkernel'))
DIMS = [I, I, I, I, I, I, I, I]        # inputs without and with constants, outputs, rows, columns, levels-back, arity, kernels
LXL, LLB, LUB = fs('layout_len', *DIMS, I), fs('layout_lb', *DIMS, AI), fs('layout_ub', *DIMS, AI)
CNAMES = Const('constant_names', AS)   # c1, c2, ...
L.AX.append(ForAll([_q], Select(CNAMES, _q) == L.cat(L.slit('c'), L.SINT(_q + 1)), patterns=[Select(CNAMES, _q)]))
MKD, MKG = fs('fixed_of', *DIMS, SKD(IntVal(0), Const('k0', z3.ArraySort(I, KU))).sort(), KEYD), fs('fixed_of_differential', *DIMS, SKG(IntVal(0), Const('k1', z3.ArraySort(I, GKU))).sort(), KEYG)
_d = z3.Ints('l!d0 l!d1 l!d2 l!d3 l!d4 l!d5 l!d6 l!d7')
for _mk in (MKD, MKG):
    _s = Const('l!mk' + _mk.name(), _mk.domain(8))
    _t = _mk(*_d, _s)
    _ks = _mk.range()
    L.AX.append(ForAll(list(_d) + [_s], And([XLEN[_ks](_t) == LXL(*_d), LBA[_ks](_t) == LLB(*_d), UBA[_ks](_t) == LUB(*_d), NEPH[_ks](_t) == L.norm(_d[1] - _d[0]), ESY[_ks](_t) == CNAMES]
                                            + ([ForAll([_q], ACC(_t, _q) == (_q == _d[0]), patterns=[ACC(_t, _q)])] if _ks == KEYD else [])), patterns=[_t]))
KNOWN = fs('name_of_a_kernel', STR, B)
GKER = fs('differential_kernel', STR, GKU)
GKA = fs('differential_kernels', AS, z3.ArraySort(I, GKU))
_as0 = Const('l!as0', AS)
L.AX.append(ForAll([_as0, _q], Select(GKA(_as0), _q) == GKER(Select(_as0, _q)), patterns=[Select(GKA(_as0), _q)]))
KER = fs('kernel_of_doubles', STR, KU)
KA = fs('kernels_of_doubles', AS, z3.ArraySort(I, KU))
L.AX.append(ForAll([_as0, _q], Select(KA(_as0), _q) == KER(Select(_as0, _q)), patterns=[Select(KA(_as0), _q)]))
L.AX.append(KNOWN(L.slit('sum')))      # C11: the kernel set knows it
START = fs('engine_started_at', I, ENG)


@model('ctor:dcgp::expression')
def _(ex, e, f):
    a = args(ex, e['args'])
    if len(a) == 1 and isinstance(a[0], Rec):
        return a[0]
    if len(a) != 9:
        raise Unsupported('this constructor of expression')
    n, m, r, c, l, ar, ker, ne, seed = a
    if isinstance(ar, Vec):
        raise Unsupported('arity vector')
    if not ex.choose(And(n + ne != 0, m != 0, r != 0, c != 0, l != 0, ker.len != 0, ar != 0)):
        raise ThrowSig('std::invalid_argument')
    dbl = ex.view(e['t']) == ED
    mk, sk = (MKD, SKD) if dbl else (MKG, SKG)
    if ker.arr.sort().range() != (KU if dbl else GKU):
        raise Unsupported('kernels of another type')
    v = ex.fresh(e['t'], 'built')
    ex.assume(v.key == mk(n, L.norm(n + ne), m, r, c, l, ar, ker.len, sk(ker.len, ker.arr)))
    ex.assume(And(v.x.len == XLEN[v.key.sort()](v.key), v.eph.len == ne, v.eng == START(seed)))
    ex.assume(inb(v.key, v.x.arr))
    return v


@model('ctor:dcgp::kernel_set')
def _(ex, e, f):
    if e['args']:
        v = args(ex, e['args'])[0]
        if isinstance(v, Rec):
            return v
        if not isinstance(v, Vec) or v.arr.sort() != AS:
            raise Unsupported('this constructor of kernel_set')
        if not ex.choose(ForAll([_q], Implies(And(0 <= _q, _q < v.len), KNOWN(Select(v.arr, _q))), patterns=[Select(v.arr, _q)])):
            raise ThrowSig('std::invalid_argument')
        r = ex.default(e['t'])
        return Rec(r.t, dict(r.f, names=Vec(v.len, v.arr, r.names.et)))
    return ex.default(e['t'])


@model('dcgp::kernel_set::push_back')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    nm = args(ex, a)[0]
    if nm.sort() != STR:
        raise Unsupported('push_back of a kernel')
    if not ex.choose(KNOWN(nm)):
        raise ThrowSig('std::invalid_argument')
    stdmodel.append(ex, p + (('f', 'names'),), nm)
    return VOID


@model('dcgp::kernel_set::operator()')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    v = ex.read(p).names
    et = ex.targs(e['t'])[0]
    arr = KA if ex.sort(et) == KU else GKA
    return Vec(v.len, arr(v.arr), et)


# ---- AuDi ---------------------------------------------------------------------------------------------------------------
@model('audi::vectorized::begin')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return Iter(p + (('f', 'c'),), 0)


@model('audi::vectorized::end')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return Iter(p + (('f', 'c'),), ex.read(p).c.len)


@model('audi::vectorized::size')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return ex.read(p).c.len


def lanes(ex, t, ln, arr):
    ex.assume(And(ln >= 1, ln < 2**32))
    return Rec(t, {'c': Vec(ln, arr, ex.f64())})


@model('audi::gdual::constant_cf')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    g = ex.read(p)
    return lanes(ex, e['t'], CCL(g), CCA(g))


@model('audi::gdual::get_order')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    g = ex.read(p)
    ex.assume(And(ORD(g) >= 0, ORD(g) < 2**32))
    return ORD(g)


@model('audi::gdual::extend_symbol_set')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    g = ex.read(p)
    ex.write(p, EXT(g, sq(args(ex, a)[0])))
    return VOID


@model('audi::gdual::get_derivative')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    g, m = ex.read(p), args(ex, a)[0]
    if m.arr.sort() != z3.ArraySort(STR, I):
        raise Unsupported('derivative by multi-index')
    return lanes(ex, e['t'], DERL(g, m.arr), DERA(g, m.arr))


def gd_value(ex, vals):
    if len(vals) == 3 and vals[0].sort() == D:
        return GVAR(*vals)
    if len(vals) == 1 and isinstance(vals[0], Vec):
        return GCST(sq(vals[0]))
    if len(vals) == 1 and isinstance(vals[0], z3.ExprRef) and vals[0].sort() == GU:
        return vals[0]
    raise Unsupported('this differential number')


@model('ctor:audi::gdual')
def _(ex, e, f):
    if not e['args']:
        return Const('gdual_zero', GU)
    return gd_value(ex, args(ex, e['args']))


@model('emplace:' + GDV)
def _(ex, vals, et):
    return gd_value(ex, [ex.read(v) if isinstance(v, tuple) else v for v in vals])


# ---- std::unordered_map<std::string, unsigned>, streams -----------------------------------------------------------------
@model('ctor:std::unordered_map')
def _(ex, e, f):
    d = ex.default(e['t'])
    if e['args'] and ex.p.ty(f['params'][0]['t'])['qn'] == 'std::initializer_list':
        il = ex.ev(e['args'][0])
        a = d.arr
        for v in reversed(il.vals):
            a = z3.Store(a, v.f['0'], v.f['1'])
        return Vec(0, a, d.et)
    if e['args']:
        raise Unsupported('this map')
    return d


@model('std::unordered_map::operator[]')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return p + (('i', args(ex, a)[0]),)


@model('ctor:std::basic_ostringstream')
def _(ex, e, f):
    return ex.default(e['t'])


@model('std::basic_ostringstream::str')
def _(ex, e, f, w):
    p, a = objpath(ex, e)
    return ex.read(p).s


def text(ex, v):
    if isinstance(v, Vec) and v.arr.sort() == AS:
        return TXT[SQS](sq(v))
    if isinstance(v, z3.ExprRef) and v.sort() == STR:
        return v
    if isinstance(v, z3.ExprRef) and v.sort() in TXT:
        return TXT[v.sort()](v)
    if isinstance(v, Vec) and v.arr.sort().range() == SYM:
        return TXT_SYM(v.len, v.arr)
    raise Unsupported('printing this')


SYM = L.usort('U_SymEngine_Expression')
TXT_SYM = L.extfun('text_of_symbolic', [], SYM, STR)
SYMOF = fs('symbolic', STR, SYM)


@model('emplace:SymEngine::Expression')
def _(ex, vals, et):
    return SYMOF(*[ex.read(v) if isinstance(v, tuple) else v for v in vals])


@model('pagmo::stream')
def _(ex, e, f, w):
    p = ex.lv(e['args'][0])
    v = ex.read(p)
    if not (isinstance(v, Rec) and 's' in v.f):
        raise Unsupported('stream')
    out = v.s
    for a in args(ex, e['args'][1:]):
        out = L.cat(out, text(ex, a))
    ex.write(p + (('f', 's'),), out)
    return VOID


KW = dict(ex_cls=ViewExec, extra_models=MODELS, opaque={ED, EG, 'dcgp::kernel<double>', 'dcgp::kernel', 'dcgp::function', 'dcgp::expression', 'audi::gdual', 'audi::vectorized', 'dcgp::kernel_set',
                                                       'std::unordered_map', 'std::basic_ostringstream', 'SymEngine::Expression'})
