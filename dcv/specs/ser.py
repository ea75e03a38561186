"""Contracts of the serialize members: what is written by saving is read back by loading, and every member is.

One object is saved and another, with an arbitrary state, is loaded from what was written: afterwards each member of
the second must equal that of the first. The archive is a sequence of values; the values of library types and of
members of class type (whose own serialize members have contracts here) are opaque."""
import re
import z3
from z3 import And, BoolVal
import logic as L
import func
from contract import Contract
from exec import Exec, Rec, RetSig, Unsupported, VOID

OA, IA = 'dcv_oarchive', 'dcv_iarchive'
LOADED = ('ghost:loaded',)


def basekey(p, t):
    return '<' + p.tkey(t) + '>'


class Members:
    """objects of the class under contract are records of opaque members; everything else is opaque"""

    def members(self, t, r=None):
        r = r or self.p.record(t)
        out = []
        for b in r['bases']:
            br = self.p.record(b)
            out += self.members(b, br) if br else [(basekey(self.p, b), b)]
        return out + [(f['name'], f['t']) for f in r['fields']]

    def osort(self, t):
        return L.usort('U_' + re.sub(r'\W+', '_', self.p.tkey(t)))

    def whole(self, t, name):
        return Rec(t, {n: self.member(ft, name + '.' + n) for n, ft in self.members(t)})

    def member(self, t, name):
        return z3.Const(self.nm(name), self.osort(t))

    def same(self, a, b):
        return super().same(a, b)


class SerExec(Members, Exec):
    def sort(self, t):
        return self.osort(t)

    def fresh(self, t, name):
        return self.member(t, name)


class FSerExec(Members, func.FuncExec):
    def whole(self, t, name):
        return self.fresh(t, name)


def part(ex, path, t):
    """the members of the object at path that its (base) class t has, None when t is its own type or it is no object"""
    v = ex.read(path)
    if not isinstance(v, Rec) or v.t is None or ex.p.tkey(t) == ex.p.tkey(v.t):
        return None
    if not any(ex.p.tkey(t) == k.strip('<>') or ex.p.tkey(t) == k for k in bases(ex, v.t)):
        raise Unsupported('archive of an object as ' + ex.p.ts(t))
    r = ex.p.record(t)
    return [n for n, _ in ex.members(t, r)] if r else [basekey(ex.p, t)]


def bases(ex, t):
    r = ex.p.record(t)
    out = []
    for b in (r['bases'] if r else []):
        out += [ex.p.tkey(b)] + bases(ex, b)
    return out


def arch(ex, e, f, w):
    a = e['args'] if e['k'] != 'mcall' else [e['obj']] + e['args']
    loading = IA in ex.p.ts(ex.p.strip(f['cls']))
    t = ex.p.strip(f['params'][0]['t'])
    path = ex.lv(a[1])
    ex.lv(a[0])
    names = part(ex, path, t)
    paths = [path] if names is None else [path + (('f', n),) for n in names]
    if names is None and isinstance(ex.read(path), Rec) and path in (('this',), LOADED):
        raise Unsupported('archive of the object itself')
    tag = ex.p.tkey(t)
    if loading:
        i = ex.tpos
        ok = i < len(ex.tape) and ex.tape[i][0] == tag and len(ex.tape[i][1]) == len(paths)
        if not ok:
            ex.oblige('loads what was saved, in the same order and with the same types', BoolVal(False), 'pre')
            ex.tpos = i + 1
            return ex.lv(a[0])
        for p, v in zip(paths, ex.tape[i][1]):
            ex.write(p, v)
        ex.tpos = i + 1
    else:
        ex.tape = ex.tape + [(tag, [ex.read(p) for p in paths])]
    return ex.lv(a[0])


def split(ex, e, f, w):
    """boost: the save or load member, by the archive"""
    path = ex.lv(e['args'][1])
    t = ex.p.tkey(f['params'][1]['t'])
    A = OA if OA in ex.p.ts(ex.p.strip(f['params'][0]['t'])) else IA
    nm = 'save' if A == OA else 'load'
    for g in ex.p.F:
        if g.get('name') == nm and g.get('cls') is not None and ex.p.tkey(g['cls']) == t and 'body' in g and A in g['sig']:
            ar = ex.lv(e['args'][0])
            v = ex.temp(z3.IntVal(0), 'version')
            ex.inline(g, path, [ar, v])
            return VOID
    raise Unsupported('no %s member' % nm)


MODELS = {'boost::serialization::split_member': split, 'boost::serialization::base_object': lambda ex, e, f, w: ex.lv(e['args'][0]) if w else ex.read(ex.lv(e['args'][0]))}
for _a in (OA, IA):
    for _o in ('operator&', 'operator<<', 'operator>>'):
        MODELS[_a + '::' + _o] = arch
KW = dict(ex_cls=SerExec, extra_models=MODELS)
FKW = dict(func.KW, ex_cls=FSerExec, extra_models=dict(func.KW.get('extra_models', {}), **MODELS))
# members that nothing reads: their values cannot be observed
UNREAD = {'dcgp::symbolic_regression': ['m_cache_gradient']}


class RoundTrip(Contract):
    def __init__(self, cls, const=''):
        self.cls = cls
        self.sig = '%s::serialize(%s &, %sunsigned int)' % (cls, OA, const)
        self.load_sig = self.sig.replace(OA, IA)

    def setup(self, ex, f):
        ex.tape, ex.tpos = [], 0
        t = f['cls']
        ex.store['this'] = ex.whole(t, 'saved')
        ex.store[LOADED[0]] = ex.whole(t, 'before')
        binds = []
        for p in f['params']:
            root = 'q:' + p['name']
            ex.store[root] = z3.Const(ex.nm(p['name']), L.usort('Archive'))
            binds.append((root,))
        return ('this',), binds

    def run(self, ex, f, c):
        g = [h for h in ex.p.F if h['sig'] == self.load_sig and 'body' in h]
        if not g:
            raise Unsupported('no ' + self.load_sig)
        ex.tape, ex.tpos = [], 0
        ex.frames.pop()
        ex.inline(f, ('this',), c.binds)
        ex.inline(g[0], LOADED, c.binds)
        ex.oblige('loads everything that was saved', BoolVal(ex.tpos == len(ex.tape)), 'post')

    def modifies(self, c):
        return [LOADED]

    def ensures(self, c):
        a, b = c.old(), c.new(LOADED)
        skip = UNREAD.get(self.cls, [])
        return [('%s is restored' % n, c.ex.same(a.f[n], b.f[n])) for n in a.f if n not in skip]


V = 'audi::gdual<audi::vectorized<double>>'
REG, REGF = {}, {}
for _k in ('expression<double>', 'expression<%s>' % V, 'expression_weighted<double>', 'expression_ann', 'kernel<double>', 'kernel<%s>' % V, 'kernel_set<double>',
           'symbolic_regression', 'es4cgp', 'gd4cgp', 'mes4cgp', 'moes4cgp', 'momes4cgp', 'detail::function_inner<dcv_callable, double, const std::vector<double> &>'):
    _c = RoundTrip('dcgp::' + _k)
    REG[_c.sig] = _c
_c = RoundTrip('dcgp::function<double (const std::vector<double> &)>', 'const ')
REGF[_c.sig] = _c
