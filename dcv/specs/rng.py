"""Contracts of the global random device: lock discipline and the sequence it hands out."""
import z3
from z3 import And, BoolVal
import logic as L
import stdmodel
from contract import Contract
from il import walk

ENG, MTX = 'glob:global_rng', 'glob:global_rng_mutex'


class Global(Contract):
    exc_type = None

    def setup(self, ex, f):
        r = super().setup(ex, f)
        g = [g for g in ex.p.G if g['qn'].endswith('random_device_statics<>::global_rng')]
        if not g:
            from exec import Unsupported
            raise Unsupported('no global engine')
        ex.opts['guarded'] = {}
        ex.store[ENG] = ex.fresh(g[0]['t'], 'engine')
        ex.opts['guarded'] = {ENG: MTX}
        return r

    def modifies(self, c):
        return [(ENG,)]

    def unlocked(self, c):
        return [('the mutex is released: ' + k, z3.Not(v)) for k, v in c.post.items() if k.startswith('ghost:held:')]


class Next(Global):
    sig = 'dcgp::random_device::next()'

    def ensures(self, c):
        e0, e1 = c.old((ENG,)), c.new((ENG,))
        d, n = stdmodel.draw('raw', e0.sort(), 0, L.I, L.I)
        return [('the number handed out is the next element of the sequence', c.ret == d(e0)),
                ('exactly one element is taken from the sequence', e1 == n(e0))] + self.unlocked(c)

    def throw_ensures(self, c):
        return self.unlocked(c)


class SetSeed(Global):
    sig = 'dcgp::random_device::set_seed(unsigned int)'

    def ensures(self, c):
        e1 = c.new((ENG,))
        return [('the sequence restarts as a function of the seed alone', e1 == stdmodel.SEED(e1.sort())(c.arg(0)))] + self.unlocked(c)


REG = {c.sig: c for c in (Next(), SetSeed())}


def scan(P):
    """every function that can reach the shared engine is under contract, or is a helper used by those only"""
    out = []
    gl = [g for g in P.G if g['qn'].split('::')[-1] in ('global_rng', 'global_rng_mutex')]
    out.append(('the shared engine and its mutex exist', len(gl) == 2, 'dcgp/rng.hpp'))
    for g in gl:
        out.append(('%s is one object for all threads' % g['qn'], not g.get('tls'), 'dcgp/rng.hpp:%s' % g.get('line')))
        out.append(('%s is one object for all translation units' % g['qn'], bool(g.get('shared')), 'dcgp/rng.hpp:%s' % g.get('line')))
    ids = {g['id'] for g in gl}
    ref, callers = set(), {}
    for f in P.F:
        if 'body' not in f:
            continue
        for n in walk([f['body'], f.get('inits') or []]):
            if n.get('k') in ('ref', 'mem') and n.get('id') in ids and n.get('dk', 'global') == 'global':
                ref.add(f['sig'])
            if n.get('fn') is not None and n['k'] in ('call', 'mcall', 'opcall', 'ctor', 'ref'):
                callers.setdefault(P.F[n['fn']]['sig'], set()).add(f['sig'])
    ok = set(REG)
    changed = True
    while changed:
        changed = False
        for s in ref - ok:
            cs = callers.get(s, set())
            if cs and cs <= ok | {s}:
                ok.add(s)
                changed = True
    for s in sorted(ref):
        out.append(('%s reaches the shared engine only under the lock' % s, s in ok, s))
    return out
