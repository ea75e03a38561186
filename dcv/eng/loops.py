"""Loops: modified set by scanning, then the strongest conjunction of candidate invariants that is inductive (Houdini).

Candidates come from the function's contract (templates over the loop's state) and from a few generic shapes. A candidate
that is not established or not preserved is dropped, never assumed. Everything after the loop sees only the survivors."""
import time
import z3
from z3 import And, Or, Not, Implies, ForAll, Select, IntVal, is_true
import logic as L
from exec import (Vec, Rec, Iter, Undef, Opt, SpecFail, Infeasible, Unsupported, Sig, BrkSig, ContSig, ExitSig, RetSig, ThrowSig,
                  Obl, VOID)


class LoopInfo:
    def __init__(self, ex, s, base, mods):
        self.ex, self.s, self.base, self.mods = ex, s, base, mods
        self.fn = ex.frames[-1].fn

    def entry(self, path):
        """value of path at loop entry"""
        ex = self.ex
        sv = ex.store
        ex.store = self.base[0]
        try:
            return ex.read(path)
        finally:
            ex.store = sv

    def locals(self):
        """{source name: binding path} visible in the innermost frame"""
        out = {}
        fr = self.ex.frames[-1]
        for p in fr.fn['params']:
            if p['id'] in fr.loc:
                out[p['name']] = fr.loc[p['id']]
        for vid, path in fr.loc.items():
            r = path[0]
            if r.startswith('v:') and len(path) == 1:
                out[r[2:].split('!')[0]] = path
        return out

    def loc_path(self, name):
        return self.locals().get(name)

    def frame_locals(self):
        """locals of all frames, innermost last"""
        out = {}
        for fr in self.ex.frames:
            for p in fr.fn['params']:
                if p['id'] in fr.loc:
                    out[p['name']] = fr.loc[p['id']]
            for vid, path in fr.loc.items():
                r = path[0]
                if r.startswith('v:'):
                    out[r[2:].split('!')[0]] = path
        return out


def minimal(paths):
    out = set()
    for p in sorted(paths, key=len):
        if not any(p[:n] in out for n in range(1, len(p))):
            out.add(p)
    return out


def scan(ex, it, base):
    mods = set()
    om, ob = ex.mode, getattr(ex, 'scanning', False)
    ex.mode, ex.scanning = 'dry', True
    try:
        for _ in range(12):
            ex.restore(base)
            for p in sorted(mods, key=str):
                ex.havoc_quiet(p)
            ex.writes.append(set())
            ex.explore(it)
            w = {p for p in ex.writes.pop() if p[0] in base[0]}
            if w <= mods:
                return mods
            mods = minimal(mods | w)
        raise Unsupported('loop modifies too much')
    finally:
        ex.mode, ex.scanning = om, ob


def run_loop(ex, s, it, cond_e, range_info):
    if ex.nospec:
        raise SpecFail()
    key = (id(s), tuple((o.serial, tuple(o.taken)) for o in ex.oracles), len(ex.frames), ex.cnt, ex.mode)
    hit = ex.loopcache.get(key)
    if hit is None:
        hit = compute(ex, s, it, cond_e, range_info)
        ex.loopcache[key] = hit
    alts, mods = hit
    for p in mods:
        ex.note_write(p)
    n = ex.pick(len(alts))
    kind, val, snap = alts[n]
    ex.restore(snap)
    if kind == 'return':
        raise RetSig(val)
    if kind == 'throw':
        raise ThrowSig(val)
    # exit or break: fall through


def joined(ex, s):
    """an if without else which the options say is for bookkeeping: both ways go on as one path, on which what the body may
    change is arbitrary -> False when it is not such an if"""
    def it():
        if ex.choose(ex.cond(s['c'])):
            ex.st(s['a'])
    memo = ex.__dict__.setdefault('join_memo', {})
    if memo.get(id(s)) is False:
        return False
    key = ('if', id(s), tuple((o.serial, tuple(o.taken)) for o in ex.oracles), len(ex.frames), ex.cnt, ex.mode)
    hit = ex.loopcache.get(key)
    if hit is None:
        base = ex.snapshot()
        mods = scan(ex, it, base)
        ex.restore(base)
        memo[id(s)] = bool(mods) and ex.opts['join_if'](ex, mods)
        if not memo[id(s)]:
            return False
        leaves = ex.explore(it)
        alts = [l for l in leaves if l[0] != 'ok']
        if len(alts) < len(leaves):
            ex.restore(base)
            for p in sorted(mods, key=str):
                ex.havoc_quiet(p)
            alts.append(('ok', None, ex.snapshot()))
        ex.restore(base)
        hit = ex.loopcache[key] = (alts, mods)
    alts, mods = hit
    ex.__dict__.setdefault('joined_mods', set()).update(mods)
    for p in mods:
        ex.note_write(p)
    kind, val, snap = alts[ex.pick(len(alts))]
    ex.restore(snap)
    if kind == 'return':
        raise RetSig(val)
    if kind == 'throw':
        raise ThrowSig(val)
    if kind == 'break':
        raise BrkSig()
    if kind == 'continue':
        raise ContSig()
    return True


def compute(ex, s, it, cond_e, range_info):
    line = ex.line
    base = ex.snapshot()
    mods = scan(ex, it, base)
    ex.restore(base)
    li = LoopInfo(ex, s, base, mods)
    smods = sorted(mods, key=str)
    if ex.opts.get("debug2"): print("   compute", s["l"], ex.mode, getattr(ex,"scanning",None), [pname(p) for p in smods])
    if getattr(ex, 'scanning', False):
        for p in smods:
            ex.havoc_quiet(p)
        leaves = ex.explore(it)
        alts = [l for l in leaves if l[0] not in ('ok', 'continue')]
        ex.restore(base)
        return alts, mods
    # unroll loops whose trip count is a small constant
    conc = try_unroll(ex, it, base)
    if conc is not None:
        ex.restore(base)
        return conc, mods
    ex.restore(base)

    cands = auto_candidates(ex, li, cond_e, range_info)
    templ = set()
    if ex.inv_templates:
        templ = {n for n, _ in ex.inv_templates(li)}
        cands += ex.inv_templates(li)
    key2 = (id(s), tuple(tuple(o.taken) for o in ex.oracles), len(ex.frames), tuple(smods))
    memo = ex.survive_memo.get(key2)
    if memo is not None:
        cands = [c for c in cands if c[0] in memo]
    # -- establishment
    surv = []

    def batch(items):
        """items: [(name, formula)] in the current state -> names proved"""
        pc = ex.pc + ([h for h in ex.hints(ex) if h is not None] if ex.hints else [])
        bt = L.Batch(pc, [f for _, f in items], ex.opts['houdini_ms'])
        ok = set()
        for n, f in items:
            if bt.valid(f) or (n in templ and L.prove(pc, f, ex.opts.get('templ_ms', 3 * ex.opts['houdini_ms']))):
                ok.add(n)
            elif n in templ and ex.opts.get('dumpdir'):
                L.dump(pc, f, '%s/%d_%d_%s.smt2' % (ex.opts['dumpdir'], s['l'], ex.cnt, n.replace(' ', '_')))
        return ok

    def build(name, fn, it_):
        try:
            return fn(ex, it_)
        except (Unsupported, SpecFail, KeyError, AttributeError, z3.Z3Exception, Sig):
            return None
    ex.restore(base)
    items = [(name, build(name, fn, IntVal(0))) for name, fn in cands]
    items = [(n, f) for n, f in items if f is not None]
    ok = batch(items)
    surv = [c for c in cands if c[0] in ok]
    if ex.opts.get('debug'):
        for n, f in items:
            if n not in ok:
                print('   [entry drop]', s['l'], n)
    # -- preservation
    om = ex.mode
    rounds = 0
    itc = None
    while True:
        rounds += 1
        ex.restore(base)
        head(ex, smods, surv)
        itc = ex.itc
        ex.mode = 'dry'
        leaves = ex.explore(it)
        ex.mode = om
        drop = set()
        for kind, val, snap in leaves:
            if kind not in ('ok', 'continue'):
                continue
            ex.restore(snap)
            check_shapes(ex, li, smods)
            items = []
            for name, fn in surv:
                if name in drop:
                    continue
                f = build(name, fn, itc + 1)
                if f is None:
                    drop.add(name)
                else:
                    items.append((name, f))
            ok = batch(items)
            for n, f in items:
                if n not in ok:
                    drop.add(n)
                    if ex.opts.get('debug'):
                        print('   [drop]', s['l'], n)
        if not drop:
            break
        surv = [c for c in surv if c[0] not in drop]
    if ex.mode == 'dry':
        ex.survive_memo[key2] = {c[0] for c in surv}
    # -- final pass in the real mode, from the head state with the invariant
    ex.restore(base)
    head(ex, smods, surv)
    if ex.live():
        ex.loopstats.append((li.fn['bqn'], s['l'], rounds, [c[0] for c in surv]))
        for name, fn in surv:
            for w in ('established', 'preserved'):
                o = Obl('loop invariant %s: %s' % (w, name), None, [], '%s:%d' % (li.fn['bqn'], s['l']), 'inv',
                        ex.frames[0].fn['sig'])
                o.res, o.backend = 'proved', 'z3'
                ex.obls.append(o)
    if om == 'check':
        leaves = ex.explore(it)
    alts = [l for l in leaves if l[0] not in ('ok', 'continue')]
    ex.restore(base)
    ex.line = line
    return alts, mods


def head(ex, smods, surv):
    for p in smods:
        ex.havoc_quiet(p)
    ex.itc = z3.Int(ex.nm('it'))
    itc = ex.itc
    ex.assume(itc >= 0)
    for name, fn in surv:
        ex.assume(fn(ex, itc))
    ex.itc = itc


def check_shapes(ex, li, smods):
    for p in smods:
        a, b = li.entry(p), ex.read(p)
        if isinstance(a, Iter) and (not isinstance(b, Iter) or a.path != b.path):
            raise Unsupported('iterator re-seated to another container in a loop')
        if isinstance(a, Undef) != isinstance(b, Undef) and not isinstance(a, Undef):
            raise Unsupported('value becomes undefined in a loop')
        if type(a) is not type(b) and not isinstance(a, Undef) and not isinstance(a, z3.ExprRef):
            raise Unsupported('value changes shape in a loop')


def try_unroll(ex, it, base, limit=8):
    """if the number of iterations is decided by the path facts alone and small, execute them one by one"""
    alts = []
    if not ex.opts.get('unroll', True):
        return None
    om = ex.mode
    # quick test: from the entry state, is the first exit decision forced for a few iterations?
    ex.mode = 'dry'
    os_, ex.scanning = ex.scanning, True
    cur = [base]
    ok = False
    try:
        for n in range(limit + 1):
            nxt = []
            for b in cur:
                ex.restore(b)
                for l in ex.explore(it):
                    if l[0] in ('ok', 'continue'):
                        nxt.append(l[2])
            if not nxt:
                ok = True
                break
            if len(nxt) > 1:
                break
            # is it certain that another iteration follows or certain that it stops?  only then keep unrolling
            cur = nxt
            ex.restore(cur[0])
            leaves = ex.explore(it)
            kinds = {('ok' if l[0] in ('ok', 'continue') else 'stop') for l in leaves}
            if kinds == {'ok', 'stop'}:
                break
    except Unsupported:
        ok = False
    finally:
        ex.mode, ex.scanning = om, os_
    if not ok:
        return None
    cur = [base]
    for n in range(limit + 2):
        nxt = []
        for b in cur:
            ex.restore(b)
            for l in ex.explore(it):
                if l[0] in ('ok', 'continue'):
                    nxt.append(l[2])
                else:
                    alts.append(l)
        if not nxt:
            return alts
        cur = nxt
    return None


def auto_candidates(ex, li, cond_e, range_info):
    out = []
    ints = []

    def leaves(p, v):
        if isinstance(v, Rec):
            for k, x in v.f.items():
                yield from leaves(p + (('f', k),), x)
        else:
            yield p, v
    allm = []
    for p in sorted(li.mods, key=str):
        allm += list(leaves(p, li.entry(p)))
    for p, v in allm:
        nmn = pname(p)
        if isinstance(v, z3.ArithRef):
            ints.append((nmn, p))
            out += [
                ('%s counts iterations' % nmn, lambda e, it, p=p, v=v: e.read(p) == v + it),
                ('%s does not decrease' % nmn, lambda e, it, p=p, v=v: e.read(p) >= v),
                ('%s does not increase' % nmn, lambda e, it, p=p, v=v: e.read(p) <= v),
            ]
        elif isinstance(v, Vec):
            out += [
                ('size of %s unchanged' % nmn, lambda e, it, p=p, v=v: e.read(p).len == v.len),
                ('%s grows by one per iteration' % nmn, lambda e, it, p=p, v=v: e.read(p).len == v.len + it),
                ('%s does not shrink' % nmn, lambda e, it, p=p, v=v: e.read(p).len >= v.len),
                ('initial part of %s unchanged' % nmn, lambda e, it, p=p, v=v: prefix_same(e.read(p), v)),
            ]
        elif isinstance(v, Iter):
            out.append(('%s counts iterations' % nmn, lambda e, it, p=p, v=v: e.read(p).idx == v.idx + it))
    for p, v in allm:
        if isinstance(v, Vec):
            for n, ip in ints:
                out.append(('%s unchanged from %s on' % (pname(p), n),
                            lambda e, it, p=p, v=v, ip=ip: suffix_same(e.read(p), v, e.read(ip))))
    if range_info is not None:
        root, path = range_info
        out.append(('range position within range', lambda e, it: e.read((root,)) <= e.read(path).len))
    if cond_e is not None and cond_e['k'] in ('bin', 'opcall') and cond_e['op'] in ('<', '!=', '<=', '>', '>='):
        if cond_e['k'] == 'bin':
            a, b = cond_e['a'], cond_e['b']
        else:
            a, b = cond_e['args'][0], cond_e['args'][1]
        op = cond_e['op']

        def bound(e, it, a=a, b=b):
            e.nospec += 1
            try:
                x, y = e.ev(a), e.ev(b)
            finally:
                e.nospec -= 1
            if isinstance(x, Iter):
                x, y = x.idx, y.idx
            if x.sort() != L.I:
                return None
            if op in ('<', '!='):
                return x <= y
            if op == '<=':
                return x <= y + 1
            if op == '>':
                return x >= y
            return x >= y - 1
        out.append(('loop bound', bound))
    return out


def pname(p):
    return '.'.join([str(p[0]).split('!')[0].replace('v:', '')] + [str(x[1]) for x in p[1:]])


def prefix_same(v, v0):
    if v.arr.eq(v0.arr):
        return z3.BoolVal(True)
    q = z3.Int('q!pf')
    return ForAll([q], Implies(And(0 <= q, q < v0.len), Select(v.arr, q) == Select(v0.arr, q)),
                  patterns=[Select(v.arr, q)] + ([Select(v0.arr, q)] if z3.is_const(v0.arr) else []))


def suffix_same(v, v0, i):
    if v.arr.eq(v0.arr):
        return z3.BoolVal(True)
    q = z3.Int('q!sf')
    return And(v.len == v0.len, ForAll([q], Implies(q >= i, Select(v.arr, q) == Select(v0.arr, q)),
                                       patterns=[Select(v.arr, q)]))
