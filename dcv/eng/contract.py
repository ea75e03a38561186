"""Contracts: what is stated on a function, how it is verified and how it is used at calls."""
import time
import z3
from z3 import And, BoolVal
import logic as L
from exec import *
from exec import Frame, Obl


class Ctx:
    """what a contract can talk about: the object and arguments before (old) and after (new), and the result"""

    def __init__(self, ex, f, this, binds):
        self.ex, self.f, self.this, self.binds = ex, f, this, binds
        self.pre = dict(ex.store)
        self.post = None
        self.ret = None
        self.names = [p['name'] for p in f['params']]

    def seal(self):
        self.post = dict(self.ex.store)

    def _read(self, store, path):
        sv = self.ex.store
        self.ex.store = store
        try:
            return self.ex.read(path)
        finally:
            self.ex.store = sv

    def old(self, path=None):
        return self._read(self.pre, path if path is not None else self.this)

    def new(self, path=None):
        return self._read(self.post if self.post is not None else self.pre, path if path is not None else self.this)

    def arg(self, n, post=False):
        return self._read(self.post if post else self.pre, self.binds[n])

    def fpath(self, name):
        return self.this + (('f', name),)


class Contract:
    sig = None
    this_type = None       # dynamic type of *this to verify with (type spelling), default the class of the function
    props = ()

    def requires(self, c):
        return []

    def background(self, c):
        """lemmas (proved separately) that may be used in the proof of the body"""
        return []

    def lemmas(self, c):
        """lemmas about the state after a call that the caller may use"""
        return []

    def at_call(self, sig, ex, cx):
        """obligations on the calls the body makes: [(name, goal)]"""
        return []

    def after_call(self, sig, ex, cx):
        """ghost state kept up after the calls the body makes"""

    def ensures(self, c):
        return []

    def throws(self, c):
        """condition (over the pre-state) under which the function throws; None: never"""
        return None

    def throw_ensures(self, c):
        return []

    def modifies(self, c):
        return []

    def throw_modifies(self, c):
        return []

    def result(self, c):
        """optional: construct the returned value at calls (otherwise a fresh value constrained by ensures)"""
        return None

    def invs(self, li):
        return []

    def hints(self, ex, c):
        return []

    def setup(self, ex, f):
        """initial state: returns (this path, binds)"""
        this = None
        if f.get('cls') is not None and not f.get('static') and f['kind'] in ('method', 'ctor', 'dtor'):
            t = self.this_t(ex, f)
            v = ex.blank(t) if f['kind'] == 'ctor' else ex.fresh(t, 'this')
            ex.store['this'] = v
            this = ('this',)
        binds = []
        for p in f['params']:
            root = 'p:' + p['name'] + str(p['id'])
            binds.append(self.param(ex, f, p, root))
        return this, binds

    def this_t(self, ex, f):
        if self.this_type:
            for n, ty in enumerate(ex.p.T):
                if ty['c'] == 'rec' and ex.p.ts(n) == self.this_type:
                    return n
            raise Unsupported('no type ' + self.this_type)
        return f['cls']

    def param(self, ex, f, p, root):
        t = ex.p.strip(p['t'])
        if ex.is_iter(t):
            # an iterator parameter ranges over a ghost container; iterators passed with the same group share it
            grp = self.iter_group(p['name'])
            cont = 'ghost:' + grp
            if cont not in ex.store:
                it = ex.p.targs_of_iter(t)
                ex.store[cont] = ex.fresh(it, grp)
            ex.store[root] = Iter((cont,), z3.Int(ex.nm(p['name'])))
            return (root,)
        ex.store[root] = ex.fresh(t, p['name'])
        ex.root_types[root] = t
        return (root,)

    def iter_group(self, name):
        return name


def verify(prog, con, contracts, f=None, opts=None, ex_cls=None, **kw):
    """generate all obligations of one function against its contract. Returns the Exec with .obls filled."""
    if f is None:
        cand = [g for gs in prog.by_qn.values() for g in gs if g['sig'] == con.sig and 'body' in g]
        if hasattr(con, 'pick'):
            cand = [g for g in cand if con.pick(prog, g)]
        if not cand and getattr(con, 'optional', False) and any(g['sig'] == con.sig and g.get('defaulted') for gs in prog.by_qn.values() for g in gs):
            # a defaulted special member: memberwise by the language, there is no body to verify
            ex = (ex_cls or Exec)(prog, contracts, opts=opts, **kw)
            ex.nret, ex.nthrow, ex.leaves, ex.prefacts = 1, 0, [], []
            o = Obl('defaulted: memberwise by the language', BoolVal(True), [], con.sig, 'defaulted', con.sig)
            o.res, o.backend = 'proved', 'language rule'
            ex.obls.append(o)
            return ex
        if not cand:
            raise Unsupported('function %s not found' % con.sig)
        f = cand[0]
    ex = (ex_cls or Exec)(prog, contracts, opts=opts, **kw)
    con.prepare(ex, f) if hasattr(con, 'prepare') else None
    # a frame for the setup
    this, binds = con.setup(ex, f)
    fr = Frame(f, this)
    for p, b in zip(f['params'], binds):
        fr.loc[p['id']] = b
    ex.frames.append(fr)
    c = Ctx(ex, f, this, binds)
    ex.ctx = c
    for n, g in con.requires(c):
        ex.assume(g)
    for g in con.background(c):
        ex.assume(g)
    ex.prefacts = list(ex.pc)
    ex.con = con
    ex.inv_templates = lambda li: con.invs(li)
    ex.hints = lambda e: con.hints(e, c)
    th = con.throws(c)
    own = ex.contracts.pop(f['sig'], None) if getattr(con, 'hide_self', True) else None

    def thunk():
        if hasattr(con, 'run'):
            con.run(ex, f, c)
        else:
            ex.body(f)
        raise RetSig(VOID)
    leaves = ex.explore(thunk)
    if own is not None:
        ex.contracts[f['sig']] = own
    ex.leaves = leaves
    nret = nthrow = 0
    for kind, val, snap in leaves:
        ex.restore(snap)
        ex.serial += 1
        ex.oracles = []
        c.seal()
        if kind == 'return' or kind == 'ok':
            nret += 1
            if isinstance(val, tuple) and val and isinstance(val[0], str) and val[0] != 'fn':
                c.retpath = val
                val = ex.read(val)
            c.ret = c.retv = val
            if th is not None:
                ex.oblige('does not return when it must throw', z3.simplify(z3.Not(th)), 'throws')
            for n, g in con.ensures(c):
                snapp = list(ex.pc)
                ex.oblige('ensures: ' + n, g, 'post')
            frame(ex, c, con.modifies(c))
        elif kind == 'throw':
            nthrow += 1
            c.exc = val
            if th is None:
                ex.oblige('does not throw', BoolVal(False), 'throws')
            else:
                may = con.may_throw(c) if hasattr(con, 'may_throw') else None
                ex.oblige('throws only when specified', th if may is None else z3.Or(th, may), 'throws')
            okt = getattr(con, 'exc_type', 'std::invalid_argument')
            if okt and val and not val.startswith('contract:') and okt not in val:
                ex.oblige('throws the documented exception type', BoolVal(False), 'throws')
            for n, g in con.throw_ensures(c):
                ex.oblige('on throw: ' + n, g, 'post')
            if con.frame_on_throw if hasattr(con, 'frame_on_throw') else True:
                frame(ex, c, con.throw_modifies(c), 'on throw: ')
        else:
            raise Unsupported('stray %s' % kind)
    ex.nret, ex.nthrow = nret, nthrow
    return ex


def frame(ex, c, mods, pre=''):
    """everything observable that is not in `mods` is unchanged: the object, reference parameters, globals, ghosts"""
    ms = [tuple(m) for m in mods]

    def chk(path, a, b):
        if a is b or path in ms:
            return
        if isinstance(a, Rec) and isinstance(b, Rec):
            for k in a.f:
                if k in b.f:
                    chk(path + (('f', k),), a.f[k], b.f[k])
            return
        ex.oblige('%sframe: %s unchanged' % (pre, '.'.join(str(s if isinstance(s, str) else s[1]) for s in path)),
                  ex.same(a, b), 'frame')
    for root, v in c.pre.items():
        if root == 'this' or root.startswith(('ghost:', 'glob:')):
            pass
        elif root.startswith('p:'):
            pn = [p for p, b in zip(c.f['params'], c.binds) if b == (root,)]
            if not pn or not ex.p.isref(pn[0]['t']):
                continue
        else:
            continue
        if c.f['kind'] == 'ctor' and root == 'this':
            continue
        if (root,) in ms:
            continue
        chk((root,), v, ex.store[root])
    for root in ex.store:
        if root.startswith('glob:') and root not in c.pre and (root,) not in ms and root in getattr(ex, 'globw', ()):
            ex.oblige('%sframe: %s unchanged' % (pre, root), BoolVal(False), 'frame')


def discharge(ex, timeout_ms=10000, idxs=None):
    for n, o in enumerate(ex.obls):
        if o.res is not None or (idxs is not None and n not in idxs):
            continue
        t0 = time.time()
        ok = prove(o.pc, o.goal, timeout_ms)
        o.time = time.time() - t0
        o.res = 'proved' if ok else 'failed'
        o.backend = 'z3'
    return ex.obls
