"""Symbolic execution of the extracted functions: the verification-condition generator."""
import re
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Select, Store, Const, IntVal, BoolVal, simplify, is_true, is_false
import logic as L
from logic import I, B, D, S, iv, mul, prove, infeasible
from il import Program, strip_targs


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class SpecFail(Exception):
    pass


class Sig(Exception):
    kind = '?'

    def __init__(self, val=None):
        self.val = val


class RetSig(Sig):
    kind = 'return'


class BrkSig(Sig):
    kind = 'break'


class ContSig(Sig):
    kind = 'continue'


class ExitSig(Sig):
    kind = 'exit'


class ThrowSig(Sig):
    kind = 'throw'


# ---- values -------------------------------------------------------------------------------------------------------
class Vec:
    __slots__ = ('len', 'arr', 'et')

    def __init__(self, ln, arr, et):
        self.len, self.arr, self.et = iv(ln), arr, et


class Rec:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __getattr__(self, n):
        if n in Rec.__slots__:
            raise AttributeError(n)
        return self.f[n]


class Iter:
    __slots__ = ('path', 'idx', 'rev')

    def __init__(self, path, idx, rev=False):
        self.path, self.idx, self.rev = path, iv(idx), rev


class Lam:
    def __init__(self, node, caps, this, fn):
        self.node, self.caps, self.this, self.fn = node, caps, this, fn


class Opt:
    __slots__ = ('has', 'val', 'et')

    def __init__(self, has, val, et):
        self.has, self.val, self.et = has, val, et


class Undef:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class IList:
    def __init__(self, vals, et):
        self.vals, self.et = vals, et


class Dist:
    def __init__(self, kind, a, b, st=None, t=None):
        self.kind, self.a, self.b, self.st, self.t = kind, a, b, st, t


class Ptr:
    """pointer to a path (this, unique_ptr target, ...), or null when path is None"""

    def __init__(self, path):
        self.path = path


class Guard:
    """a lock object: owns the mutex until released or destroyed"""

    def __init__(self, mtx, owns):
        self.mtx, self.owns = mtx, owns

    def release(self, ex):
        if self.owns:
            ex.store[held(self.mtx)] = BoolVal(False)


def held(path):
    return 'ghost:held:' + '.'.join(str(s if isinstance(s, str) else s[1]) for s in path)


class Void:
    pass


VOID = Void()


class Frame:
    def __init__(self, fn, this):
        self.fn, self.this, self.loc = fn, this, {}
        self.caps = None


class Oracle:
    def __init__(self, forced, serial):
        self.forced, self.serial = forced, serial
        self.taken, self.alts = [], []

    def live(self):
        return len(self.taken) >= len(self.forced)


class Obl:
    __slots__ = ('name', 'goal', 'pc', 'loc', 'kind', 'res', 'time', 'fn', 'backend')

    def __init__(self, name, goal, pc, loc, kind, fn):
        self.name, self.goal, self.pc, self.loc, self.kind, self.fn = name, goal, pc, loc, kind, fn
        self.res, self.time, self.backend = None, 0.0, None


U32 = 2**32
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


class Exec:
    MAXLEN = 2**60

    def __init__(self, prog, contracts=None, opaque=(), extra_models=None, opts=None):
        self.p = prog
        self.contracts = contracts or {}
        self.opaque = set(opaque)
        self.opts = dict(houdini_ms=1500, range_ms=250, oracle_max=4000, inline_depth=12)
        self.opts.update(opts or {})
        import stdmodel
        self.models = dict(stdmodel.MODELS)
        self.models.update(extra_models or {})
        self.store, self.pc, self.pcids = {}, [], set()
        self.frames = []
        self.scopes = []
        self.cnt = 0
        self.oracles = []
        self.serial = 0
        self.obls = []
        self.oblkeys = set()
        self.mode = 'check'            # 'check': emit obligations; 'dry': do not
        self.loopcache = {}
        self.writes = []               # stack of write sets (scans)
        self.nospec = 0
        self.decs = []
        self.inv_templates = None      # callable(ex, loopinfo) -> [(name, fn(ex, it))]
        self.hints = None              # callable(ex) -> [formulas], evaluated at obligations
        self.loopstats = []
        self.calls = set()             # contracts used
        self.inlined = set()
        self.modelled = set()
        self.bound_guard = []
        self.line = 0
        self.survive_memo = {}
        self.on_alloc = None
        self.root_types = {}
        self.scanning = False
        self.itc = None

    # ---- bookkeeping ----------------------------------------------------------------------------------------------
    def nm(self, base):
        self.cnt += 1
        return '%s!%d' % (base, self.cnt)

    def assume(self, f):
        if f is None:
            return
        if is_true(f):
            return
        if not z3.is_and(f) and not z3.is_quantifier(f) and not f.num_args() > 2 and is_true(simplify(f)):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        i = f.get_id()
        if i in self.pcids:
            return
        self.pcids.add(i)
        self.pc.append(f)

    def snapshot(self):
        return (dict(self.store), list(self.pc), set(self.pcids), [dict(f.loc) for f in self.frames], self.cnt,
                list(self.decs), len(self.frames))

    def restore(self, s):
        self.store, self.pc, self.pcids = dict(s[0]), list(s[1]), set(s[2])
        del self.frames[s[6]:]
        for f, l in zip(self.frames, s[3]):
            f.loc = dict(l)
        self.cnt = s[4]
        self.decs = list(s[5])

    def live(self):
        return self.mode == 'check' and all(o.live() for o in self.oracles)

    def loc(self):
        fr = self.frames[-1] if self.frames else None
        return '%s:%d' % (fr.fn['bqn'] if fr else '?', self.line)

    def oblige(self, name, goal, kind='post'):
        """emit a proof obligation for the current path, then assume it"""
        if is_true(goal):
            if self.live():
                key = (name, self.loc(), 'T')
                if key not in self.oblkeys:
                    self.oblkeys.add(key)
                    o = Obl(name, goal, [], self.loc(), kind, self.frames[0].fn['sig'] if self.frames else '?')
                    o.res, o.backend = 'proved', 'syntactic'
                    self.obls.append(o)
            return
        if z3.is_and(goal):
            for n, c in enumerate(goal.children()):
                self.oblige('%s/%d' % (name, n), c, kind)
            return
        if self.live():
            pc = list(self.pc)
            if self.hints:
                pc += [h for h in self.hints(self) if h is not None]
            key = (name, goal.get_id(), tuple(f.get_id() for f in pc))
            if key not in self.oblkeys:
                self.oblkeys.add(key)
                self.obls.append(Obl(name, goal, pc, self.loc(), kind, self.frames[0].fn['sig'] if self.frames else '?'))
        self.assume(goal)

    def valid(self, f, ms=None, qf=False):
        if is_true(f):
            return True
        pc = self.pc
        if self.hints and not qf:
            pc = pc + [h for h in self.hints(self) if h is not None]
        return prove(pc, f, ms or self.opts['houdini_ms'], qf=qf)

    # ---- decisions -------------------------------------------------------------------------------------------------
    def pick(self, n, feas=None):
        """choose one of n alternatives (feas: list of feasible indices)"""
        if self.nospec:
            raise SpecFail()
        feas = list(range(n)) if feas is None else feas
        if not feas:
            raise Infeasible()
        o = self.oracles[-1]
        pos = len(o.taken)
        if pos < len(o.forced):
            c = o.forced[pos]
            o.taken.append(c)
            o.alts.append([])
            return c
        o.taken.append(feas[0])
        o.alts.append(feas[1:])
        return feas[0]

    def choose(self, c):
        c = simplify(c) if not z3.is_quantifier(c) else c
        if is_true(c):
            return True
        if is_false(c):
            return False
        if c.get_id() in self.pcids:
            return True
        nc = simplify(Not(c))
        if nc.get_id() in self.pcids:
            return False
        if self.nospec:
            raise SpecFail()
        o = self.oracles[-1]
        if len(o.taken) < len(o.forced):
            b = self.pick(2)
        else:
            feas = []
            if not infeasible(self.pc + [c]):
                feas.append(0)
            if not infeasible(self.pc + [nc]):
                feas.append(1)
            b = self.pick(2, feas)
        f = c if b == 0 else nc
        self.assume(f)
        self.decs.append(f)
        return b == 0

    def explore(self, thunk):
        snap = self.snapshot()
        res, todo = [], [[]]
        self.serial += 1
        ser = self.serial
        nsp, self.nospec = self.nospec, 0
        while todo:
            forced = todo.pop()
            self.restore(snap)
            o = Oracle(forced, ser)
            self.oracles.append(o)
            out = None
            try:
                v = thunk()
                out = ('ok', v)
            except Sig as s:
                out = (s.kind, s.val)
            except Infeasible:
                out = None
            finally:
                self.oracles.pop()
            for pos in range(len(forced), len(o.taken)):
                for a in o.alts[pos]:
                    todo.append(o.taken[:pos] + [a])
            if out is not None:
                # drop frames pushed inside
                del self.frames[snap[6]:]
                res.append((out[0], out[1], self.snapshot()))
            if len(res) > self.opts['oracle_max']:
                raise Unsupported('too many paths')
        self.restore(snap)
        self.nospec = nsp
        return res

    # ---- types & fresh values ---------------------------------------------------------------------------------------
    def ct(self, t):
        return self.p.ty(t)['c']

    def is_vec(self, t):
        ty = self.p.ty(t)
        return ty['c'] == 'rec' and ty['qn'] == 'std::vector'

    def is_str(self, t):
        ty = self.p.ty(t)
        return ty['c'] == 'rec' and ty['qn'] == 'std::basic_string'

    def is_pair(self, t):
        ty = self.p.ty(t)
        return ty['c'] == 'rec' and ty['qn'] in ('std::pair', 'std::tuple')

    def is_opt(self, t):
        ty = self.p.ty(t)
        return ty['c'] == 'rec' and ty['qn'] == 'boost::optional'

    def is_iter(self, t):
        ty = self.p.ty(t)
        return ty['c'] == 'rec' and ty['qn'] == '__gnu_cxx::__normal_iterator'

    def own_rec(self, t):
        ty = self.p.ty(t)
        if ty['c'] != 'rec':
            return None
        k = self.p.tkey(t)
        if k in self.opaque or ty['qn'] in self.opaque:
            return None
        if ty['qn'] == 'std::pair':
            return None
        r = self.p.record(t)
        return r

    def targs(self, t):
        return self.p.ty(t).get('args', [])

    def sort(self, t):
        ty = self.p.ty(t)
        c = ty['c']
        if c in WIDTH or c == 'enum':
            return I
        if c == 'bool':
            return B
        if c in ('f64', 'f32', 'f80', 'f128'):
            return D
        if c == 'rec':
            if self.is_str(t):
                return S
            if self.is_vec(t):
                return L.vec_sort(self.sort(self.targs(t)[0]))
            if self.is_pair(t):
                a = [x for x in self.targs(t)]
                return L.tup_sort(re.sub(r'\W+', '_', self.p.tkey(t)), [self.sort(x) for x in a])
            r = self.own_rec(t)
            if r is not None and not ty.get('lambda'):
                fs = self.p.all_fields(r)
                return L.tup_sort(re.sub(r'\W+', '_', self.p.tkey(t)), [self.sort(f['t']) for f in fs])
            return L.usort('U_' + re.sub(r'\W+', '_', self.p.tkey(t)))
        if c == 'ptr':
            return L.usort('Ptr')
        raise Unsupported('sort of ' + self.p.ts(t))

    def trange(self, t, e):
        c = self.ct(t)
        if c[0] == 'u' and c in WIDTH:
            return And(e >= 0, e < 2**WIDTH[c])
        if c[0] == 'i' and c in WIDTH:
            return And(e >= -2**(WIDTH[c] - 1), e < 2**(WIDTH[c] - 1))
        if c == 'enum':
            return And(e >= 0, e < U32)
        return None

    def fresh(self, t, name):
        ty = self.p.ty(t)
        c = ty['c']
        if c in WIDTH or c == 'enum':
            e = z3.Int(self.nm(name))
            self.assume(self.trange(t, e))
            return e
        if c == 'bool':
            return z3.Bool(self.nm(name))
        if c in ('f64', 'f32'):
            return Const(self.nm(name), D)
        if c == 'rec':
            if self.is_str(t):
                return Const(self.nm(name), S)
            if self.is_vec(t):
                et = self.targs(t)[0]
                n = z3.Int(self.nm(name + '.len'))
                self.assume(And(n >= 0, n < self.MAXLEN))
                return Vec(n, Const(self.nm(name), z3.ArraySort(I, self.sort(et))), et)
            if self.is_pair(t):
                a = self.targs(t)
                return Rec(t, {str(n): self.fresh(x, name + '.' + str(n)) for n, x in enumerate(a)})
            if self.is_opt(t):
                et = self.targs(t)[0]
                return Opt(z3.Bool(self.nm(name + '.has')), self.fresh(et, name + '.val'), et)
            r = self.own_rec(t)
            if r is not None:
                return Rec(t, {f['name']: self.fresh(f['t'], name + '.' + f['name']) for f in self.p.all_fields(r)})
            return Const(self.nm(name), self.sort(t))
        if c == 'ptr':
            return Const(self.nm(name), L.usort('Ptr'))
        raise Unsupported('fresh ' + self.p.ts(t))

    def fresh_like(self, v, name):
        if isinstance(v, Vec):
            n = z3.Int(self.nm(name + '.len'))
            self.assume(And(n >= 0, n < self.MAXLEN))
            return Vec(n, Const(self.nm(name), v.arr.sort()), v.et)
        if isinstance(v, Rec):
            return Rec(v.t, {k: self.fresh_like(x, name + '.' + k) for k, x in v.f.items()})
        if isinstance(v, Iter):
            return Iter(v.path, z3.Int(self.nm(name + '.it')), v.rev)
        if isinstance(v, Opt):
            return Opt(z3.Bool(self.nm(name + '.has')), self.fresh_like(v.val, name), v.et)
        if isinstance(v, Undef):
            return v
        if isinstance(v, Dist):
            return Dist(v.kind, v.a, v.b, Const(self.nm(name), v.st.sort()) if v.st is not None else None, v.t)
        if isinstance(v, (Lam, Void, Ptr, Guard)):
            return v
        if isinstance(v, z3.ExprRef):
            return Const(self.nm(name), v.sort())
        raise Unsupported('havoc of %s' % type(v).__name__)

    def default(self, t):
        ty = self.p.ty(t)
        c = ty['c']
        if c in WIDTH or c == 'enum':
            return IntVal(0)
        if c == 'bool':
            return BoolVal(False)
        if c in ('f64', 'f32'):
            return L.dlit(0)
        if c == 'rec':
            if self.is_str(t):
                return L.slit('')
            if self.is_vec(t):
                return self.empty_vec(self.targs(t)[0])
            if self.is_pair(t):
                return Rec(t, {str(n): self.default(x) for n, x in enumerate(self.targs(t))})
            if self.is_opt(t):
                et = self.targs(t)[0]
                return Opt(BoolVal(False), self.fresh(et, 'none'), et)
        return self.fresh(t, 'dflt')

    def empty_vec(self, et):
        return Vec(0, Const('empty_' + re.sub(r'\W+', '_', str(self.sort(et))), z3.ArraySort(I, self.sort(et))), et)

    def pack(self, v):
        if isinstance(v, Vec):
            return L.v_mk(L.vec_sort(v.arr.sort().range()), v.len, v.arr)
        if isinstance(v, Rec):
            s = self.sort(v.t)
            return s.constructor(0)(*[self.pack(x) for x in v.f.values()])
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Undef):
            return self.pack(self.fresh(v.t, 'undef'))
        raise Unsupported('pack %s' % type(v).__name__)

    def unpack(self, e, t):
        """value of type t held by the z3 term e (with the facts its type guarantees)"""
        if self.is_vec(t):
            ln = simplify(L.v_len(e))
            self.assume(And(ln >= 0, ln < self.MAXLEN))
            return Vec(ln, simplify(L.v_arr(e)), self.targs(t)[0])
        if self.is_pair(t):
            s = e.sort()
            return Rec(t, {str(n): self.unpack(simplify(s.accessor(0, n)(e)), x) for n, x in enumerate(self.targs(t))})
        r = self.own_rec(t)
        if r is not None and not self.is_str(t):
            s = e.sort()
            return Rec(t, {f['name']: self.unpack(simplify(s.accessor(0, n)(e)), f['t'])
                           for n, f in enumerate(self.p.all_fields(r))})
        f = self.trange(t, e)
        if f is not None:
            self.assume(f)
        return e

    # ---- memory ---------------------------------------------------------------------------------------------------
    def elem(self, v, idx):
        if isinstance(v, IList):
            return v.vals[simplify(idx).as_long()]
        e = Select(v.arr, idx)
        return self.unpack(e, v.et)

    def read(self, path):
        v = self.store.get(path[0])
        if v is None:
            raise Unsupported('read of unknown object %s' % (path[0],))
        for st in path[1:]:
            v = self.step(v, st)
        return v

    def step(self, v, st):
        if st[0] == 'f':
            if isinstance(v, Rec):
                return v.f[st[1]]
            raise Unsupported('field %s of opaque %s' % (st[1], v))
        if st[0] == 'i':
            if isinstance(v, Vec) or isinstance(v, IList):
                return self.elem(v, st[1])
            raise Unsupported('index of %s' % type(v).__name__)
        if st[0] == 'o':
            return v.val
        raise Unsupported('step')

    def write(self, path, val):
        if self.nospec:
            raise SpecFail()
        if self.opts.get('guarded'):
            self.guard_check(path, 'write')
        self.note_write(path)
        self.store[path[0]] = self._upd(self.store.get(path[0]), path[1:], val)

    def note_write(self, path):
        out = [path[0]]
        for st in path[1:]:
            if st[0] != 'f':
                break
            out.append(st)
        for w in self.writes:
            w.add(tuple(out))

    def _upd(self, v, steps, val):
        if not steps:
            return val
        st = steps[0]
        if st[0] == 'f':
            if not isinstance(v, Rec):
                raise Unsupported('write to field of %s' % type(v).__name__)
            f = dict(v.f)
            f[st[1]] = self._upd(f.get(st[1]), steps[1:], val)
            return Rec(v.t, f)
        if st[0] == 'i':
            nv = self._upd(self.elem(v, st[1]) if len(steps) > 1 else None, steps[1:], val)
            return Vec(v.len, Store(v.arr, st[1], self.pack(nv)), v.et)
        if st[0] == 'o':
            return Opt(v.has, self._upd(v.val, steps[1:], val), v.et)

    def temp(self, val, name='tmp'):
        r = self.nm(name)
        self.store[r] = val
        return (r,)

    def guard_check(self, path, what):
        g = self.opts.get('guarded', {}).get(path[0])
        if g is not None:
            h = self.store.get('ghost:held:' + g, BoolVal(False))
            self.oblige('%s of %s only while holding %s' % (what, path[0], g), h, 'lock')

    def rval(self, path, t=None):
        if self.opts.get('guarded'):
            self.guard_check(path, 'read')
        v = self.read(path)
        if isinstance(v, Undef):
            self.oblige('initialised before use', BoolVal(False), 'safety')
            v = self.fresh(v.t, 'uninit')
        return v

    # ---- arithmetic --------------------------------------------------------------------------------------------------
    def wrap(self, e, t):
        c = self.ct(t)
        if c not in WIDTH:
            return e
        e = iv(e)
        w = WIDTH[c]
        if z3.is_int_value(e):
            n = e.as_long() % 2**w
            if c[0] == 'i' and n >= 2**(w - 1):
                n -= 2**w
            return IntVal(n)
        rng = self.trange(t, e)
        ok = prove(self.pc, rng, self.opts['range_ms'], qf=True)
        if not ok and self.scanning:
            # only the set of modified locations is wanted: any value of the type
            return self.fresh(t, 'wr')
        if not ok:
            ok = self.valid(rng, 4 * self.opts['range_ms'])
        if ok:
            return e
        if self.opts.get('debugwrap'):
            print('      [wrap?]', self.line, z3.simplify(e).sexpr()[:300], self.mode, self.scanning)
        if c[0] == 'u':
            return e % 2**w
        self.oblige('signed arithmetic does not overflow', rng, 'safety')
        return e

    def arith(self, op, a, b, t):
        c = self.ct(t)
        if isinstance(a, Iter) and op in '+-':
            # pointer into the storage of a vector
            if isinstance(b, Iter):
                if a.path != b.path:
                    raise Unsupported('difference of pointers into different containers')
                return L.norm(a.idx - b.idx)
            n = L.norm(a.idx + b if op == '+' else a.idx - b)
            v = self.read(a.path)
            self.oblige('pointer stays within its range', And(0 <= n, n <= v.len), 'safety')
            return Iter(a.path, n, a.rev)
        if c in ('f64', 'f32', 'f80'):
            return self.darith(op, a, b)
        a, b = self.asint(a), self.asint(b)
        if op == '+':
            return self.wrap(L.norm(a + b), t)
        if op == '-':
            return self.wrap(L.norm(a - b), t)
        if op == '*':
            return self.wrap(mul(a, b), t)
        if op in ('/', '%'):
            self.oblige('divisor is not zero', b != 0, 'safety')
            if c[0] == 'i':
                if not (prove(self.pc, And(a >= 0, b > 0), 200, qf=True)):
                    raise Unsupported('signed division of possibly negative values')
            return L.div(a, b) if op == '/' else L.mod(a, b)
        raise Unsupported('integer operator ' + op)

    def asint(self, v):
        if isinstance(v, z3.BoolRef):
            return If(v, IntVal(1), IntVal(0))
        return v

    dops = {'+': L.DADD, '-': L.DSUB, '*': L.DMUL, '/': L.DDIV}

    def darith(self, op, a, b):
        return self.dops[op](a, b)

    def compare(self, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.path != b.path:
                # iterators of different containers: only allowed if provably the same object -> unsupported
                raise Unsupported('comparison of iterators into different containers')
            a, b = (a.idx, b.idx) if not a.rev else (b.idx, a.idx)
            if op in ('==', '!='):
                r = a == b
                return r if op == '==' else Not(r)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return self.veq(a, b) if op == '==' else Not(self.veq(a, b))
        if isinstance(a, z3.BoolRef) and not isinstance(b, z3.BoolRef):
            a = self.asint(a)
        if isinstance(b, z3.BoolRef) and not isinstance(a, z3.BoolRef):
            b = self.asint(b)
        if a.sort() == D:
            return self.dcompare(op, a, b)
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                '>': lambda: a > b, '>=': lambda: a >= b}[op]()

    def dcompare(self, op, a, b):
        return {'==': lambda: L.DEQ(a, b), '!=': lambda: Not(L.DEQ(a, b)), '<': lambda: L.DLT(a, b),
                '<=': lambda: L.DLE(a, b), '>': lambda: L.DLT(b, a), '>=': lambda: L.DLE(b, a)}[op]()

    def veq(self, a, b):
        if a.arr.eq(b.arr):
            return a.len == b.len
        q = z3.Int('q!eq')
        return And(a.len == b.len, ForAll([q], Implies(And(0 <= q, q < a.len), Select(a.arr, q) == Select(b.arr, q)),
                                          patterns=[Select(a.arr, q)] + ([Select(b.arr, q)] if z3.is_const(b.arr) else [])))

    def same(self, a, b):
        """formula: the two values are observably equal"""
        if a is b:
            return BoolVal(True)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return self.veq(a, b)
        if isinstance(a, Rec) and isinstance(b, Rec):
            return And([self.same(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, Opt) and isinstance(b, Opt):
            return And(a.has == b.has, Or(Not(a.has), self.same(a.val, b.val)))
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a == b if not a.eq(b) else BoolVal(True)
        if isinstance(a, Undef) and isinstance(b, Undef):
            return BoolVal(True)
        if isinstance(a, Iter) and isinstance(b, Iter):
            return And(BoolVal(a.path == b.path), a.idx == b.idx)
        return BoolVal(False)

    def dsort(self):
        return D

    def fold(self, arr, s, n, init):
        import stdmodel
        return stdmodel.fold(self, arr, s, n, init)

    def real_draw_fact(self, r, a, b):
        self.assume(And(L.DLE(a, r), L.DLE(r, b)))

    # ---- lvalues ----------------------------------------------------------------------------------------------------
    def this_path(self):
        return self.frames[-1].this

    def var_binding(self, vid):
        for f in reversed(self.frames):
            if vid in f.loc:
                return f.loc[vid]
            if f.caps is None:
                break
            # a lambda frame also sees its captures, already entered in loc; enclosing locals are not visible
            break
        raise Unsupported('unbound variable %s' % vid)

    def lv(self, e):
        k = e['k']
        if e.get('l'):
            self.line = e['l']
        if k == 'ref':
            if e['dk'] in ('var', 'parm', 'binding'):
                return self.var_binding(e['id'])
            if e['dk'] == 'global':
                return self.global_path(e)
        if k == 'mem':
            if e['mk'] == 'field':
                if e.get('arrow'):
                    b = e['base']
                    base = self.ptr_target(b)
                else:
                    base = self.lv(e['base'])
                name = e['name']
                if name in ('first', 'second') and self.is_pair(e['base'].get('t')):
                    name = '0' if name == 'first' else '1'
                return base + (('f', name),)
            if e['mk'] == 'static':
                return self.global_path(e)
        if k == 'cast':
            ck = e['ck']
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast'):
                return self.lv(e['e'])
            if ck == 'ConstructorConversion' or ck == 'UserDefinedConversion':
                return self.temp(self.ev(e['e']))
        if k == 'mat':
            return self.temp(self.ev(e['e']))
        if k == 'un' and e['op'] == '*':
            if e['e']['k'] == 'this' or self.p.T[e['e']['t']]['c'] == 'ptr':
                return self.ptr_target(e['e'])
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e)
            return self.lv(e['e'])
        if k == 'un' and e['op'] == '__extension__':
            return self.lv(e['e'])
        if k in ('asg', 'casg'):
            return self.assign(e)
        if k == 'cond':
            if self.choose(self.cond(e['c'])):
                return self.lv(e['a'])
            return self.lv(e['b'])
        if k in ('opcall', 'mcall', 'call'):
            r = self.call(e, want_lv=True)
            if isinstance(r, tuple):
                return r
            return self.temp(r)
        if k == 'bin' and e['op'] == ',':
            self.ev(e['a'])
            return self.lv(e['b'])
        if k == 'idx':
            base = self.lv(e['a'])
            i = self.ev(e['b'])
            return base + (('i', i),)
        if not e.get('lv'):
            return self.temp(self.ev(e))
        raise Unsupported('lvalue %s' % (k,))

    def ptr_target(self, e):
        if e['k'] == 'this':
            return self.this_path()
        if e['k'] == 'cast' and e['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived',
                                            'LValueToRValue'):
            return self.ptr_target(e['e'])
        v = self.ev(e)
        if isinstance(v, Ptr):
            if v.path is None:
                self.oblige('pointer is not null', BoolVal(False), 'safety')
                raise Infeasible()
            return v.path
        raise Unsupported('pointer dereference')

    def global_path(self, e):
        root = 'glob:' + e.get('name', '?')
        if root not in self.store:
            self.store[root] = self.fresh(e['t'], root)
        return (root,)

    # ---- expressions -------------------------------------------------------------------------------------------------
    def cond(self, e):
        v = self.ev(e)
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, Ptr):
            return BoolVal(v.path is not None)
        if isinstance(v, z3.ArithRef):
            return v != 0
        raise Unsupported('condition of type %s' % type(v).__name__)

    def ev(self, e):
        if e.get('l'):
            self.line = e['l']
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s %s' % (e['k'], e.get('cls', '')))
        return m(e)

    def e_int(self, e):
        return IntVal(int(e['v']))

    def e_flt(self, e):
        return self.dlit(e['v'])

    def dlit(self, v):
        return L.dlit(v)

    def e_bool(self, e):
        return BoolVal(bool(e['v']))

    def e_str(self, e):
        return L.slit(e['v'])

    def e_null(self, e):
        return Ptr(None)

    def e_this(self, e):
        return Ptr(self.this_path())

    def e_ref(self, e):
        if e['dk'] == 'enumc':
            return IntVal(int(e['cv'] if 'cv' in e else e['v']))
        if e['dk'] == 'fn':
            return ('fn', e['fn'])
        if e.get('cv') is not None:
            return self.dlit(e['cv']) if self.ct(e['t']) in ('f64', 'f32', 'f80') else IntVal(int(e['cv']))
        p = self.lv(e)
        if e.get('lv') and self.is_agg(e['t']):
            return self.rval(p)
        return self.rval(p)

    def is_agg(self, t):
        return self.ct(t) == 'rec'

    def e_mem(self, e):
        return self.rval(self.lv(e))

    def e_mat(self, e):
        return self.ev(e['e'])

    def e_cast(self, e):
        ck = e['ck']
        if ck == 'LValueToRValue':
            if e['e']['k'] == 'ref' and e['e'].get('cv') is not None:
                return self.ev(e['e'])
            return self.rval(self.lv(e['e']))
        if ck == 'ToVoid':
            self.ev(e['e'])
            return VOID
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'DerivedToBase',
                  'UncheckedDerivedToBase', 'FunctionToPointerDecay', 'FloatingCast', 'BuiltinFnToFnPtr', 'Dependent'):
            if ck == 'DerivedToBase' and self.ct(e['t']) == 'ptr':
                return Ptr(self.ptr_target(e['e']))
            return self.ev(e['e'])
        if ck == 'IntegralCast':
            v = self.asint(self.ev(e['e']))
            fc, tc = self.ct(e['e']['t']), self.ct(e['t'])
            if fc in WIDTH and tc in WIDTH:
                if (fc[0] == tc[0] and WIDTH[fc] <= WIDTH[tc]) or (fc[0] == 'u' and tc[0] == 'i' and WIDTH[fc] < WIDTH[tc]):
                    return v
            if fc == 'bool' or fc == 'enum' or tc == 'enum':
                return v
            c = tc
            if c[0] == 'i':
                # implementation-defined before C++20, modular in practice
                rng = self.trange(e['t'], v)
                if not z3.is_int_value(v) and not prove(self.pc, rng, self.opts['range_ms'], qf=True) and not self.valid(rng, 800):
                    w = 2**WIDTH[c]
                    m = v % w
                    return If(m >= w // 2, m - w, m)
            return self.wrap(v, e['t'])
        if ck == 'IntegralToFloating':
            return self.i2d(self.asint(self.ev(e['e'])))
        if ck == 'FloatingToIntegral':
            return self.d2i(self.ev(e['e']), e['t'])
        if ck in ('IntegralToBoolean',):
            return self.ev(e['e']) != 0
        if ck == 'FloatingToBoolean':
            return self.dcompare('!=', self.ev(e['e']), self.dlit(0))
        if ck == 'PointerToBoolean':
            v = self.ev(e['e'])
            return BoolVal(v.path is not None)
        if ck == 'NullToPointer':
            return Ptr(None)
        raise Unsupported('cast ' + ck)

    def i2d(self, v):
        return L.I2D(v)

    def mathcall(self, name, args):
        import ring
        return ring.fun(name, len(args))(*args)

    def d2i(self, v, t):
        r = L.D2I(v)
        self.assume(self.trange(t, r))
        return r

    def dneg(self, v):
        if v.decl().name() == 'i2d' and z3.is_int_value(v.arg(0)) and v.arg(0).as_long() > 0:
            return L.I2D(IntVal(-v.arg(0).as_long()))
        return L.DNEG(v)

    def e_un(self, e):
        op = e['op']
        if op == '!':
            return simplify(Not(self.cond(e['e'])))
        if op == '__extension__':
            return self.ev(e['e'])
        if op in ('++', '--'):
            p = self.lv(e['e'])
            old = self.rval(p)
            one = IntVal(1)
            if isinstance(old, z3.ExprRef) and old.sort() == D:
                new = self.darith('+' if op == '++' else '-', old, self.dlit(1))
            else:
                new = self.arith('+' if op == '++' else '-', old, one, e['e']['t'])
            self.write(p, new)
            return old if e.get('post') else new
        if op == '-':
            v = self.ev(e['e'])
            if v.sort() == D:
                return self.dneg(v)
            return self.wrap(-v, e['t'])
        if op == '+':
            return self.ev(e['e'])
        if op == '*':
            return self.rval(self.lv(e))
        if op == '&':
            return Ptr(self.lv(e['e']))
        raise Unsupported('unary ' + op)

    def spec_bool(self, e, cond):
        """evaluate boolean expression e under the additional condition without committing to it; None if impossible"""
        snap = self.snapshot()
        ns = self.nospec
        self.nospec = ns + 1
        try:
            self.assume(cond)
            v = self.cond(e)
            # keep facts only under the condition
            newf = self.pc[len(snap[1]):]
            cnt = self.cnt
            st = self.store
            self.restore(snap)
            self.cnt = cnt
            for r, val in st.items():
                if r not in self.store:
                    self.store[r] = val
            for f in newf:
                if not f.eq(cond):
                    self.assume(Implies(cond, f))
            return v
        except (SpecFail, Sig):
            self.restore(snap)
            return None
        finally:
            self.nospec = ns

    def e_bin(self, e):
        op = e['op']
        if op == '&&' or op == '||':
            a = simplify(self.cond(e['a']))
            if is_true(a):
                return self.cond(e['b']) if op == '&&' else a
            if is_false(a):
                return a if op == '&&' else self.cond(e['b'])
            b = self.spec_bool(e['b'], a if op == '&&' else simplify(Not(a)))
            if b is not None:
                return And(a, b) if op == '&&' else Or(a, b)
            if op == '&&':
                return self.cond(e['b']) if self.choose(a) else BoolVal(False)
            return BoolVal(True) if self.choose(a) else self.cond(e['b'])
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        if op in ('&', '|') and self.ct(e['t']) == 'bool':
            return And(a, b) if op == '&' else Or(a, b)
        return self.arith(op, a, b, e['t'])

    def assign(self, e):
        if e['k'] == 'asg':
            v = self.ev(e['b'])
            p = self.lv(e['a'])
            self.write(p, self.conv(v, e['a']['t']))
            return p
        v = self.ev(e['b'])
        p = self.lv(e['a'])
        old = self.rval(p)
        op = e['op'].rstrip('=')
        t = e.get('ct') if e.get('ct') is not None else e['a']['t']
        tc, oc = self.ct(t), self.ct(e['a']['t'])
        if oc in WIDTH and tc in ('f64',):
            old = self.i2d(old)
        if isinstance(v, z3.ArithRef) and tc == 'f64':
            v = self.i2d(v)
        r = self.arith(op, old, v, t)
        if tc != oc and oc in WIDTH:
            r = self.d2i(r, e['a']['t']) if tc == 'f64' else self.wrap(r, e['a']['t'])
        self.write(p, r)
        return p

    def conv(self, v, t):
        return v

    def e_asg(self, e):
        return self.rval(self.assign(e))

    e_casg = e_asg

    def e_cond(self, e):
        c = simplify(self.cond(e['c']))
        if is_true(c):
            return self.ev(e['a'])
        if is_false(c):
            return self.ev(e['b'])
        # assert(): cond ? (void)0 : __assert_fail
        b = e['b']
        if b['k'] == 'call' and b.get('fn') is not None and self.p.F[b['fn']]['qn'] == '__assert_fail':
            self.oblige('assertion', c, 'safety')
            return VOID
        # try to merge as an ite
        snap = self.snapshot()
        ns = self.nospec
        self.nospec += 1
        try:
            self.assume(c)
            va = self.ev(e['a'])
            s1 = self.cnt
            self.restore(snap)
            self.cnt = s1
            self.assume(Not(c))
            vb = self.ev(e['b'])
            s1 = self.cnt
            self.restore(snap)
            self.cnt = s1
            if isinstance(va, z3.ExprRef) and isinstance(vb, z3.ExprRef) and va.sort() == vb.sort():
                return If(c, va, vb)
        except (SpecFail, Sig):
            pass
        finally:
            self.nospec = ns
        self.restore(snap)
        if self.choose(c):
            return self.ev(e['a'])
        return self.ev(e['b'])

    def e_throw(self, e):
        if e.get('e'):
            try:
                self.ev(e['e'])
            except Unsupported:
                pass
        raise ThrowSig(self.p.ts(e['et']) if e.get('et') is not None else '?')

    def e_opcall(self, e):
        return self.call_val(e)

    e_mcall = e_opcall
    e_call = e_opcall

    def call_val(self, e):
        r = self.call(e, want_lv=False)
        if isinstance(r, tuple) and r and not (r[0] == 'fn'):
            return self.rval(r)
        return r

    def e_lambda(self, e):
        caps = {}
        this = self.frames[-1].this
        for c in e['caps']:
            if c.get('this'):
                continue
            vid = c.get('id')
            if c.get('ref') or c.get('byref'):
                caps[vid] = self.var_binding(vid)
            else:
                caps[vid] = self.temp(self.read(self.var_binding(vid)), 'cap')
        op = e.get('op')
        if op is None and len(e.get('specs') or []) == 1:
            op = e['specs'][0]
        if op is None:
            raise Unsupported('generic lambda')
        return Lam(e, caps, this, op)

    def e_ilist(self, e):
        vals = [self.ev(x) for x in e.get('es', e.get('args', []))]
        if self.is_vec(e['t']):
            raise Unsupported('ilist vec')
        return IList(vals, None)

    def e_stdil(self, e):
        inner = e['e']
        while inner['k'] in ('mat', 'cast'):
            inner = inner['e']
        vals = [self.ev(x) for x in inner.get('es', inner.get('args', []))]
        return IList(vals, self.targs(e['t'])[0])

    def e_zero(self, e):
        return self.default(e['t'])

    def e_unk(self, e):
        if e.get('cls') in ('SourceLocExpr', 'PredefinedExpr'):
            return L.slit('?')
        raise Unsupported('expression ' + str(e.get('cls')))

    # ---- calls ------------------------------------------------------------------------------------------------------
    def call(self, e, want_lv):
        self.calldepth_guard()
        if e.get('fn') is None:
            # call through a callable object
            import stdmodel
            return stdmodel.call_callee(self, e)
        f = self.p.F[e['fn']]
        return self.dispatch(f, e, want_lv)

    def calldepth_guard(self):
        if len(self.frames) > 40:
            raise Unsupported('call depth')

    def overrider(self, f, e):
        """virtual call: the function of the dynamic class of the object"""
        if not f.get('virtual') or e.get('qualified'):
            return f
        if e['k'] == 'mcall':
            path = self.ptr_target(e['obj']) if e.get('arrow') else self.lv(e['obj'])
        elif e['k'] == 'opcall' and e.get('method'):
            path = self.lv(e['args'][0])
        else:
            return f
        v = self.read(path)
        if not isinstance(v, Rec):
            return f
        want = [self.p.tkey(p['t']) for p in f['params']]
        t = v.t
        while t is not None and self.p.tkey(t) != self.p.tkey(f['cls']):
            for g in self.p.F:
                if g.get('virtual') and g.get('name') == f['name'] and g.get('cls') is not None and self.p.tkey(g['cls']) == self.p.tkey(t) \
                        and [self.p.tkey(p['t']) for p in g['params']] == want:
                    return g
            r = self.p.record(t)
            t = r['bases'][0] if r and r['bases'] else None
        return f

    def dispatch(self, f, e, want_lv):
        f = self.overrider(f, e)
        c = self.contracts.get(f['sig'])
        if c is not None and not getattr(c, 'getter', False):
            return self.apply_contract(c, f, e)
        h = self.models.get(f['sig']) or self.models.get(f['qn']) or self.models.get(f['bqn'])
        if h is not None:
            self.modelled.add(f['bqn'])
            return h(self, e, f, want_lv)
        if 'body' in f:
            this, args = self.bind_call(f, e)
            return self.inline(f, this, args)
        if f.get('copyassign') or (f['bqn'].endswith('::operator=') and len(f['params']) == 1):
            # implicit copy / move assignment of an aggregate or opaque value
            a = e.get('args')
            if e['k'] == 'opcall':
                dst, src = a[0], a[1]
            else:
                dst, src = e['obj'], a[0]
            v = self.ev(src)
            p = self.obj_path(dst, e)
            self.write(p, v)
            return p
        raise Unsupported('call of %s' % f['qn'])

    def obj_path(self, o, e):
        if e.get('arrow') and o is e.get('obj'):
            return self.ptr_target(o)
        return self.lv(o)

    def bind_call(self, f, e):
        """-> (this path or None, list of bindings (paths) for parameters)"""
        args = list(e.get('args', []))
        this = None
        if e['k'] == 'mcall':
            this = self.ptr_target(e['obj']) if e.get('arrow') else self.lv(e['obj'])
        elif e['k'] == 'opcall' and e.get('method'):
            this = self.lv(args[0])
            args = args[1:]
        return this, self.bind_args(f, args)

    def bind_args(self, f, args):
        out = []
        for prm, a in zip(f['params'], args):
            if self.p.isref(prm['t']):
                out.append(self.lv(a))
            else:
                pth = self.temp(self.ev(a), 'arg')
                self.root_types[pth[0]] = prm['t']
                out.append(pth)
        return out

    def inline(self, f, this, binds, caps=None):
        if sum(1 for fr in self.frames if fr.fn is f) >= 1:
            raise Unsupported('recursion into %s' % f['qn'])
        if len(self.frames) > self.opts['inline_depth']:
            raise Unsupported('inlining too deep at %s' % f['qn'])
        self.inlined.add(f['sig'])
        fr = Frame(f, this)
        for prm, b in zip(f['params'], binds):
            fr.loc[prm['id']] = b
        if caps:
            fr.loc.update(caps)
            fr.caps = True
        self.frames.append(fr)
        depth = len(self.frames)
        line = self.line
        isref = self.p.isref(f['ret']) if f.get('ret') is not None else False
        try:
            self.body(f)
            res = VOID
        except RetSig as s:
            res = s.val
        finally:
            del self.frames[depth - 1:]
            self.line = line
        return res

    def body(self, f):
        if f['kind'] == 'ctor':
            self.run_inits(f)
        self.st(f['body'])

    def run_inits(self, f):
        this = self.this_path()
        for ini in f.get('inits') or []:
            if 'field' in ini:
                fld = ini['field']
                p = this + (('f', fld),)
                if ini.get('e') is not None:
                    self.write(p, self.ev(ini['e']))
            elif 'delegate' in ini or 'base' in ini:
                x = ini['e']
                while x['k'] in ('cast', 'mat'):
                    x = x['e']
                if x['k'] == 'ctor':
                    cf = self.p.F[x['fn']]
                    c = self.contracts.get(cf['sig'])
                    if c is not None:
                        self.apply_contract(c, cf, x, this)
                        continue
                    if 'body' in cf:
                        self.inline(cf, this, self.bind_args(cf, x['args']))
                        continue
                    if not x['args'] and 'base' in ini and not self.p.all_fields(self.p.record(ini['base']) or dict(bases=[], fields=[])):
                        continue
                    if cf.get('copy') or cf.get('move'):
                        src = self.rval(self.lv(x['args'][0]))
                        cur = self.read(this)
                        for kx in src.f:
                            if kx in cur.f:
                                self.write(this + (('f', kx),), src.f[kx])
                        continue
                raise Unsupported('base initialiser')

    def call_lambda(self, lam, binds):
        f = self.p.F[lam.fn]
        return self.inline_lambda(f, lam, binds)

    def inline_lambda(self, f, lam, binds):
        fr = Frame(f, lam.this)
        for prm, b in zip(f['params'], binds):
            fr.loc[prm['id']] = b
        fr.loc.update(lam.caps)
        fr.caps = True
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            self.st(f['body'])
            res = VOID
        except RetSig as s:
            res = s.val
        finally:
            del self.frames[depth - 1:]
        return res

    def e_ctor(self, e, target=None):
        f = self.p.F[e['fn']]
        c = self.contracts.get(f['sig'])
        if c is not None:
            p = self.temp(self.blank(e['t']), 'obj')
            self.apply_contract(c, f, e, p)
            return self.read(p)
        import stdmodel
        m = stdmodel.ctor_model(self, e, f)
        if m is not NotImplemented:
            self.modelled.add(f['bqn'])
            return m
        if f.get('copy') or f.get('move') or e.get('copy'):
            return self.ev(e['args'][0])
        r = self.own_rec(e['t'])
        if r is not None and 'body' in f:
            p = self.temp(self.blank(e['t']), 'obj')
            self.inline(f, p, self.bind_args(f, e['args']))
            return self.read(p)
        raise Unsupported('constructor %s' % f['sig'])

    def blank(self, t):
        r = self.own_rec(t)
        if r is None:
            return self.fresh(t, 'blank')
        fs = {}
        for f in self.p.all_fields(r):
            c = self.ct(f['t'])
            if c == 'rec':
                ty = self.p.ty(f['t'])
                fs[f['name']] = self.default(f['t'])
            else:
                fs[f['name']] = Undef(f['t'])
        return Rec(t, fs)

    # ---- contracts ----------------------------------------------------------------------------------------------------
    def apply_contract(self, c, f, e, this=None):
        if self.nospec:
            raise SpecFail()
        if e['k'] == 'ctor':
            binds = self.bind_args(f, e['args'])
        else:
            this, binds = self.bind_call(f, e)
        return self.use_contract(c, f, this, binds)

    def use_contract(self, c, f, this, binds):
        from contract import Ctx
        self.calls.add(f['sig'])
        if hasattr(c, 'may_throw'):
            raise Unsupported('call of a function whose contract does not say when it throws')
        cx = Ctx(self, f, this, binds)
        for n, g in c.requires(cx):
            self.oblige('precondition of %s: %s' % (f['name'], n), g, 'pre')
        if getattr(self, 'con', None) is not None:
            for n, g in self.con.at_call(f['sig'], self, cx):
                self.oblige(n, g, 'call')
        th = c.throws(cx)
        if th is not None:
            if self.choose(th):
                for path in c.throw_modifies(cx):
                    if isinstance(self.read(path), Undef):
                        continue
                    self.havoc(path)
                cx.seal()
                for n, g in c.throw_ensures(cx):
                    self.assume(g)
                raise ThrowSig('contract:' + f['name'])
        for path in c.modifies(cx):
            if f['kind'] == 'ctor' and path == this:
                # a constructor sets the members of its own class (and bases) only
                for fl in self.p.all_fields(self.p.record(f['cls'])):
                    self.write(this + (('f', fl['name']),), self.fresh(fl['t'], fl['name']))
                continue
            cur = self.read(path)
            if isinstance(cur, Undef):
                # an out parameter
                self.write(path, self.fresh(cur.t, 'out'))
                continue
            self.havoc(path)
        cx.seal()
        ret = c.result(cx)
        if ret is None and f.get('ret') is not None and self.ct(f['ret']) != 'void':
            if self.p.isref(f['ret']):
                raise Unsupported('contract returning a reference')
            ret = self.fresh(f['ret'], 'ret_' + f['name'])
        cx.ret = ret
        for n, g in c.ensures(cx):
            self.assume(g)
        for g in c.lemmas(cx):
            self.assume(g)
        if getattr(self, 'con', None) is not None:
            self.con.after_call(f['sig'], self, cx)
        return ret if ret is not None else VOID

    def havoc(self, path):
        if self.nospec:
            raise SpecFail()
        self.note_write(path)
        self.havoc_quiet(path)

    def havoc_quiet(self, path):
        v = self.read(path)
        nv = self.fresh_like(v, str(path[-1][1] if len(path) > 1 else path[0].split('!')[0]))
        self.store[path[0]] = self._upd(self.store.get(path[0]), path[1:], nv)
        self._type_facts(v, nv, path)

    def _type_facts(self, old, new, path):
        # integers keep the range of the type they were read with
        if isinstance(new, z3.ArithRef):
            t = self.static_type(path)
            if t is not None:
                r = self.trange(t, new)
                if r is not None:
                    self.assume(r)
        elif isinstance(new, Rec):
            for k in new.f:
                self._type_facts(old.f[k], new.f[k], path + (('f', k),))

    def static_type(self, path):
        if len(path) == 1:
            r = path[0]
            return self.root_types.get(r)
        v = self.read(path[:-1])
        if isinstance(v, Rec):
            r = self.own_rec(v.t)
            if r is not None:
                for f in self.p.all_fields(r):
                    if f['name'] == path[-1][1]:
                        return f['t']
        return None

    # ---- statements -----------------------------------------------------------------------------------------------------
    def st(self, s):
        if s is None:
            return
        if s.get('l'):
            self.line = s['l']
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('statement %s' % s['k'])
        return m(s)

    def s_block(self, s):
        self.scopes.append([])
        try:
            for x in s['ss']:
                self.st(x)
        except (Sig, Infeasible):
            self.leave_scope(self.scopes.pop())
            raise
        except BaseException:
            self.scopes.pop()
            raise
        self.leave_scope(self.scopes.pop())

    def leave_scope(self, roots):
        for r in reversed(roots):
            v = self.store.get(r)
            if isinstance(v, Guard):
                v.release(self)

    def s_expr(self, s):
        e = s['e']
        self.ev_discard(e)

    def ev_discard(self, e):
        k = e['k']
        if k in ('asg', 'casg'):
            self.assign(e)
        elif k in ('opcall', 'mcall', 'call'):
            self.call(e, want_lv=True)
        elif k == 'un' and e['op'] in ('++', '--'):
            self.ev(e)
        elif k == 'bin' and e['op'] == ',':
            self.ev_discard(e['a'])
            self.ev_discard(e['b'])
        elif k == 'cast' and e['ck'] in ('ToVoid', 'NoOp'):
            self.ev_discard(e['e'])
        elif k in ('ref', 'mem'):
            pass
        else:
            self.ev(e)

    def s_null(self, s):
        pass

    def s_decl(self, s):
        for v in s['vs']:
            t = v['t']
            if self.p.isref(t):
                if v.get('init') is None:
                    raise Unsupported('reference without initialiser')
                self.frames[-1].loc[v['id']] = self.lv(v['init'])
                continue
            val = None
            if v.get('init') is not None:
                val = self.ev(v['init'])
            else:
                c = self.ct(t)
                val = Undef(t) if c != 'rec' else self.default(t)
            root = self.nm('v:' + v['name'])
            self.store[root] = val
            self.root_types[root] = t
            self.frames[-1].loc[v['id']] = (root,)
            if isinstance(val, Guard):
                if not self.scopes:
                    raise Unsupported('lock outside a block')
                self.scopes[-1].append(root)

    def s_if(self, s):
        if s.get('init'):
            self.st(s['init'])
        if s.get('cv'):
            raise Unsupported('if with declaration')
        if self.opts.get('join_if') and not s.get('b') and not self.nospec:
            import loops
            if loops.joined(self, s):
                return
        c = self.cond(s['c'])
        if self.choose(c):
            self.st(s['a'])
        elif s.get('b'):
            self.st(s['b'])

    def s_ret(self, s):
        e = s.get('e')
        if e is None:
            raise RetSig(VOID)
        f = self.frames[-1].fn
        if f.get('ret') is not None and self.p.isref(f['ret']):
            raise RetSig(self.lv(e))
        raise RetSig(self.ev(e))

    def s_break(self, s):
        raise BrkSig()

    def s_continue(self, s):
        raise ContSig()

    def s_switch(self, s):
        v = self.ev(s['c'])
        body = s['body']['ss'] if s['body']['k'] == 'block' else [s['body']]
        # flatten into (labels, statements)
        flat = []

        def flatten(x):
            while x['k'] in ('case', 'default'):
                flat.append(('lab', x))
                x = x['sub']
            flat.append(('st', x))
        for x in body:
            flatten(x)
        labs = [(n, x) for n, (k, x) in enumerate(flat) if k == 'lab' and x['k'] == 'case']
        dfl = [n for n, (k, x) in enumerate(flat) if k == 'lab' and x['k'] == 'default']
        start = None
        for n, x in labs:
            lab = x['v'] if 'v' in x else x['e']
            if self.choose(v == (IntVal(int(lab)) if isinstance(lab, (str, int)) else self.ev(lab))):
                start = n
                break
        if start is None:
            if not dfl:
                return
            start = dfl[0]
        try:
            for k, x in flat[start:]:
                if k == 'st':
                    self.st(x)
        except BrkSig:
            pass

    def s_try(self, s):
        raise Unsupported('try')

    # ---- loops ------------------------------------------------------------------------------------------------------
    def s_while(self, s):
        def it():
            if not self.choose(self.cond(s['c'])):
                raise ExitSig()
            self.loop_body(s['body'])
        self.loop(s, it, s['c'])

    def s_do(self, s):
        def it():
            self.loop_body(s['body'])
            if not self.choose(self.cond(s['c'])):
                raise ExitSig()
        self.loop(s, it, None)

    def s_for(self, s):
        if s.get('init'):
            self.st(s['init'])

        def it():
            if s.get('c') is not None and not self.choose(self.cond(s['c'])):
                raise ExitSig()
            self.loop_body(s['body'])
            if s.get('inc') is not None:
                self.ev_discard(s['inc'])
        self.loop(s, it, s.get('c'))

    def s_range(self, s):
        rng = s['range']
        path = self.lv(rng) if (rng.get('lv') or rng['k'] in ('mat',)) else self.temp(self.ev(rng), 'rng')
        root = self.nm('v:__ri')
        self.store[root] = IntVal(0)
        v = s['var']
        self.frames[-1].loc[-v['id']] = (root,)
        # an initializer list is iterated concretely
        val = self.read(path)
        if isinstance(val, IList):
            try:
                for n in range(len(val.vals)):
                    try:
                        self.frames[-1].loc[v['id']] = self.temp(val.vals[n])
                        self.st(s['body'])
                    except ContSig:
                        pass
            except BrkSig:
                pass
            return

        def it():
            i = self.read(self.frames[-1].loc[-v['id']])
            vec = self.read(path)
            if not self.choose(i < vec.len):
                raise ExitSig()
            if self.p.isref(v['t']):
                self.frames[-1].loc[v['id']] = path + (('i', i),)
            else:
                self.frames[-1].loc[v['id']] = self.temp(self.elem(vec, i), 'v:' + v['name'])
            self.loop_body(s['body'])
            self.write(self.frames[-1].loc[-v['id']], i + 1)
        self.loop(s, it, None, range_info=(root, path))

    def loop_body(self, b):
        try:
            self.st(b)
        except ContSig:
            pass

    def loop(self, s, it, cond_e, range_info=None):
        import loops
        loops.run_loop(self, s, it, cond_e, range_info)
