"""Contracts on evaluation: numeric and symbolic, plain, weighted and ANN expressions; weights and biases."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Select, IntVal, BoolVal, MultiPattern, Const, Function, Int
import logic as L
from logic import I, D, S as STR, AI, AD, AS, mul
from exec import Vec, Rec, Iter, Undef, Lam, Opt, Unsupported
from contract import Contract
import layout
from layout import Lay, G, p_, k_, v_, q_, t_, MEM, MARK
import expr
from expr import REG, E, Method, Inv, this, VD, int_locals

KS = L.usort('U_dcgp_kernel_double_')
KEV = L.extfun('kev', [KS], D, D)          # what a kernel computes on a list of numbers
KPR = L.extfun('kpr', [KS], STR, STR)      # what it prints for a list of strings
KNAME = Function('kname', KS, STR)         # its name
AK = z3.ArraySort(I, KS)
VS = 'const std::vector<string > &'
W = 'dcgp::expression_weighted<double>'
A = 'dcgp::expression_ann'
j_ = Int('l!j')

# value of node v: x, arities, rows, inputs, kernels, point, its length, constants, weights, biases
FN = {}
for _k, _e in (('p', D), ('s', STR)):
    _a = z3.ArraySort(I, _e)
    for _c in ('e', 'w', 'a'):
        FN[_c + _k] = (Function('VAL_' + _c + _k, AI, AI, I, I, AK, _a, I, _a, _a, _a, I, _e),
                       Function('ARG_' + _c + _k, AI, AI, I, I, AK, _a, I, _a, _a, _a, I, _a))

# node and connection of a position in the weight vector
WN, WO = layout.WN, layout.WO


def lit(s):
    return L.slit(s)


class Val:
    """the value of each node of the graph encoded by S, at a point: defined by recursion over the (feed-forward) graph"""

    def __init__(self, S, pt, fam, num):
        self.S, self.pt, self.fam, self.num = S, pt, fam, num
        self.y = y = Lay(S)
        self.key = fam + ('p' if num else 's')
        if fam == 'e':
            e = S.m_eph_val if num else S.m_eph_symb
            none = Const('nothing_' + self.key, e.arr.sort())
            self.args = (S.m_x.arr, y.A, y.r, y.n, S.m_f.arr, pt.arr, pt.len, e.arr, none, none)
            self.e = e
        else:
            w = S.m_weights if num else S.m_weights_symbols
            none = Const('nothing_' + self.key, w.arr.sort())
            b = none
            if fam == 'a':
                b = S.m_biases.arr if num else S.m_biases_symbols.arr
            self.args = (S.m_x.arr, y.A, y.r, y.n, S.m_f.arr, pt.arr, pt.len, none, w.arr, b)
            self.w, self.b = w.arr, b

    def V(self, v):
        return FN[self.key][0](*self.args, v)

    def ARG(self, v):
        return FN[self.key][1](*self.args, v)

    def apply(self, v):
        y = self.y
        k = Select(self.S.m_f.arr, Select(self.S.m_x.arr, y.G(v - y.n)))
        return (KEV if self.num else KPR)(k, y.AR(v - y.n), self.ARG(v))

    def arg(self, v, j):
        """argument j of the kernel at node v"""
        y = self.y
        conn = self.V(Select(self.S.m_x.arr, L.norm(y.G(v - y.n) + 1 + j)))
        if self.fam == 'e':
            return conn
        w = Select(self.w, L.norm(y.G(v - y.n) - (v - y.n) + j))
        if self.num:
            r = L.DMUL(conn, w)
        else:
            r = L.cat(lit('('), w, lit('*'), conn, lit(')')) if self.fam == 'w' else L.cat(w, lit('*'), conn)
        if self.fam == 'a':
            b = Select(self.b, L.norm(v - y.n))
            r = If(j == 0, L.DADD(r, b) if self.num else L.cat(b, lit('+'), r), r)
        return r

    def input(self, v):
        if self.fam == 'e':
            return If(v < self.pt.len, Select(self.pt.arr, v), Select(self.e.arr, L.norm(v - self.pt.len)))
        return Select(self.pt.arr, v)

    def facts(self):
        """definition (recursion over nodes, well founded because connections point to earlier nodes)"""
        y = self.y
        end = y.n + y.rc
        return [ForAll([v_], Implies(And(0 <= v_, v_ < y.n), self.V(v_) == self.input(v_)), patterns=[self.V(v_)]),
                ForAll([v_], Implies(And(y.n <= v_, v_ < end), self.V(v_) == self.apply(v_)), patterns=[MultiPattern(self.V(v_), MARK(v_))]),
                ForAll([v_, j_], Implies(And(y.n <= v_, v_ < end, 0 <= j_, j_ < y.AR(v_ - y.n)), Select(self.ARG(v_), j_) == self.arg(v_, j_)),
                       patterns=[Select(self.ARG(v_), j_)])]

    def out(self, ret):
        """ret holds the value of each output"""
        y = self.y
        return [('one value per output', ret.len == y.m),
                ('each output is the value of the node its gene selects',
                 ForAll([k_], Implies(And(0 <= k_, k_ < y.m), Select(ret.arr, k_) == self.V(Select(self.S.m_x.arr, L.norm(y.size - y.m + k_)))), patterns=[Select(ret.arr, k_)]))]


def wwf(S, ann):
    """weights, their names (and biases) belong to the layout"""
    y = Lay(S)
    out = [('one weight per connection', And(S.m_weights.len == mul(y.r, y.SUM), S.m_weights_symbols.len == mul(y.r, y.SUM))),
           ('weight names follow node and connection', ForAll([p_], Implies(And(0 <= p_, p_ < mul(y.r, y.SUM)), Select(S.m_weights_symbols.arr, p_) == L.cat(
               lit('w'), L.SINT(L.norm(y.n + WN(y.A, y.r, p_))), lit('_'), L.SINT(WO(y.A, y.r, p_)))), patterns=[Select(S.m_weights_symbols.arr, p_)]))]
    if ann:
        out += [('one bias per node', And(S.m_biases.len == y.rc, S.m_biases_symbols.len == y.rc)),
                ('bias names follow the nodes', ForAll([p_], Implies(And(0 <= p_, p_ < y.rc), Select(S.m_biases_symbols.arr, p_) == L.cat(lit('b'), L.SINT(L.norm(y.n + p_)))), patterns=[Select(S.m_biases_symbols.arr, p_)])),
                ('one activation per kernel', S.m_kernel_map.len == S.m_f.len)]
    return out


wfacts = layout.weight_facts


def weight_lemmas():
    """weight positions: the blocks of the nodes are disjoint, consecutive and cover the vector"""
    out = []
    Aa = Const('A', AI)
    r, c, t, s, p, rc = z3.Ints('r c t s p rc')
    g = lambda x: G(Aa, r, L.norm(x))
    AR = lambda x: Select(Aa, L.DIV(L.norm(x), r))
    hyp = [r >= 1, rc >= 1, ForAll([s_], Implies(And(0 <= s_, s_ < rc), Select(Aa, L.DIV(s_, r)) >= 1), patterns=[L.DIV(s_, r)])]
    define = [g(IntVal(0)) == 0, ForAll([s_, t_], Implies(And(0 <= s_, t_ == s_ + 1), G(Aa, r, t_) == G(Aa, r, s_) + 1 + Select(Aa, L.DIV(s_, r))), patterns=[MultiPattern(G(Aa, r, s_), G(Aa, r, t_))])]
    WI = lambda x: L.norm(g(x) - x)
    # blocks are consecutive
    out.append(('weights of consecutive nodes are consecutive', hyp + define + [0 <= t, t < rc], WI(t + 1) == WI(t) + AR(t)))
    out.append(('weights of the first node come first', define, WI(IntVal(0)) == 0))
    IH = ForAll([s_], Implies(And(0 <= s_, s_ < t), L.norm(G(Aa, r, s_) - s_) + Select(Aa, L.DIV(s_, r)) <= WI(t)), patterns=[G(Aa, r, s_)])
    out.append(('weight blocks are increasing (induction step)', hyp + define + [0 <= t, t + 1 <= rc, IH, 0 <= s, s <= t, L.TOUCH(g(t)), L.TOUCH(g(t + 1))], WI(s) + AR(s) <= WI(t + 1)))
    mono = ForAll([s_, t_], Implies(And(0 <= s_, s_ < t_, t_ <= rc), L.norm(G(Aa, r, s_) - s_) + Select(Aa, L.DIV(s_, r)) <= L.norm(G(Aa, r, t_) - t_)), patterns=[MultiPattern(G(Aa, r, s_), G(Aa, r, t_))])
    out.append(('different nodes and connections address different weights', hyp + [mono, 0 <= s, s < rc, 0 <= t, t < rc, WI(s) <= p, p < WI(s) + AR(s), WI(t) <= p, p < WI(t) + AR(t)], s == t))
    IHp = Implies(p < WI(t), Exists([s_], And(0 <= s_, s_ < t, L.norm(G(Aa, r, s_) - s_) <= p, p < L.norm(G(Aa, r, s_) - s_) + Select(Aa, L.DIV(s_, r)))))
    out.append(('every weight belongs to a node (induction step)', hyp + define + [0 <= t, t < rc, IHp, 0 <= p, p < WI(t + 1), L.TOUCH(g(t))],
                Exists([s_], And(0 <= s_, s_ <= t, L.norm(G(Aa, r, s_) - s_) <= p, p < L.norm(G(Aa, r, s_) - s_) + Select(Aa, L.DIV(s_, r))))))
    return out


s_ = layout.s_


class KernelNum(Contract):
    assumed = True
    """assumed here, proved with function.hpp and kernel.hpp (C12): a kernel forwards to its callable"""
    sig = 'dcgp::kernel<double>::operator()(' + VD + ')'

    def result(self, c):
        v = c.arg(0)
        return KEV(c.old(), v.len, v.arr)


class KernelStr(Contract):
    assumed = True
    sig = 'dcgp::kernel<double>::operator()(' + VS + ')'

    def result(self, c):
        v = c.arg(0)
        return KPR(c.old(), v.len, v.arr)


class KernelName(Contract):
    assumed = True
    sig = 'dcgp::kernel<double>::get_name()'

    def result(self, c):
        return KNAME(c.old())


BASE = {c.sig: c for c in (KernelNum(), KernelStr(), KernelName())}


def reg(cls):
    c = cls()
    REG[c.sig] = c
    return cls


class EvalBase(Method):
    fam, num = 'e', True
    pt_arg = 0

    def obj(self, c):
        return c.old()

    def requires(self, c):
        S = self.obj(c)
        r = layout.wf(S) + layout.act(S)
        if self.fam != 'e':
            r = r + wwf(S, self.fam == 'a') + [('no constants', S.m_eph_val.len == 0)]
        return r + [('point fits', c.arg(self.pt_arg).len < 2**32)]

    def val(self, c):
        return Val(self.obj(c), c.arg(self.pt_arg), self.fam, self.num)

    def background(self, c):
        S = self.obj(c)
        return Lay(S).facts() + self.val(c).facts() + (wfacts(S) if self.fam != 'e' else [])

    def throws(self, c):
        S = self.obj(c)
        n = c.arg(self.pt_arg).len
        if self.fam == 'e':
            n = n + (S.m_eph_val if self.num else S.m_eph_symb).len
        return n != S.m_n

    def ensures(self, c):
        return self.val(c).out(c.ret)

    def hints(self, ex, c):
        S = self.obj(c)
        y = Lay(S)
        out = [L.TOUCH(Select(S.m_x.arr, L.norm(y.size - y.m)))]
        for f in ex.frames:
            for vid, path in f.loc.items():
                nm = path[0].split('!')[0]
                if nm in ('v:node_id', 'v:__ri', 'v:node'):
                    try:
                        e = ex.read(path)
                    except Exception:
                        continue
                    if isinstance(e, z3.ArithRef):
                        out += [MARK(e), L.TOUCH(y.G(e - y.n)), MARK(Select(S.m_active_nodes.arr, e))]
        return out

    def invs(self, li):
        v = Inv(li)
        ex0 = li.ex
        c = ex0.ctx
        val = self.val(c)
        S, y = val.S, val.y
        an, x = S.m_active_nodes, S.m_x.arr
        ri = [n for n in v.loc if n == '__ri']
        fl = li.frame_locals()
        rd = lambda ex, n: ex.read(fl[n])
        if 'node' in fl and fl['node'] in li.mods and '__ri' in fl:
            v.add('values of the nodes visited', lambda ex, it: ForAll([k_], Implies(And(0 <= k_, k_ < rd(ex, '__ri')), Select(rd(ex, 'node').arr, Select(an.arr, k_)) == val.V(Select(an.arr, k_))), patterns=[Select(an.arr, k_)]))
            v.add('position in the list of active nodes', lambda ex, it: And(0 <= rd(ex, '__ri'), rd(ex, '__ri') <= an.len))
        if 'node' in fl and fl['node'] in li.mods and '__ri' not in fl:
            # written with an explicit index
            pass
        if 'function_in' in fl and fl['function_in'] in li.mods and 'j' in fl and fl['j'] in li.mods:
            # arguments gathered so far
            def conn(ex, k):
                g = v_node(ex)
                return val.V(Select(x, L.norm(y.G(g - y.n) + 1 + k)))

            def v_node(ex):
                return rd(ex, 'node_id')
            e0 = li.entry(fl['function_in'])
            v.add('arguments gathered so far', lambda ex, it: ForAll([k_], Implies(And(0 <= k_, k_ < rd(ex, 'j')), Select(rd(ex, 'function_in').arr, k_) == conn(ex, k_)), patterns=[Select(rd(ex, 'function_in').arr, k_)]))
            if self.fam != 'e':
                def wrr(ex, k):
                    g = v_node(ex)
                    w = Select(val.w, L.norm(y.G(g - y.n) - (g - y.n) + k))
                    cn = Select(e0.arr, k)
                    if self.num:
                        return L.DMUL(cn, w)
                    return L.cat(lit('('), w, lit('*'), cn, lit(')')) if self.fam == 'w' else L.cat(w, lit('*'), cn)
                v.add('weighted arguments so far', lambda ex, it: ForAll([k_], Implies(And(0 <= k_, k_ < rd(ex, 'j')), Select(rd(ex, 'function_in').arr, k_) == wrr(ex, k_)), patterns=[Select(rd(ex, 'function_in').arr, k_)]))
        if 'retval' in fl and fl['retval'] in li.mods and 'i' in fl:
            v.add('outputs so far', lambda ex, it: ForAll([k_], Implies(And(0 <= k_, k_ < rd(ex, 'i')), Select(rd(ex, 'retval').arr, k_) == val.V(Select(x, L.norm(y.size - y.m + k_)))), patterns=[Select(rd(ex, 'retval').arr, k_)]))
        return v.out


@reg
class Impl(EvalBase):
    """the evaluation function proper (a static member taking the expression)"""
    sig = E + '::call_operator_impl(const dcgp::expression<double> &, ' + VD + ')'
    pt_arg = 1

    def obj(self, c):
        return c.arg(0)


@reg
class EvalStr(EvalBase):
    sig = E + '::operator()(' + VS + ')'
    num = False


@reg
class WEval(EvalBase):
    sig = W + '::operator()(' + VD + ')'
    fam = 'w'


@reg
class WEvalStr(EvalBase):
    sig = W + '::operator()(' + VS + ')'
    fam, num = 'w', False


@reg
class AEval(EvalBase):
    sig = A + '::operator()(' + VD + ')'
    fam = 'a'


@reg
class AEvalStr(EvalBase):
    sig = A + '::operator()(' + VS + ')'
    fam, num = 'a', False


PCLEN, PCARR = {}, {}


def pc_result(fv, pt):
    s = fv.sort()
    if s not in PCLEN:
        PCLEN[s] = Function('pc_len', s, I, pt.arr.sort(), I)
        PCARR[s] = Function('pc_arr', s, I, pt.arr.sort(), pt.arr.sort())
    return Vec(PCLEN[s](fv, pt.len, pt.arr), PCARR[s](fv, pt.len, pt.arr), pt.et)


@reg
class EvalNum(EvalBase):
    """with a phenotype correction installed: it is handed the point and the evaluation function, and its result is returned"""
    sig = E + '::operator()(' + VD + ')'

    def throws(self, c):
        return And(Not(c.old().m_phenotype_correction.has), EvalBase.throws(self, c))

    def ensures(self, c):
        pc = c.old().m_phenotype_correction
        r = pc_result(pc.val, c.arg(0))
        return [(n, Or(pc.has, g)) for n, g in self.val(c).out(c.ret)] + [
            ('with a correction its result is returned', Implies(pc.has, And(c.ret.len == r.len, ForAll([k_], Implies(And(0 <= k_, k_ < r.len), Select(c.ret.arr, k_) == Select(r.arr, k_)), patterns=[Select(c.ret.arr, k_)]))))]

    def opaque_call(self, ex, fv, vals, f):
        c = ex.ctx
        pc = c.old().m_phenotype_correction
        if len(vals) != 2 or not isinstance(vals[0], Vec) or not isinstance(vals[1], Lam):
            raise Unsupported('call of an unknown std::function')
        pt, lam = vals
        ex.oblige('the installed correction is called', And(pc.has, fv == pc.val), 'call')
        ex.oblige('the correction receives the point', ex.veq(pt, c.arg(0)) if not pt.arr.eq(c.arg(0).arr) else pt.len == c.arg(0).len, 'call')
        # the function it receives is the evaluation function: on any argument
        S = self.obj(c)
        arg = ex.fresh(self.pt_type(ex, c), 'anypoint')

        def thunk():
            val = Val(S, arg, 'e', True)
            for g in val.facts():
                ex.assume(g)
            ex.assume(arg.len < 2**32)
            from exec import ThrowSig
            bad = arg.len + S.m_eph_val.len != S.m_n
            try:
                r = ex.call_lambda(lam, [ex.temp(arg, 'arg')])
            except ThrowSig:
                ex.oblige('the function handed to the correction rejects only wrong sizes', bad, 'call')
                return None
            if isinstance(r, tuple):
                r = ex.read(r)
            ex.oblige('the function handed to the correction rejects wrong sizes', Not(bad), 'call')
            for n, g in val.out(r):
                ex.oblige('the function handed to the correction evaluates this expression: ' + n, g, 'call')
            return None
        ex.explore(thunk)
        return pc_result(fv, pt)

    def pt_type(self, ex, c):
        return c.f['params'][0]['t']
