from specs.bits import *
from irv.unit import Unit
AI = z3.ArraySort(Int, Int); V = z3.IntVal
sp = UF('in_span', AI, Int, Int, Bool)
@definition
def sp_def(B, k, x): return sp(B, k, x) == If(k <= 0, x == 0, Or(sp(B, k - 1, x), sp(B, k - 1, bxor(x, B[k - 1]))))
nn = lambda *xs: And(*[x >= 0 for x in xs])
x_rng = Lemma('xor_nonneg', [Int, Int], lambda a, b: Implies(nn(a, b), bxor(a, b) >= 0), proof=lambda ih, u, a, b: [u(bits_bv), bxor_def(a, b), ih(a / 2, b / 2)], measure=lambda a, b: a)
x_0 = Lemma('xor_zero', [Int], lambda a: Implies(a >= 0, And(bxor(a, 0) == a, bxor(0, a) == a)), proof=lambda ih, u, a: [bxor_def(a, V(0)), bxor_def(V(0), a)])
x_comm = Lemma('xor_comm', [Int, Int], lambda a, b: Implies(nn(a, b), bxor(a, b) == bxor(b, a)), proof=lambda ih, u, a, b: [bxor_def(a, b), bxor_def(b, a), ih(a / 2, b / 2)], measure=lambda a, b: a)
def step(a, b): return [bxor_def(a, b)]
x_half = Lemma('xor_digits', [Int, Int], lambda a, b: Implies(nn(a, b), And(bxor(a, b) % 2 == (a + b) % 2, bxor(a, b) / 2 == bxor(a / 2, b / 2))), proof=lambda ih, u, a, b: [bxor_def(a, b), u(x_rng, a / 2, b / 2), bxor_def(a / 2, b / 2), u(x_0, a), u(x_0, b), u(x_0, a / 2), u(x_0, b / 2)])
x_assoc = Lemma('xor_assoc', [Int, Int, Int], lambda a, b, c: Implies(nn(a, b, c), bxor(bxor(a, b), c) == bxor(a, bxor(b, c))),
    proof=lambda ih, u, a, b, c: [u(x_half, a, b), u(x_half, b, c), u(x_half, bxor(a, b), c), u(x_half, a, bxor(b, c)), u(x_rng, a, b), u(x_rng, b, c), u(x_rng, bxor(a, b), c), u(x_rng, a, bxor(b, c)), ih(a / 2, b / 2, c / 2), u(x_0, bxor(b, c)), u(x_0, b)], measure=lambda a, b, c: a)
x_self = Lemma('xor_self', [Int], lambda a: Implies(a >= 0, bxor(a, a) == 0), proof=lambda ih, u, a: [bxor_def(a, a), ih(a / 2)], measure=lambda a: a)
x_can = Lemma('xor_cancel', [Int, Int], lambda a, b: Implies(nn(a, b), And(bxor(bxor(a, b), b) == a, bxor(a, bxor(a, b)) == b)), proof=lambda ih, u, a, b: [u(x_assoc, a, b, b), u(x_assoc, a, a, b), u(x_self, a), u(x_self, b), u(x_0, a), u(x_0, b)])
x_eq0 = Lemma('xor_equal', [Int, Int], lambda a, b: Implies(And(nn(a, b), bxor(a, b) == 0), a == b), proof=lambda ih, u, a, b: [u(x_can, a, b), u(x_0, b)])
# red(b, x): x does not contain the leading bit of b
red = lambda b, x: bxor(b, x) >= x
red_half = Lemma('leading_bit_recursion', [Int, Int], lambda b, x: Implies(And(b >= 1, x >= 0), red(b, x) == If(b == 1, x % 2 == 0, red(b / 2, x / 2))),
    proof=lambda ih, u, b, x: [u(x_half, b, x), u(x_rng, b, x), u(x_eqx, b / 2, x / 2), u(x_0, x / 2), x / 2 == x / 2])
x_eqx = Lemma('xor_fixes', [Int, Int], lambda a, x: Implies(And(nn(a, x), bxor(a, x) == x), a == 0), proof=lambda ih, u, a, x: [u(x_can, a, x), u(x_self, x)])
red_sum = Lemma('leading_bit_of_sum', [Int, Int, Int], lambda b, x, y: Implies(And(b >= 1, nn(x, y), red(b, x), red(b, y)), red(b, bxor(x, y))),
    proof=lambda ih, u, b, x, y: [u(red_half, b, x), u(red_half, b, y), u(red_half, b, bxor(x, y)), u(x_half, x, y), u(x_rng, x, y), ih(b / 2, x / 2, y / 2)], measure=lambda b, x, y: b, pat=lambda b, x, y: bxor(b, bxor(x, y)))
red_flip = Lemma('leading_bit_cleared', [Int, Int], lambda b, x: Implies(And(b >= 1, x >= 0, Not(red(b, x))), red(b, bxor(b, x))), proof=lambda ih, u, b, x: [u(x_can, b, x), u(x_rng, b, x)])
def nonneg(B, k): return forall(1, lambda i: Implies(And(0 <= i, i < k), B[i] >= 1), pat=lambda i: B[i])
def reduced(B, k): return forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < k), red(B[i], B[j])), pat=lambda i, j: bxor(B[i], B[j]))
def redv(B, k, x): return forall(1, lambda i: Implies(And(0 <= i, i < k), red(B[i], x)), pat=lambda i: B[i])
# the only member of the span that lacks every leading bit is 0
def ip(ih, u, B, k, x):
    y = bxor(x, B[k - 1])
    return [sp_def(B, k, x), ih(B, k - 1, x), ih(B, k - 1, y), u(x_rng, x, B[k - 1]), u(x_eq0, x, B[k - 1]), u(x_self, B[k - 1]), u(x_self, x), B[k - 1] == B[k - 1]]
sp_red = Lemma('span_leading_bits', [AI, Int, Int], lambda B, k, x: Implies(And(x >= 0, nonneg(B, k), reduced(B, k), redv(B, k, x), sp(B, k, x)), x == 0),
    proof=ip, measure=lambda B, k, x: If(k > 0, k, 0))
sp_red.lemma_theory = [red_sum]
def sh(ih, u, B, n, k, x):
    e, f = B[k], B[n - 1]
    return [sp_def(B, n, x), sp_def(B, n, bxor(x, e)), ih(B, n - 1, k, x), ih(B, n - 1, k, bxor(x, f)), u(x_rng, x, e), u(x_rng, x, f), u(x_assoc, x, e, f), u(x_assoc, x, f, e), u(x_comm, e, f), u(x_can, x, e), B[k] == B[k]]
sp_shift = Lemma('span_shift', [AI, Int, Int, Int], lambda B, n, k, x: Implies(And(x >= 0, 0 <= k, k < n, forall(1, lambda i: Implies(And(0 <= i, i < n), B[i] >= 0), pat=lambda i: B[i])), sp(B, n, x) == sp(B, n, bxor(x, B[k]))), proof=sh, measure=lambda B, n, k, x: n)
sp_ext = Lemma('span_ext', [AI, AI, Int, Int], lambda B, C, k, x: Implies(forall(1, lambda i: Implies(And(0 <= i, i < k), B[i] == C[i]), pat=[lambda i: B[i]][0]), sp(B, k, x) == sp(C, k, x)),
    proof=lambda ih, u, B, C, k, x: [sp_def(B, k, x), sp_def(C, k, x), ih(B, C, k - 1, x), ih(B, C, k - 1, bxor(x, B[k - 1])), B[k - 1] == B[k - 1]], measure=lambda B, C, k, x: If(k > 0, k, 0))
sp_zero = Lemma('span_zero', [AI, Int], lambda B, k: sp(B, k, 0), proof=lambda ih, u, B, k: [sp_def(B, k, V(0)), ih(B, k - 1)], measure=lambda B, k: If(k > 0, k, 0))
X = z3.Int('ghost_vec')
def wf(s, o): B, n = s.e(o + '._basis'), s.n(o + '._basis'); return [('size', And(n < 1 << 30)), ('nonzero', nonneg(B, n)), ('leading bits', reduced(B, n))]
def a_inv(s):
    B, n, k, v, v0 = s.e('this._basis'), s.n('this._basis'), s.v('__begin0'), s.v('v'), s.old('v')
    return [('range', And(0 <= k, k <= n, v >= 0)), ('leading bits cleared', redv(B, k, v)), ('same coset', forall(1, lambda x: Implies(x >= 0, sp(B, n, bxor(x, v)) == sp(B, n, bxor(x, v0))), pat=lambda x: sp(B, n, bxor(x, v0))))]
def a_use(s):
    if s.prev is None: return
    B, n, k, v = s.e('this._basis'), s.n('this._basis'), s.prev.v('__begin0'), s.prev.v('v'); e = B[k]; v0 = s.old('v')
    s.lemma(red_flip, e, v); s.lemma_all(red_sum, forall(1, lambda i: red_sum.inst(B[i], e, v), pat=lambda i: B[i])); s.lemma(x_rng, e, v)
    s.lemma_all(sp_shift, forall(1, lambda x: sp_shift.inst(B, n, k, bxor(x, v)), pat=lambda x: sp(B, n, bxor(x, v0)))); s.lemma_all(x_rng, forall(1, lambda x: x_rng.inst(x, v), pat=lambda x: sp(B, n, bxor(x, v0))))
    s.lemma_all(x_assoc, forall(1, lambda x: x_assoc.inst(x, v, e), pat=lambda x: sp(B, n, bxor(x, v0)))); s.lemma(x_comm, v, e)
def joined(B, n, B0, n0, v): return forall(1, lambda x: Implies(x >= 0, sp(B, n, x) == Or(sp(B0, n0, x), sp(B0, n0, bxor(x, v)))), pat=lambda x: sp(B, n, x))
def a_ens(s):
    B, n, B0, n0, v = s.e('this._basis'), s.n('this._basis'), s.old.e('this._basis'), s.old.n('this._basis'), s.old('v')
    return wf(s, 'this')[1:] + [('new exactly if independent', s.res == Not(sp(B0, n0, v))), ('dimension', n == n0 + If(s.res, 1, 0)), ('old vectors', forall(1, lambda i: Implies(And(0 <= i, i < n0), B[i] == B0[i]), pat=lambda i: B[i])), ('span', joined(B, n, B0, n0, v))]
def a_end(s):
    B, n, B0, n0, v0, v = s.e('this._basis'), s.n('this._basis'), s.old.e('this._basis'), s.old.n('this._basis'), s.old('v'), s.v('v')
    s.lemma(sp_red, B0, n0, v); s.lemma(sp_zero, B0, n0); s.lemma(x_0, v); s.lemma(x_0, v0)
    s.have('v in the span iff its remainder is', sp(B0, n0, bxor(V(0), v)) == sp(B0, n0, bxor(V(0), v0)))
    s.lemma_all(sp_ext, forall(1, lambda x: sp_ext.inst(B0, B, n0, x), pat=lambda x: sp(B, n0, x))); s.assume_def(forall(1, lambda x: sp_def(B, n, x), pat=lambda x: sp(B, n, x))); s.lemma_all(x_0, forall(1, lambda x: x_0.inst(x), pat=lambda x: sp(B, n, x)))
    s.lemma_all(sp_ext, forall(1, lambda x: sp_ext.inst(B0, B, n0, bxor(x, v)), pat=lambda x: sp(B, n, x)))
C_add = FnSpec('XorBase::add', match=r'XorBase<unsigned int>::add\(unsigned int\)', requires=lambda s: wf(s, 'this'), ensures=a_ens, modifies=lambda s: ['this._basis'], loops=[LoopSpec(a_inv, dec=lambda s: s.n('this._basis') - s.v('__begin0'), use=a_use)], use=a_end)
def sp2(n, n2): return n + n2 < 1 << 29
# ---- constructor: the basis spans exactly the span of the given vectors
def c_inv(s):
    A, k, B, n = s.e('a'), s.v('__begin0'), s.e('out._basis'), s.n('out._basis')
    return wf(s, 'out')[1:] + [('range', And(0 <= k, k <= s.n('a'), n <= k)), ('span so far', forall(1, lambda x: Implies(x >= 0, sp(B, n, x) == sp(A, k, x)), pat=lambda x: sp(B, n, x)))]
def c_use(s):
    A, k, B, n = s.e('a'), s.v('__begin0'), s.e('out._basis'), s.n('out._basis')
    s.assume_def(forall(1, lambda x: sp_def(A, k, x), pat=lambda x: sp(B, n, x)))
    s.assume_def(forall(1, lambda x: sp_def(B, n, x), pat=lambda x: sp(B, n, x))) if s.prev is None else None
    if s.prev is not None: v = A[s.prev.v('__begin0')]; s.lemma_all(x_rng, forall(1, lambda x: x_rng.inst(x, v), pat=lambda x: sp(B, n, x)))
ctor = FnSpec('xb_ctor', requires=lambda s: s.n('a') < 1 << 29, ensures=lambda s: wf(s, 'out') + [('span of the vectors', forall(1, lambda x: Implies(x >= 0, sp(s.e('out._basis'), s.n('out._basis'), x) == sp(s.e('a'), s.n('a'), x)), pat=lambda x: sp(s.e('out._basis'), s.n('out._basis'), x)))],
    loops=[LoopSpec(c_inv, dec=lambda s: s.n('a') - s.v('__begin0'), use=c_use)])
add = FnSpec('xb_add', requires=lambda s: wf(s, 's'), ensures=lambda s: [('new exactly if independent', s.res == Not(sp(s.old.e('s._basis'), s.old.n('s._basis'), s('v')))), ('dimension', s.n('s._basis') == s.old.n('s._basis') + If(s.res, 1, 0)), ('span', joined(s.e('s._basis'), s.n('s._basis'), s.old.e('s._basis'), s.old.n('s._basis'), s('v')))] + wf(s, 's')[1:])
add1 = FnSpec('xb_pluseq1', requires=lambda s: wf(s, 's'), ensures=lambda s: [('span', joined(s.e('s._basis'), s.n('s._basis'), s.old.e('s._basis'), s.old.n('s._basis'), s('v')))] + wf(s, 's')[1:])
# ---- sum of two spaces: cat(B0, n0, C, k) is the concatenation of the generators
ss = UF('in_sum', AI, Int, AI, Int, Int, Bool)
@definition
def ss_def(B, n, C, k, x): return ss(B, n, C, k, x) == If(k <= 0, sp(B, n, x), Or(ss(B, n, C, k - 1, x), ss(B, n, C, k - 1, bxor(x, C[k - 1]))))
def p_inv(o, out):
    def f(s):
        B0, n0, C, m, k, B, n = (s.old.e('s._basis'), s.old.n('s._basis'), s.old.e('t._basis'), s.old.n('t._basis'), s.v('__begin0'), s.e(o), s.n(o))
        return wf(s, out)[1:] + [('range', And(0 <= k, k <= m, n <= n0 + k)), ('span so far', forall(1, lambda x: Implies(x >= 0, sp(B, n, x) == ss(B0, n0, C, k, x)), pat=lambda x: sp(B, n, x)))]
    return f
def p_use(o):
    def f(s):
        B0, n0, C, k, B, n = (s.old.e('s._basis'), s.old.n('s._basis'), s.old.e('t._basis'), s.v('__begin0'), s.e(o), s.n(o))
        s.assume_def(forall(1, lambda x: ss_def(B0, n0, C, k, x), pat=lambda x: sp(B, n, x)))
        if s.prev is not None: v = C[s.prev.v('__begin0')]; s.lemma_all(x_rng, forall(1, lambda x: x_rng.inst(x, v), pat=lambda x: sp(B, n, x)))
        else: s.lemma_all(sp_ext, forall(1, lambda x: sp_ext.inst(B0, B, n0, x), pat=lambda x: sp(B, n, x)))
    return f
def p_ens(o, out): return lambda s: wf(s, out)[1:] + [('sum of the spaces', forall(1, lambda x: Implies(x >= 0, sp(s.e(o), s.n(o), x) == ss(s.old.e('s._basis'), s.old.n('s._basis'), s.old.e('t._basis'), s.old.n('t._basis'), x)), pat=lambda x: sp(s.e(o), s.n(o), x)))]
def preq(s): return wf(s, 's') + wf(s, 't') + [sp2(s.n('s._basis'), s.n('t._basis'))]
pluseq = FnSpec('xb_pluseq', requires=preq, ensures=p_ens('s._basis', 's'), loops=[LoopSpec(p_inv('s._basis', 's'), dec=lambda s: s.n('t._basis') - s.v('__begin0'), use=p_use('s._basis'))])
plus = FnSpec('xb_plus', requires=preq, ensures=p_ens('out._basis', 'out'), loops=[LoopSpec(p_inv('res._basis', 'res'), dec=lambda s: s.n('t._basis') - s.v('__begin0'), use=p_use('res._basis'))])
dim = FnSpec('xb_dim', requires=lambda s: wf(s, 's'), ensures=lambda s: ('dimension', s.res == s.n('s._basis')))
specs = [C_add, ctor, add, add1, pluseq, plus, dim]
unit = Unit('linalg', specs, contracts=[C_add], keep=[r'XorBase<unsigned int>::add'])
