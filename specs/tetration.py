from irv.spec import *
from irv.unit import Unit
from specs.nt import *
V = z3.IntVal; M = (1 << 31) - 1
mn = lambda a, b: If(a < b, a, b)
T = UF('tetra', Int, Int, Int)
@definition
def T_def(a, n): return T(a, n) == If(n <= 0, 1, pw(a, T(a, n - 1)))
pw_pos = Lemma('pow_positive', [Int, Int], lambda x, k: Implies(x >= 1, And(pw(x, k) >= 1, Implies(k >= 1, pw(x, k) >= x))), proof=lambda ih, u, x, k: [pw_def(x, k), ih(x, k - 1), u(mul_ge, x, pw(x, k - 1))], measure=lambda x, k: If(k > 0, k, 0))
pw_grow = Lemma('pow_exceeds', [Int, Int], lambda x, k: Implies(And(x >= 2, k >= 0), pw(x, k) >= k + 1), proof=lambda ih, u, x, k: [pw_def(x, k), ih(x, k - 1), u(mul_mono, V(2), x, pw(x, k - 1))], measure=lambda x, k: k)
pw_two = Lemma('pow_at_least_two', [Int, Int], lambda x, k: Implies(And(x >= 2, k >= 0), pw(x, k) >= pw(2, k)), proof=lambda ih, u, x, k: [pw_def(x, k), pw_def(V(2), k), ih(x, k - 1), u(mul_mono, V(2), x, pw(x, k - 1)), u(pw_pos, x, k - 1)], measure=lambda x, k: k)
two31 = Lemma('two_31', [Int], lambda k: Implies(k >= 31, pw(2, k) >= M + 1), proof=lambda ih, u, k: [pw_def(V(2), k), ih(k - 1)] + [pw_def(V(2), V(j)) for j in range(32)], measure=lambda k: k)
T_pos = Lemma('tetra_positive', [Int, Int], lambda a, n: Implies(a >= 2, T(a, n) >= 1), proof=lambda ih, u, a, n: [T_def(a, n), u(pw_pos, a, T(a, n - 1))])
T_mono = Lemma('tetra_monotone', [Int, Int, Int], lambda a, i, n: Implies(And(a >= 2, 0 <= i, i <= n), T(a, i) <= T(a, n)), proof=lambda ih, u, a, i, n: [T_def(a, n), ih(a, i, n - 1), u(pw_grow, a, T(a, n - 1)), u(T_pos, a, n - 1)], measure=lambda a, i, n: n)
# saturating at M: the exact value as long as it is below M
sat = lambda x: mn(x, V(M))
s_mul = Lemma('saturated_product', [Int, Int], lambda r, t: Implies(And(r >= M, t >= 1), r * t >= M), proof=lambda ih, u, r, t: [u(mul_ge, r, t)])
def q(r, p, n, t): return Or(r * pw(p, n) == t, And(t >= M, r * pw(p, n) >= M))
# one step of the loop
s_sq = Lemma('saturated_square', [Int, Int, Int], lambda r, p, k: Implies(And(r >= 1, p >= 1, k >= 0), Or(r * pw(sat(p * p), k) == r * pw(p * p, k), And(r * pw(sat(p * p), k) >= M, r * pw(p * p, k) >= M))),
    proof=lambda ih, u, r, p, k: [pw_def(sat(p * p), k), pw_def(p * p, k), u(pw_pos, V(M), k), u(pw_pos, p * p, k), u(mul_mono, V(1), r, pw(V(M), k)), u(mul_mono, V(1), r, pw(p * p, k)), u(mul_ge, p, p)])
s_step = Lemma('saturated_step', [Int, Int, Int, Int], lambda r, p, n, t: Implies(And(1 <= r, 1 <= p, n >= 1, q(r, p, n, t)), q(If(n % 2 == 1, sat(r * p), r), sat(p * p), n / 2, t)),
    proof=lambda ih, u, r, p, n, t: [u(pw_sq, p, n / 2), u(pw_odd, r, p, n), u(s_sq, r, p, n / 2), u(s_sq, r * p, p, n / 2), u(s_mul, r * p, pw(p * p, n / 2)), u(mul_ge, V(M), pw(sat(p * p), n / 2)), u(pw_pos, p * p, n / 2), u(pw_pos, sat(p * p), n / 2), u(mul_ge, r, p), u(mul_ge, p, p)])
def sp_inv(s):
    r, p, n, a, b = s.v('res'), s.v('pow_a'), s.v('b'), s('a'), s.old('b')
    return [('range', And(1 <= r, r <= M, 1 <= p, p <= M, n >= 0)), ('power', q(r, p, n, pw(a, b)))]
def sp_use(s):
    if s.prev is None: return
    p = s.prev; s.lemma(s_step, p.v('res'), p.v('pow_a'), p.v('b'), pw(s('a'), s.old('b'))); s.lemma(mul_ge, p.v('res'), p.v('pow_a')); s.lemma(mul_ge, p.v('pow_a'), p.v('pow_a'))
def sp_pre(s): s.lemma(pw_two, s('a'), s('b')); s.lemma(two31, s('b'))
C_sat = FnSpec('saturation_pow', match=r'tetration_mod::saturation_pow\(int, int\)', requires=lambda s: And(s('a') >= 2, s('b') >= 0), ensures=lambda s: s.res == sat(pw(s('a'), s.old('b'))), pre=sp_pre, loops=[LoopSpec(sp_inv, dec=lambda s: s.v('b'), use=sp_use, head=lambda s: s.assume_def(pw_def(s.v('pow_a'), V(0))))])
w_sat = FnSpec('te_sat', requires=lambda s: And(s('a') >= 2, s('b') >= 0), ensures=lambda s: s.res == sat(pw(s('a'), s('b'))))
def tt_inv(s): i, e, a = s.v('i'), s.v('exponent'), s('a'); return [('range', And(0 <= i, i <= s('b'))), ('tower', And(e == sat(T(a, i)), e >= 1))]
def tt_use(s):
    a = s('a'); s.assume_def(T_def(a, V(0)))
    if s.prev is not None: i = s.prev.v('i'); s.assume_def(T_def(a, i + 1)); s.lemma(T_pos, a, i); s.lemma(pw_pos, a, s.prev.v('exponent'))
w_tet = FnSpec('te_tet', requires=lambda s: And(s('a') >= 2, s('b') >= 0), ensures=lambda s: s.res == sat(T(s('a'), s('b'))), pre=lambda s: s.assume_def(T_def(s('a'), V(0))), loops=[LoopSpec(tt_inv, dec=lambda s: s('b') - s.v('i'), use=tt_use, head=lambda s: s.lemma(T_mono, s('a'), s.v('i'), s('b')))])
def pm_inv(s):
    r, p, n, m = s.v('res'), s.v('pow_a'), s.v('b'), s('m')
    return [('range', And(0 <= r, r <= M, 0 <= p, p <= M, n >= 0, r < m, m >= 2)), ('power', (r * pw(p, n)) % m == pw(s('a'), s('b')) % m)]
def pm_use(s):
    if s.prev is None: return
    p = s.prev; m = s('m'); s.lemma(pw_step, p.v('res'), p.v('pow_a'), p.v('b'), m); s.lemma(mul_nn, p.v('res'), p.v('pow_a')); s.lemma(mul_nn, p.v('pow_a'), p.v('pow_a'))
def pm_head(s): r, p = s.v('res'), s.v('pow_a'); s.lemma(mul_mono, r, V(M), p); s.lemma(mul_mono, p, V(M), p); s.lemma(mul_nn, r, p); s.lemma(mul_nn, p, p)
w_pow = FnSpec('te_pow', requires=lambda s: And(s('a') >= 0, s('b') >= 0, s('m') >= 2), ensures=lambda s: s.res == pw(s('a'), s('b')) % s('m'), use=lambda s: s.assume_def(pw_def(s.v('pow_a'), V(0))), loops=[LoopSpec(pm_inv, dec=lambda s: s.v('b'), use=pm_use, head=pm_head)])
specs = [C_sat, w_sat, w_tet, w_pow]
unit = Unit('tetration', specs, contracts=[C_sat], keep=[r'saturation_pow'])
