from irv.spec import *
from irv.unit import Unit
from specs.primes import *
from specs.nt import *
from specs.sieve import ipow, ipow_def, mul3, mul_comm
ab = lambda t: If(t >= 0, t, -t); V = z3.IntVal
absmul = Lemma('abs_product', [Int, Int], lambda a, b: ab(a * b) == ab(a) * ab(b), proof=lambda ih, u, a, b: [u(mul_nn, ab(a), ab(b))])
pw_big = Lemma('power_size', [Int, Int], lambda p, c: Implies(And(p != 0, c >= 0), And(ab(ipow(p, c)) >= 1, Implies(c >= 1, ab(ipow(p, c)) >= ab(p)))),
    proof=lambda ih, u, p, c: [ipow_def(p, c), ih(p, c - 1), u(absmul, ipow(p, c - 1), p), u(mul_mono, V(1), ab(ipow(p, c - 1)), ab(p))], measure=lambda p, c: If(c > 0, c, 0))
pw_zero = Lemma('power_zero', [Int], lambda c: Implies(c >= 1, ipow(V(0), c) == 0), proof=lambda ih, u, c: [ipow_def(V(0), c), u(mul_comm, ipow(V(0), c - 1), V(0))])
pw_sq = Lemma('power_square', [Int, Int], lambda p, k: Implies(k >= 0, ipow(p, 2 * k) == ipow(p * p, k)), proof=lambda ih, u, p, k: [ih(p, k - 1), ipow_def(p, 2 * k), ipow_def(p, 2 * k - 1), ipow_def(p * p, k), u(mul3, ipow(p, 2 * k - 2), p, p)], measure=lambda p, k: If(k > 0, k, 0))
def pw(lim):
    def inv(s):
        r, p, b = s.v('res'), s.v('pow_a'), s.v('b'); T = ipow(s.old('a'), s.old('b'))
        return [('range', And(b >= 0, b <= s.old('b'))), ('product', r * ipow(p, b) == T), ('small', And(ab(T) <= lim, ab(r) <= lim, ab(p) <= lim, Or(r != 0, s.old('a') == 0), Implies(s.old('a') == 0, And(p == 0, r == If(b == s.old('b'), 1, r), Implies(b > 0, Or(r == 1, r == 0)))), Implies(s.old('a') != 0, p != 0)))]
    def head(s):
        r, p, b = s.v('res'), s.v('pow_a'), s.v('b'); k = b / 2; q = p * p
        s.assume_def(ipow_def(p, V(0))); s.lemma(pw_sq, p, k); s.assume_def(ipow_def(p, b)); s.assume_def(ipow_def(q, V(0)))
        s.lemma(pw_big, p, b); s.lemma(pw_big, q, k); s.lemma(mul_nn, ab(p), ab(p)); s.lemma(absmul, p, p); s.lemma(mul_ge, ab(p), ab(p))
        s.lemma(absmul, r, ipow(p, b)); s.lemma(mul_comm, ipow(p, b - 1), p); s.lemma(mul3, r, p, ipow(q, k)); s.lemma(absmul, r * p, ipow(q, k)); s.lemma(absmul, r, ipow(q, k)); s.lemma(pw_zero, b)
        s.lemma(mul_mono, V(1), ab(ipow(q, k)), ab(r * p)); s.lemma(mul_mono, V(1), ab(r), ab(ipow(q, k))); s.lemma(mul_mono, V(1), ab(r * p), ab(ipow(q, k)))
        s.lemma(mul_comm, r, p); s.lemma(mul_comm, ab(r * p), ab(ipow(q, k))); s.lemma(mul_comm, ab(r), ab(ipow(q, k)))
        s.lemma(absmul, r, p); s.lemma(mul_ge, ab(r), ab(p))
        s.have('odd step', Implies(And(b > 0, b % 2 == 1), And(r * p * ipow(q, k) == ipow(s.old('a'), s.old('b')), ab(r * p) <= lim, Implies(p != 0, r * p != 0), Implies(p == 0, r * p == 0))))
        s.have('square', Implies(b > 1, And(ab(q) <= lim, Implies(p != 0, q != 0), Implies(p == 0, q == 0))))
        s.have('last', Implies(b == 1, ipow(q, k) == 1))
    return FnSpec('pw_ll' if lim > 1 << 40 else 'pw_int', requires=lambda s: And(s('b') >= 0, ab(s('a')) <= lim, ab(ipow(s('a'), s('b'))) <= lim), ensures=lambda s: ('a to the power b', s.res == ipow(s.old('a'), s.old('b'))),
        loops=[LoopSpec(inv, dec=lambda s: s.v('b'), head=head)], use=lambda s: s.assume_def(ipow_def(s.v('pow_a'), V(0))))
# ------------------------------------------------------------ divisors_table
dc = UF('divisor_rank', Int, Int, Int)      # number of divisors of j in [1, i)
@definition
def dc_def(j, i): return dc(j, i) == If(i <= 1, 0, dc(j, i - 1) + If(j % (i - 1) == 0, 1, 0))
dc_rng = Lemma('divisor_rank_range', [Int, Int], lambda j, i: And(0 <= dc(j, i), Implies(i >= 1, dc(j, i) <= i - 1)), proof=lambda ih, u, j, i: [dc_def(j, i), ih(j, i - 1)], measure=lambda j, i: If(i > 1, i, 0))
dc_mono = Lemma('divisor_rank_mono', [Int, Int, Int], lambda j, a, b: Implies(And(1 <= a, a < b), And(dc(j, a) <= dc(j, b), Implies(j % a == 0, dc(j, a) < dc(j, b)))), proof=lambda ih, u, j, a, b: [dc_def(j, b), ih(j, a, b - 1), dc_def(j, a)], measure=lambda j, a, b: If(b > a, b - a, 0))
MAXT = 1 << 29
def drows(D, N, n, i, j0):
    """row j holds the divisors below i (below i+1 when j < j0), each at its rank"""
    b = lambda j: If(j < j0, i + 1, i)
    return [('sizes', forall(1, lambda j: Implies(And(1 <= j, j <= n), N[j] == dc(j, b(j))), pat=lambda j: N[j])), ('row 0', N[0] == 0), ('divisors at their rank', forall(2, lambda j, d: Implies(And(1 <= j, j <= n, 1 <= d, d < b(j), j % d == 0), D[j][dc(j, d)] == d), pat=lambda j, d: D[j][dc(j, d)])),
        ('only divisors', forall(2, lambda j, k: Implies(And(1 <= j, j <= n, 0 <= k, k < N[j]), And(1 <= D[j][k], D[j][k] <= j, D[j][k] < b(j), j % D[j][k] == 0, dc(j, D[j][k]) == k)), pat=lambda j, k: D[j][k]))]
def dinv(inner):
    def f(s):
        D, N, n, i = s.e('out', '__e'), s.e('out', '__n'), s('n'), s.v('i'); j = s.v('j') if inner else V(0)
        return [('range', And(1 <= i, i <= n if inner else i <= n + 1, s.n('out') == n + 1))] + ([('multiple', And(i <= j, j <= n + i, j % i == 0))] if inner else []) + drows(D, N, n, i, j)
    return f
not_mult = Lemma('between_multiples', [Int, Int, Int], lambda i, j, q: Implies(And(i >= 1, j % i == 0, j < q, q < j + i), And(q % i != 0, q % i == q - j)), proof=lambda ih, u, i, j, q: [u(divu, q, i, j / i, q - j)])
first_mult = Lemma('below_first_multiple', [Int, Int], lambda i, q: Implies(And(1 <= q, q < i), q % i == q), proof=lambda ih, u, i, q: [u(divu, q, i, V(0), q)])
def douse(s):
    n = s('n')
    if s.prev is None:
        s.assume_def(forall(1, lambda j: dc_def(j, V(1)), pat=lambda j: dc(j, V(1)))); return
    i = s.prev.v('i')
def diuse(s):
    n, i = s('n'), s.v('i')
    s.assume_def(forall(1, lambda q: dc_def(q, i + 1), pat=lambda q: dc(q, i + 1))); s.lemma_all(dc_rng, forall(2, lambda q, k: dc_rng.inst(q, k), pat=lambda q, k: dc(q, k)))
    if s.prev is None: s.lemma_all(first_mult, forall(1, lambda q: first_mult.inst(i, q), pat=lambda q: dc(q, i))); s.lemma(divu, i, i, V(1), V(0)); return
    j = s.prev.v('j'); N = s.prev.e('out', '__n')
    s.lemma_all(not_mult, forall(1, lambda q: not_mult.inst(i, j, q), pat=lambda q: dc(q, i)))
    s.lemma(mshift, j, V(1), i); s.lemma_all(dc_mono, forall(1, lambda d: dc_mono.inst(j, d, i), pat=lambda d: dc(j, d)))
def div_post(s):
    D, N, n = s.e('out', '__e'), s.e('out', '__n'), s('n')
    return [('one row per number', s.n('out') == n + 1), ('row 0', Implies(n >= 0, N[0] == 0)), ('count of divisors', forall(1, lambda j: Implies(And(1 <= j, j <= n), N[j] == dc(j, n + 1)), pat=lambda j: N[j])),
        ('every divisor is listed at its rank', forall(2, lambda j, d: Implies(And(1 <= j, j <= n, 1 <= d, d <= n, j % d == 0), D[j][dc(j, d)] == d), pat=lambda j, d: D[j][dc(j, d)])),
        ('only divisors are listed', forall(2, lambda j, k: Implies(And(1 <= j, j <= n, 0 <= k, k < N[j]), And(1 <= D[j][k], D[j][k] <= j, j % D[j][k] == 0, dc(j, D[j][k]) == k)), pat=lambda j, k: D[j][k]))]
specs = [pw((1 << 63) - 1), pw((1 << 31) - 1),
    FnSpec('div_table', requires=lambda s: And(0 <= s('n'), s('n') <= MAXT), ensures=div_post, loops=[LoopSpec(dinv(False), dec=lambda s: s('n') + 2 - s.v('i'), use=douse), LoopSpec(dinv(True), dec=lambda s: s('n') + s.v('i') + 1 - s.v('j'), use=diuse, head=lambda s: s.lemma(dc_rng, s.v('j'), s.v('i')))],)]
unit = Unit('nutil', specs)
