from irv.spec import *
from irv.unit import Unit
V = z3.IntVal; LO, HI = -(1 << 63), (1 << 63) - 1
fit = lambda *v: [And(*[And(LO <= x, x <= HI) for x in v])]
a, b, c, d, x = [(lambda s, k=k: s(k)) for k in 'abcdx']
# ------------------------------------------------------------------ affine maps over a type whose operations do not overflow
f = lambda s, t: a(s) * t + b(s); g = lambda s, t: c(s) * t + d(s)
def AF(nm, v, *inter): return FnSpec(nm, requires=lambda s: fit(*[i(s) for i in inter]) + fit(v(s)), ensures=lambda s: [('value', s.res == v(s))], pre=lambda s: s.assume_def(ident(s)) if nm in TWO else None)
TWO = {'af_compose', 'af_compose2', 'af_plus', 'af_minus'}
def ident(s): A, B_, C_, D, X = [s(k) for k in 'abcdx']; return And(A * C_ * X + (A * D + B_) == A * (C_ * X + D) + B_, (A + C_) * X + (B_ + D) == (A * X + B_) + (C_ * X + D), (A - C_) * X + (B_ - D) == (A * X + B_) - (C_ * X + D))
specs = [AF('af_at', lambda s: f(s, x(s)), lambda s: a(s) * x(s)),
    AF('af_id', lambda s: x(s)),
    AF('af_neg', lambda s: -f(s, x(s)), lambda s: -a(s), lambda s: -b(s), lambda s: -(a(s) * x(s))),
    AF('af_shift', lambda s: f(s, x(s)) + c(s), lambda s: b(s) + c(s), lambda s: a(s) * x(s)),
    AF('af_plus', lambda s: f(s, x(s)) + g(s, x(s)), lambda s: a(s) + c(s), lambda s: b(s) + d(s), lambda s: (a(s) + c(s)) * x(s)),
    AF('af_minus', lambda s: f(s, x(s)) - g(s, x(s)), lambda s: a(s) - c(s), lambda s: b(s) - d(s), lambda s: (a(s) - c(s)) * x(s))] + [
    AF(n, lambda s: f(s, g(s, x(s))), lambda s: a(s) * c(s), lambda s: a(s) * d(s), lambda s: a(s) * d(s) + b(s), lambda s: a(s) * c(s) * x(s)) for n in ('af_compose', 'af_compose2')] + [
    FnSpec('af_less', requires=lambda s: [], ensures=lambda s: [('lexicographic', s.res == Or(a(s) < c(s), And(a(s) == c(s), b(s) < d(s))))]),
    FnSpec('af_eq', requires=lambda s: [], ensures=lambda s: [('value', s.res == And(a(s) == c(s), b(s) == d(s)))])]
# ------------------------------------------------------------------ clamped affine maps: exact, no intermediate overflow
clamp = lambda v, l, r: If(v < l, l, If(v > r, r, v))
box = Lemma('product_of_words', [Int, Int, Int], lambda m, p, q: Implies(And(-m <= p, p <= m, -m <= q, q <= m), And(-(m * m) <= p * q, p * q <= m * m)), proof=lambda ih, u, m, p, q: [u(nn, m - p, m - q), u(nn, m + p, m + q), u(nn, m - p, m + q), u(nn, m + p, m - q), (m - p) * (m - q) == m * m - m * p - m * q + p * q, (m + p) * (m + q) == m * m + m * p + m * q + p * q, (m - p) * (m + q) == m * m - m * p + m * q - p * q, (m + p) * (m - q) == m * m + m * p - m * q - p * q])
nn = Lemma('nonneg', [Int, Int], lambda p, q: Implies(And(p >= 0, q >= 0), p * q >= 0), proof=lambda ih, u, p, q: [ih(p - 1, q), (p - 1) * q == p * q - q, 0 * q == 0], measure=lambda p, q: If(p > 0, p, 0))
mono = Lemma('monotone', [Int, Int, Int], lambda k, u_, v: And(Implies(And(k >= 0, u_ <= v), k * u_ <= k * v), Implies(And(k <= 0, u_ <= v), k * u_ >= k * v)), proof=lambda ih, u, k, u_, v: [u(nn, k, v - u_), u(nn, -k, v - u_), k * (v - u_) == k * v - k * u_, (-k) * (v - u_) == k * u_ - k * v])
W = V(1 << 63)
def at_pre(s, *ps): [s.lemma(box, W, p, q) for p, q in ps]
lr = lambda s: [s('l') <= s('r')]
def AC(nm):
    A, B_, L, R_, C_, D, S, T, X = [(lambda s, k=k: s(k)) for k in 'ablrcdstx']; y = lambda s: C_(s) * X(s) + D(s); z = lambda s: clamp(y(s), S(s), T(s))
    def pre(s):
        at_pre(s, (A(s), S(s)), (A(s), T(s)), (A(s) * C_(s), X(s)))
        s.assume_def(A(s) * C_(s) * X(s) + (A(s) * D(s) + B_(s)) == A(s) * y(s) + B_(s))
        s.lemma(mono, A(s), S(s), y(s)); s.lemma(mono, A(s), y(s), S(s)); s.lemma(mono, A(s), y(s), T(s)); s.lemma(mono, A(s), T(s), y(s)); s.lemma(mono, A(s), S(s), T(s))
    return FnSpec(nm, requires=lambda s: [And(L(s) <= R_(s), S(s) <= T(s))] + fit(A(s) * C_(s), A(s) * D(s), A(s) * D(s) + B_(s)), ensures=lambda s: [('composition', s.res == clamp(A(s) * z(s) + B_(s), L(s), R_(s)))], pre=pre)
specs += [FnSpec('ac_at', requires=lambda s: lr(s), ensures=lambda s: [('value', s.res == clamp(a(s) * x(s) + b(s), s('l'), s('r')))], pre=lambda s: at_pre(s, (a(s), x(s)))),
    FnSpec('ac_id', requires=lambda s: [], ensures=lambda s: [('identity', s.res == x(s))]),
    FnSpec('ac_free', requires=lambda s: [], ensures=lambda s: [('saturating', s.res == clamp(a(s) * x(s) + b(s), V(LO), V(HI)))], pre=lambda s: at_pre(s, (a(s), x(s)))), AC('ac_compose'), AC('ac_compose2')]
unit = Unit('algebra', specs)
