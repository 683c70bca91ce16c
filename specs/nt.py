"""elementary number theory used by several units: division, congruences, powers, gcd"""
from irv.spec import *
P64, P128 = 1 << 64, 1 << 128
# uniqueness of quotient and remainder
divu = Lemma('div_unique', [Int, Int, Int, Int], lambda a, m, q, r: Implies(And(m > 0, a == m * q + r, 0 <= r, r < m), And(a / m == q, a % m == r)),
    proof=lambda ih, u, a, m, q, r: [a == m * (a / m) + a % m, Implies(m > 0, And(0 <= a % m, a % m < m)), u(mul_ge, m, q - a / m), u(mul_ge, m, a / m - q)] if 0 else [u(mul_ge, m, q - a / m), u(mul_ge, m, a / m - q)])
mul_ge = Lemma('mul_ge', [Int, Int], lambda m, d: Implies(And(m > 0, d >= 1), m * d >= m), proof=lambda ih, u, m, d: [ih(m, d - 1)], measure=lambda m, d: d)
mul_nn = Lemma('mul_nonneg', [Int, Int], lambda a, b: Implies(And(a >= 0, b >= 0), a * b >= 0), proof=lambda ih, u, a, b: [ih(a, b - 1)], measure=lambda a, b: b)
mul_mono = Lemma('mul_mono', [Int, Int, Int], lambda a, b, c: Implies(And(a <= b, c >= 0), a * c <= b * c), proof=lambda ih, u, a, b, c: [u(mul_nn, b - a, c)])
# (t + m*k) mod m == t mod m
mshift = Lemma('mod_shift', [Int, Int, Int], lambda t, k, m: Implies(m > 0, And((t + m * k) % m == t % m, (t + m * k) / m == t / m + k)),
    proof=lambda ih, u, t, k, m: [u(divu, t + m * k, m, t / m + k, t % m)])
mmul_ = Lemma('mod_mul_parts', [Int, Int, Int, Int], lambda q, r, b, m: Implies(m > 0, ((m * q + r) * b) % m == (r * b) % m),
    proof=lambda ih, u, q, r, b, m: [u(mshift, r * b, q * b, m)])
mmul = Lemma('mod_mul', [Int, Int, Int], lambda a, b, m: Implies(m > 0, ((a % m) * b) % m == (a * b) % m),
    proof=lambda ih, u, a, b, m: [u(mmul_, a / m, a % m, b, m)])
mcong = Lemma('mod_mul_cong', [Int, Int, Int, Int], lambda a, b, c, m: Implies(And(m > 0, a % m == b % m), (a * c) % m == (b * c) % m),
    proof=lambda ih, u, a, b, c, m: [u(mmul, a, c, m), u(mmul, b, c, m)])
madd = Lemma('mod_add', [Int, Int, Int], lambda a, b, m: Implies(m > 0, ((a % m) + b) % m == (a + b) % m),
    proof=lambda ih, u, a, b, m: [u(mshift, a % m + b, a / m, m)])
msub0 = Lemma('mod_zero_comb', [Int, Int, Int, Int], lambda x, y, k, m: Implies(And(m > 0, x % m == 0, y % m == 0), (x - k * y) % m == 0),
    proof=lambda ih, u, x, y, k, m: [u(mshift, x, -k * (y / m), m), u(mul_exact, y, m, k)])
mul_exact = Lemma('mul_exact', [Int, Int, Int], lambda y, m, k: Implies(And(m > 0, y % m == 0), k * y == m * (k * (y / m))), proof=lambda ih, u, y, m, k: [u(mul_sub, y, m * (y / m), k)])
mul_sub = Lemma('mul_subst', [Int, Int, Int], lambda a, b, k: Implies(a == b, k * a == k * b), proof=lambda ih, u, a, b, k: [])
mdiff = Lemma('mod_diff', [Int, Int, Int], lambda a, b, m: Implies(And(m > 0, (a - b) % m == 0), a % m == b % m), proof=lambda ih, u, a, b, m: [u(mshift, b, (a - b) / m, m)])
mneg = Lemma('mod_neg', [Int, Int], lambda v, m: Implies(m > 0, v % m == If((-v) % m == 0, 0, m - (-v) % m)), proof=lambda ih, u, v, m: [u(divu, v, m, If((-v) % m == 0, -((-v) / m), -((-v) / m) - 1), If((-v) % m == 0, 0, m - (-v) % m))])
# integer powers
pw = UF('int_pow', Int, Int, Int)
@definition
def pw_def(x, n): return pw(x, n) == If(n <= 0, 1, x * pw(x, n - 1))
pw_sq = Lemma('pow_square', [Int, Int], lambda x, k: Implies(k >= 0, pw(x * x, k) == pw(x, 2 * k)),
    proof=lambda ih, u, x, k: [pw_def(x * x, k), pw_def(x, 2 * k), pw_def(x, 2 * k - 1), ih(x, k - 1)], measure=lambda x, k: k)
pw_mod = Lemma('pow_mod', [Int, Int, Int], lambda x, k, m: Implies(m > 0, pw(x % m, k) % m == pw(x, k) % m),
    proof=lambda ih, u, x, k, m: [pw_def(x, k), pw_def(x % m, k), ih(x, k - 1, m), u(mmul, x, pw(x % m, k - 1), m), u(mcong, pw(x % m, k - 1), pw(x, k - 1), x, m)], measure=lambda x, k, m: If(k > 0, k, 0))
# one step of binary exponentiation: r * x^n is preserved modulo m
pw_half = Lemma('pow_half', [Int, Int, Int, Int], lambda r, x, k, m: Implies(And(m > 0, k >= 0), (r * pw((x * x) % m, k)) % m == (r * pw(x, 2 * k)) % m),
    proof=lambda ih, u, r, x, k, m: [u(pw_mod, x * x, k, m), u(pw_sq, x, k), u(mcong, pw((x * x) % m, k), pw(x, 2 * k), r, m)])
pw_step = Lemma('pow_step', [Int, Int, Int, Int], lambda r, x, n, m: Implies(And(m > 0, n >= 1),
        And(Implies(n % 2 == 0, (r * pw((x * x) % m, n / 2)) % m == (r * pw(x, n)) % m), Implies(n % 2 == 1, (((r * x) % m) * pw((x * x) % m, n / 2)) % m == (r * pw(x, n)) % m))),
    proof=lambda ih, u, r, x, n, m: [u(pw_half, r, x, n / 2, m), u(pw_half, r * x, x, n / 2, m), u(mmul, r * x, pw((x * x) % m, n / 2), m), u(pw_odd, r, x, n)])
pw_odd = Lemma('pow_odd', [Int, Int, Int], lambda r, x, n: Implies(And(n >= 1, n % 2 == 1), r * x * pw(x, 2 * (n / 2)) == r * pw(x, n)), proof=lambda ih, u, r, x, n: [pw_def(x, n)])
# gcd (non-negative arguments)
gcd = UF('nt_gcd', Int, Int, Int)
@definition
def gcd_def(a, b): return gcd(a, b) == If(b <= 0, a, gcd(b, a % b))

# Barrett: if M*L = K + e with 0 <= e < M and c*e < K then floor(c*L / K) = floor(c / M)
barrett_scaled = Lemma('barrett_scaled', [Int] * 5, lambda c, M, L, e, K: Implies(And(M >= 1, c >= 0, K >= 1, M * L == K + e, e >= 0, c * e < K),
        And(M * (K * (c / M)) <= M * (c * L), M * (c * L) < M * (K * (c / M) + K))),
    proof=lambda ih, u, c, M, L, e, K: [u(mul_subst, M * L, K + e, c), u(mul_nn, c, e), u(mul_nn, K, c % M), u(mul_nn, K, M - 1 - c % M), u(mul_subst, c, M * (c / M) + c % M, K)])
mul_subst = Lemma('mul_subst2', [Int, Int, Int], lambda a, b, k: Implies(a == b, And(k * a == k * b)), proof=lambda ih, u, a, b, k: [])
mul_cancel = Lemma('mul_cancel', [Int, Int, Int], lambda m, a, b: Implies(m >= 1, And(Implies(m * a <= m * b, a <= b), Implies(m * a < m * b, a < b))), proof=lambda ih, u, m, a, b: [u(mul_ge, m, a - b), u(mul_nn, m, a - b)])
barrett_q = Lemma('barrett_quotient', [Int] * 5, lambda c, M, L, e, K: Implies(And(M >= 1, c >= 0, K >= 1, M * L == K + e, e >= 0, c * e < K), And(K * (c / M) <= c * L, c * L < K * (c / M) + K)),
    proof=lambda ih, u, c, M, L, e, K: [u(barrett_scaled, c, M, L, e, K), u(mul_cancel, M, K * (c / M), c * L), u(mul_cancel, M, c * L, K * (c / M) + K)])
