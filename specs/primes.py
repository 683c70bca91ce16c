"""least prime factors, Euclid's lemma, prime counting: all proved from the recursive definition of the least divisor"""
from irv.spec import *
from specs.nt import *
V = z3.IntVal
ld = UF('least_div_from', Int, Int, Int)
@definition
def ld_def(k, d): return ld(k, d) == If(d >= k, k, If(k % d == 0, d, ld(k, d + 1)))
lpf = lambda k: ld(k, V(2))
prime = lambda p: And(p >= 2, lpf(p) == p)
dr = Lemma('div_rem', [Int, Int], lambda x, P: Implies(P >= 1, And(x == P * (x / P) + x % P, 0 <= x % P, x % P < P)), proof=lambda ih, u, x, P: [])
ld_div = Lemma('least_div_divides', [Int, Int], lambda k, d: Implies(And(2 <= d, d <= k), And(d <= ld(k, d), ld(k, d) <= k, k % ld(k, d) == 0)),
    proof=lambda ih, u, k, d: [ld_def(k, d), ih(k, d + 1), ld_def(k, d + 1), u(divu, k, k, V(1), V(0))], measure=lambda k, d: If(d < k, k - d, 0))
ld_min = Lemma('least_div_minimal', [Int, Int, Int], lambda k, d, c: Implies(And(2 <= d, d <= c, c <= k, k % c == 0), ld(k, d) <= c),
    proof=lambda ih, u, k, d, c: [ld_def(k, d), ih(k, d + 1, c)], measure=lambda k, d, c: If(d < k, k - d, 0))
div_le = Lemma('divisor_le', [Int, Int], lambda k, c: Implies(And(k >= 1, c >= 1, k % c == 0), And(c <= k, 1 <= k / c, k == c * (k / c))), proof=lambda ih, u, k, c: [u(dr, k, c), u(mul_ge, c, -(k / c)), u(mul_ge, c, k / c)])
lpf_ = Lemma('lpf', [Int], lambda k: Implies(k >= 2, And(2 <= lpf(k), lpf(k) <= k, k % lpf(k) == 0, k == lpf(k) * (k / lpf(k)), 1 <= k / lpf(k), k / lpf(k) < k)), proof=lambda ih, u, k: [u(ld_div, k, V(2)), u(div_le, k, lpf(k)), u(mul_ge, k / lpf(k), lpf(k) - 1)])
lpf_min = Lemma('lpf_minimal', [Int, Int], lambda k, c: Implies(And(k >= 1, c >= 2, k % c == 0), lpf(k) <= c), proof=lambda ih, u, k, c: [u(ld_min, k, V(2), c), u(div_le, k, c)])
div_trans = Lemma('divides_trans', [Int, Int, Int], lambda a, b, c: Implies(And(a >= 1, b >= 1, b % a == 0, c % b == 0), c % a == 0), proof=lambda ih, u, a, b, c: [u(dr, b, a), u(dr, c, b), u(divu, c, a, (b / a) * (c / b), V(0)), u(mul_subst, b, a * (b / a), c / b)])
lpf_prime = Lemma('lpf_is_prime', [Int], lambda k: Implies(k >= 2, lpf(lpf(k)) == lpf(k)), proof=lambda ih, u, k: [u(lpf_, k), u(lpf_, lpf(k)), u(div_trans, lpf(lpf(k)), lpf(k), k), u(lpf_min, k, lpf(lpf(k)))])
# Euclid: a prime that divides r*b with 1 <= r < q divides b
eu = Lemma('euclid_small', [Int, Int, Int], lambda q, r, b: Implies(And(prime(q), 1 <= r, r < q, (r * b) % q == 0), b % q == 0),
    proof=lambda ih, u, q, r, b: [ih(q, q % r, b), u(dr, q, r), u(lpf_min, q, r), u(mul_eq, q, r * (q / r) + q % r, b), u(msub0, q * b, r * b, q / r, q), u(divu, q * b, q, b, V(0))], measure=lambda q, r, b: If(r > 0, r, 0))
mul_eq = Lemma('mul_distr3', [Int, Int, Int], lambda a, c, b: Implies(a == c, a * b == c * b), proof=lambda ih, u, a, c, b: [])
euclid = Lemma('euclid', [Int, Int, Int], lambda q, a, b: Implies(And(prime(q), (a * b) % q == 0), Or(a % q == 0, b % q == 0)), proof=lambda ih, u, q, a, b: [u(eu, q, a % q, b), u(mmul, a, b, q)])
# the least prime factor of p*d for a prime p not above that of d
lpf_mul = Lemma('lpf_of_multiple', [Int, Int], lambda p, d: Implies(And(prime(p), d >= 2, p <= lpf(d)), And(lpf(p * d) == p, (p * d) / p == d, p < p * d)),
    proof=lambda ih, u, p, d: [u(lpf_, p * d), u(lpf_prime, p * d), u(euclid, lpf(p * d), p, d), u(lpf_min, p, lpf(p * d)), u(lpf_min, d, lpf(p * d)), u(lpf_min, p * d, p), u(divu, p * d, p, d, V(0)), u(mul_ge, d, p - 1), u(mul_ge, p, d - 1)])
pi = UF('prime_count', Int, Int)
@definition
def pi_def(x): return pi(x) == If(x <= 2, 0, pi(x - 1) + If(prime(x - 1), 1, 0))
pi_mono = Lemma('prime_count_mono', [Int, Int], lambda a, b: Implies(a <= b, And(pi(a) <= pi(b), Implies(And(a < b, prime(a)), pi(a) < pi(b)))),
    proof=lambda ih, u, a, b: [pi_def(b), ih(a, b - 1), pi_def(a)], measure=lambda a, b: If(b > 2, b, 0) + If(a < b, b - a, 0))
pi_nn = Lemma('prime_count_range', [Int], lambda a: And(0 <= pi(a), Implies(a >= 2, pi(a) <= a - 2)), proof=lambda ih, u, a: [pi_def(a), ih(a - 1)], measure=lambda a: If(a > 2, a, 0))
pi_inj = Lemma('prime_count_injective', [Int, Int], lambda a, b: Implies(And(prime(a), prime(b), pi(a) == pi(b)), a == b), proof=lambda ih, u, a, b: [u(pi_mono, a, b), u(pi_mono, b, a)])
