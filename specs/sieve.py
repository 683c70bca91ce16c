from irv.spec import *
from irv.unit import Unit
from specs.primes import *
AI = Arr()
cof = lambda k: k / lpf(k)
def marks(M, n, d, extra=lambda k: z3.BoolVal(False)):
    return forall(1, lambda k: Implies(And(0 <= k, k <= n), M[k] == If(And(lpf(k) < k, Or(cof(k) < d, extra(k))), lpf(k), k)), pat=lambda k: M[k])
def plist(P, sz, d):
    return [('list size', sz == pi(d)), ('list', forall(1, lambda j: Implies(And(0 <= j, j < sz), And(prime(P[j]), P[j] < d, pi(P[j]) == j)), pat=lambda j: P[j]))]
# facts about one index used when the table changes
def facts(k, n, d, p, j): return Implies(k >= 2, And(2 <= lpf(k), lpf(k) <= k, lpf(lpf(k)) == lpf(k), k == lpf(k) * cof(k), 1 <= cof(k), cof(k) < k))
kfacts = Lemma('table_entry', [Int], lambda k: And(Implies(k >= 2, And(2 <= lpf(k), lpf(k) <= k, lpf(lpf(k)) == lpf(k), k == lpf(k) * cof(k), 1 <= cof(k), cof(k) < k)), Implies(k < 2, lpf(k) == k)), proof=lambda ih, u, k: [u(lpf_, k), u(lpf_prime, k), ld_def(k, V(2))])
# an entry whose cofactor is d is marked with a prime within the loop bound
kbound = Lemma('marked_within_bound', [Int, Int, Int], lambda k, d, n: Implies(And(2 <= k, k <= n, d >= 2, lpf(k) < k, cof(k) == d), And(lpf(k) <= lpf(d), lpf(k) <= n / d, lpf(k) <= d)),
    proof=lambda ih, u, k, d, n: [u(kfacts, k), u(lpf_, d), u(divu, k, d, lpf(k), V(0)), u(div_trans, lpf(d), d, k), u(lpf_min, k, lpf(d)), u(dr, n, d), u(mul_ge, d, lpf(k) - n / d)])
kmark = Lemma('mark_unique', [Int, Int, Int], lambda k, d, p: Implies(And(2 <= k, prime(p), cof(k) == d, pi(lpf(k)) == pi(p)), k == p * d), proof=lambda ih, u, k, d, p: [u(kfacts, k), u(pi_inj, lpf(k), p)])
kend = Lemma('all_marked', [Int, Int, Int, Int], lambda k, d, n, q: Implies(And(2 <= k, k <= n, d >= 2, lpf(k) < k, cof(k) == d, Or(q > lpf(d), q > n / d, q > d)), pi(lpf(k)) < pi(q)), proof=lambda ih, u, k, d, n, q: [u(kbound, k, d, n), u(kfacts, k), u(pi_mono, lpf(k), q)])
def outer():
    def inv(s):
        M, P, n, d = s.e('out.min_prime_factor'), s.e('out.prime_list'), s('out._n'), s.v('d')
        return [('range', And(2 <= d, Or(d <= n + 1, d == 2))), ('table', marks(M, n, d)), ('shape', And(s.n('out.min_prime_factor') == n + 1, n == s('n')))] + plist(P, s.n('out.prime_list'), d)
    def use(s):
        d = s.v('d'); M = s.e('out.min_prime_factor'); n = s('n'); s.assume_def(pi_def(V(2)))
        if s.prev is None: s.lemma_all(kfacts, forall(1, lambda k: kfacts.inst(k), pat=lambda k: lpf(k))); s.lemma_all(cof2, forall(1, lambda k: cof2.inst(k), pat=lambda k: lpf(k))); return
        d = s.prev.v('d'); P = s.e('out.prime_list'); M0 = s.prev.e('out.min_prime_factor')
        s.assume_def(pi_def(d + 1)); s.lemma(kfacts, d)
        s.lemma_all(kfacts, forall(1, lambda k: kfacts.inst(k), pat=lambda k: lpf(k)))
        for q in (d + 1, s.v('prime')) if s.has('prime') else (d + 1,): s.lemma_all(kend, forall(1, lambda k: kend.inst(k, d, n, q), pat=lambda k: lpf(k)))
    def head(s):
        d = s.v('d'); s.lemma(kfacts, d); s.assume_def(pi_def(d + 1)); s.lemma(pi_nn, d); s.lemma(dr, s('n'), d)
    return LoopSpec(inv, dec=lambda s: s('n') + 2 - s.v('d'), use=use, head=head)
cof2 = Lemma('cofactor_two', [Int], lambda k: Implies(And(k >= 2, lpf(k) < k), cof(k) >= 2), proof=lambda ih, u, k: [u(kfacts, k)])
def inner():
    def inv(s):
        M, P, n = s.e('out.min_prime_factor'), s.e('out.prime_list'), s('out._n'); j = s.v('__begin3'); d = s.v('d'); sz = s.n('out.prime_list')
        return [('range', And(0 <= j, j <= sz)), ('table', marks(M, n, d, lambda k: And(cof(k) == d, pi(lpf(k)) < j))), ('shape', And(s.n('out.min_prime_factor') == n + 1, n == s('n')))]
    def use(s):
        d = s.v('d'); n = s('n')
        s.lemma_all(kfacts, forall(1, lambda k: kfacts.inst(k), pat=lambda k: lpf(k)))
        s.lemma_all(pi_nn, forall(1, lambda k: pi_nn.inst(k), pat=lambda k: pi(k)))
        if s.prev is None: return
        j = s.prev.v('__begin3'); p = s.e('out.prime_list')[j]
        s.lemma(lpf_mul, p, d); s.lemma_all(kmark, forall(1, lambda k: kmark.inst(k, d, p), pat=lambda k: lpf(k)))
    def head(s):
        d = s.v('d'); n = s('n'); j = s.v('__begin3'); p = s.e('out.prime_list')[j]; s.lemma(lpf_mul, p, d); s.lemma(dr, n, d); s.lemma(mul_mono, p, n / d, d); s.lemma(mul_ge, d, p); s.assume_def(p == p)
    return LoopSpec(inv, dec=lambda s: s.n('out.prime_list') - s.v('__begin3'), use=use, head=head)
def ctor_post(s):
    n = s('n'); M, P, sz = s.e('out.min_prime_factor'), s.e('out.prime_list'), s.n('out.prime_list')
    return [('least prime factors', forall(1, lambda k: Implies(And(0 <= k, k <= n), M[k] == lpf(k)), pat=lambda k: M[k])), ('number of primes', sz == pi(n + 1)), ('sizes', And(s.n('out.min_prime_factor') == n + 1, s('out._n') == n)),
        ('primes in order', forall(1, lambda j: Implies(And(0 <= j, j < sz), And(prime(P[j]), P[j] <= n, pi(P[j]) == j)), pat=lambda j: P[j]))]
def ctor_use(s):
    s.lemma_all(kfacts, forall(1, lambda k: kfacts.inst(k), pat=lambda k: lpf(k))); s.assume_def(pi_def(V(2))); s.assume_def(pi_def(s('n') + 1))
MAXS = 1 << 30
# ------------------------------------------------------------ factorize
ipow = UF('int_power', Int, Int, Int)
@definition
def ipow_def(p, c): return ipow(p, c) == If(c <= 0, 1, ipow(p, c - 1) * p)
fp = UF('factor_product', AI, AI, Int, Int)
@definition
def fp_def(P, C, i): return fp(P, C, i) == If(i <= 0, 1, fp(P, C, i - 1) * ipow(P[i - 1], C[i - 1]))
fp_ext = Lemma('factor_product_ext', [AI, AI, AI, AI, Int], lambda P, C, P2, C2, i: Implies(forall(1, lambda j: Implies(And(0 <= j, j < i), And(P[j] == P2[j], C[j] == C2[j])), pat=lambda j: P[j]), fp(P, C, i) == fp(P2, C2, i)),
    proof=lambda ih, u, P, C, P2, C2, i: [ih(P, C, P2, C2, i - 1), fp_def(P, C, i), fp_def(P2, C2, i), P[i - 1] == P[i - 1]], measure=lambda P, C, P2, C2, i: If(i > 0, i, 0))
mul3 = Lemma('mul_assoc', [Int, Int, Int], lambda a, b, c: (a * b) * c == a * (b * c), proof=lambda ih, u, a, b, c: [])
def cells(P, C, sz, n, full):
    """a prefix of a factorization in ascending order, all of whose primes lie below the primes of the rest n"""
    return forall(1, lambda j: Implies(And(0 <= j, j < sz), And(prime(P[j]), C[j] >= 1, Implies(j > 0, P[j - 1] < P[j]), P[j] <= full, Implies(n > 1, P[j] < lpf(n)))), pat=lambda j: P[j])
def table_ok(s): return [And(0 <= s('s._n'), s('s._n') <= MAXS, s.n('s.min_prime_factor') == s('s._n') + 1), forall(1, lambda k: Implies(And(0 <= k, k <= s('s._n')), s.e('s.min_prime_factor')[k] == lpf(k)), pat=lambda k: s.e('s.min_prime_factor')[k])]
def PC(s): return s.e('out', 'first'), s.e('out', 'second'), s.n('out')
def f_outer():
    def inv(s):
        P, C, sz = PC(s); n = s.v('n'); N = s.old('n')
        return [('range', And(1 <= n, n <= N)), ('size', And(sz <= 2 * N, sz + n <= N + 1)), ('product', fp(P, C, sz) * n == N), ('primes ascending', cells(P, C, sz, n, N))]
    def use(s):
        P, C, sz = PC(s); s.assume_def(fp_def(P, C, V(0)))
        if s.prev is None: return
        P0, C0, z0 = PC(s.prev); n0 = s.prev.v('n'); n = s.v('n'); p = lpf(n0); c = C[z0]
        s.lemma(fp_ext, P, C, P0, C0, z0); s.assume_def(fp_def(P, C, z0 + 1)); s.lemma(mul3, fp(P0, C0, z0), ipow(p, c), n)
        s.lemma(lpf_, n); s.lemma(lpf_, n0); s.lemma(lpf_min, n0, lpf(n)); s.lemma(lpf_prime, n0)
        s.lemma(div_trans, lpf(n), n, n0); s.lemma(lpf_min, n, p); s.lemma(mul_comm, n, ipow(p, c)); s.lemma(divu, n0, n, ipow(p, c), V(0))
    def head(s):
        n = s.v('n'); s.lemma(lpf_, n); s.lemma(lpf_prime, n); s.assume_def(ipow_def(lpf(n), V(0)))
    return LoopSpec(inv, dec=lambda s: s.v('n'), use=use, head=head)
mul_comm = Lemma('mul_comm', [Int, Int], lambda a, b: a * b == b * a, proof=lambda ih, u, a, b: [])
def f_inner():
    def inv(s):
        P, C, sz = PC(s); n, c = s.v('n'), s.v('c'); n0 = s.entry.v('n'); p = lpf(n0)
        return [('range', And(1 <= n, n <= n0, c >= 0, c + n <= n0)), ('divides', n % p == 0), ('power', n * ipow(p, c) == n0)]
    def use(s):
        n0 = s.entry.v('n'); p = lpf(n0); s.lemma(lpf_, n0); s.lemma(lpf_prime, n0); s.assume_def(ipow_def(p, V(0)))
        if s.prev is None: return
        m, c = s.prev.v('n'), s.prev.v('c'); s.lemma(div_le, m, p); s.assume_def(ipow_def(p, c + 1)); s.lemma(mul3, m / p, p, ipow(p, c)); s.lemma(mul_comm, p, ipow(p, c)); s.lemma(mul_comm, p, m / p); s.lemma(mul_mono, V(2), p, m / p)
    def head(s):
        n0 = s.entry.v('n'); p = lpf(n0); m, c = s.v('n'), s.v('c'); s.lemma(lpf_, n0); s.lemma(div_le, m, p); s.assume_def(ipow_def(p, c + 1)); s.lemma(mul3, m / p, p, ipow(p, c)); s.lemma(mul_comm, p, ipow(p, c)); s.lemma(mul_comm, p, m / p); s.lemma(mul_mono, V(2), p, m / p)
    return LoopSpec(inv, dec=lambda s: s.v('n'), use=use, head=head)
def f_post(s):
    P, C, sz = PC(s); n = s.old('n')
    return [('product is n', fp(P, C, sz) == n), ('primes ascending with positive exponents', forall(1, lambda j: Implies(And(0 <= j, j < sz), And(prime(P[j]), C[j] >= 1, Implies(j > 0, P[j - 1] < P[j]), P[j] <= n)), pat=lambda j: P[j]))]
specs = [FnSpec('ls_ctor', requires=lambda s: And(0 <= s('n'), s('n') <= MAXS), ensures=ctor_post, loops=[outer(), inner()], use=ctor_use),
    FnSpec('ls_factorize', requires=lambda s: table_ok(s) + [And(1 <= s('n'), s('n') <= s('s._n'))], ensures=f_post, loops=[f_outer(), f_inner()]),
    FnSpec('ls_num', requires=lambda s: s.n('s.prime_list') <= MAXS, ensures=lambda s: s.res == s.n('s.prime_list'))]
unit = Unit('sieve', specs)
