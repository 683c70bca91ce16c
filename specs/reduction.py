from irv.spec import *
from irv.unit import Unit
from specs.nt import *
rng = lambda t, m: And(0 <= t, t < m)
V = z3.IntVal
# ------------------------------------------------------------ Barrett, K = 64
bar2_s = Lemma('barrett64_scaled', [Int] * 5, lambda c, M, L, e, K: Implies(And(M >= 1, c >= 0, K >= 1, M * L == K + e, e >= 0, c * e < K * M),
        And(M * (K * (c / M)) <= M * (c * L), M * (c * L) < M * (K * (c / M) + 2 * K))),
    proof=lambda ih, u, c, M, L, e, K: [u(mul_subst, M * L, K + e, c), u(mul_nn, c, e), u(mul_nn, K, c % M), u(mul_nn, K, M - 1 - c % M), u(mul_subst, c, M * (c / M) + c % M, K)])
bar2 = Lemma('barrett64_quotient', [Int] * 5, lambda c, M, L, e, K: Implies(And(M >= 1, c >= 0, K >= 1, M * L == K + e, e >= 0, c * e < K * M), And(K * (c / M) <= c * L, c * L < K * (c / M) + 2 * K)),
    proof=lambda ih, u, c, M, L, e, K: [u(bar2_s, c, M, L, e, K), u(mul_cancel, M, K * (c / M), c * L), u(mul_cancel, M, c * L, K * (c / M) + 2 * K)])
small = Lemma('mul_small', [Int, Int, Int, Int], lambda a, b, A, B_: Implies(And(0 <= a, a < A, 0 <= b, b < B_), And(0 <= a * b, a * b < A * B_, a * b <= (A - 1) * (B_ - 1))), proof=lambda ih, u, a, b, A, B_: [u(mul_nn, a, b), u(mul_mono, a, A - 1, b), u(mul_mono, b, B_ - 1, A - 1)])
ceilL = lambda K, M: (K - 1) / M + 1
bar64 = Lemma('barrett_K64', [Int, Int], lambda c, M: Implies(And(0 <= c, c < P64, 2 <= M, M < (1 << 32)), And(ceilL(P64, M) < P64, c * ceilL(P64, M) >= 0, c * ceilL(P64, M) < P128, Or(c * ceilL(P64, M) / P64 == c / M, c * ceilL(P64, M) / P64 == c / M + 1))),
    proof=lambda ih, u, c, M: (lambda L: [u(bar2, c, M, L, M * L - P64, V(P64)), u(small, c, M * L - P64, V(P64), M), u(small, c, L, V(P64), V(P64))])(ceilL(P64, M)))
def ba(s):
    M = s('b.M')
    return [('modulus', And(1 <= M, M < (1 << 32), Implies(M >= 2, s('b.L') == ceilL(P64, M))))]
ba_use = lambda x: lambda s: (s.lemma(bar64, x(s), s('b.M')), s.lemma(small, s('b.M'), x(s) / s('b.M') + 2, V(1 << 32), V(P64)))
specs = [
    FnSpec('ba_ctor', requires=lambda s: s('M') >= 1, ensures=lambda s: ba(s) + [s('b.M') == s('M')]),
    FnSpec('ba_quo', requires=lambda s: ba(s), ensures=lambda s: ('quotient', s.res == s('x') / s('b.M')), use=ba_use(lambda s: s('x'))),
    FnSpec('ba_rem', requires=lambda s: ba(s), ensures=lambda s: ('remainder', s.res == s('x') % s('b.M')), use=ba_use(lambda s: s('x'))),
    FnSpec('ba_rem_raw', requires=lambda s: ba(s) + [s('b.M') >= 2], ensures=lambda s: ('remainder', s.res == s('x') % s('b.M')), use=ba_use(lambda s: s('x'))),
    FnSpec('ba_mul', requires=lambda s: ba(s), ensures=lambda s: ('product', s.res == (s('x') * s('y')) % s('b.M')), use=lambda s: (s.lemma(small, s('x'), s('y'), V(1 << 32), V(1 << 32)), ba_use(lambda s: s('x') * s('y'))(s))),
]
# ------------------------------------------------------------ Montgomery
mont_z = Lemma('mont_z', [Int] * 5, lambda lo, N, N2, R2, R: Implies(And(R >= 2, N * N2 == R * R2 - 1), ((lo * N2) % R) * N == R * (lo * R2 - ((lo * N2) / R) * N) - lo),
    proof=lambda ih, u, lo, N, N2, R2, R: [u(mul_subst, (lo * N2) % R, lo * N2 - R * ((lo * N2) / R), N), u(mul_subst, N * N2, R * R2 - 1, lo)])
def mz(T, N, N2, R2, R): return (T % R) * R2 - (((T % R) * N2) / R) * N
mont_q = Lemma('mont_quotient', [Int] * 5, lambda T, N, N2, R2, R: Implies(And(R >= 2, N >= 1, 0 <= T, N * N2 == R * R2 - 1),
        (lambda m, z: And(0 <= m, m < R, m * N == R * z - T % R, (m * N) / R == z - If(T % R == 0, 0, 1), 0 <= z, z <= N))(((T % R) * N2) % R, mz(T, N, N2, R2, R))),
    proof=lambda ih, u, T, N, N2, R2, R: (lambda lo, z, m: [u(mont_z, lo, N, N2, R2, R), u(divu, m * N, R, z - If(lo == 0, 0, 1), If(lo == 0, 0, R - lo)), u(mul_nn, m, N), u(mul_mono, m, R - 1, N), u(mul_cancel, R, z, N), u(mul_cancel, R, V(-1), z)])(T % R, mz(T, N, N2, R2, R), ((T % R) * N2) % R))
mont_t = Lemma('mont_value', [Int] * 5, lambda T, N, N2, R2, R: Implies(And(R >= 2, N >= 1, 0 <= T, T < R * N, N * N2 == R * R2 - 1),
        (lambda t: And(0 <= t, t < 2 * N, T / R < N, (T * R2) % N == If(t >= N, t - N, t)))(T / R + mz(T, N, N2, R2, R))),
    proof=lambda ih, u, T, N, N2, R2, R: (lambda t: [u(mont_q, T, N, N2, R2, R), u(mul_subst, T, R * (T / R) + T % R, R2), u(mul_subst, N * N2, R * R2 - 1, T / R),
        u(mul_cancel, R, N, T / R), u(divu, T * R2, N, If(t >= N, 1, 0) + ((T % R) * N2) / R + (T / R) * N2, If(t >= N, t - N, t))])(T / R + mz(T, N, N2, R2, R)))
inv2 = Lemma('newton_inverse', [Int, Int, Int], lambda N, x, q: Implies(And(q >= 1, (N * x) % q == 1 % q), (N * (x * (2 - N * x))) % (q * q) == 1 % (q * q)),
    proof=lambda ih, u, N, x, q: (lambda k: [u(mul_subst, N * x, 1 + q * k, N * x), u(mul_subst, N * x, 1 + q * k, q * k), u(mshift, V(1), -k * k, q * q), u(mdiff, N * x, V(1), q), u(mdiff2, N * x, V(1), q)])((N * x - 1) / q))
mdiff2 = Lemma('mod_diff_conv', [Int, Int, Int], lambda a, b, m: Implies(And(m > 0, a % m == b % m), (a - b) % m == 0), proof=lambda ih, u, a, b, m: [u(mshift, V(0), a / m - b / m, m)])
def mg(R):
    f = lambda s: [('modulus', And(s('m.N') >= 1, s('m.N') < R, s('m.N') * s('m.N2') == R * s('m.R2') - 1, s('m.RR') == (R * R) % s('m.N'), rng(s('m.RR'), s('m.N')), s('m.N2') < R, s('m.R2') <= s('m.N')))]
    return f
def red_use(T, R): return lambda s: (s.lemma(mont_q, T(s), s('m.N'), s('m.N2'), s('m.R2'), V(R)), s.lemma(mont_t, T(s), s('m.N'), s('m.N2'), s('m.R2'), V(R)), s.lemma(small, ((T(s) % R) * s('m.N2')) % R, s('m.N'), V(R), V(R)), s.lemma(small, T(s) % R, s('m.N2'), V(R), V(R)))
def mont(p, bits):
    R = 1 << bits; wf = mg(R); N, N2, R2 = [(lambda f: lambda s: s('m.' + f))(f) for f in ('N', 'N2', 'R2')]
    cb = lambda s: s.v('cur_bits')
    q_of = lambda c: If(c == 2, 4, If(c == 4, 16, If(c == 8, 256, If(c == 16, 65536, If(c == 32, 1 << 32, P64)))))
    out = [
        FnSpec(p + '_ctor', requires=lambda s: s('n') % 2 == 1, ensures=lambda s: wf(s) + [s('m.N') == s('n')],
            loops=[LoopSpec(lambda s: [('bits', Or([cb(s) == b for b in (2, 4, 8, 16, 32, 64) if b <= bits])), ('range', rng(s.v('invN'), R)), ('inverse', And([Implies(cb(s) == b, (s('n') * s.v('invN')) % (1 << b) == 1) for b in (2, 4, 8, 16, 32, 64) if b <= bits]))], dec=lambda s: bits - cb(s),
                use=lambda s: ctor_use(s, bits))], use=lambda s: ctor_end(s, bits)),
        FnSpec(p + '_reduce', requires=lambda s: wf(s) + [s('T') < R * N(s)], ensures=lambda s: ('T/R mod N', s.res == (s('T') * R2(s)) % N(s)), use=red_use(lambda s: s('T'), R)),
        FnSpec(p + '_mul', requires=lambda s: wf(s) + [s('a') < N(s), s('b') < N(s)], ensures=lambda s: ('a*b/R mod N', s.res == (s('a') * s('b') * R2(s)) % N(s)), use=lambda s: (s.lemma(small, s('a'), s('b'), N(s), V(R)), s.lemma(small, s('a'), s('b'), V(R), V(R)), s.lemma(mul_mono, s('a') + 1, N(s), s('b')), s.lemma(mul_mono, s('b'), V(R), N(s)), red_use(lambda s: s('a') * s('b'), R)(s))),
        FnSpec(p + '_make', requires=lambda s: wf(s), ensures=lambda s: ('t*R mod N', s.res == (s('t') * R) % N(s)),
            use=lambda s: (s.lemma(small, s('t'), s('m.RR'), V(R), N(s)), s.lemma(small, s('t'), s('m.RR'), V(R), V(R)), red_use(lambda s: s('t') * s('m.RR'), R)(s), s.lemma(make_val, s('t'), N(s), N2(s), R2(s), V(R)))),
        FnSpec(p + '_add', requires=lambda s: wf(s) + [s('a') < N(s), s('b') < N(s)], ensures=lambda s: ('sum', s.res == (s('a') + s('b')) % N(s)), use=lambda s: (s.lemma(mshift, s('a') + s('b'), V(-1), N(s)))),
        FnSpec(p + '_sub', requires=lambda s: wf(s) + [s('a') < N(s), s('b') < N(s)], ensures=lambda s: ('difference', s.res == (s('a') - s('b')) % N(s)), use=lambda s: (s.lemma(mshift, s('a') - s('b'), V(1), N(s)))),
    ]
    D = 'unsigned int' if bits == 32 else 'unsigned long'
    red = FnSpec('Montgomery%d::reduce' % bits, requires=lambda s: mg(R)(TV(s)) + [s('T') < R * s('this.N')], ensures=lambda s: ('T/R mod N', And(s.res == (s('T') * s('this.R2')) % s('this.N'), s.res < s('this.N'))), modifies=lambda s: [], use=lambda s: red_use(lambda q: s('T'), R)(TV(s)))
    red.match = r'Montgomery<%s,.*>::reduce' % D
    tv = lambda s, x: (x * R2(s)) % N(s)
    def pow_use(s):
        if s.prev is None:
            s.lemma(make_val, V(1), N(s), N2(s), R2(s), V(R)); s.lemma(mmul, V(R), R2(s), N(s)); s.lemma(mshift, V(1), N2(s), N(s)); s.lemma(mmul, V(1), pw(tv(s, s('a')), s('b')), N(s)); return
        P, A, n = s.prev.v('P'), s.prev.v('A'), s.prev.v('b'); P1, A1 = s.v('P'), s.v('A'); tgt = pw(tv(s, s('a')), s('b')) % N(s)
        s.have('square', A1 == (A * A * R2(s)) % N(s)); s.have('product', P1 == If(n % 2 == 1, (P * A * R2(s)) % N(s), P))
        s.focus('step', (tv(s, P1) * pw(tv(s, A1), s.v('b'))) % N(s) == tgt, [A1 == (A * A * R2(s)) % N(s), P1 == If(n % 2 == 1, (P * A * R2(s)) % N(s), P), s.v('b') == n / 2, n >= 1, N(s) >= 1, (tv(s, P) * pw(tv(s, A), n)) % N(s) == tgt],
            [(pw_step, tv(s, P), tv(s, A), n, N(s)), (mont_mul, A, A, R2(s), N(s)), (mont_mul, P, A, R2(s), N(s))], [P1, A1, s.v('b')])
    def pow_head(s):
        for x in ('P', 'A'):
            a, b = s.v(x), s.v('A'); s.lemma(small, a, b, N(s), V(R)); s.lemma(small, a, b, V(R), V(R)); s.lemma(mul_mono, a + 1, N(s), b); s.lemma(mul_mono, b, V(R), N(s))
    out += [red, FnSpec(p + '_pow', requires=lambda s: wf(s) + [s('a') < N(s), s('b') >= 0], ensures=lambda s: ('power', And(s.res < N(s), tv(s, s.res) == pw(tv(s, s('a')), s('b')) % N(s))), pre=lambda s: s.lemma(small, V(1), s('m.RR'), V(2), V(R)),
        loops=[LoopSpec(lambda s: [('range', And(s.v('P') < N(s), s.v('A') < N(s), s.v('b') >= 0)), ('power', (tv(s, s.v('P')) * pw(tv(s, s.v('A')), s.v('b'))) % N(s) == pw(tv(s, s('a')), s('b')) % N(s))], dec=lambda s: s.v('b'), use=pow_use, head=pow_head)],
        use=lambda s: (s.assume_def(pw_def(tv(s, s.v('A')), V(0))), s.lemma(mmul, s.v('P') * R2(s), V(1), N(s))))]
    reds.append(red)
    return out
reds = []
class TV:
    def __init__(s, v): s.v_ = v
    def __call__(s, n): return s.v_(n.replace('m.', 'this.', 1))
    def __getattr__(s, n): return getattr(s.v_, n)
mont_mul = Lemma('mont_mul', [Int] * 4, lambda a, b, r, m: Implies(m >= 1, (((a * b * r) % m) * r) % m == (((a * r) % m) * ((b * r) % m)) % m),
    proof=lambda ih, u, a, b, r, m: [u(mmul, a * b * r, r, m), u(mmul, a * r, (b * r) % m, m), u(mmul, b * r, a * r, m)])
make_val = Lemma('mont_make', [Int] * 5, lambda t, N, N2, R2, R: Implies(And(R >= 2, N >= 1, N * N2 == R * R2 - 1), ((t * ((R * R) % N)) * R2) % N == (t * R) % N),
    proof=lambda ih, u, t, N, N2, R2, R: [u(mmul, R * R, t * R2, N), u(mul_subst, R * R2, N * N2 + 1, t * R), u(mshift, t * R, t * R * N2, N)])
def ctor_use(s, bits):
    R = 1 << bits
    if s.prev is None:
        s.lemma(odd_sq, s('n')); return
    x, n = s.prev.v('invN'), s('n'); c = s.prev.v('cur_bits')
    s.lemma(mod_mod, 2 - n * x, V(1), V(R), V(R))
    for b, q in ((2, 4), (4, 16), (8, 256), (16, 65536), (32, 1 << 32)):
        if b < bits:
            s.lemma(inv2, n, x, V(q)); s.lemma(newton_mod, n, x, V(R), V(q * q), V(R // (q * q)))
odd_sq = Lemma('odd_square', [Int], lambda n: Implies(n % 2 == 1, (n * n) % 4 == 1), proof=lambda ih, u, n: [u(mul_subst, n, 2 * (n / 2) + 1, n), u(mul_subst, n, 2 * (n / 2) + 1, n / 2), u(mshift, V(1), (n / 2) * (n / 2) + n / 2, V(4))])
# reducing the iterate modulo R (a multiple of q*q) does not change it modulo q*q
newton_mod = Lemma('newton_mod', [Int] * 5, lambda n, x, R, Q, c: Implies(And(R == Q * c, Q >= 1, c >= 1), (n * ((x * ((2 - n * x) % R)) % R)) % Q == (n * (x * (2 - n * x))) % Q),
    proof=lambda ih, u, n, x, R, Q, c: (lambda y, z: [u(mod_mod, x * (y % R), n, Q, c), u(mod_mod, y, n * x, Q, c)])(2 - n * x, 0))
mod_mod = Lemma('mod_mod', [Int] * 4, lambda a, b, Q, c: Implies(And(Q >= 1, c >= 1), (b * (a % (Q * c))) % Q == (b * a) % Q),
    proof=lambda ih, u, a, b, Q, c: [u(mul_nn, Q, c), u(mul_ge, Q, c), u(mul_subst, a, (Q * c) * (a / (Q * c)) + a % (Q * c), b), u(mshift, b * (a % (Q * c)), c * b * (a / (Q * c)), Q)])
ctor_fin = Lemma('mont_ctor', [Int, Int, Int], lambda n, x, R: Implies(And(R >= 2, rng(x, R), rng(n, R), n >= 1, (n * x) % R == 1), And((1 + n * (R - x)) % R == 0, x > 0, (1 + n * (R - x)) / R <= n, (1 + n * (R - x)) / R >= 0, n * (R - x) == R * ((1 + n * (R - x)) / R) - 1)),
    proof=lambda ih, u, n, x, R: [u(mshift, 1 - n * x, n, R), u(mdiff2, n * x, V(1), R), u(mshift, V(0), -((n * x - 1) / R), R), u(mul_nn, n, R - x), u(mul_ge, n, x), u(mul_mono, (1 + n * (R - x)) / R, n, R), u(mul_cancel, R, (1 + n * (R - x)) / R, n), u(mul_nn, n, x)])
def ctor_end(s, bits):
    R = 1 << bits; n = s('n'); x = s.v('invN')
    s.lemma(small, n, s('m.N2'), V(R), V(R)); s.lemma(ctor_fin, n, x, V(R))
specs += mont('m32', 32) + mont('m64', 64)
# ------------------------------------------------------------ 2^61 - 1
PM = (1 << 61) - 1; h = 1 << 31
def p61S(a, b):
    au, ad, bu, bd = a / h, a % h, b / h, b % h; m = au * bd + ad * bu
    return au, ad, bu, bd, m, m / (1 << 30), m % (1 << 30)
def p61_stmt(a, b):
    au, ad, bu, bd, m, mu, md = p61S(a, b)
    S = au * bu * 2 + mu + md * h + ad * bd
    return Implies(And(rng(a, PM), rng(b, PM)), And(0 <= au * bu, au * bu < (1 << 60), 0 <= au * bd, 0 <= ad * bu, 0 <= m, m < (1 << 62), 0 <= ad * bd, ad * bd < (1 << 62), S < (1 << 63), S % PM == (a * b) % PM))
def p61_proof(ih, u, a, b):
    au, ad, bu, bd, m, mu, md = p61S(a, b); S = au * bu * 2 + mu + md * h + ad * bd; H = 1 << 30
    return [u(small, au, bu, V(H), V(H)), u(small, au, bd, V(H), V(h)), u(small, ad, bu, V(h), V(H)), u(small, ad, bd, V(h), V(h)), u(p61_prod, au, ad, bu, bd), u(mshift, S, 2 * au * bu + mu, V(PM)), u(mul_subst, a, au * h + ad, b), u(mul_subst, b, bu * h + bd, au * h + ad)]
p61_prod = Lemma('p61_prod', [Int] * 4, lambda au, ad, bu, bd: (au * h + ad) * (bu * h + bd) == au * bu * h * h + (au * bd + ad * bu) * h + ad * bd)
p61_mul = Lemma('p61_mul', [Int, Int], p61_stmt, proof=p61_proof)
P_ = lambda s, x: rng(s(x + '.v'), PM)
@definition
def fermat61(x): return Implies(And(0 < x, x < PM), (pw(x, PM - 2) * x) % PM == 1)     # Fermat's little theorem for the prime 2^61-1 (assumed)
def ppow_use(s):
    if s.prev is not None:
        X, P, n = s.prev.v('x'), s.prev.v('p'), s.prev.v('b')
        s.lemma(p61_mul, P, P); s.have('square', s.v('p') == (P * P) % PM); s.lemma(p61_mul, X, P)
        s.have('product', s.v('x') == If(n % 2 == 1, (X * P) % PM, X)); tgt = pw(s('a.v'), s('b')) % PM
        s.focus('step', (s.v('x') * pw(s.v('p'), s.v('b'))) % PM == tgt, [s.v('p') == (P * P) % PM, s.v('x') == If(n % 2 == 1, (X * P) % PM, X), s.v('b') == n / 2, n >= 1, (X * pw(P, n)) % PM == tgt], [(pw_step, X, P, n, V(PM))], [s.v('x'), s.v('p'), s.v('b')])
    else: s.lemma(mmul, V(1), pw(s('a.v'), s('b')), V(PM))
def fld(s, nm): return s(nm + '.v')
pw_add = Lemma('pow_add', [Int, Int, Int], lambda x, a, b: Implies(And(a >= 0, b >= 0), pw(x, a + b) == pw(x, a) * pw(x, b)), proof=lambda ih, u, x, a, b: [ih(x, a - 1, b), pw_def(x, a + b), pw_def(x, a)], measure=lambda x, a, b: a)
pw2_ge = Lemma('pow2_ge', [Int], lambda i: Implies(i >= 0, pw(2, i) >= 1 + i), proof=lambda ih, u, i: [pw_def(V(2), i), ih(i - 1)], measure=lambda i: i)
# (a^e1 mod m)(a^e2 mod m) = a^(e1+e2) mod m
pw_mulmod = Lemma('pow_mul_mod', [Int] * 4, lambda x, a, b, m: Implies(And(m > 0, a >= 0, b >= 0), ((pw(x, a) % m) * (pw(x, b) % m)) % m == pw(x, a + b) % m),
    proof=lambda ih, u, x, a, b, m: [u(mmul, pw(x, a), pw(x, b) % m, m), u(mmul, pw(x, b), pw(x, a), m), u(pw_add, x, a, b)])
def pinv_use(s):
    a = s('a.v')
    for k in range(3): s.assume_def(pw_def(a, V(k)))
    for k in range(4): s.assume_def(pw_def(V(2), V(k)))
    if s.prev is None: s.lemma(p61_mul, a, a); return
    i, X, P = s.prev.v('i'), s.prev.v('x'), s.prev.v('p')
    s.lemma(pw2_ge, i - 1); s.assume_def(pw_def(V(2), i)); s.assume_def(pw_def(V(2), i + 1)); s.lemma(p61_mul, P, P); s.have('square', s.v('p') == (P * P) % PM); s.lemma(p61_mul, X, (P * P) % PM); s.have('product', s.v('x') == (X * s.v('p')) % PM)
    s.have('index', s.v('i') == i + 1); x2, p2 = s.v('x'), s.v('p'); g = [p2 == (P * P) % PM, P == pw(a, pw(2, i - 1)) % PM, i >= 2]; h = [pw_def(V(2), i), pw_def(V(2), i + 1), (pw2_ge, i - 1), (pw2_ge, i)]
    s.focus('squares', p2 == pw(a, pw(2, i)) % PM, g, h + [(pw_mulmod, a, pw(2, i - 1), pw(2, i - 1), V(PM))])
    s.assume_def(pw_def(V(2), V(2)))
    s.focus('products', x2 == pw(a, pw(2, i + 1) - 3) % PM, [p2 == pw(a, pw(2, i)) % PM, X == pw(a, pw(2, i) - 3) % PM, x2 == (X * p2) % PM, i >= 2], h + [pw_def(V(2), V(2)), pw_def(V(2), V(1)), pw_def(V(2), V(0)), (pw2_ge, i - 2), pw_def(V(2), i - 1), (pw_mulmod, a, pw(2, i) - 3, pw(2, i), V(PM))])
fast_c = FnSpec('fast_mod', ensures=lambda s: ('v mod (2^61-1)', s.res == s('v') % PM), modifies=lambda s: [])
fast_c.match = r'modint2p61m1::fast_mod'
specs += [fast_c,
    FnSpec('p_fast', ensures=lambda s: s.res == s('v') % PM), FnSpec('p_ctor', ensures=lambda s: s.res == s('v') % PM),
    FnSpec('p_add', requires=lambda s: [P_(s, 'a'), P_(s, 'b')], ensures=lambda s: s('a.v') == (s.old('a.v') + s('b.v')) % PM),
    FnSpec('p_sub', requires=lambda s: [P_(s, 'a'), P_(s, 'b')], ensures=lambda s: s('a.v') == (s.old('a.v') - s('b.v')) % PM),
    FnSpec('p_mul', requires=lambda s: [P_(s, 'a'), P_(s, 'b')], ensures=lambda s: s('a.v') == (s.old('a.v') * s('b.v')) % PM, use=lambda s: s.lemma(p61_mul, s.old('a.v'), s('b.v'))),
    FnSpec('p_pow', requires=lambda s: [P_(s, 'a'), s('b') >= 0], ensures=lambda s: ('power', s.res == pw(s('a.v'), s('b')) % PM),
        loops=[LoopSpec(lambda s: [('range', And(rng(s.v('x'), PM), rng(s.v('p'), PM), s.v('b') >= 0)), ('power', (s.v('x') * pw(s.v('p'), s.v('b'))) % PM == pw(s('a.v'), s('b')) % PM)], dec=lambda s: s.v('b'), use=ppow_use)],
        use=lambda s: s.assume_def(pw_def(s.v('p'), 0)) if s.has('p') else None),
    FnSpec('p_inv', requires=lambda s: [P_(s, 'a'), s('a.v') > 0], ensures=lambda s: ('inverse', (s.res * s('a.v')) % PM == 1),
        loops=[LoopSpec(lambda s: [('range', And(2 <= s.v('i'), s.v('i') <= 61, rng(s.v('x'), PM), rng(s.v('p'), PM))), ('square', s.v('p') == pw(s('a.v'), pw(2, s.v('i') - 1)) % PM), ('product', s.v('x') == pw(s('a.v'), pw(2, s.v('i')) - 3) % PM)], dec=lambda s: 61 - s.v('i'), use=pinv_use)],
        use=lambda s: ([s.assume_def(pw_def(V(2), V(k))) for k in range(62)], s.assume_def(fermat61(s('a.v'))), s.lemma(mmul, pw(s('a.v'), PM - 2), s('a.v'), V(PM)))),
]
unit = Unit('reduction', specs, contracts=[fast_c] + reds, keep=[r'fast_mod', r'Montgomery<.*>::reduce'])
