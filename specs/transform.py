from irv.spec import *
from irv.unit import Unit
from specs.nt import *
from specs.primes import dr
V = z3.IntVal
T = OSort('T'); AT = z3.ArraySort(Int, T)
add, sub, mul, ze = UF('uf_add', T, T, T), UF('uf_sub', T, T, T), UF('uf_mul', T, T, T), UF('uf_e', T)
isp = UF('is_pow2', Int, Bool)
@definition
def isp_def(n): return isp(n) == Or(n == 1, And(n >= 2, n % 2 == 0, isp(n / 2)))
MAXN = 1 << 40
odd = lambda m, h: (m / h) % 2 == 1
def butterfly(nm, lo, hi, match):
    """stage(A, 2h, m): the value at index m after the unit transform has been applied to the digits below 2h"""
    Z = UF('stage_' + nm, AT, Int, Int, T)
    @definition
    def Z_def(A, b, m): return Z(A, b, m) == If(b <= 1, A[m], If(odd(m, b / 2), hi(Z(A, b / 2, m - b / 2), Z(A, b / 2, m)), lo(Z(A, b / 2, m), Z(A, b / 2, m + b / 2))))
    def st(X, A, n, b, done): return forall(1, lambda m: Implies(And(0 <= m, m < n), X[m] == If(done(m), Z(A, 2 * b, m), Z(A, b, m))), pat=lambda m: X[m])
    def common(s):
        b, n = s.v('block'), s.n('a')
        return [('block', And(1 <= b, b <= n, True, n % b == 0, n == b * (n / b), isp(n / b)))]
    def outer_inv(s):
        b, n, X, A = s.v('block'), s.n('a'), s.e('a'), s.old.e('a')
        return [('block', And(1 <= b, Or(n == 0, And(b <= n, n % b == 0, n == b * (n / b), isp(n / b))), True)), ('stage', forall(1, lambda m: Implies(And(0 <= m, m < n), X[m] == Z(A, b, m)), pat=lambda m: X[m]))]
    def half(s, b, n):
        q = n / b; s.assume_def(isp_def(q)); s.lemma(divu, n, 2 * b, q / 2, V(0)); s.lemma(mul_ge, b, q); s.lemma(mul_subst, q, 2 * (q / 2), b); s.lemma(divu, n, V(1), n, V(0)); s.lemma(mul_ge, b, V(1) - q)
    def outer_use(s):
        n, A = s.n('a'), s.old.e('a')
        if s.prev is None: s.assume_def(forall(1, lambda m: Z_def(A, V(1), m), pat=lambda m: Z(A, 1, m))); s.lemma(divu, n, V(1), n, V(0)); return
        half(s, s.prev.v('block'), n)
    def ohead(s): half(s, s.v('block'), s.n('a'))
    def mid_inv(s):
        b, n, X, A, l = s.v('block'), s.n('a'), s.e('a'), s.old.e('a'), s.v('l')
        return [('block', And(1 <= b, b < n, n % b == 0, n % (2 * b) == 0, n == b * (n / b), isp(n / b), True)), ('position', And(0 <= l, l <= n, l % (2 * b) == 0)), ('stage', st(X, A, n, b, lambda m: m < l))]
    def mul_step(s, b, n, l): s.lemma(mshift, l, V(1), 2 * b); s.lemma(divu, n - l, 2 * b, n / (2 * b) - l / (2 * b), V(0)); s.lemma(dr, n, 2 * b); s.lemma(dr, l, 2 * b); s.lemma(dr, n - l, 2 * b); s.lemma(mul_ge, 2 * b, (n - l) / (2 * b))
    def mid_use(s):
        b, n = s.v('block'), s.n('a'); s.lemma(mshift, V(0), V(0), 2 * b)
        if s.prev is None: half(s, b, n); return
        l = s.prev.v('l'); mul_step(s, b, n, l)
    def mhead(s): mul_step(s, s.v('block'), s.n('a'), s.v('l'))
    def in_inv(s):
        b, n, X, A, l, o = s.v('block'), s.n('a'), s.e('a'), s.old.e('a'), s.v('l'), s.v('offset')
        return [('block', And(1 <= b, b < n, n % b == 0, n % (2 * b) == 0, n == b * (n / b), isp(n / b), True)), ('position', And(0 <= l, l + 2 * b <= n, l % (2 * b) == 0, l <= o, o <= l + b)), ('stage', st(X, A, n, b, lambda m: Or(m < o, And(l + b <= m, m < o + b))))]
    def in_use(s):
        b, n, A, l = s.v('block'), s.n('a'), s.old.e('a'), s.v('l')
        if s.prev is None: mul_step(s, b, n, l); return
        o = s.prev.v('offset'); t = l / (2 * b)
        for m in (o, o + b): s.assume_def(Z_def(A, 2 * b, m))
        s.lemma(dr, l, 2 * b); s.lemma(divu, o, b, 2 * t, o - l); s.lemma(divu, o + b, b, 2 * t + 1, o - l); s.lemma(divu, 2 * b, V(2), b, V(0))
    lb = lambda s: s.v('l') + s.v('block') - s.v('offset')
    return FnSpec(nm, match=match, modifies=lambda s: ['a'], requires=lambda s: And(s.n('a') <= MAXN, Or(s.n('a') == 0, isp(s.n('a')))), ensures=lambda s: [('length', s.n('a') == s.old.n('a')), ('transform', forall(1, lambda m: Implies(And(0 <= m, m < s.n('a')), s.e('a')[m] == Z(s.old.e('a'), s.n('a'), m)), pat=lambda m: s.e('a')[m]))],
        loops=[LoopSpec(outer_inv, dec=lambda s: If(s.n('a') > s.v('block'), s.n('a') - s.v('block'), 0), use=outer_use, head=ohead), LoopSpec(mid_inv, dec=lambda s: s.n('a') - s.v('l'), use=mid_use, head=mhead), LoopSpec(in_inv, dec=lb, use=in_use)]), Z, Z_def

ns = r'^(void )?suisen::%s<T'
(zs, Z1, Z1d), (ms, M1, M1d) = butterfly('subset zeta', lambda x, y: x, lambda x, y: add(y, x), ns % 'subset_transform::zeta'), butterfly('subset mobius', lambda x, y: x, lambda x, y: sub(y, x), ns % 'subset_transform::mobius')
(zp, Z2, Z2d), (mp, M2, M2d) = butterfly('supset zeta', lambda x, y: add(x, y), lambda x, y: y, ns % 'supset_transform::zeta'), butterfly('supset mobius', lambda x, y: sub(x, y), lambda x, y: y, ns % 'supset_transform::mobius')
(wh, W, Wd) = butterfly('walsh-hadamard', lambda x, y: add(x, y), lambda x, y: sub(x, y), ns % 'walsh_hadamard_transform::walsh_hadamard')
# ------------------------------------------------------------ the Moebius transforms invert the zeta transforms
# (laws of the abelian group passed as template parameters)
laws = lambda f, g: (definition(lambda x, y: g(f(y, x), x) == y), definition(lambda a, b, c, d: g(f(a, b), f(c, d)) == f(g(a, c), g(b, d))))
# digits of m at h and at K (a multiple of 2h) do not interfere
digits = Lemma('digits_independent', [Int, Int, Int], lambda m, h, K: Implies(And(h >= 1, K >= 1, K % (2 * h) == 0), And(Implies(odd(m, h), And((m - h) / K == m / K, Not(odd(m - h, h)))), Implies(Not(odd(m, h)), And((m + h) / K == m / K, odd(m + h, h))), (m - K) / h == m / h - 2 * (K / (2 * h)), (m + K) / h == m / h + 2 * (K / (2 * h)))),
    proof=lambda ih, u, m, h, K: [u(dr, m, K), u(dr, K, 2 * h), u(dr, m % K, 2 * h), u(dr, m, h), u(mshift, m, -2 * (K / (2 * h)), h), u(mshift, m, 2 * (K / (2 * h)), h), u(mshift, m, V(-1), h), u(mshift, m, V(1), h), u(mod_in, m, h, K), u(divu, m - h, K, m / K, m % K - h), u(divu, m + h, K, m / K, m % K + h)])
mod_in = Lemma('digit_within_block', [Int, Int, Int], lambda m, h, K: Implies(And(h >= 1, K >= 1, K % (2 * h) == 0), And(Implies(odd(m, h), m % K >= h), Implies(Not(odd(m, h)), m % K + h < K))),
    proof=lambda ih, u, m, h, K: (lambda c, r: [u(dr, m, K), u(dr, K, 2 * h), u(mshift, r, 2 * c * (m / K), h), u(mul3_, h, 2 * c, m / K), u(mul3_, h, V(2), c), u(dr, r, h), u(divu, r, h, V(0), r), u(mul_ge, h, V(2) * c - r / h - 1), u(mul_ge, h, 2 * c - 1 - r / h), u(par, r / h, c), u(mul_ge, h, r / h - (2 * c - 2))])(K / (2 * h), m % K))
mul3_ = Lemma('mul_assoc3', [Int, Int, Int], lambda a, b, c: And((a * b) * c == a * (b * c), a * (b * c) == b * (a * c)), proof=lambda ih, u, a, b, c: [])
par = Lemma('parity', [Int, Int], lambda x, c: Implies(And(x % 2 == 0, x < 2 * c), x <= 2 * c - 2), proof=lambda ih, u, x, c: [])

def inversion(nm, Z, Zd, f, M, Md, g, sg):
    """the stages M (operation g) undo the stages Z (operation f)"""
    far = (lambda m, K: m - K) if sg < 0 else (lambda m, K: m + K); cancel, exch = laws(f, g)
    on = (lambda m, h: odd(m, h)) if sg < 0 else (lambda m, h: Not(odd(m, h)))
    comb = lambda C, x, K: If(on(x, K), f(C(x), C(far(x, K))), C(x))
    H = lambda B, C, K: forall(1, lambda x: B[x] == comb(lambda t: C[t], x, K), pat=lambda x: B[x])
    lin = Lemma(nm + '_linear', [AT, AT, Int, Int, Int], lambda B, C, K, k, m: Implies(And(K >= 1, k >= 1, isp(k), K % k == 0, H(B, C, K)), M(B, k, m) == comb(lambda t: M(C, k, t), m, K)),
        proof=lambda ih, u, B, C, K, k, m: (lambda h: [ih(B, C, K, h, m), ih(B, C, K, h, far(m, h)), isp_def(k), Md(B, k, m), Md(C, k, m), Md(C, k, far(m, K)), u(digits, m, h, K), B[m] == B[m], u(dr, K, k), u(divu, K, h, 2 * (K / k), V(0)),
            exch(M(C, h, m), M(C, h, far(m, K)), M(C, h, far(m, h)), M(C, h, far(far(m, h), K))), u(digits, m, h, K)])(k / 2), measure=lambda B, C, K, k, m: k)
    ext = Lemma(nm + '_ext', [AT, AT, Int, Int, Int], lambda X, Y, n, k, m: Implies(And(n >= 1, k >= 1, isp(k), n % k == 0, 0 <= m, m < n, forall(1, lambda x: Implies(And(0 <= x, x < n), X[x] == Y[x]), pat=lambda x: X[x])), M(X, k, m) == M(Y, k, m)),
        proof=lambda ih, u, X, Y, n, k, m: (lambda h: [ih(X, Y, n, h, m), ih(X, Y, n, h, m - h), ih(X, Y, n, h, m + h), isp_def(k), Md(X, k, m), Md(Y, k, m), X[m] == X[m], u(dr, n, k), u(divu, n, h, 2 * (n / k), V(0)), u(mod_in, m, h, n), u(divu, m, n, V(0), m), u(dr, m, h), u(mul_ge, h, m / h)])(k / 2), measure=lambda X, Y, n, k, m: k)
    ZA = UF('stages_' + nm, AT, Int, AT)
    @definition
    def ZA_def(A, b): return forall(1, lambda x: ZA(A, b)[x] == Z(A, b, x), pat=lambda x: ZA(A, b)[x])
    inv = Lemma(nm + '_inverse', [AT, Int, Int], lambda A, b, m: Implies(And(b >= 1, isp(b)), M(ZA(A, b), b, m) == A[m]),
        proof=lambda ih, u, A, b, m: (lambda h: [ih(A, h, m), ih(A, h, far(m, h)), isp_def(b), ZA_def(A, b), ZA_def(A, h), forall(1, lambda x: Zd(A, b, x), pat=lambda x: Z(A, b, x)), Zd(A, b, m), Md(ZA(A, b), b, m), u(divu, h, h, V(1), V(0)), u(divu, b, V(2), h, V(0)),
            u(lin, ZA(A, b), ZA(A, h), h, h, m), u(lin, ZA(A, b), ZA(A, h), h, h, far(m, h)), cancel(A[far(m, h)], A[m]), u(mshift, m, V(-1), h), u(mshift, m, V(1), h)])(b / 2), measure=lambda A, b, m: b)
    def hints(s, n, A):
        """whatever array agrees with the Z-transform of A is brought back to A by M"""
        s.assume_def(ZA_def(A, n)); s.lemma(divu, n, n, V(1), V(0))
        s.lemma_all(inv, forall(1, lambda m: inv.inst(A, n, m), pat=lambda m: M(ZA(A, n), n, m)))
        s.lemma_all(ext, forall(2, lambda X, m: ext.inst(X, ZA(A, n), n, n, m), pat=lambda X, m: M(X, n, m), sorts=[AT, Int]))
    return hints
okn = lambda s, v: And(s.n(v) <= MAXN, Or(s.n(v) == 0, isp(s.n(v))))
def family(nm, Z, Zd, M, Md, sg):
    h1 = inversion(nm + '_moebius_of_zeta', Z, Zd, add, M, Md, sub, sg); h2 = inversion(nm + '_zeta_of_moebius', M, Md, sub, Z, Zd, add, sg)
    same = lambda s: [('length', s.n('a') == s.old.n('a')), ('every element restored', forall(1, lambda m: Implies(And(0 <= m, m < s.n('a')), s.e('a')[m] == s.old.e('a')[m]), pat=lambda m: s.e('a')[m]))]
    rt = FnSpec(nm + '_round', requires=lambda s: okn(s, 'a'), ensures=same, pre=lambda s: h1(s, s.n('a'), s.e('a')))
    rt2 = FnSpec(nm + '_round2', requires=lambda s: okn(s, 'a'), ensures=same, pre=lambda s: h2(s, s.n('a'), s.e('a')))
    # convolution: the zeta transform of the result is the product of the zeta transforms
    def cinv(s):
        i, n, X, Y, A, B = s.v('i'), s.n('a'), s.e('a'), s.e('b'), s.old.e('a'), s.old.e('b')
        return [('range', And(0 <= i, i <= n, n == s.old.n('a'), n == s.n('b'))), ('first', forall(1, lambda m: Implies(And(0 <= m, m < n), X[m] == If(m < i, mul(Z(A, n, m), Z(B, n, m)), Z(A, n, m))), pat=lambda m: X[m])), ('second', forall(1, lambda m: Implies(And(0 <= m, m < n), Y[m] == Z(B, n, m)), pat=lambda m: Y[m]))]
    out = lambda s: 'sret'
    cv = FnSpec(nm + ' convolution', match=r'suisen::convolution::transform_convolution<T, &void suisen::%sset_transform::zeta' % nm, requires=lambda s: And(okn(s, 'a'), s.n('a') == s.n('b')),
        ensures=lambda s: [('length', s.n(out(s)) == s.old.n('a')), ('transform of the result is the product of the transforms', forall(1, lambda m: Implies(And(0 <= m, m < s.old.n('a')), Z(s.e(out(s)), s.old.n('a'), m) == mul(Z(s.old.e('a'), s.old.n('a'), m), Z(s.old.e('b'), s.old.n('a'), m))), pat=lambda m: Z(s.e(out(s)), s.old.n('a'), m)))],
        loops=[LoopSpec(cinv, dec=lambda s: s.n('a') - s.v('i'), head=lambda s: h2(s, s.n('a'), s.e('a')))], modifies=lambda s: ['sret', 'a', 'b'])
    return [rt, rt2, cv]
specs = [zs, ms, zp, mp, wh] + family('sub', Z1, Z1d, M1, M1d, -1) + family('sup', Z2, Z2d, M2, M2d, 1)
unit = Unit('transform', specs, contracts=[zs, ms, zp, mp, wh], keep=[r'^(void )?suisen::(subset|supset)_transform::(zeta|mobius)<T', r'^(void )?suisen::walsh_hadamard_transform::walsh_hadamard<T', 'transform_convolution<'], opaque={'T': 'T'})
