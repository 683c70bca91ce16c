from irv.spec import *
from irv.unit import Unit
from specs.nt import *
from specs.bezout import gcd_pos, gcd_div, lin0, neg0, tq_exact, qnn, absmul, ab, V
MX = (1 << 63) - 1; B30, B31 = 1 << 30, 1 << 31
sg = UF('uf_stdgcd', Int, Int, Int)
@definition
def std_gcd(a, b): return sg(a, b) == gcd(ab(a), ab(b))      # assumed contract of std::gcd
# gcd of scaled arguments, and of the arguments divided by their gcd
gscale = Lemma('gcd_scale', [Int] * 3, lambda k, a, b: Implies(And(k >= 1, a >= 0, b >= 0), gcd(k * a, k * b) == k * gcd(a, b)),
    proof=lambda ih, u, k, a, b: [gcd_def(a, b), gcd_def(k * a, k * b), u(divu, k * a, k * b, a / b, k * (a % b)), u(mul_ge, k, b), u(mul_ge, b, k), u(mul_nn, k, a % b), u(mul_mono, a % b + 1, b, k), ih(k, b, a % b)], measure=lambda k, a, b: b)
gred = Lemma('gcd_reduced', [Int, Int], lambda a, b: Implies(And(a >= 0, b >= 0, Or(a > 0, b > 0)), gcd(a / gcd(a, b), b / gcd(a, b)) == 1),
    proof=lambda ih, u, a, b: (lambda g: [u(gcd_pos, a, b), u(gcd_div, a, b), u(gscale, g, a / g, b / g), u(qnn, a, g), u(qnn, b, g), u(mul_cancel, g, gcd(a / g, b / g), V(1)), u(mul_cancel, g, V(1), gcd(a / g, b / g))])(gcd(a, b)))
N = lambda s, o: (s(o + '.num'), s(o + '.den'))
def norm(n, d): return And(d >= 0, gcd(ab(n), d) == 1)
okQ = lambda s, o, lim=MX: And(norm(*N(s, o)), ab(N(s, o)[0]) <= lim, N(s, o)[1] <= lim)
fin = lambda s, o: N(s, o)[1] > 0
sgn = lambda t: If(t > 0, 1, If(t == 0, 0, -1))
def use_gcd(s, a, b, lem=(), red=True):
    s.assume_def(std_gcd(a, b)); A, B = ab(a), ab(b); g = gcd(A, B)
    s.lemma(gcd_pos, A, B); s.lemma(gcd_div, A, B); s.lemma(neg0, A, g); s.lemma(neg0, B, g); s.lemma(qnn, A, g); s.lemma(qnn, B, g)
    for t in (a, b): s.lemma(tq_exact, t, g)
    if red: s.lemma(gred, A, B)
    s.have('gcd positive', Implies(Or(a != 0, b != 0), And(g >= 1, sg(a, b) == g, a % g == 0, b % g == 0, A % g == 0, B % g == 0)))
    s.have('exact quotients', Implies(Or(a != 0, b != 0), And(a == g * (a / g), b == g * (b / g), ab(a / g) == A / g, ab(b / g) == B / g, (-a) / g == -(a / g), (-b) / g == -(b / g))))
cross = Lemma('cross_ratio', [Int] * 5, lambda g, x, y, a, b: Implies(And(a == g * x, b == g * y), x * b == a * y), proof=lambda ih, u, g, x, y, a, b: [])
def mk_pre(s):
    n, d = s('n'), s('d'); use_gcd(s, n, d); g = gcd(ab(n), ab(d)); s.lemma(cross, g, n / g, d / g, n, d); s.lemma(cross, g, d / g, n / g, d, n); s.assume_def(gcd_def(V(0), V(1))); s.assume_def(gcd_def(V(1), V(0)))
    s.assume_def(gcd_def(ab(n), V(0))); s.lemma(mul_ge, g, V(1))
    s.lemma(divu, g, g, V(1), V(0)); s.lemma(tq_exact, d, g)
    s.have('cross', Implies(Or(n != 0, d != 0), (n / g) * d == n * (d / g)))
def mk_ens(o):
    def ens(s):
        n, d = s.old('n'), s.old('d'); p, q = N(s, o)
        return [('normalised', norm(p, q)), ('same value', p * d == n * q), ('finite', (q == 0) == (d == 0)), ('sign at infinity', Implies(d == 0, sgn(p) == sgn(n))), ('already reduced', Implies(And(gcd(ab(n), ab(d)) == 1, n != 0), And(p == If(d < 0, -n, n), q == ab(d)))), ('size', And(ab(p) <= ab(n), q <= If(d == 0, 0, ab(d)), sgn(p) == If(d < 0, -sgn(n), sgn(n))))]
    return ens
mk_req = lambda s: [And(ab(s('n')) <= MX, ab(s('d')) <= MX, Or(s('n') != 0, s('d') != 0))]
C_make = FnSpec('Rational(n, d)', match=r'Rational\(long long, long long\)$', requires=mk_req, ensures=mk_ens('this'), pre=mk_pre, modifies=lambda s: ['this'])
# ---- comparison: continued fractions
def cmp_req(a, b): return lambda s: [okQ(s, a), okQ(s, b), Or(fin(s, a), fin(s, b))]
def cmpv(s, a, b): return sgn(N(s, a)[0] * N(s, b)[1] - N(s, b)[0] * N(s, a)[1])
qlt = Lemma('quotient_less', [Int] * 4, lambda a, b, c, d: Implies(And(a >= 0, b > 0, c >= 0, d > 0, a / b < c / d), a * d < c * b),
    proof=lambda ih, u, a, b, c, d: [u(mul_mono, a / b + 1, c / d, d * b), u(mul_mono, a + 1, b * (a / b) + b, d), u(mul_mono, d * (c / d), c, b), u(mul_nn, d, b)])
qeq = Lemma('quotient_equal', [Int] * 4, lambda a, b, c, d: Implies(And(b > 0, d > 0, a / b == c / d), a * d - c * b == (a % b) * d - (c % d) * b),
    proof=lambda ih, u, a, b, c, d: [u(mul_subst, a, b * (a / b) + a % b, d), u(mul_subst, c, d * (c / d) + c % d, b), u(mul_subst, a / b, c / d, b * d)])
def cmp_D(s): return s.v('nl') * s.v('dr') - s.v('nr') * s.v('dl')
def cmp_inv(s):
    nl, dl, nr, dr, rev = [s.v(k) for k in ('nl', 'dl', 'nr', 'dr', 'rev')]
    rv = rev if z3.is_bool(rev) else rev != 0
    return [('range', And([0 <= nl, nl <= MX, 0 <= dl, dl <= MX, 0 <= nr, nr <= MX, 0 <= dr, dr <= MX, nl > 0, nr > 0])), ('bit', z3.BoolVal(True) if z3.is_bool(rev) else And(0 <= rev, rev <= 1)),
            ('order', If(rv, -sgn(cmp_D(s)), sgn(cmp_D(s))) == cmpv(s, 'l', 'r'))]
def cmp_head(s):
    nl, dl, nr, dr = [s.v(k) for k in ('nl', 'dl', 'nr', 'dr')]
    s.lemma(qlt, nl, dl, nr, dr); s.lemma(qlt, nr, dr, nl, dl); s.lemma(qeq, nl, dl, nr, dr); s.lemma(mul_ge, nl, dr); s.lemma(mul_ge, nr, dl); s.lemma(mul_nn, nl, dr); s.lemma(mul_nn, nr, dl)
    s.have('zero products', And(Implies(dl == 0, nr * dl == 0), Implies(dr == 0, nl * dr == 0), Implies(dr > 0, nl * dr > 0), Implies(dl > 0, nr * dl > 0)))
def cmp_pre(s):
    (a, b), (c, d) = N(s, 'l'), N(s, 'r')
    for n, q in ((a, d), (c, b)): s.lemma(mul_ge, ab(n), q); s.lemma(mul_nn, ab(n), q)
    for n, q in ((a, b), (c, d)): s.assume_def(gcd_def(ab(n), V(0))); s.lemma(mul_nn, ab(n), q)
    s.assume_def(gcd_def(V(0), b)); s.assume_def(gcd_def(V(0), d)); s.assume_def(gcd_def(b, V(0))); s.assume_def(gcd_def(d, V(0)))
    s.have('products', And(Implies(a == 0, And(a * d == 0, b > 0)), Implies(c == 0, And(c * b == 0, d > 0)), Implies(a > 0, And(a * d == ab(a) * d)), Implies(a < 0, a * d == -(ab(a) * d)), Implies(c > 0, c * b == ab(c) * b), Implies(c < 0, c * b == -(ab(c) * b)), Implies(d == 0, a * d == 0), Implies(b == 0, c * b == 0)))
C_cmp = FnSpec('Rational::compare', match=r'Rational<.*>::compare\([^{}]*\)$', requires=cmp_req('l', 'r'), ensures=lambda s: ('sign of the difference', s.res == cmpv(s.old, 'l', 'r')), pre=cmp_pre, modifies=lambda s: [],
    loops=[LoopSpec(cmp_inv, dec=lambda s: s.v('dl'), head=cmp_head)])
def rel(nm, f): return FnSpec('q_' + nm, requires=cmp_req('a', 'b'), ensures=lambda s: ('order of the values', (s.res == 1 if not z3.is_bool(s.res) else s.res) == f(N(s.old, 'a')[0] * N(s.old, 'b')[1], N(s.old, 'b')[0] * N(s.old, 'a')[1])))
# ---- arithmetic
def add_pre(sub=False):
    def pre(s):
        (a, b), (c, d) = N(s, 'a'), N(s, 'b'); use_gcd(s, b, d, red=False); g = gcd(b, d)
        s.have('same', And(ab(b) == b, ab(d) == d))
        y, x = d / g, b / g; L = x * d
        s.lemma(divu, L, b, y, V(0)); s.lemma(divu, L, d, x, V(0)); s.lemma(mul_ge, d, x); s.lemma(mul_ge, b, y); s.lemma(mul_ge, y, b); s.lemma(mul_ge, x, d)
        s.lemma(cross, g, x, y, b, d); s.lemma(absmul, a, y); s.lemma(absmul, c, x); s.lemma(mul_mono, V(1), g, x); s.lemma(mul_mono, V(1), g, y)
        s.have('quotients positive', And(x >= 1, y >= 1, x <= MX, y <= MX, b == g * x, d == g * y))
        s.have('lcm', And(L == b * y, L / b == y, L / d == x, 1 <= L, L <= MX))
    return pre
lcmval = Lemma('sum_over_lcm', [Int] * 8, lambda g, x, y, a, c, P, Q, w: Implies(P * (x * (g * y)) == (a * y + w * c * x) * Q, P * ((g * x) * (g * y)) == (a * (g * y) + w * c * (g * x)) * Q), proof=lambda ih, u, g, x, y, a, c, P, Q, w: [u(mul_subst, P * (x * (g * y)), (a * y + w * c * x) * Q, g)])
mulval = Lemma('product_reduced', [Int] * 8, lambda g, h, p, q, r, t, P, Q: Implies(P * (q * t) == (p * r) * Q, P * ((h * q) * (g * t)) == ((g * p) * (h * r)) * Q), proof=lambda ih, u, g, h, p, q, r, t, P, Q: [u(mul_subst, P * (q * t), (p * r) * Q, g * h)])
def add_use(o, w):
    def use(s):
        (a, b), (c, d) = N(s.old, 'a'), N(s.old, 'b'); P, Q = N(s, o); g = gcd(b, d); x, y = b / g, d / g
        s.have('over the lcm', P * (x * (g * y)) == (a * y + w * c * x) * Q)
        s.lemma(lcmval, g, x, y, a, c, P, Q, V(w))
        s.focus('value', P * (b * d) == (a * d + w * c * b) * Q, [b == g * x, d == g * y, P * ((g * x) * (g * y)) == (a * (g * y) + w * c * (g * x)) * Q], [(mul_subst, b, g * x, V(1))], abstract=[x, y, g])
    return use
# the terms over the least common denominator fit the word
def sum_fits(a, b, c, d, w):
    g = gcd(b, d); x, y = b / g, d / g; return And(x * d <= MX, ab(a * y) <= MX, ab(c * x) <= MX, ab(a * y + w * c * x) <= MX)
# the numerator and the denominator of the reduced product fit the word
def prod_fits(a, b, c, d):
    g, h = gcd(ab(a), ab(d)), gcd(ab(b), ab(c)); return And(ab(a / g) * ab(c / h) <= MX, ab(b / h) * ab(d / g) <= MX)
def add_spec(nm, o, w):
    return FnSpec(nm, requires=lambda s: [okQ(s, 'a'), okQ(s, 'b'), fin(s, 'a'), fin(s, 'b'), sum_fits(*(N(s, 'a') + N(s, 'b') + (w,)))], pre=add_pre(), use=add_use(o, w),
        ensures=lambda s: [('normalised', And(norm(*N(s, o)), N(s, o)[1] > 0)), ('exact sum' if w > 0 else 'exact difference', N(s, o)[0] * (N(s.old, 'a')[1] * N(s.old, 'b')[1]) == (N(s.old, 'a')[0] * N(s.old, 'b')[1] + w * N(s.old, 'b')[0] * N(s.old, 'a')[1]) * N(s, o)[1])])
def mul_facts(s, a, b, c, d, tag=''):
    g, h = gcd(ab(a), ab(d)), gcd(ab(b), ab(c))
    use_gcd(s, a, d, red=False); use_gcd(s, b, c, red=False)
    p, r, q, t = a / g, c / h, b / h, d / g
    s.lemma(absmul, p, r); s.lemma(absmul, q, t); s.lemma(mul_ge, ab(q), ab(t)); s.lemma(mul_ge, ab(p), ab(r))
    fa = Or(a != 0, d != 0); fb = Or(b != 0, c != 0)
    s.have('small factors' + tag, And(Implies(fa, And(ab(p) <= MX, ab(t) <= MX, g >= 1, Implies(d != 0, t != 0))), Implies(fb, And(ab(q) <= MX, ab(r) <= MX, h >= 1, Implies(b != 0, q != 0)))))
    s.have('small products' + tag, Implies(And(fa, fb), And(ab(p * r) <= MX, ab(q * t) <= MX, Implies(And(b != 0, d != 0), q * t != 0))))
    return g, h, p, q, r, t
def mul_pre(s): mul_facts(s, *(N(s, 'a') + N(s, 'b')))
def mul_val(s, a, b, c, d, P, Q):
    g, h = gcd(ab(a), ab(d)), gcd(ab(b), ab(c)); p, r, q, t = a / g, c / h, b / h, d / g
    s.have('reduced product', P * (q * t) == (p * r) * Q); s.lemma(mulval, g, h, p, q, r, t, P, Q)
    s.focus('product value', P * (b * d) == (a * c) * Q, [a == g * p, d == g * t, b == h * q, c == h * r, P * ((h * q) * (g * t)) == ((g * p) * (h * r)) * Q], [(mul_subst, b, h * q, V(1))], abstract=[p, q, r, t, g, h])
def mul_spec(nm, o): return FnSpec(nm, requires=lambda s: [okQ(s, 'a'), okQ(s, 'b'), fin(s, 'a'), fin(s, 'b'), prod_fits(*(N(s, 'a') + N(s, 'b')))], pre=mul_pre, use=lambda s: mul_val(s, *(N(s.old, 'a') + N(s.old, 'b') + N(s, o))),
    ensures=lambda s: [('normalised', And(norm(*N(s, o)), N(s, o)[1] > 0)), ('exact product', N(s, o)[0] * (N(s.old, 'a')[1] * N(s.old, 'b')[1]) == (N(s.old, 'a')[0] * N(s.old, 'b')[0]) * N(s, o)[1])])
# a / b = a * (d / c): the inverse is already normalised, with sign moved to the numerator
gsym = Lemma('gcd_symmetric', [Int, Int], lambda a, b: Implies(And(a >= 0, b >= 0), gcd(a, b) == gcd(b, a)), proof=lambda ih, u, a, b: [gcd_def(a, b), gcd_def(b, a), u(divu, a, b, V(0), a), u(divu, b, a, V(0), b), u(gself, a), gcd_def(b, a % b), gcd_def(a, b % a)])
gself = Lemma('gcd_self', [Int], lambda a: Implies(a >= 0, gcd(a, a) == a), proof=lambda ih, u, a: [gcd_def(a, a), u(divu, a, a, V(1), V(0)), gcd_def(a, V(0))])
def nz(s): s.assume_def(gcd_def(V(0), V(0)))
def inv_of(s): c, d = N(s, 'b'); return If(c < 0, -d, d), ab(c)
def div_pre(s):
    c, d = N(s, 'b'); s.lemma(gsym, ab(c), d); P, Q = inv_of(s); s.assume_def(gcd_def(V(0), V(0))); mul_facts(s, *(N(s, 'a') + (P, Q)))
divval = Lemma('quotient_value', [Int] * 6, lambda a, b, c, d, P, Q: Implies(P * (b * If(c < 0, -c, c)) == (a * If(c < 0, -d, d)) * Q, P * (b * c) == (a * d) * Q), proof=lambda ih, u, a, b, c, d, P, Q: [])
def div_use(o):
    def use(s):
        (a, b), (c, d) = N(s.old, 'a'), N(s.old, 'b'); X = inv_of(s.old); mul_val(s, a, b, X[0], X[1], *N(s, o)); s.lemma(divval, a, b, c, d, *N(s, o))
    return use
def div_spec(nm, o): return FnSpec(nm, requires=lambda s: [okQ(s, 'a'), okQ(s, 'b'), fin(s, 'a'), fin(s, 'b'), N(s, 'b')[0] != 0, prod_fits(*(N(s, 'a') + inv_of(s)))], pre=div_pre, use=div_use(o),
    ensures=lambda s: [('normalised', And(norm(*N(s, o)), N(s, o)[1] > 0)), ('exact quotient', N(s, o)[0] * (N(s.old, 'a')[1] * N(s.old, 'b')[0]) == (N(s.old, 'a')[0] * N(s.old, 'b')[1]) * N(s, o)[1])])
FLI = lambda s: N(s, 'a')
specs = [
    FnSpec('q_int', ensures=lambda s: And(N(s, 'o')[0] == s('n'), N(s, 'o')[1] == 1)), FnSpec('q_def', ensures=lambda s: And(N(s, 'o')[0] == 0, N(s, 'o')[1] == 1)),
    FnSpec('q_make', requires=mk_req, ensures=mk_ens('o')), FnSpec('q_sig', ensures=lambda s: s.res == sgn(N(s.old, 'a')[0])),
    C_make, C_cmp, FnSpec('q_cmp', requires=cmp_req('a', 'b'), ensures=lambda s: s.res == cmpv(s.old, 'a', 'b')),
    rel('lt', lambda x, y: x < y), rel('gt', lambda x, y: x > y), rel('le', lambda x, y: x <= y), rel('ge', lambda x, y: x >= y), rel('eq', lambda x, y: x == y), rel('ne', lambda x, y: x != y),
    add_spec('q_add', 'o', 1), add_spec('q_sub', 'o', -1), add_spec('q_adda', 'a', 1), add_spec('q_suba', 'a', -1), mul_spec('q_mul', 'o'), mul_spec('q_mula', 'a'), div_spec('q_div', 'o'), div_spec('q_diva', 'a'),
    FnSpec('q_neg', pre=nz, requires=lambda s: [okQ(s, 'a')], ensures=lambda s: And(norm(*N(s, 'o')), N(s, 'o')[0] * N(s.old, 'a')[1] == -N(s.old, 'a')[0] * N(s, 'o')[1], sgn(N(s, 'o')[0]) == -sgn(N(s.old, 'a')[0]))),
    FnSpec('q_inv', pre=nz, requires=lambda s: [okQ(s, 'a')], ensures=lambda s: And(norm(*N(s, 'o')), N(s, 'o')[0] * N(s.old, 'a')[0] == N(s, 'o')[1] * N(s.old, 'a')[1])),
    FnSpec('q_abs', pre=nz, requires=lambda s: [okQ(s, 'a')], ensures=lambda s: And(norm(*N(s, 'o')), N(s, 'o')[0] * N(s.old, 'a')[1] == ab(N(s.old, 'a')[0]) * N(s, 'o')[1], N(s, 'o')[0] >= 0)),
    FnSpec('q_floor', requires=lambda s: [okQ(s, 'a'), fin(s, 'a')], ensures=lambda s: ('floor', s.res == FLI(s.old)[0] / FLI(s.old)[1]), pre=lambda s: (s.lemma(mneg, N(s, 'a')[0], N(s, 'a')[1]), s.lemma(qnn, ab(N(s, 'a')[0]), N(s, 'a')[1]))),
    FnSpec('q_ceil', requires=lambda s: [okQ(s, 'a'), fin(s, 'a')], ensures=lambda s: ('ceiling', s.res == -((-FLI(s.old)[0]) / FLI(s.old)[1])), pre=lambda s: (s.lemma(mneg, N(s, 'a')[0], N(s, 'a')[1]), s.lemma(qnn, ab(N(s, 'a')[0]), N(s, 'a')[1]))),
]
unit = Unit('rational', specs, contracts=[C_make, C_cmp], keep=[r'Rational\(long long, long long\)$', r'Rational<.*>::compare\([^{}]*\)$'])
