from irv.spec import *
from irv.unit import Unit
from specs.nt import *
ab = lambda t: If(t >= 0, t, -t); V = z3.IntVal
mx = lambda t: If(t == 0, 1, ab(t))
MX = (1 << 63) - 1; LIM = 1 << 62
gcd_pos = Lemma('gcd_nonneg', [Int, Int], lambda a, b: Implies(And(a >= 0, b >= 0), And(gcd(a, b) >= 0, Implies(Or(a > 0, b > 0), gcd(a, b) >= 1), gcd(a, b) <= If(b > 0, b, a))), proof=lambda ih, u, a, b: [gcd_def(a, b), ih(b, a % b)], measure=lambda a, b: b)
# x % g == 0 and y % g == 0 -> (k*x + y) % g == 0
lin0 = Lemma('divides_comb', [Int, Int, Int, Int], lambda x, y, k, g: Implies(And(g > 0, x % g == 0, y % g == 0), (k * x + y) % g == 0), proof=lambda ih, u, x, y, k, g: [u(msub0, y, x, -k, g)])
gcd_div = Lemma('gcd_divides', [Int, Int], lambda a, b: Implies(And(a >= 0, b >= 0, gcd(a, b) > 0), And(a % gcd(a, b) == 0, b % gcd(a, b) == 0)),
    proof=lambda ih, u, a, b: (lambda g: [gcd_def(a, b), ih(b, a % b), u(lin0, b, a % b, a / b, g), u(gcd_pos, a, b), u(gcd_pos, b, a % b), u(mshift, V(0), V(1), g)])(gcd(a, b)), measure=lambda a, b: b)
neg0 = Lemma('divides_neg', [Int, Int], lambda a, g: Implies(And(g > 0, a % g == 0), (-a) % g == 0), proof=lambda ih, u, a, g: [u(mshift, V(0), -(a / g), g)])
opp = lambda x, y, a, b: Or(x == 0, y == 0, b == 0, z3.Xor(z3.Xor(x < 0, y < 0), z3.Xor(a < 0, b < 0)))
# |x - y*p| when the two terms have opposite signs
absum = Lemma('abs_sum', [Int, Int, Int], lambda x, y, p: Implies(Or(x == 0, y == 0, p == 0, z3.Xor(z3.Xor(x < 0, y < 0), p < 0)), And(ab(x - y * p) == ab(x) + ab(y) * ab(p), Implies(And(y != 0, p != 0), And(x - y * p != 0, (x - y * p < 0) == z3.Xor(y > 0, p < 0))))),
    proof=lambda ih, u, x, y, p: [u(mul_nn, ab(y), ab(p)), u(mul_ge, If(y == 0, 1, ab(y)), ab(p))])
def eginv(A, B):
    def inv(s):
        a, b, x, y, z, w = [s.v(k) for k in 'abxyzw']; a0, b0 = A(s), B(s)
        return [('identities', And(x * a0 + z * b0 == a, y * a0 + w * b0 == b)), ('gcd', gcd(ab(a), ab(b)) == gcd(ab(a0), ab(b0))),
                ('first', Or(And(x == 1, y == 0, z == 0, w == 1, a == a0, b == b0), And(b0 != 0, ab(b) < ab(a)))), ('signs', And(opp(x, y, a, b), opp(z, w, a, b))), ('range', And(ab(a) <= MX, ab(b) <= MX)),
                ('sizes', And(ab(a) * ab(y) + ab(b) * ab(x) == ab(b0), ab(a) * ab(w) + ab(b) * ab(z) == ab(a0))), ('coefficients', And([ab(x) <= mx(b0), ab(y) <= mx(b0), ab(z) <= mx(a0), ab(w) <= mx(a0)]))]
    def step(s, a, b, x, y, z, w):
        p = If(z3.Xor(a < 0, b < 0), -(ab(a) / ab(b)), ab(a) / ab(b)); q = If(a < 0, -(ab(a) % ab(b)), ab(a) % ab(b))
        return p, q
    def head(s):
        a, b, x, y, z, w = [s.v(k) for k in 'abxyzw']; a0, b0 = A(s), B(s)
        p, q = step(s, a, b, x, y, z, w); P = ab(a) / ab(b)
        s.lemma(absum, x, y, p); s.lemma(absum, z, w, p); s.assume_def(gcd_def(ab(a), ab(b)))
        hyp = Implies(b != 0, And(ab(p) == P, ab(q) == ab(a) - ab(b) * P, ab(q) < ab(b), ab(q) >= 0, P >= 0, Implies(ab(b) <= ab(a), P >= 1)))
        s.lemma(mul_ge, ab(b), P); s.lemma(divu, ab(a), ab(b), P, ab(a) % ab(b)); s.lemma(mul_nn, ab(b), P)
        s.have('quotient', hyp)
        y2, w2 = ab(x) + ab(y) * P, ab(z) + ab(w) * P
        G = [hyp, inv(s)[5][1], ab(x - y * p) == y2, ab(z - w * p) == w2] if False else [hyp, inv(s)[5][1]]
        H = [(mul_subst, ab(q), ab(a) - ab(b) * P, ab(y)), (mul_subst, ab(q), ab(a) - ab(b) * P, ab(w))]
        s.focus('sizes step', Implies(b != 0, And(ab(b) * y2 + ab(q) * ab(y) == ab(b0), ab(b) * w2 + ab(q) * ab(w) == ab(a0))), G, H, abstract=[ab(a), ab(b), ab(x), ab(y), ab(z), ab(w), ab(a0), ab(b0), P, ab(q)])
        s.lemma(mul_ge, y2, ab(b)); s.lemma(mul_ge, w2, ab(b)); s.lemma(mul_nn, ab(q), ab(y)); s.lemma(mul_nn, ab(q), ab(w)); s.lemma(mul_nn, ab(y), P); s.lemma(mul_nn, ab(w), P); s.lemma(mul_mono, 1, ab(b), y2); s.lemma(mul_mono, 1, ab(b), w2)
        s.have('bounded', Implies(b != 0, And(ab(x - y * p) == y2, ab(z - w * p) == w2, y2 <= ab(b0), w2 <= ab(a0), ab(y) * P <= ab(b0), ab(w) * P <= ab(a0), ab(y * p) == ab(y) * P, ab(w * p) == ab(w) * P)))
    def use(s):
        if s.prev is None:
            s.lemma(mul_nn, ab(A(s)), V(0)); return
        a, b, x, y, z, w = [s.prev.v(k) for k in 'abxyzw']; p, q = step(s, a, b, x, y, z, w)
        s.have('truncated division', And(s.v('p') == p, s.v('q') == q))
        s.have('new coefficients', And(ab(s.v('y')) == ab(x) + ab(y) * (ab(a) / ab(b)), ab(s.v('w')) == ab(z) + ab(w) * (ab(a) / ab(b)), s.v('x') == y, s.v('z') == w, s.v('a') == b, s.v('b') == q))
    return LoopSpec(inv, dec=lambda s: ab(s.v('b')), use=use, head=head)
def eg_end(A, B):
    def use(s):
        a0, b0 = ab(A(s)), ab(B(s)); s.lemma(gcd_div, a0, b0); s.lemma(gcd_pos, a0, b0); s.assume_def(gcd_def(ab(s.v('a')), V(0)))
        g = gcd(a0, b0); s.lemma(neg0, a0, g); s.lemma(neg0, b0, g)
    return use
args = lambda s: (s('a'), s('b'))
okab = lambda a, b: And(ab(a) <= MX, ab(b) <= MX)
def bez(a, b, x, y, g): return [('Bezout identity', a * x + b * y == g), ('gcd', And(g == gcd(ab(a), ab(b)), g >= 0)), ('common divisor', Implies(g > 0, And(a % g == 0, b % g == 0))), ('zero only for zeros', Implies(g == 0, And(a == 0, b == 0))), ('zero coefficient', Implies(b == 0, y == 0)), ('coefficients', And(ab(x) <= If(b == 0, 1, ab(b)), ab(y) <= If(a == 0, 1, ab(a))))]
LA, LB = (lambda s: s('a')), (lambda s: s('b'))

# completeness: every solution is the base solution plus a multiple of (b/g, -a/g)
complete = Lemma('bezout_complete', [Int] * 6, lambda p, q, x, y, dx, dy: Implies(And(p * x + q * y == 1, p * dx + q * dy == 0), And(dx == (y * dx - x * dy) * q, dy == (y * dx - x * dy) * -p)),
    proof=lambda ih, u, p, q, x, y, dx, dy: [u(mul_subst, p * x + q * y, V(1), dx), u(mul_subst, p * x + q * y, V(1), dy), u(mul_subst, p * dx + q * dy, V(0), x), u(mul_subst, p * dx + q * dy, V(0), y)])
def res_inv(a, m, x, g): return [('inverse', (a * x) % m == g % m), ('range', And(0 <= x, x < m))]
def use_inv(A, M):
    def use(s):
        eg_end(A, M)(s); a, m = A(s), M(s)
        for x, y, g in [(s.v('x'), s.v('z'), s.v('a')), (-s.v('x'), -s.v('z'), -s.v('a'))]:
            s.lemma(mneg, x, m); s.lemma(mmul, x, a, m); s.lemma(mshift, g, -y, m); s.lemma(mul_subst, g, a * x + m * y, V(1))
    return use
F = lambda s, o, f: s('%s.%s' % (o, f))
def be_ok(s): a, b, x, y, g = [F(s, 'e', k) for k in 'abxyg']; return And([p for _, p in bez(a, b, x, y, g)] + [ab(a) < LIM, ab(b) < LIM])
NONE, ARB, LIN = 0, 1, 2
GX, GY, GK = z3.Ints('ghost_X ghost_Y ghost_k')   # arbitrary integers: postconditions hold for all of them
NEG, POS = -(1 << 62), (1 << 62) - 1
LM = lambda s: s('m')
def solve_ens(s):
    a, b, x, y, g = [F(s.old, 'e', k) for k in 'abxyg']; z = s.old('z'); X, Y = GX, GY
    t, x0, cx, y0, cy = [F(s, 'out', k) for k in ('t', 'x0', 'cx', 'y0', 'cy')]
    k = y * (X - x0) - x * (Y - y0)
    return [('none', Implies(t == NONE, a * X + b * Y != z)), ('arbitrary', Implies(t == ARB, And(a == 0, b == 0, z == 0, x0 == 0, y0 == 0, cx == 1, cy == 1))),
        ('kind', Or(t == NONE, t == ARB, t == LIN)),
        ('base solution', Implies(t == LIN, a * x0 + b * y0 == z)), ('direction', Implies(t == LIN, And(a * cx + b * cy == 0, Or(cx != 0, cy != 0), cx * g == b, cy * g == -a))),
        ('complete', Implies(And(t == LIN, a * X + b * Y == z), And(X == x0 + k * cx, Y == y0 + k * cy))),
        ('small', Implies(t == LIN, And(ab(x0) < LIM, ab(y0) <= MX))),
        ('unrestricted', And(F(s, 'out', 'kxmin') == NEG, F(s, 'out', 'kymin') == NEG, F(s, 'out', 'kxmax') == POS, F(s, 'out', 'kymax') == POS))]
tq = lambda a, b: If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))
tq_exact = Lemma('exact_trunc', [Int, Int], lambda a, g: Implies(And(g > 0, a % g == 0), And((-a) % g == 0, (-a) / g == -(a / g), a == g * (a / g))), proof=lambda ih, u, a, g: [u(mshift, V(0), -(a / g), g)])
# x0 + k0*B with k0 = trunc(-x0/B) is smaller than |B| in absolute value
tred = Lemma('trunc_reduce', [Int, Int], lambda x, B: Implies(B != 0, And(ab(x + tq(-x, B) * B) < ab(B), ab(tq(-x, B)) <= ab(x))), proof=lambda ih, u, x, B: [u(mul_mono, V(1), ab(B), ab(x) / ab(B)), u(mul_nn, ab(x) / ab(B), ab(B)), ab(x) / ab(B) >= 0] if 0 else [u(mul_mono, V(1), ab(B), ab(x) / ab(B)), u(mul_nn, ab(x) / ab(B), ab(B)), u(qnn, ab(x), ab(B))])
qnn = Lemma('quot_nonneg', [Int, Int], lambda a, b: Implies(And(a >= 0, b > 0), And(a / b >= 0, a / b <= a)), proof=lambda ih, u, a, b: [u(mul_ge, b, -(a / b)), u(mul_mono, V(1), b, a / b)])
base = Lemma('bezout_base', [Int] * 7, lambda g, A, B, Z, x, y, k: Implies(g * A * x + g * B * y == g, g * A * (x * Z + k * B) + g * B * (y * Z - k * A) == g * Z), proof=lambda ih, u, g, A, B, Z, x, y, k: [u(mul_subst, g * A * x + g * B * y, g, Z)])
ydiv = Lemma('bezout_y_bound', [Int] * 5, lambda A, B, Z, x0, y0: Implies(And(A * x0 + B * y0 == Z, ab(x0) < ab(B)), ab(y0) <= ab(Z) + ab(A)),
    proof=lambda ih, u, A, B, Z, x0, y0: [u(mul_mono, V(1), ab(B), ab(Z)), u(mul_mono, ab(x0), ab(B), ab(A)), u(mul_cancel, ab(B), ab(y0), ab(Z) + ab(A)), u(absmul, A, x0), u(absmul, B, y0)])
absmul = Lemma('abs_mul', [Int, Int], lambda a, b: ab(a * b) == ab(a) * ab(b), proof=lambda ih, u, a, b: [u(mul_nn, ab(a), ab(b))])
def solve_pre(s):
    a, b, x, y, g = [F(s, 'e', k) for k in 'abxyg']; z = s('z')
    for v in (a, b, z): s.lemma(tq_exact, v, g)
    s.lemma(neg0, -z, g); s.lemma(neg0, z, g)
    A, B, Z = a / g, b / g, z / g
    s.lemma(lin0, b, V(0), GY, g); s.lemma(lin0, a, b * GY, GX, g)
    s.lemma(absmul, x, Z); s.lemma(absmul, y, Z); s.lemma(qnn, ab(z), g); s.lemma(qnn, ab(a), g); s.lemma(qnn, ab(b), g)
    k0 = If(B == 0, 0, tq(-(x * Z), B))
    s.lemma(base, g, A, B, Z, x, y, k0); s.lemma(tred, x * Z, B)
    x0, y0 = x * Z + k0 * B, y * Z - k0 * A
    s.lemma(mul_cancel, g, A * x + B * y, V(1)); s.lemma(mul_cancel, g, V(1), A * x + B * y)
    s.lemma(mul_cancel, g, A * x0 + B * y0, Z); s.lemma(mul_cancel, g, Z, A * x0 + B * y0)
    s.lemma(mul_cancel, g, A * GX + B * GY, Z); s.lemma(mul_cancel, g, Z, A * GX + B * GY)
    ok = And(g > 0, z % g == 0)
    s.have('exact', Implies(ok, And(a == g * A, b == g * B, z == g * Z)))
    E = [be_ok(s), Implies(ok, And(a == g * A, b == g * B, z == g * Z)), ok]
    s.have('reduced identity', Implies(ok, A * x + B * y == 1))
    s.have('reduced base', Implies(ok, A * x0 + B * y0 == Z))
    s.lemma(ydiv, A, B, Z, x0, y0); s.lemma(complete, A, B, x, y, GX - x0, GY - y0)
mul_eq = Lemma('mul_eq', [Int] * 4, lambda a, b, c, d: Implies(And(a == c, b == d), a * b == c * d), proof=lambda ih, u, a, b, c, d: [])
kbound = Lemma('reduction_steps', [Int] * 5, lambda x, Z, B, g, z: Implies(And(B != 0, g > 0, z == g * Z, ab(x) <= g * ab(B)), ab(x * Z) / ab(B) <= ab(z)),
    proof=lambda ih, u, x, Z, B, g, z: [u(mul_mono, ab(x), g * ab(B), ab(Z)), u(absmul, x, Z), u(absmul, g, Z), u(mul_cancel, ab(B), ab(x * Z) / ab(B), ab(z))])
def parts(s):
    a, b, x, y, g = [F(s, 'e', k) for k in 'abxyg']; z = s('z'); return a / g, b / g, z / g, x, y, g, z
def k0_of(s):
    A, B, Z, x, y, g, z = parts(s.old); return If(B == 0, 0, tq(-(x * Z), B))
def at_k0(s, k):
    A, B, Z, x, y, g, z = parts(s.old)
    s.have('k0', k == k0_of(s)); s.lemma(kbound, x, Z, B, g, z); s.lemma(absmul, g, B); s.lemma(qnn, ab(x * Z), ab(B))
    s.have('k0 bound', ab(k) <= ab(z))
    s.lemma(absmul, k, A); s.lemma(mul_mono, ab(k), V(LIM), ab(A)); s.lemma(absmul, k, B); s.lemma(mul_mono, ab(k), V(LIM), ab(B))
    s.lemma(absmul, y, Z); s.lemma(mul_mono, ab(y), V(LIM), ab(Z)); s.lemma(mul_mono, ab(x), V(LIM), ab(Z))
    s.lemma(mul_eq, k, A, k0_of(s), A); s.lemma(mul_eq, k, B, k0_of(s), B)
    s.have('products', And(ab(k * A) <= LIM * LIM, ab(k * B) <= LIM * LIM, ab(x * Z) <= LIM * LIM, ab(y * Z) <= LIM * LIM, k * A == k0_of(s) * A, k * B == k0_of(s) * B))
    s.have('x', ab(x * Z + k * B) < LIM); s.have('y', ab(y * Z - k * A) <= MX)
def solve_use(s):
    A, B, Z, x, y, g, z = parts(s.old); a, b = F(s.old, 'e', 'a'), F(s.old, 'e', 'b'); k0 = k0_of(s)
    t, x0, cx, y0, cy = [F(s, 'out', k) for k in ('t', 'x0', 'cx', 'y0', 'cy')]
    if z3.is_int_value(z3.simplify(t)) and z3.simplify(t).as_long() != LIN: return
    E = [x0 == x * Z + k0 * B, y0 == y * Z - k0 * A, cx == B, cy == -A, a == g * A, b == g * B, z == g * Z]
    s.have('values', And(E[:4])); s.have('values', And(E[4:]))
    fx, fy = x * Z + k0 * B, y * Z - k0 * A
    ident = [A * fx + B * fy == Z, A * x + B * y == 1]
    ABS = [k0, A, B, Z, x0, cx, y0, cy, a, b, z]
    s.focus('base solution', a * x0 + b * y0 == z, E + ident[:1], [(mul_eq, A, x0, A, fx), (mul_eq, B, y0, B, fy), (mul_subst, A * x0 + B * y0, Z, g)], abstract=ABS)
    s.lemma(mul_eq, cx, g, B, g); s.lemma(mul_eq, cy, g, -A, g); s.lemma(mul_eq, a, cx, g * A, B); s.lemma(mul_eq, b, cy, g * B, -A)
    X, Y = GX, GY; k = y * (X - x0) - x * (Y - y0); kf = y * (X - fx) - x * (Y - fy)
    s.focus('reduced equation', Implies(a * X + b * Y == z, A * X + B * Y == Z), E[4:] + [g > 0], [(mul_cancel, g, A * X + B * Y, Z), (mul_cancel, g, Z, A * X + B * Y)], abstract=[A, B, Z, a, b, z])
    s.focus('complete', Implies(A * X + B * Y == Z, And(X == x0 + k * cx, Y == y0 + k * cy)), E[:4] + ident, [(complete, A, B, x, y, X - x0, Y - y0), (mul_eq, A, x0, A, fx), (mul_eq, B, y0, B, fy), (mul_eq, k, cx, k, B), (mul_eq, k, cy, k, -A)], abstract=ABS)
KS = ('kxmin', 'kxmax', 'kymin', 'kymax')
def bs_req(s):
    t, x0, cx, y0, cy = [F(s, 's', k) for k in ('t', 'x0', 'cx', 'y0', 'cy')]; ks = [F(s, 's', k) for k in KS]
    c = [t >= 0, t <= 2, ab(x0) < LIM, ab(y0) < LIM, ab(cx) < LIM, ab(cy) < LIM, Implies(t == ARB, And(x0 == 0, y0 == 0, cx == 1, cy == 1)), Implies(t == LIN, Or(cx != 0, cy != 0))] + [And(NEG <= k, k <= POS) for k in ks] + [Implies(t != NONE, And(ks[0] <= ks[1], ks[2] <= ks[3]))]
    return And(c)
# the set of admitted parameters k of the x side (resp. y side)
def adm(s, c, k): return And(F(s, 's', 't') != NONE, F(s, 's', 'k%smin' % c) <= k, k <= F(s, 's', 'k%smax' % c))
def bs_ens(c, lo):
    o = 'y' if c == 'x' else 'x'
    def ens(s):
        k = GK; v = s.old('v'); p = s.old('s.%s0' % c) + k * s.old('s.c%s' % c)
        inr = And(NEG <= k, k <= POS)
        return [('exactly the solutions in range remain', Implies(inr, adm(s, c, k) == And(adm(s.old, c, k), p >= v if lo else p <= v))),
                ('the other coordinate', Implies(F(s, 's', 't') != NONE, And([F(s, 's', n) == s.old('s.' + n) for n in ('k%smin' % o, 'k%smax' % o)]))),
                ('result', s.res == (F(s, 's', 't') != NONE)), ('well-formed', And(Implies(F(s, 's', 't') != NONE, And(F(s, 's', 't') == s.old('s.t'), F(s, 's', 'k%smin' % c) <= F(s, 's', 'k%smax' % c)))))]
    return ens
qle = Lemma('floor_le', [Int] * 3, lambda k, c, v: Implies(c > 0, And((k * c <= v) == (k <= v / c), (k * c >= v) == (k >= -((-v) / c)))), proof=lambda ih, u, k, c, v: [u(mul_ge, c, k - v / c), u(mul_nn, c, v / c - k), u(mul_ge, c, -((-v) / c) - k), u(mul_nn, c, k + ((-v) / c))])
def bs_pre(c):
    def pre(s):
        k = GK; v = s('v') - F(s, 's', c + '0'); cc = F(s, 's', 'c' + c)
        s.lemma(qle, k, cc, v); s.lemma(qle, -k, -cc, v); s.lemma(qle, -k, -cc, -v); s.lemma(qle, k, cc, -v); s.lemma(mneg, v, cc); s.lemma(mneg, v, -cc)
    return pre
has = lambda s: If(F(s, 's', 't') == LIN, And(F(s, 's', 'kxmin') <= F(s, 's', 'kymax'), F(s, 's', 'kymin') <= F(s, 's', 'kxmax'), F(s, 's', 'kxmin') <= F(s, 's', 'kxmax'), F(s, 's', 'kymin') <= F(s, 's', 'kymax')), F(s, 's', 't') == ARB)
wx = lambda s: F(s, 's', 'kxmax') - F(s, 's', 'kxmin') + 1
wy = lambda s: F(s, 's', 'kymax') - F(s, 's', 'kymin') + 1
def cnt_ens(s):
    t = F(s, 's', 't'); a, b, c, d = [F(s, 's', k) for k in KS]; lo, hi = If(a > c, a, c), If(b < d, b, d)
    inf = If(t == NONE, False, If(t == ARB, Or(a == NEG, b == POS, c == NEG, d == POS), And(lo <= hi, Or(lo == NEG, hi == POS))))
    return [('finite', (s('some') != 0 if not z3.is_bool(s('some')) else s('some')) == Not(inf)), ('count', Implies(Not(inf), s('c') == If(t == NONE, 0, If(t == ARB, wx(s) * wy(s), If(lo <= hi, hi - lo + 1, 0)))))]
def krange(s):
    a, b, c, d = [F(s, 's', k) for k in KS]; return If(a > c, a, c), If(b < d, b, d)
def ext_req(s):
    lo, hi = krange(s); cx, cy = F(s, 's', 'cx'), F(s, 's', 'cy')
    return And(bs_req(s), has(s), Implies(F(s, 's', 't') == LIN, And([ab(k * c) < LIM for k in (lo, hi) for c in (cx, cy)])))
def ext_pre(s):
    lo, hi = krange(s)
    for c in (F(s, 's', 'cx'), F(s, 's', 'cy')):
        for k in (lo, hi): s.lemma(mul_mono, lo, GK, ab(c)); s.lemma(mul_mono, GK, hi, ab(c))
def ext_ens(c, mn):
    def ens(s):
        lo, hi = krange(s); x0, cx, y0, cy = [F(s, 's', k) for k in ('x0', 'cx', 'y0', 'cy')]; rx, ry = s('out.first'), s('out.second'); t = F(s, 's', 't')
        a, b, p, q = [F(s, 's', k) for k in KS]
        at = lambda k: And(rx == x0 + k * cx, ry == y0 + k * cy)
        v, r = (x0 + GK * cx, rx) if c == 'x' else (y0 + GK * cy, ry)
        return [('an admitted solution', Implies(t == LIN, Or(at(lo), at(hi), And(at(0), lo <= 0, 0 <= hi)))), ('extremal', Implies(And(t == LIN, lo <= GK, GK <= hi), r <= v if mn else r >= v)),
                ('arbitrary', Implies(t == ARB, And(rx == (a if mn else b), ry == (p if mn else q))))]
    return ens
specs = [
    FnSpec('eg', requires=lambda s: okab(s('a'), s('b')), ensures=lambda s: bez(s('a'), s('b'), s('x'), s('y'), s('g')), loops=[eginv(LA, LB)], use=eg_end(LA, LB)),
    FnSpec('sm', requires=lambda s: s('m') > 0, ensures=lambda s: s.res == s('x') % s('m'), pre=lambda s: s.lemma(mneg, s('x'), s('m'))),
    FnSpec('gi', requires=lambda s: And(okab(s('a'), s('m')), s('m') > 0), ensures=lambda s: res_inv(s('a'), s('m'), s('x'), s('g')) + [('gcd', And(s('g') == gcd(ab(s('a')), s('m')), s('g') > 0))], loops=[eginv(LA, LM)], use=use_inv(LA, LM)),
    FnSpec('im', requires=lambda s: And(okab(s('a'), s('m')), s('m') > 0, gcd(ab(s('a')), s('m')) == 1), ensures=lambda s: res_inv(s('a'), s('m'), s.res, V(1)), loops=[eginv(LA, LM)], use=use_inv(LA, LM)),
    FnSpec('be_ctor', requires=lambda s: okab(s('a'), s('b')), ensures=lambda s: bez(s('a'), s('b'), F(s, 'out', 'x'), F(s, 'out', 'y'), F(s, 'out', 'g')) + [('a', And(F(s, 'out', 'a') == s('a'), F(s, 'out', 'b') == s('b')))], loops=[eginv(LA, LB)], use=eg_end(LA, LB)),
    FnSpec('be_solve', requires=lambda s: And(be_ok(s), ab(s('z')) < LIM), ensures=solve_ens, use=solve_use, pre=solve_pre, at={'k0': at_k0}),
    FnSpec('bs_min_x', requires=lambda s: And(bs_req(s), ab(s('v')) < LIM), ensures=bs_ens('x', True), pre=bs_pre('x')),
    FnSpec('bs_max_x', requires=lambda s: And(bs_req(s), ab(s('v')) < LIM), ensures=bs_ens('x', False), pre=bs_pre('x')),
    FnSpec('bs_min_y', requires=lambda s: And(bs_req(s), ab(s('v')) < LIM), ensures=bs_ens('y', True), pre=bs_pre('y')),
    FnSpec('bs_max_y', requires=lambda s: And(bs_req(s), ab(s('v')) < LIM), ensures=bs_ens('y', False), pre=bs_pre('y')),
    FnSpec('bs_has', requires=bs_req, ensures=lambda s: s.res == has(s)),
    FnSpec('bs_count', requires=lambda s: And(bs_req(s), Implies(F(s, 's', 't') == ARB, wx(s) * wy(s) <= MX)), ensures=cnt_ens, pre=lambda s: (s.lemma(mul_nn, wx(s), wy(s)))),
    FnSpec('bs_xmin', requires=ext_req, ensures=ext_ens('x', True), pre=ext_pre),
    FnSpec('bs_xmax', requires=ext_req, ensures=ext_ens('x', False), pre=ext_pre),
    FnSpec('bs_ymin', requires=ext_req, ensures=ext_ens('y', True), pre=ext_pre),
    FnSpec('bs_ymax', requires=ext_req, ensures=ext_ens('y', False), pre=ext_pre),
]
unit = Unit('bezout', specs)
