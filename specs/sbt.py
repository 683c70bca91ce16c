from irv.spec import *
from irv.unit import Unit
from specs.nt import *
MX = (1 << 63) - 1; LIM = 1 << 62; V = z3.IntVal
def lr(s, o): return s(o + '._l.first'), s(o + '._l.second'), s(o + '._r.first'), s(o + '._r.second')
def path(s, o): return s.e(o + '._path', 'first'), s.e(o + '._path', 'second'), s.n(o + '._path')
bl = lambda t: t if z3.is_bool(t) else t != 0
def wf(s, o):
    a, b, c, d = lr(s, o); D, K, n = path(s, o); dep = s(o + '._dep')
    return [('neighbours', And([0 <= x for x in (a, b, c, d)] + [x <= MX for x in (a, b, c, d)] + [c * b - a * d == 1])), ('depth', And(0 <= dep, dep <= MX, n >= 0)),
            ('steps', rngq(0, n, lambda i: And(1 <= K[i], K[i] <= dep), pat=lambda i: K[i])), ('alternating', rngq(0, n - 1, lambda i: bl(D[i]) != bl(D[i + 1]), pat=lambda i: D[i + 1]))]
def moved(s, o, dirn, k):
    a, b, c, d = lr(s.old, o); A, B, C, D = lr(s, o)
    return And(If(dirn, And(A == a + c * k, B == b + d * k, C == c, D == d), And(A == a, B == b, C == c + a * k, D == d + b * k)), s(o + '._dep') == s.old(o + '._dep') + k)
def room(s, o, dirn, k):
    a, b, c, d = lr(s, o); return And(k >= 0, s(o + '._dep') + k <= MX, If(dirn, And(a + c * k <= MX, b + d * k <= MX), And(c + a * k <= MX, d + b * k <= MX)))
def down_pre(o, k, dirn=None):
    def pre(s):
        a, b, c, d = lr(s, o); kk = k(s)
        for x in (a, b, c, d): s.lemma(mul_nn, x, kk)
    return pre
def pathlen(s, o, n0=None): return ('at most one more step', And(path(s, o)[2] >= path(s.old, o)[2], path(s, o)[2] <= path(s.old, o)[2] + 1))
def last(s, o, dirn, k): D, K, n = path(s, o); D0, K0, n0 = path(s.old, o); return ('path', If(k == 0, And(n == n0, D == D0, K == K0), If(And(n0 > 0, bl(D0[n0 - 1]) == dirn), And(n == n0, K[n - 1] == K0[n0 - 1] + k), And(n == n0 + 1, bl(D[n0]) == dirn, K[n0] == k))))
C_down = FnSpec('move_down', match=r'::move_down\(', requires=lambda s: wf(s, 'this') + [('room', room(s, 'this', bl(s('dir')), s('k')))], pre=down_pre('this', lambda s: s('k')),
    ensures=lambda s: wf(s, 'this') + [('moved', moved(s, 'this', bl(s.old('dir')), s.old('k'))), last(s, 'this', bl(s.old('dir')), s.old('k')), pathlen(s, 'this')], modifies=lambda s: ['this'])
def dn(nm, dirf): return FnSpec(nm, requires=lambda s: wf(s, 't') + [('room', room(s, 't', dirf(s), s('k')))], ensures=lambda s: wf(s, 't') + [('moved', moved(s, 't', dirf(s.old), s.old('k'))), last(s, 't', dirf(s.old), s.old('k'))])
def mk_inv(s):
    l1, l2, r1, r2 = lr(s, 'o'); a, b, d = s.v('a'), s.v('b'), bl(s.v('dir')); A0, B0 = s.old('a'), s.old('b')
    return wf(s, 'o') + [('range', And(1 <= a, a <= LIM, 0 <= b, b <= a)),
        ('combination', If(b == 0, And(A0 == a * (l1 + r1), B0 == a * (l2 + r2)), If(d, And(A0 == b * l1 + a * r1, B0 == b * l2 + a * r2), And(A0 == a * l1 + b * r1, B0 == a * l2 + b * r2)))),
        ('depth', And(s('o._dep') + a + b <= A0 + B0))]
mk_step = Lemma('sbt_step', [Int] * 6, lambda T, a, b, x, y, k: Implies(And(b > 0, a > 0, x >= 0, y >= 0, T == b * x + a * y, k == a / b), And(T == b * (x + y * k) + (a % b) * y, x + y * k <= T, T == b * (x + y * (k - 1) + y) + (a % b) * y, x + y * (k - 1) <= T)),
    proof=lambda ih, u, T, a, b, x, y, k: [u(mul_subst, a, b * k + a % b, y), u(mul_nn, a % b, y), u(mul_nn, y, k), u(mul_mono, V(1), b, x + y * k), u(mul_subst, k, a / b, b)])
def mk_head(s):
    l1, l2, r1, r2 = lr(s, 'o'); a, b = s.v('a'), s.v('b'); A0, B0 = s.old('a'), s.old('b'); k = a / b
    for T, x, y in ((A0, l1, r1), (A0, r1, l1), (B0, l2, r2), (B0, r2, l2)): s.lemma(mk_step, T, a, b, x, y, k); s.lemma(mul_nn, y, k); s.lemma(mul_nn, y, k - 1)
    s.lemma(mul_ge, b, k); s.lemma(mul_mono, V(1), b, k); s.lemma(mul_nn, b, a % b)
    s.have('quotient', Implies(b > 0, And(k >= 1, k <= b * k, b * k + a % b == a, a % b >= 0, a % b < b)))
def mk_at(s, r):
    l1, l2, r1, r2 = lr(s, 'o'); a, b, q = s.v('a'), s.v('b'), s.v('q'); A0, B0 = s.old('a'), s.old('b'); d = bl(s.v('dir')); kk = q + -1 * If(0 == r, V(1), V(0))
    s.have('division', And(q == a / b, r == a % b))
    for y in (r1, r2, l1, l2): s.have('split', y * kk == If(r == 0, y * (a / b - 1), y * (a / b)))
    s.have('room', And(Implies(d, And(l1 + r1 * kk <= A0, l2 + r2 * kk <= B0)), Implies(Not(d), And(r1 + l1 * kk <= A0, r2 + l2 * kk <= B0))))
def get_ok(s, o): a, b, c, d = lr(s, o); return And(a + c <= MX, b + d <= MX)
val = lambda s, o: (lr(s, o)[0] + lr(s, o)[2], lr(s, o)[1] + lr(s, o)[3])
def prods(s, *ps):
    for x, y in ps: s.lemma(mul_nn, x, y); s.lemma(mul_mono, x, V(MX), y); s.lemma(mul_mono, y, V(MX), V(MX)); s.have('128-bit product', And(0 <= x * y, x * y <= MX * MX))
def cmp_(nm, f):
    def pre(s): (a, b), (c, d) = val(s, 'a'), val(s, 'b'); prods(s, (a, d), (c, b))
    return FnSpec(nm, requires=lambda s: wf(s, 'a')[:2] + wf(s, 'b')[:2] + [get_ok(s, 'a'), get_ok(s, 'b')], pre=pre, ensures=lambda s: ('order of the fractions', bl(s.res) == f(val(s.old, 'a')[0] * val(s.old, 'b')[1], val(s.old, 'b')[0] * val(s.old, 'a')[1])))
def anc_pre(s):
    l1, l2, r1, r2 = lr(s, 'a'); c, d = val(s, 'b'); prods(s, (l1, d), (c, l2), (c, r2), (r1, d))
specs = [C_down, FnSpec('n_root', ensures=lambda s: wf(s, 'o') + [('1/1', And(s('o._l.first') == 0, s('o._l.second') == 1, s('o._r.first') == 1, s('o._r.second') == 0, s('o._dep') == 0, s.n('o._path') == 0))]),
    FnSpec('n_make', at={'r': mk_at}, requires=lambda s: And(1 <= s('a'), s('a') <= LIM, 1 <= s('b'), s('b') <= LIM), ensures=lambda s: wf(s, 'o') + [('node of the fraction', And(val(s, 'o')[0] * s.old('b') == val(s, 'o')[1] * s.old('a'), val(s, 'o')[0] <= s.old('a'), val(s, 'o')[1] <= s.old('b')))],
        loops=[LoopSpec(mk_inv, dec=lambda s: s.v('b'), head=mk_head)], use=lambda s: (s.lemma(cross2, s.v('a'), val(s, 'o')[0], val(s, 'o')[1], s.old('a'), s.old('b')), s.lemma(mul_mono, V(1), s.v('a'), val(s, 'o')[0]), s.lemma(mul_mono, V(1), s.v('a'), val(s, 'o')[1]))),
    dn('n_down', lambda s: bl(s('dir'))), dn('n_left', lambda s: z3.BoolVal(False)), dn('n_right', lambda s: z3.BoolVal(True)),
    FnSpec('n_get', requires=lambda s: wf(s, 't') + [get_ok(s, 't')], ensures=lambda s: And(s('o.first') == val(s, 't')[0], s('o.second') == val(s, 't')[1])), FnSpec('n_depth', ensures=lambda s: s.res == s('t._dep')),
    cmp_('n_lt', lambda x, y: x < y), cmp_('n_le', lambda x, y: x <= y), cmp_('n_gt', lambda x, y: x > y), cmp_('n_ge', lambda x, y: x >= y),
    FnSpec('n_eq', ensures=lambda s: bl(s.res) == And([x == y for x, y in zip(lr(s, 'a'), lr(s, 'b'))])),
    FnSpec('n_anc', requires=lambda s: wf(s, 'a')[:2] + wf(s, 'b')[:2] + [get_ok(s, 'b')], pre=anc_pre, ensures=lambda s: ('inside the open interval', bl(s.res) == And(lr(s.old, 'a')[0] * val(s.old, 'b')[1] < val(s.old, 'b')[0] * lr(s.old, 'a')[1], val(s.old, 'b')[0] * lr(s.old, 'a')[3] < lr(s.old, 'a')[2] * val(s.old, 'b')[1])))]
cross2 = Lemma('cross_ratio2', [Int] * 5, lambda g, x, y, a, b: Implies(And(a == g * x, b == g * y), x * b == y * a), proof=lambda ih, u, g, x, y, a, b: [])
unit = Unit('sbt', specs, contracts=[C_down], keep=[r'::move_down\('])
