from irv.spec import *
from irv.unit import Unit
from irv.engine import SpecMismatch
V = z3.IntVal; B = 1 << 28
def P(s, *n): return [(s(c + 'x'), s(c + 'y')) for c in n]
def small(*n): return lambda s: [And(*[And(-B <= s(c + k), s(c + k) <= B) for c in n for k in 'xy'])]
sub = lambda p, q: (p[0] - q[0], p[1] - q[1]); det = lambda p, q: p[0] * q[1] - p[1] * q[0]; dot = lambda p, q: p[0] * q[0] + p[1] * q[1]
sg = lambda x: If(x > 0, 1, If(x < 0, -1, 0))
def f(nm, names, ens, extra=lambda s: [], **k): return FnSpec(nm, requires=lambda s: small(*names)(s) + extra(s), ensures=lambda s: [('value', ens(s, *P(s, *names)))], **k)
def isp(a, b, c): d = det(sub(b, a), sub(c, a)); return If(d > 0, 1, If(d < 0, -1, If(dot(sub(b, a), sub(c, a)) < 0, -2, If(dot(sub(a, b), sub(c, b)) < 0, 2, 0))))
specs = [f('ge_det', 'ab', lambda s, a, b: s.res == det(a, b)), f('ge_dot', 'ab', lambda s, a, b: s.res == dot(a, b)), f('ge_sqabs', 'a', lambda s, a: s.res == dot(a, a)),
    FnSpec('ge_sgn', requires=lambda s: [], ensures=lambda s: [('value', s.res == sg(s('ax')))]),
    f('ge_isp', 'abc', lambda s, a, b, c: s.res == isp(a, b, c), use=lambda s: s.assume_def(ispv_def(*P(s, *'abc')))), f('ge_area3', 'abc', lambda s, a, b, c: s.res == det(sub(b, a), sub(c, a))),
    f('ge_par', 'abcd', lambda s, a, b, c, d: s.res == (det(sub(b, a), sub(d, c)) == 0)), f('ge_ort', 'abcd', lambda s, a, b, c, d: s.res == (dot(sub(b, a), sub(d, c)) == 0)),
    f('ge_same', 'abcd', lambda s, a, b, c, d: s.res == And(det(sub(b, a), sub(d, c)) == 0, det(sub(b, a), sub(c, a)) == 0)),
    f('ge_rayeq', 'abcd', lambda s, a, b, c, d: s.res == And(a[0] == c[0], a[1] == c[1], det(sub(b, a), sub(d, c)) == 0, dot(sub(b, a), sub(d, c)) > 0))]
# ------------------------------------------------------------------ points on lines, rays, segments
sgp = Lemma('sign_of_product', [Int, Int], lambda x, y: And(Implies(x > 0, And((x * y > 0) == (y > 0), (x * y < 0) == (y < 0))), Implies(x < 0, And((x * y > 0) == (y < 0), (x * y < 0) == (y > 0))), (x * y == 0) == Or(x == 0, y == 0)), proof=lambda ih, u, x, y: [])
cong = Lemma('products_of_equals', [Int, Int, Int, Int], lambda a, b, c, d: Implies(And(a == c, b == d), a * b == c * d), proof=lambda ih, u, a, b, c, d: [])
ray = Lemma('ray_coordinate', [Int, Int, Int, Int], lambda dx, dy, X, Y: Implies(And(dx != 0, dx * Y == dy * X), (dx * X + dy * Y >= 0) == If(dx > 0, X >= 0, X <= 0)),
    proof=lambda ih, u, dx, dy, X, Y: [u(cong, dx * Y, dy, dy * X, dy), u(sgp, dx, dx * X + dy * Y), u(sgp, dx * dx + dy * dy, X), u(sgp, dx, dx), u(sgp, dy, dy), (dx * X + dy * Y) * dx == X * dx * dx + dy * (dx * Y), X * (dx * dx + dy * dy) == X * dx * dx + dy * (dy * X)])
seg = Lemma('segment_coordinate', [Int, Int, Int, Int], lambda dx, dy, u_, p: Implies(And(dx != 0, p * dx == dy * u_), (u_ * (u_ + dx) + p * (p + dy) <= 0) == If(dx > 0, And(u_ <= 0, u_ + dx >= 0), And(u_ >= 0, u_ + dx <= 0))),
    proof=lambda ih, u, dx, dy, u_, p: [u(cong, p * dx, (p + dy) * dx, dy * u_, dy * (u_ + dx)), u(sgp, dx * dx, u_ * (u_ + dx) + p * (p + dy)), u(sgp, dx * dx + dy * dy, u_ * (u_ + dx)), u(sgp, dx, dx), u(sgp, dy, dy), u(sgp, u_, u_ + dx), (p + dy) * dx == p * dx + dy * dx, dy * (u_ + dx) == dy * u_ + dy * dx,
        (u_ * (u_ + dx) + p * (p + dy)) * (dx * dx) == u_ * (u_ + dx) * (dx * dx) + (p * dx) * ((p + dy) * dx), (u_ * (u_ + dx)) * (dx * dx + dy * dy) == u_ * (u_ + dx) * (dx * dx) + (dy * u_) * (dy * (u_ + dx))])
diff = lambda s: [Or(s('ax') != s('bx'), s('ay') != s('by'))]
def on_use(s):
    a, b, c = P(s, *'abc'); dx, dy = sub(b, a); X, Y = sub(c, a)
    s.assume_def((c[1] - a[1]) * (b[0] - c[0]) - (c[0] - a[0]) * (b[1] - c[1]) == dx * Y - dy * X); s.lemma(sgp, dy, X); s.lemma(sgp, dy, Y); s.lemma(sgp, dx, X); s.lemma(ray, dx, dy, X, Y); s.lemma(seg, dx, dy, -X, -Y); s.lemma(sgp, Y, Y - dy)
    s.assume_def(And(0 * X == 0, 0 * Y == 0)); s.assume_def(And(dx * (0 * 1) == 0, (-Y) * dx == -(dx * Y), dy * (-X) == -(dy * X)))
LN = dict(use=on_use)
specs += [f('ge_segeq', 'abcd', lambda s, a, b, c, d: s.res == Or(And(a[0] == c[0], a[1] == c[1], b[0] == d[0], b[1] == d[1]), And(a[0] == d[0], a[1] == d[1], b[0] == c[0], b[1] == c[1]))),
    f('ge_online', 'abc', lambda s, a, b, c: s.res == If(det(sub(b, a), sub(c, a)) == 0, 1, 0), diff, **LN),
    f('ge_onray', 'abc', lambda s, a, b, c: s.res == If(And(det(sub(b, a), sub(c, a)) == 0, dot(sub(b, a), sub(c, a)) >= 0), 1, 0), diff, **LN),
    f('ge_onseg', 'abc', lambda s, a, b, c: s.res == If(And(det(sub(b, a), sub(c, a)) == 0, dot(sub(a, c), sub(b, c)) <= 0), 1, 0), diff, **LN),
    f('ge_meet', 'abcd', lambda s, a, b, c, d: s.res == And(ispv(*a, *b, *c) * ispv(*a, *b, *d) <= 0, ispv(*c, *d, *a) * ispv(*c, *d, *b) <= 0), use=lambda s: None)]
# ------------------------------------------------------------------ circles
sq = lambda x: x * x
def tan(s): d = sq(s('ax') - s('bx')) + sq(s('ay') - s('by')); p, m = sq(s('r') + s('s')), sq(s('r') - s('s')); return s.res == If(d > p, 4, If(d == p, 3, If(d > m, 2, If(d == m, 1, 0))))
rad = lambda *n: (lambda s: [And(0 <= s(k), s(k) <= B) for k in n])
specs += [FnSpec('ge_tan', requires=lambda s: small(*'ab')(s) + rad('r', 's')(s), ensures=lambda s: [('number of common tangents', tan(s))]),
    FnSpec('ge_incirc', requires=lambda s: small(*'ab')(s) + rad('r')(s), ensures=lambda s: [('position', (lambda d: s.res == If(d > 0, 0, If(d == 0, 1, 2)))(sq(s('ax') - s('bx')) + sq(s('ay') - s('by')) - sq(s('r'))))])]
# ------------------------------------------------------------------ order by argument
def before(a, b):
    za, zb = And(a[0] == 0, a[1] == 0), And(b[0] == 0, b[1] == 0); lo = lambda p: p[1] < 0; c = det(a, b)
    return If(zb, lo(a), If(za, Not(lo(b)), Or(And(lo(a), Not(lo(b))), And(lo(a) == lo(b), Or(c > 0, And(c == 0, a[0] > 0, b[0] < 0))))))
def arg_use(s): a, b = P(s, *'ab'); s.lemma(sgp, a[0], b[1]); s.lemma(sgp, a[1], b[0])
specs += [f('ge_arg', 'ab', lambda s, a, b: s.res == before(a, b), use=arg_use)]
# ------------------------------------------------------------------ functions called through their contracts
def pt(s, n):                             # a pointer to a segment is a pointer to its first end point
    try: return (s(n + '.x'), s(n + '.y'))
    except SpecMismatch: return (s(n + '.a.x'), s(n + '.a.y'))
ispv = UF('position', *[Int] * 6, Int)
@definition
def ispv_def(a, b, c): return ispv(*a, *b, *c) == isp(a, b, c)
C_isp = FnSpec('isp', match=r'integral_geometry::isp\(', requires=lambda s: [And(*[And(-B <= c, c <= B) for n in 'abc' for c in pt(s, n)])], ensures=lambda s: [('range', And(-2 <= s.res, s.res <= 2)), ('position', s.res == ispv(*pt(s, 'a'), *pt(s, 'b'), *pt(s, 'c')))], use=lambda s: s.assume_def(ispv_def(pt(s, 'a'), pt(s, 'b'), pt(s, 'c'))))
def tanv(s, c, d): D = sq(c[0] - d[0]) + sq(c[1] - d[1]); p, m = sq(c[2] + d[2]), sq(c[2] - d[2]); return s.res == If(D > p, 4, If(D == p, 3, If(D > m, 2, If(D == m, 1, 0))))
ci = lambda s, n: (s(n + '.center.x'), s(n + '.center.y'), s(n + '.radius'))
C_tan = FnSpec('tangent_num', match=r'integral_geometry::tangent_num\(', requires=lambda s: [And(*[And(-B <= c, c <= B) for n in ('c1', 'c2') for c in ci(s, n)], s('c1.radius') >= 0, s('c2.radius') >= 0)], ensures=lambda s: [('number of common tangents', tanv(s, ci(s, 'c1'), ci(s, 'c2')))], recursive=True, dec=lambda s: If(s('c1.radius') > s('c2.radius'), V(1), V(0)))
specs = [C_isp, C_tan] + specs
# ------------------------------------------------------------------ polygons
A_I = z3.ArraySort(Int, Int); MAXN = 1 << 20
nx = lambda i, n: If(i + 1 == n, V(0), i + 1)
ar = UF('area_of_prefix', A_I, A_I, Int, Int, Int)
@definition
def ar_def(X, Y, n, k): return ar(X, Y, n, k) == If(k <= 0, V(0), ar(X, Y, n, k - 1) + X[k - 1] * Y[nx(k - 1, n)] - Y[k - 1] * X[nx(k - 1, n)])
BP = 1 << 20
G = lambda s: (s.e('p', 'x'), s.e('p', 'y'), s.n('p'))
def g_req(b): return lambda s: [('size', And(0 <= s.n('p'), s.n('p') <= MAXN)), ('coordinates', (lambda X, Y, n: rngq(0, n, lambda i: And(-b <= X[i], X[i] <= b, -b <= Y[i], Y[i] <= b), pat=lambda i: [X[i], Y[i]]))(*G(s)))]
def a_inv(s): X, Y, n = G(s); i = s.v('i'); return [('range', And(0 <= i, i <= n)), ('sum', s.v('res') == ar(X, Y, n, i)), ('bound', And(-2 * BP * BP * i <= s.v('res'), s.v('res') <= 2 * BP * BP * i))]
def a_use(s):
    X, Y, n = G(s); i = s.v('i'); s.assume_def(ar_def(X, Y, n, i))
def a_head(s):
    X, Y, n = G(s); i = s.v('i'); s.assume_def(And(X[i] == X[i], Y[i] == Y[i], X[nx(i, n)] == X[nx(i, n)], Y[nx(i, n)] == Y[nx(i, n)]))
    for u, v in ((X[i], Y[nx(i, n)]), (Y[i], X[nx(i, n)])): s.lemma(pb, u, v, V(BP))
pb = Lemma('product_bound', [Int, Int, Int], lambda x, y, b: Implies(And(-b <= x, x <= b, -b <= y, y <= b), And(-(b * b) <= x * y, x * y <= b * b)), proof=lambda ih, u, x, y, b: [u(sgp, b - x, b - y), u(sgp, b + x, b + y), u(sgp, b - x, b + y), u(sgp, b + x, b - y), (b - x) * (b - y) == b * b - b * x - b * y + x * y, (b + x) * (b + y) == b * b + b * x + b * y + x * y, (b - x) * (b + y) == b * b - b * x + b * y - x * y, (b + x) * (b - y) == b * b + b * x - b * y - x * y])
specs += [FnSpec('ge_area', requires=g_req(BP), ensures=lambda s: [('twice the signed area', s.res == ar(*G(s), G(s)[2]))], loops=[LoopSpec(a_inv, dec=lambda s: s.n('p') - s.v('i'), use=a_use, head=a_head)])]
def turn(X, Y, n, i): j = nx(i, n); k = (i + 2) % n; return ispv(X[i], Y[i], X[j], Y[j], X[k], Y[k])
def cv(nm, ok):
    al = lambda s, hi: (lambda X, Y, n: rngq(0, hi, lambda i: ok(turn(X, Y, n, i)), pat=lambda i: X[i]))(*G(s))
    return FnSpec(nm, requires=lambda s: g_req(B)(s), ensures=lambda s: [('all turns', s.res == al(s, s.n('p')))], loops=[LoopSpec(lambda s: [('range', And(0 <= s.v('i'), s.v('i') <= s.n('p'))), ('so far', al(s, s.v('i')))], dec=lambda s: s.n('p') - s.v('i'), head=lambda s: s.assume_def(G(s)[0][s.v('i')] == G(s)[0][s.v('i')]))])
specs += [cv('ge_convex', lambda t: t != -1), cv('ge_strict', lambda t: t == 1)]
unit = Unit('geom', specs, contracts=[C_isp, C_tan], keep=[r'integral_geometry::isp\('])
