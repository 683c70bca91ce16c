from irv.spec import *
from irv.unit import Unit
V = z3.IntVal
B62 = 1 << 62; MAXN = 1 << 30
# ------------------------------------------------------------------ binary search on a monotone predicate
pred = UF('uf_pred', Int, Bool)
mono = lambda: forall(2, lambda x, y: Implies(And(x <= y, pred(x)), pred(y)), pat=lambda x, y: [(pred(x), pred(y))])
def least(s, lo): return [('satisfied', pred(s.res)), ('least', And(s.res > lo, Not(pred(s.res - 1)), forall(1, lambda x: Implies(x < s.res, Not(pred(x))), pat=lambda x: pred(x))))]
def b_inv(s):
    l, r = s.v('l_ng'), s.v('r_ok'); return [('bracket', And(s('lo') <= l, l < r, r <= s('hi'), Not(pred(l)), pred(r)))]
bins = FnSpec('sq_bin', requires=lambda s: [mono(), Not(pred(s('lo'))), pred(s('hi')), And(s('lo') <= s('hi'), s('hi') - s('lo') < 2 * B62)], ensures=lambda s: least(s, s('lo')), loops=[LoopSpec(b_inv, dec=lambda s: s.v('r_ok') - s.v('l_ng'))])
# exponential search: some argument below 2^61 beyond the start satisfies the predicate
HI = z3.Int('g_hi')
def e1_inv(s):
    w = s.v('w'); return [('width', And(1 <= w, Or(w == 1, And(w % 2 == 0, Not(pred(s('lo') + w / 2)))))), ('below', w < 2 * (HI - s('lo')))]
def e2_inv(s):
    l, r = s.v('l_ng'), s.v('r_ok'); return [('bracket', And(s('lo') <= l, l < r, r <= s('lo') + 2 * B62 - 1, Not(pred(l)), pred(r)))]
exps = FnSpec('sq_exp', requires=lambda s: [mono(), Not(pred(s('lo'))), pred(HI), And(-B62 / 2 <= s('lo'), s('lo') < HI, HI <= B62 / 4)], ensures=lambda s: least(s, s('lo')),
    loops=[LoopSpec(e1_inv, dec=lambda s: 2 * (HI - s('lo')) - s.v('w')), LoopSpec(e2_inv, dec=lambda s: s.v('r_ok') - s.v('l_ng'))])
# ------------------------------------------------------------------ ternary search on a convex (concave) sequence
f = UF('uf_f', Int, Int)
def convex(sg, l, r): return forall(1, lambda x: Implies(And(l < x, x < r), sg * (f(x) - f(x - 1)) <= sg * (f(x + 1) - f(x))), pat=lambda x: f(x))
def shape_lemmas(sg, nm):
    g = lambda x: sg * f(x)
    # going left from x: once the step into x falls, every earlier step falls
    fall = Lemma('falls_before_' + nm, [Int, Int, Int, Int], lambda l, r, x, y: Implies(And(convex(sg, l, r), l <= x, x < y, y <= r, g(y) < g(y - 1)), And(g(y) < g(x))),
        proof=lambda ih, u, l, r, x, y: [ih(l, r, x, y - 1), f(y - 1) == f(y - 1), f(y - 2) == f(y - 2)], measure=lambda l, r, x, y: y - x)
    rise = Lemma('rises_after_' + nm, [Int, Int, Int, Int], lambda l, r, y, z: Implies(And(convex(sg, l, r), l < y, y <= z, z <= r, g(y) >= g(y - 1)), And(g(z) >= g(z - 1), g(z) >= g(y))),
        proof=lambda ih, u, l, r, y, z: [ih(l, r, y, z - 1), f(z - 1) == f(z - 1), f(z - 2) == f(z - 2)], measure=lambda l, r, y, z: z - y)
    valley = Lemma('valley_' + nm, [Int, Int, Int, Int, Int], lambda l, r, x, y, z: Implies(And(convex(sg, l, r), l <= x, x < y, y <= z, z <= r), Or(g(y) < g(x), g(z) >= g(y))),
        proof=lambda ih, u, l, r, x, y, z: [u(fall, l, r, x, y), u(rise, l, r, y, z)])
    return valley
valley_v, valley_c = shape_lemmas(1, 'convex'), shape_lemmas(-1, 'concave')
def vall(L, l, r): return forall(3, lambda x, y, z: L.stmt(l, r, x, y, z), pat=lambda x, y, z: [(f(x), f(y), f(z))])
def tern(nm, sg, L):
    g = lambda x: sg * f(x)
    best = lambda s, lo, hi, c: forall(1, lambda x: Implies(And(lo <= x, x <= hi), c(x)), pat=lambda x: f(x))
    ub = lambda s: [And(s('lo') <= s('hi'), -B62 / 4 <= s('lo'), s('hi') <= B62 / 4), forall(1, lambda x: And(f(x) >= -B62, f(x) <= B62), pat=lambda x: f(x))]
    # somewhere in [l, r] there is a value at least as good as any outside; stated with the witness-free form: for every bound m, if m is beaten somewhere it is beaten inside
    M = z3.Int('g_m')
    def w_inv(s):
        l, r = s.v('l'), s.v('r')
        return [('range', And(s('lo') <= l, l <= r, r <= s('hi'))), ('outside is no better', best(s, s('lo'), s('hi'), lambda x: And(Implies(x < l, g(x) >= g(l)), Implies(x > r, g(x) >= g(r)))))]
    def f_inv(s):
        l, r, x, y = s.v('l'), s.v('r'), s.v('x'), s.v('y')
        return [('range', And(s('lo') <= l, l <= r, r <= s('hi'), r - l < 3, l <= x, x < y, y <= r + 1, s.v('fx') == f(x))), ('outside is no better', best(s, s('lo'), s('hi'), lambda t: And(Implies(t < l, g(t) >= g(l)), Implies(t > r, g(t) >= g(r))))),
                ('best so far', best(s, l, y - 1, lambda t: g(t) >= g(x)))]
    def w_use(s):
        l, r = s.prev.v('l'), s.prev.v('r'); d = (r - l) / 3; ml, mr = l + d, r - d
        lo, hi = s('lo'), s('hi')
        s.lemma_all(L, forall(1, lambda x: L.inst(lo, hi, x, ml, mr), pat=lambda x: f(x)))
        s.lemma_all(L, forall(1, lambda x: L.inst(lo, hi, ml, mr, x), pat=lambda x: f(x)))
    return FnSpec(nm, requires=lambda s: ub(s) + [convex(sg, s('lo'), s('hi'))], ensures=lambda s: [('in range', And(s('lo') <= s.res, s.res <= s('hi'))), ('optimal', best(s, s('lo'), s('hi'), lambda x: g(x) >= g(s.res)))],
        loops=[LoopSpec(w_inv, dec=lambda s: s.v('r') - s.v('l'), use=lambda s: w_use(s) if s.prev is not None else None), LoopSpec(f_inv, dec=lambda s: s.v('r') + 1 - s.v('y'))])
ternv, ternc = tern('sq_tern', 1, valley_v), tern('sq_ternc', -1, valley_c)
# ------------------------------------------------------------------ permutations
T = OSort('T')
def sz(s, *os): return And(*[And(0 <= s.n(o), s.n(o) <= MAXN) for o in os])
def perm(s, o): P, n = s.e(o), s.n(o); return And(0 <= n, n <= MAXN, rngq(0, n, lambda i: And(0 <= P[i], P[i] < n), pat=lambda i: P[i]))
def inj(s, o): P, n = s.e(o), s.n(o); return forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < n), P[i] != P[j]), pat=lambda i, j: [(P[i], P[j])])
pid = FnSpec('pm_id', requires=lambda s: And(0 <= s('n'), s('n') <= MAXN), ensures=lambda s: [('size', s.n('out') == s('n')), ('identity', rngq(0, s('n'), lambda i: s.e('out')[i] == i, pat=lambda i: s.e('out')[i]))])
def p_inv(o, fn):
    def inv(s):
        i, n, R = s.v('i'), s.n('a') if o != 'inv' else s.n('p'), s.e('res' if False else 'out'); return [('range', And(0 <= i, i <= n, s.n('out') == n)), ('done', rngq(0, i, lambda k: fn(s, R, k), pat=lambda k: R[k] if o == 'permute' else s.e('p')[k]))]
    return inv
fp = lambda s, R, k: R[k] == s.e('a')[s.e('p')[k]]
fi = lambda s, R, k: R[s.e('p')[k]] == s.e('a')[k]
fv = lambda s, R, k: R[s.e('p')[k]] == k
pper = FnSpec('pm_permute', requires=lambda s: [perm(s, 'p'), s.n('a') == s.n('p')], ensures=lambda s: [('size', s.n('out') == s.n('a')), ('b[i] = a[p[i]]', rngq(0, s.n('a'), lambda k: fp(s, s.e('out'), k), pat=lambda k: s.e('out')[k]))], loops=[LoopSpec(p_inv('permute', fp), dec=lambda s: s.n('a') - s.v('i'))])
piper = FnSpec('pm_ipermute', requires=lambda s: [perm(s, 'p'), inj(s, 'p'), s.n('a') == s.n('p')], ensures=lambda s: [('size', s.n('out') == s.n('a')), ('b[p[i]] = a[i]', rngq(0, s.n('a'), lambda k: fi(s, s.e('out'), k), pat=lambda k: s.e('p')[k]))], loops=[LoopSpec(p_inv('iperm', fi), dec=lambda s: s.n('a') - s.v('i'))])
pinv = FnSpec('pm_inv', requires=lambda s: [perm(s, 'p'), inj(s, 'p')], ensures=lambda s: [('size', s.n('out') == s.n('p')), ('left inverse', rngq(0, s.n('p'), lambda k: fv(s, s.e('out'), k), pat=lambda k: s.e('p')[k]))], loops=[LoopSpec(p_inv('inv', fv), dec=lambda s: s.n('p') - s.v('i'))])
def pm_inv_(s):
    i, R = s.v('i'), s.e('tmp'); return [('range', And(0 <= i, i <= s.n('p'), s.n('tmp') == s.n('p'))), ('done', rngq(0, i, lambda k: R[k] == s.e('p')[s.e('q')[k]], pat=lambda k: R[k]))]
pmul = FnSpec('pm_mul', requires=lambda s: [perm(s, 'q'), s.n('p') == s.n('q')], ensures=lambda s: [('size', s.n('out') == s.n('p')), ('composition', rngq(0, s.n('p'), lambda k: s.e('out')[k] == s.e('p')[s.e('q')[k]], pat=lambda k: s.e('out')[k]))], loops=[LoopSpec(pm_inv_, dec=lambda s: s.n('p') - s.v('i'))])
# ------------------------------------------------------------------ counting pairs with a bounded sum
c_eq, c_le = UF('cnt_eq', Int, Int, Int, Int, Int, Int), UF('cnt_le', Int, Int, Int, Int, Int, Int)     # over a in [al, al + k): pairs (a, b) with bl <= b <= br and a + b = x (a + b <= x)
mx, mn = lambda a, b: If(a > b, a, b), lambda a, b: If(a < b, a, b)
@definition
def eq_def(al, k, bl, br, x): return c_eq(al, k, bl, br, x) == If(k <= 0, 0, c_eq(al, k - 1, bl, br, x) + If(And(bl <= x - (al + k - 1), x - (al + k - 1) <= br), 1, 0))
@definition
def le_def(al, k, bl, br, x): return c_le(al, k, bl, br, x) == If(k <= 0, 0, c_le(al, k - 1, bl, br, x) + mx(0, mn(br, x - (al + k - 1)) - bl + 1))
eq_cl = Lemma('count_eq_closed', [Int] * 5, lambda al, k, bl, br, x: c_eq(al, k, bl, br, x) == mx(0, mn(al + k - 1, x - bl) - mx(al, x - br) + 1) if True else None,
    proof=lambda ih, u, al, k, bl, br, x: [eq_def(al, k, bl, br, x), ih(al, k - 1, bl, br, x)], measure=lambda al, k, bl, br, x: mx(k, 0))
tri = UF('tri', Int, Int)     # n (n + 1) / 2
@definition
def tri_def(n): return tri(n) == If(n <= 0, 0, tri(n - 1) + n)
tri_e = Lemma('triangle', [Int], lambda n: Implies(n >= -1, 2 * tri(n) == n * (n + 1)), proof=lambda ih, u, n: [tri_def(n), ih(n - 1)], measure=lambda n: n + 1)
def le_closed(ra, rb, rs):
    t = mx(0, mn(ra, rs - rb) + 1); fr = rs - mn(ra, rs) + 1; to = rs - t + 2
    return t, fr, to
def tpart(ra, rb, rs): return If(ra <= rs - rb, (ra + 1) * (rb + 1), If(rs - rb + 1 > 0, (rs - rb + 1) * (rb + 1), 0))
def le_stmt(al, ra, bl, br, x):
    rb, rs = br - bl, x - al - bl; t, fr, to = le_closed(ra, rb, rs)
    return Implies(And(ra >= -1, br >= bl), c_le(al, ra + 1, bl, br, x) == If(Or(ra < 0, rs < 0), 0, tpart(ra, rb, rs) + tri(to - 1) - tri(fr - 1)))
def le_proof(ih, u, al, ra, bl, br, x):
    rb, rs = br - bl, x - al - bl
    return [le_def(al, ra + 1, bl, br, x), ih(al, ra - 1, bl, br, x), tri_def(rs - ra + 1), tri_def(rs + 1), (ra + 1) * (rb + 1) == ra * (rb + 1) + rb + 1]
le_cl = Lemma('count_le_closed', [Int] * 5, le_stmt, proof=le_proof, measure=lambda al, ra, bl, br, x: ra + 1)
BND = 1 << 28
bnd = lambda s: And(*[And(-BND <= s(v), s(v) <= BND) for v in ('al', 'ar', 'bl', 'br', 'x')])
sceq = FnSpec('sc_eq', requires=bnd, ensures=lambda s: ('number of pairs', s.res == c_eq(s('al'), s('ar') - s('al') + 1, s('bl'), s('br'), s('x'))), use=lambda s: s.lemma(eq_cl, s('al'), s('ar') - s('al') + 1, s('bl'), s('br'), s('x')))
le_neg = Lemma('count_le_empty', [Int] * 5, lambda al, k, bl, br, x: Implies(br < bl, c_le(al, k, bl, br, x) == 0), proof=lambda ih, u, al, k, bl, br, x: [le_def(al, k, bl, br, x), ih(al, k - 1, bl, br, x)], measure=lambda al, k, bl, br, x: mx(k, 0))
def sl_use(s):
    al, ar, bl, br, x = [s(v) for v in ('al', 'ar', 'bl', 'br', 'x')]; ra, rb, rs = ar - al, br - bl, x - al - bl
    t, fr, to = le_closed(ra, rb, rs)
    s.lemma(le_cl, al, ra, bl, br, x); s.lemma(le_neg, al, ra + 1, bl, br, x); s.assume_def(le_def(al, ra + 1, bl, br, x)); s.lemma(tri_e, to - 1); s.lemma(tri_e, fr - 1)
sleq = FnSpec('sc_leq', requires=bnd, ensures=lambda s: ('number of pairs', s.res == c_le(s('al'), s('ar') - s('al') + 1, s('bl'), s('br'), s('x'))), use=sl_use)
# ------------------------------------------------------------------ transpose, rot90
def E(s, o): return s.e(o, '__e'), s.e(o, '__n'), s.n(o)
def rect(s, o):
    A, N, n = E(s, o); return [('rectangular', And(0 <= n, n <= MAXN, Implies(n > 0, And(0 <= N[0], N[0] <= MAXN)), rngq(0, n, lambda i: N[i] == N[0], pat=lambda i: N[i])))]
def tr(nm, cell):
    def post(s, done):
        A, N, n = E(s, 'a'); B, NB, nb = E(s, 'out'); m = N[0]
        return [('shape', And(nb == m, rngq(0, m, lambda j: NB[j] == n, pat=lambda j: NB[j]))), ('cells', forall(2, lambda i, j: Implies(And(0 <= i, i < n, 0 <= j, j < m, done(i, j)), B[j][i] == cell(A, i, j, m)), pat=lambda i, j: B[j][i]))]
    def i1(s): i, n = s.v('i'), s.n('a'); return [('range', And(1 <= n, 0 <= i, i <= n))] + post(s, lambda r, c: r < i)
    def i2(s): i, j, n = s.v('i'), s.v('j'), s.n('a'); return [('range', And(1 <= n, 0 <= i, i < n, 0 <= j, j <= E(s, 'a')[1][0]))] + post(s, lambda r, c: Or(r < i, And(r == i, c < j)))
    return FnSpec(nm, requires=lambda s: rect(s, 'a'), ensures=lambda s: [('empty', Implies(s.n('a') == 0, s.n('out') == 0))] + [(x, Implies(s.n('a') > 0, g)) for x, g in post(s, lambda i, j: z3.BoolVal(True))], loops=[LoopSpec(i1, dec=lambda s: s.n('a') - s.v('i')), LoopSpec(i2, dec=lambda s: E(s, 'a')[1][0] - s.v('j'))])
trans, rot = tr('sq_transpose', lambda A, i, j, m: A[i][j]), tr('sq_rot90', lambda A, i, j, m: A[i][m - j - 1])
# ------------------------------------------------------------------ Cartesian tree: parent = the later in tree order of the nearest smaller elements on both sides
L, R = z3.Const('g_L', Arr()), z3.Const('g_R', Arr())
def near(s):
    a, n = s.e('a'), s.n('a')
    return [And(0 <= n, n <= MAXN),
            rngq(0, n, lambda i: And(-1 <= L[i], L[i] < i, Implies(L[i] >= 0, a[L[i]] <= a[i])), pat=lambda i: L[i]), forall(2, lambda i, k: Implies(And(0 <= i, i < n, L[i] < k, k < i), a[i] < a[k]), pat=lambda i, k: [(L[i], a[k])]),
            rngq(0, n, lambda i: And(i < R[i], R[i] <= n, Implies(R[i] < n, a[R[i]] < a[i])), pat=lambda i: R[i]), forall(2, lambda i, k: Implies(And(0 <= i, i < n, i < k, k < R[i]), a[i] <= a[k]), pat=lambda i, k: [(R[i], a[k])])]
def want(a, i, m): return If(And(R[i] < m, Or(L[i] < 0, a[R[i]] >= a[L[i]])), R[i], L[i])
def ct1(s):
    a, P, n, i = s.e('a'), s.e('out.par'), s.n('a'), s.v('i')
    return [('range', And(1 <= i, Or(i <= n, n == 0), s.n('out.par') == n)), ('parents', rngq(0, i, lambda j: Implies(j < n, P[j] == want(a, j, i)), pat=lambda j: [P[j], R[j]])), ('rest', rngq(i, n, lambda j: P[j] == -1, pat=lambda j: P[j]))]
def ct2(s):
    a, P, n, i, p, l = s.e('a'), s.e('out.par'), s.n('a'), s.v('i'), s.v('p'), s.v('l')
    return [('range', And(1 <= i, i < n, s.n('out.par') == n, -1 <= p, p < i)), ('between', forall(1, lambda k: Implies(And(p < k, k < i), a[i] < a[k]), pat=lambda k: a[k])), ('last popped', Or(And(l == i, p == i - 1), And(p < l, l < i, L[l] == p, R[l] == i))), ('spine', Implies(p >= 0, R[p] >= i))]
def ct_ens(s): a, n, P = s.e('a'), s.n('a'), s.e('out.par'); return [('size', And(s('out.n') == n, s.n('out.par') == n)), ('parents', rngq(0, n, lambda i: P[i] == want(a, i, n), pat=lambda i: P[i]))]
ctp = FnSpec('ct_parents', requires=near, ensures=ct_ens, loops=[LoopSpec(ct1, dec=lambda s: s.n('a') - s.v('i')), LoopSpec(ct2, dec=lambda s: s.v('p') + 1)])
ctg = FnSpec('ct_parent', requires=lambda s: And(0 <= s('c.n'), s('c.n') == s.n('c.par'), 0 <= s('i'), s('i') < s('c.n')), ensures=lambda s: ('parent', s.res == s.e('c.par')[s('i')]))
# ------------------------------------------------------------------ subset enumeration (bit-vector semantics)
U_ = z3.BitVec('g_u', 32)
def ss_ens(s):
    o, t, m = s.old('it.t'), s('it.t'), s('it.s'); res = s.res if z3.is_bool(s.res) else s.res != 0
    sub = lambda x: (x & ~m) == 0
    return [('ends after zero', res == (o != 0)), ('next subset', Implies(o != 0, And(sub(t), z3.ULT(t, o), Implies(And(sub(U_), z3.ULT(U_, o)), z3.ULE(U_, t))))), ('set kept', m == s.old('it.s'))]
ssn = FnSpec('ss_next', mode='bv', requires=lambda s: Or((s('it.t') & ~s('it.s')) == 0, s('it.t') == s('it.s') + 1), ensures=ss_ens)
specs = [bins, exps, ternv, ternc, pid, pper, piper, pinv, pmul, sceq, sleq, trans, rot, ctp, ctg, ssn]
unit = Unit('seqtools', specs, opaque={'T': 'T'})
