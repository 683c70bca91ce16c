from irv.spec import *
from irv.unit import Unit
V = z3.IntVal
T = OSort('T'); AT = z3.ArraySort(Int, T)
add, sub, mul, neg, inv, of = UF('uf_add', T, T, T), UF('uf_sub', T, T, T), UF('uf_mul', T, T, T), UF('uf_neg', T, T), UF('uf_inv', T, T), UF('uf_of', Int, T)
MAXN = 1 << 29
x, y, z = z3.Consts('ax_x ax_y ax_z', T)
# the coefficients form a commutative ring
RING = [z3.ForAll([x, y], add(x, y) == add(y, x), patterns=[add(x, y)]), z3.ForAll([x, y, z], add(add(x, y), z) == add(x, add(y, z)), patterns=[add(add(x, y), z), add(x, add(y, z))]), z3.ForAll([x], add(x, of(V(0))) == x, patterns=[add(x, of(V(0)))]),
        z3.ForAll([x, y], add(sub(x, y), y) == x, patterns=[sub(x, y)]), z3.ForAll([x, y], mul(x, y) == mul(y, x), patterns=[mul(x, y)]), z3.ForAll([x, y, z], mul(mul(x, y), z) == mul(x, mul(y, z)), patterns=[mul(mul(x, y), z)]), z3.ForAll([x], mul(x, of(V(1))) == x, patterns=[mul(x, of(V(1)))])]
def sz(s, *os): return [And(*[And(0 <= s.n(o), s.n(o) <= MAXN) for o in os])]
def rngq(lo, hi, f, pat): return forall(1, lambda k: Implies(And(lo <= k, k < hi), f(k)), pat=pat)
mn, mx = lambda a, b: If(a < b, a, b), lambda a, b: If(a > b, a, b)
at = lambda A, n, k: If(And(0 <= k, k < n), A[k], of(V(0)))
# ---- f + g, f - g in place
def pm(name, g):
    def iv(s): A, A0, B, i = s.e('f'), s.old.e('f'), s.e('g'), s.v('i'); n0 = s.old.n('f'); return [('range', And(0 <= i, i <= s.n('g'), s.n('f') == mx(n0, s.n('g')))), ('done', rngq(0, s.n('f'), lambda k: A[k] == If(k < i, g(at(A0, n0, k), B[k]), at(A0, n0, k)), pat=lambda k: A[k]))]
    return FnSpec(name, requires=lambda s: sz(s, 'f', 'g'), ensures=lambda s: [('size', s.n('f') == mx(s.old.n('f'), s.n('g'))), ('coefficients', rngq(0, s.n('f'), lambda k: s.e('f')[k] == If(k < s.n('g'), g(at(s.old.e('f'), s.old.n('f'), k), s.e('g')[k]), s.old.e('f')[k]), pat=lambda k: s.e('f')[k]))], loops=[LoopSpec(iv, dec=lambda s: s.n('g') - s.v('i'))])
w_add, w_sub = pm('fn_add', add), pm('fn_sub', sub)
def sc_inv(s): A, A0, k0 = s.e('f'), s.old.e('f'), s.v('__begin0'); return [('range', And(0 <= k0, k0 <= s.n('f'), s.n('f') == s.old.n('f'))), ('done', rngq(0, s.n('f'), lambda k: A[k] == If(k < k0, mul(A0[k], s('c')), A0[k]), pat=lambda k: A[k]))]
w_scale = FnSpec('fn_scale', requires=lambda s: sz(s, 'f'), ensures=lambda s: [('size', s.n('f') == s.old.n('f')), ('coefficients', rngq(0, s.n('f'), lambda k: s.e('f')[k] == mul(s.old.e('f')[k], s('c')), pat=lambda k: s.e('f')[k]))], loops=[LoopSpec(sc_inv, dec=lambda s: s.n('f') - s.v('__begin0'))])
def ng_inv(s): A, A0, k0 = s.e('out'), s.e('f'), s.v('__begin0'); return [('range', And(0 <= k0, k0 <= s.n('f'), s.n('f') == s.n('out'))), ('done', rngq(0, s.n('f'), lambda k: A[k] == If(k < k0, neg(A0[k]), A0[k]), pat=lambda k: A[k]))]
w_neg = FnSpec('fn_neg', requires=lambda s: sz(s, 'f'), ensures=lambda s: [('size', s.n('f') == s.n('out')), ('coefficients', rngq(0, s.n('f'), lambda k: s.e('out')[k] == neg(s.e('f')[k]), pat=lambda k: s.e('out')[k]))], loops=[LoopSpec(ng_inv, dec=lambda s: s.n('f') - s.v('__begin0'))])
# ---- product: cv(F, G, m, k, i) is the sum of F[t] G[k - t] over t < i with 0 <= k - t < m
cv = UF('conv', AT, AT, Int, Int, Int, T)
@definition
def cv_def(F, G, m, k, i): return cv(F, G, m, k, i) == If(i <= 0, of(V(0)), If(And(0 <= k - (i - 1), k - (i - 1) < m), add(cv(F, G, m, k, i - 1), mul(F[i - 1], G[k - i + 1])), cv(F, G, m, k, i - 1)))
def mul_size(s): n, m = s.n('f'), s.n('g'); return If(Or(n == 0, m == 0), 0, mn(s('MAX_SIZE'), n + m - 1))
def m1(lim):
    def iv(s):
        n, m, i, H, F, G = s.n('f'), s.n('g'), s.v('i'), s.e('out'), s.e('f'), s.e('g')
        return [('range', And(0 <= i, i <= n, n > 0, m > 0, s.n('out') == mn(lim(s), n + m - 1))), ('partial sums', rngq(0, s.n('out'), lambda k: H[k] == cv(F, G, m, k, i), pat=lambda k: H[k]))]
    return iv
def m2(lim):
    def iv(s):
        n, m, i, j, H, F, G = s.n('f'), s.n('g'), s.v('i'), s.v('j'), s.e('out'), s.e('f'), s.e('g')
        return [('range', And(0 <= i, i < n, 0 <= j, j <= m, n > 0, m > 0, s.n('out') == mn(lim(s), n + m - 1))), ('partial sums', rngq(0, s.n('out'), lambda k: H[k] == cv(F, G, m, k, If(And(0 <= k - i, k - i < j), i + 1, i)), pat=lambda k: H[k]))]
    return iv
def m_use(s): s.assume_def(forall(1, lambda k: And(cv_def(s.e('f'), s.e('g'), s.n('g'), k, s.v('i') + 1), cv_def(s.e('f'), s.e('g'), s.n('g'), k, s.v('i'))), pat=lambda k: s.e('out')[k]))
def m_use0(s): s.assume_def(forall(1, lambda k: cv_def(s.e('f'), s.e('g'), s.n('g'), k, s.v('i')), pat=lambda k: s.e('out')[k]))
def prod_ens(lim):
    def f(s):
        n, m = s.n('f'), s.n('g'); H = s.e('out')
        return [('size', s.n('out') == If(Or(n == 0, m == 0), 0, mn(lim(s), n + m - 1))), ('coefficients of the product', rngq(0, s.n('out'), lambda k: H[k] == cv(s.e('f'), s.e('g'), m, k, n), pat=lambda k: H[k]))]
    return f
def mk_mul(name, lim, req, hi):
    return FnSpec(name, requires=lambda s: sz(s, 'f', 'g') + req(s), ensures=prod_ens(lim), loops=[LoopSpec(m1(lim), dec=lambda s: s.n('f') - s.v('i'), use=m_use0), LoopSpec(m2(lim), dec=lambda s: s.n('g') - s.v('j'), use=m_use)])
w_mul = mk_mul('fn_mul', lambda s: s('MAX_SIZE'), lambda s: [And(0 <= s('MAX_SIZE'), s('MAX_SIZE') <= 1 << 30)], None)
eff = lambda s: If(s('len') < 0, s.n('f'), s('len'))
w_muln = mk_mul('fn_muln', eff, lambda s: [s('len') <= 1 << 30], None)
# ---- derivative, evaluation, access
def d_inv(s): i, A, F = s.v('i'), s.e('out'), s.e('f'); return [('range', And(1 <= i, Or(i <= s.n('f')), s.n('f') > 0, s.n('out') == s.n('f') - 1)), ('done', rngq(0, i - 1, lambda k: A[k] == mul(F[k + 1], of(k + 1)), pat=lambda k: A[k]))]
w_diff = FnSpec('fn_diff', requires=lambda s: sz(s, 'f'), ensures=lambda s: [('size', s.n('out') == mx(0, s.n('f') - 1)), ('coefficients', rngq(0, s.n('out'), lambda k: s.e('out')[k] == mul(s.e('f')[k + 1], of(k + 1)), pat=lambda k: s.e('out')[k]))], loops=[LoopSpec(d_inv, dec=lambda s: s.n('f') - s.v('i'))])
hn = UF('horner', AT, T, Int, Int, T)     # value at c of the coefficients i .. n-1
@definition
def hn_def(F, c, i, n): return hn(F, c, i, n) == If(i >= n, of(V(0)), add(mul(hn(F, c, i + 1, n), c), F[i]))
def e_inv(s): i, n = s.v('i'), s.n('f'); return [('range', And(-1 <= i, i < n)), ('value', s.v('y') == hn(s.e('f'), s('c'), i + 1, n))]
w_eval = FnSpec('fn_eval', requires=lambda s: sz(s, 'f'), ensures=lambda s: [('value', s('out') == hn(s.e('f'), s('c'), V(0), s.n('f')))], loops=[LoopSpec(e_inv, dec=lambda s: s.v('i') + 1, use=lambda s: s.assume_def(hn_def(s.e('f'), s('c'), s.v('i') + 1, s.n('f'))))])
w_get = FnSpec('fn_get', requires=lambda s: sz(s, 'f') + [0 <= s('k')], ensures=lambda s: [('coefficient', s('out') == at(s.e('f'), s.n('f'), s('k')))])
# ---- inverse: f * inv(f) = 1 modulo x^len
rs = UF('rest', AT, Int, AT, Int, Int, T)     # sum of G[i - j] f_j over 1 <= j < k
@definition
def rs_def(F, n, G, i, k): return rs(F, n, G, i, k) == If(k <= 1, of(V(0)), add(rs(F, n, G, i, k - 1), mul(G[i - (k - 1)], at(F, n, k - 1))))
rs_ext = Lemma('rest_ext', [AT, Int, AT, AT, Int, Int], lambda F, n, G, H, i, k: Implies(forall(1, lambda t: Implies(And(i - k < t, t < i), G[t] == H[t]), pat=lambda t: G[t]), rs(F, n, G, i, k) == rs(F, n, H, i, k)),
    proof=lambda ih, u, F, n, G, H, i, k: [rs_def(F, n, G, i, k), rs_def(F, n, H, i, k), ih(F, n, G, H, i, k - 1), G[i - (k - 1)] == G[i - (k - 1)]], measure=lambda F, n, G, H, i, k: mx(k, 0))
def len_(s): return If(s('len') < 0, s.n('f'), s('len'))
co = UF('product_coefficient', AT, Int, AT, Int, T)     # coefficient i of f * g
@definition
def co_def(F, n, G, i): return co(F, n, G, i) == add(mul(G[i], F[0]), rs(F, n, G, i, i + 1))
co_ext = Lemma('coefficient_ext', [AT, Int, AT, AT, Int], lambda F, n, G, H, i: Implies(And(i >= 0, forall(1, lambda t: Implies(And(0 <= t, t <= i), G[t] == H[t]), pat=lambda t: G[t])), co(F, n, G, i) == co(F, n, H, i)),
    proof=lambda ih, u, F, n, G, H, i: [co_def(F, n, G, i), co_def(F, n, H, i), u(rs_ext, F, n, G, H, i, i + 1), G[i] == G[i]])
def okc(s, G, i): return co(s.e('f'), s.n('f'), G, i) == of(V(0))
def strip(s, G): return next((t for c, t in s.ex.named.values() if c.eq(G)), G)
def same(s, H, G): s.lemma_all(co_ext, forall(1, lambda k: co_ext.inst(s.e('f'), s.n('f'), H, G, k), pat=lambda k: co(s.e('f'), s.n('f'), G, k)))
def i_fix(s): return [('size', And(s.n('out') == len_(s))), ('constant term', And(mul(s.e('out')[0], s.e('f')[0]) == of(V(1)), s.v('inv_f0') == inv(s.e('f')[0])))]
def i1(s): G, i = s.e('out'), s.v('i'); return i_fix(s) + [('range', And(1 <= i, i <= mx(1, len_(s)))), ('zero', rngq(i, len_(s), lambda k: G[k] == of(V(0)), pat=lambda k: G[k])), ('coefficients', rngq(1, i, lambda k: okc(s, G, k), pat=lambda k: co(s.e('f'), s.n('f'), G, k)))]
def i2(s): G, i, j = s.e('out'), s.v('i'), s.v('j'); return i_fix(s) + [('range', And(1 <= i, i < len_(s), 1 <= j, j <= i + 1)), ('zero', rngq(i + 1, len_(s), lambda k: G[k] == of(V(0)), pat=lambda k: G[k])), ('coefficients', rngq(1, i, lambda k: okc(s, G, k), pat=lambda k: co(s.e('f'), s.n('f'), G, k))), ('partial', add(G[i], rs(s.e('f'), s.n('f'), G, i, j)) == of(V(0)))]
def i2_use(s):
    F, n, G, i, j = s.e('f'), s.n('f'), s.e('out'), s.v('i'), s.v('j')
    s.assume_def(rs_def(F, n, G, i, j)); P = s.prev
    if P is None: s.assume_def(rs_def(F, n, G, i, V(1))); return
    H = P.e('out'); same(s, H, G); s.lemma(rs_ext, F, n, H, G, i, P.v('j')); s.have('term', G[i - P.v('j')] == H[i - P.v('j')])
    a, t, r = H[i], mul(G[i - P.v('j')], at(F, n, P.v('j'))), rs(F, n, G, i, P.v('j'))
    s.have('entry', G[i] == sub(a, t)); s.have('sum', add(a, r) == of(V(0)))
    s.have('next', add(sub(a, t), add(r, t)) == add(add(sub(a, t), t), r))
def i1_use(s):
    P = s.prev
    if P is None: return
    F, n, G, i = s.e('f'), s.n('f'), s.e('out'), P.v('i'); t = strip(s, G)
    if not (z3.is_store(t) or t.decl().kind() == z3.Z3_OP_STORE): return
    H = t.arg(0); same(s, H, G); s.assume_def(co_def(F, n, G, i)); s.lemma(rs_ext, F, n, H, G, i, i + 1)
    X, r, c = H[i], rs(F, n, G, i, i + 1), s.v('inv_f0')
    s.have('entry', G[i] == mul(X, c)); s.have('sum', add(X, r) == of(V(0))); s.have('divided', mul(mul(X, c), F[0]) == X); s.have('coefficient', co(F, n, G, i) == of(V(0)))
w_inv = FnSpec('fn_inv', requires=lambda s: sz(s, 'f') + [And(s.n('f') > 0, s('len') <= MAXN, len_(s) > 0), mul(s.e('f')[0], inv(s.e('f')[0])) == of(V(1))], ensures=lambda s: [('size', s.n('out') == len_(s)), ('constant term', mul(s.e('out')[0], s.e('f')[0]) == of(V(1))), ('other coefficients vanish', rngq(1, len_(s), lambda k: okc(s, s.e('out'), k), pat=lambda k: co(s.e('f'), s.n('f'), s.e('out'), k)))],
    loops=[LoopSpec(i1, dec=lambda s: len_(s) - s.v('i'), use=i1_use), LoopSpec(i2, dec=lambda s: s.v('i') + 1 - s.v('j'), use=i2_use)])
specs = [w_add, w_sub, w_scale, w_neg, w_mul, w_muln, w_diff, w_eval, w_get, w_inv]
unit = Unit('fpsnaive', specs, opaque={'T': 'T'}, theory=RING)
