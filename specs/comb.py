from irv.spec import *
from irv.unit import Unit
V = z3.IntVal
T = OSort('T'); AT = z3.ArraySort(Int, T)
add, mul, inv, div, of, same = UF('uf_add', T, T, T), UF('uf_mul', T, T, T), UF('uf_inv', T, T), UF('uf_div', T, T, T), UF('uf_of', Int, T), UF('uf_same', T, T, Bool)
MAXN = 1 << 29
x, y, z = z3.Consts('ax_x ax_y ax_z', T)
# the coefficients form a commutative monoid under multiplication
MON = [z3.ForAll([x, y], mul(x, y) == mul(y, x), patterns=[mul(x, y)]), z3.ForAll([x, y, z], mul(mul(x, y), z) == mul(x, mul(y, z)), patterns=[mul(mul(x, y), z), mul(x, mul(y, z))]), z3.ForAll([x], mul(x, of(V(1))) == x, patterns=[mul(x, of(V(1)))])]
@definition     # instances of the axioms above, for lemmas
def assoc(x, y, z): return mul(mul(x, y), z) == mul(x, mul(y, z))
@definition
def comm(x, y): return mul(x, y) == mul(y, x)
@definition
def unit_(x): return mul(x, of(V(1))) == x
def rngq(lo, hi, f, pat): return forall(1, lambda k: Implies(And(lo <= k, k < hi), f(k)), pat=pat)
mx = lambda a, b: If(a > b, a, b)
# ---- factorials
FACT = UF('FACT', Int, T)
@definition
def fact_def(k): return FACT(k) == If(k <= 0, of(V(1)), mul(FACT(k - 1), of(k)))
def F(s): return s.e('_fac'), s.e('_fac_inv'), s.n('_fac'), s.n('_fac_inv')
isinv = lambda a, b: mul(a, b) == of(V(1))
def wf(s, lo=None, top=None):
    A, B, n, m = F(s)
    return [('size', And(n == m, 1 <= n, n <= MAXN + 1)), ('factorials', rngq(0, n if top is None else top, lambda k: A[k] == FACT(k), pat=lambda k: A[k])), ('inverses', rngq(0, n if lo is None else lo, lambda k: isinv(B[k], FACT(k)), pat=lambda k: B[k]))]
def f_req(nm):
    return lambda s: wf(s) + [('argument', And(0 <= s(nm), s(nm) <= MAXN)), ('n! is invertible', isinv(div(of(V(1)), FACT(s(nm))), FACT(s(nm))))]
def f_ens(nm): return lambda s: wf(s) + [('long enough', F(s)[2] == mx(F(s.old)[2], s(nm) + 1))]
def l1(s): i = s.v('i'); return [('range', And(F(s.old)[2] <= i, i <= F(s)[2], F(s)[2] == s.v('new_size'), s.v('new_size') == s('n') + 1, s.v('sz') == F(s.old)[2]))] + wf(s, F(s.old)[2], i)
def l2(s):
    A, B, n, m = F(s); i, s0 = s.v('i'), F(s.old)[2]
    return [('range', And(s0 <= i, i < n, n == s('n') + 1, s.v('sz') == s0))] + wf(s, s0) + [('upper inverses', rngq(i, n, lambda k: isinv(B[k], FACT(k)), pat=lambda k: B[k]))]
C_ens = FnSpec('factorial::ensure', match=r'suisen::factorial<T, T>::ensure\(int\)', requires=f_req('n'), ensures=f_ens('n'), modifies=lambda s: ['_fac', '_fac_inv'],
    loops=[LoopSpec(l1, dec=lambda s: F(s)[2] - s.v('i'), use=lambda s: s.assume_def(fact_def(s.v('i') - 1))), LoopSpec(l2, dec=lambda s: s.v('i'), use=lambda s: s.assume_def(fact_def(s.v('i') + 1)))])
w_ens = FnSpec('fa_ensure', requires=f_req('n'), ensures=f_ens('n'))
w_fac = FnSpec('fa_fac', requires=f_req('n'), ensures=lambda s: wf(s) + [('n!', s('out') == FACT(s('n')))])
w_finv = FnSpec('fa_finv', requires=f_req('n'), ensures=lambda s: wf(s) + [('1 / n!', isinv(s('out'), FACT(s('n'))))])
def b_req(s): n = s('n'); return wf(s) + [('argument', n <= MAXN), ('n! is invertible', Implies(n >= 0, isinv(div(of(V(1)), FACT(n)), FACT(n))))]
out_of = lambda s: Or(s('n') < 0, s('r') < 0, s('n') < s('r'))
w_binom = FnSpec('fa_binom', requires=b_req, ensures=lambda s: wf(s) + [('zero outside', Implies(out_of(s), s('out') == of(V(0)))), ('n! = C(n, r) r! (n - r)!', Implies(Not(out_of(s)), mul(s('out'), mul(FACT(s('r')), FACT(s('n') - s('r')))) == FACT(s('n'))))])
w_perm = FnSpec('fa_perm', requires=b_req, ensures=lambda s: wf(s) + [('zero outside', Implies(out_of(s), s('out') == of(V(0)))), ('n! = P(n, r) (n - r)!', Implies(Not(out_of(s)), mul(s('out'), FACT(s('n') - s('r'))) == FACT(s('n'))))])
# ---- powers
pw = UF('pw', T, Int, T)
@definition
def pw_def(b, k): return pw(b, k) == If(k <= 0, of(V(1)), mul(b, pw(b, k - 1)))
def p_wf(o):
    return lambda s: [('size', And(1 <= s.n(o + '.pows'), s.n(o + '.pows') <= MAXN + 1)), ('powers', rngq(0, s.n(o + '.pows'), lambda k: s.e(o + '.pows')[k] == pw(s(o + '.base'), k), pat=lambda k: s.e(o + '.pows')[k]))]
def p_inv(s):
    i, A = s.v('i'), s.e('this.pows'); return [('range', And(s.old.n('this.pows') <= i, i <= s('n') + 1, s.n('this.pows') == s('n') + 1, s.v('sz') == s.old.n('this.pows'))), ('powers', rngq(0, i, lambda k: A[k] == pw(s('this.base'), k), pat=lambda k: A[k]))]
C_pw = FnSpec('pow_mods::ensure', match=r'suisen::pow_mods<T>::ensure\(int\) const', requires=lambda s: p_wf('this')(s) + [s('n') <= MAXN], ensures=lambda s: p_wf('this')(s) + [('long enough', s.n('this.pows') == mx(s.old.n('this.pows'), s('n') + 1))], modifies=lambda s: ['this.pows'],
    loops=[LoopSpec(p_inv, dec=lambda s: s.n('this.pows') - s.v('i'), use=lambda s: s.assume_def(pw_def(s('this.base'), s.v('i') - 1)))])
w_pe = FnSpec('pw_ensure', requires=lambda s: p_wf('p')(s) + [s('n') <= MAXN], ensures=lambda s: p_wf('p')(s) + [('long enough', s.n('p.pows') > s('n'))])
w_pg = FnSpec('pw_get', requires=lambda s: p_wf('p')(s) + [0 <= s('n'), s('n') <= MAXN], ensures=lambda s: p_wf('p')(s) + [('power', s('out') == pw(s('p.base'), s('n')))])
# ---- inverses of 1 .. n modulo the prime MOD
MOD = 998244353
shift, divides = UF('shift', Int, Int, Int), UF('divides', Int, Int, Bool)     # shift(a, q) = a + q * MOD
@definition
def shift_def(a, q): return shift(a, q) == a + q * MOD
times = UF('times', Int, Int, Int)
@definition
def times_def(a, b): return times(a, b) == a * b
@definition
def div_def(k, m): return divides(k, m) == (m % k == 0)
a_, q_ = z3.Ints('ax_a ax_q')
INTS = [z3.ForAll([a_, q_], mul(of(a_), of(q_)) == of(times(a_, q_)), patterns=[mul(of(a_), of(q_))]), z3.ForAll([a_, q_], of(shift(a_, q_)) == of(a_), patterns=[of(shift(a_, q_))])]
def iv_ok(s, top): A = s.e('invs'); return [('zero', Implies(top > 0, A[0] == of(V(0)))), ('inverses', rngq(1, top, lambda k: isinv(A[k], of(k)), pat=lambda k: A[k]))]
def iv_wf(s): n = s.n('invs'); return [('size', And(0 <= n, n <= MOD))] + iv_ok(s, n)
def iv_req(s): return iv_wf(s) + [('argument', And(s('n') < MOD)), ('prime modulus', forall(1, lambda k: Implies(And(1 < k, k < MOD), Not(divides(k, V(MOD)))), pat=lambda k: divides(k, V(MOD))))]
def iv_inv(s): i = s.v('i'); return [('range', And(2 <= i, i <= s('n') + 1, s.n('invs') == s('n') + 1))] + iv_ok(s, i)
quot = Lemma('quotient', [Int], lambda i: Implies(i > 0, And(times(MOD - V(MOD) / i, i) == shift(V(MOD) % i, i - 1), 0 <= V(MOD) % i, V(MOD) % i < i)), proof=lambda ih, u, i: [shift_def(V(MOD) % i, i - 1), times_def(MOD - V(MOD) / i, i)])
def iv_use(s):
    i = s.v('i') - 1
    s.assume_def(div_def(i, V(MOD))); s.assume_def(shift_def(V(MOD) % i, i - 1)); s.lemma(quot, i)
    if s.prev is None: return
    A = s.prev.e('invs'); r, m = V(MOD) % i, of(MOD - V(MOD) / i)
    s.have('inverse of the remainder', isinv(A[r], of(r))); s.have('congruent', mul(m, of(i)) == of(r)); s.have('new', isinv(mul(m, A[r]), of(i)))
C_iv = FnSpec('inv_mods::ensure', match=r'suisen::inv_mods<T>::ensure\(int\)', requires=iv_req, ensures=lambda s: iv_wf(s) + [('long enough', And(s.n('invs') > s('n'), s.n('invs') >= 2))], modifies=lambda s: ['invs'],
    loops=[LoopSpec(iv_inv, dec=lambda s: s('n') + 1 - s.v('i'), use=iv_use)])
w_iv = FnSpec('iv_ensure', requires=iv_req, ensures=lambda s: iv_wf(s) + [('long enough', s.n('invs') > s('n'))])
# ---- inverses of many elements
pp, sp = UF('prefix_product', AT, Int, T), UF('suffix_product', AT, Int, Int, T)
@definition
def pp_def(A, i): return pp(A, i) == If(i <= 0, of(V(1)), mul(pp(A, i - 1), A[i - 1]))
@definition
def sp_def(A, i, n): return sp(A, i, n) == If(i >= n, of(V(1)), mul(sp(A, i + 1, n), A[i]))
split = Lemma('split_product', [AT, Int, Int], lambda A, i, n: Implies(And(0 <= i, i <= n), mul(pp(A, i), sp(A, i, n)) == pp(A, n)), proof=lambda ih, u, A, i, n: [sp_def(A, i, n), pp_def(A, i + 1), ih(A, i + 1, n), comm(sp(A, i + 1, n), A[i]), assoc(pp(A, i), A[i], sp(A, i + 1, n)), unit_(pp(A, i))], measure=lambda A, i, n: n - i)
def bt_sz(s, *os): return And(*[s.n(o) == s.n('a') + d for o, d in os])
def b1(s): k = s.v('__begin0'); return [('range', And(0 <= k, k <= s.n('a'))), ('product', s.v('p') == pp(s.e('a'), k))]
def b2(s): i, A, n = s.v('i'), s.e('a'), s.n('a'); return [('range', And(-1 <= i, i < n, s.n('rp') == n + 1, s.v('ip') == inv(pp(A, n)))), ('suffix products', rngq(i + 1, n + 1, lambda k: s.e('rp')[k] == sp(A, k, n), pat=lambda k: s.e('rp')[k]))]
def b3(s): i, A, n = s.v('i'), s.e('a'), s.n('a'); return [('range', And(0 <= i, i <= n, s.n('rp') == n + 1, s.n('out') == n, s.v('ip') == mul(inv(pp(A, n)), pp(A, i)))), ('suffix products', rngq(0, n + 1, lambda k: s.e('rp')[k] == sp(A, k, n), pat=lambda k: s.e('rp')[k])), ('inverses', rngq(0, i, lambda k: isinv(s.e('out')[k], A[k]), pat=lambda k: s.e('out')[k]))]
def b3_use(s):
    i, A, n = s.v('i'), s.e('a'), s.n('a'); s.assume_def(pp_def(A, i))
    if s.prev is None: return
    i = i - 1; s.assume_def(sp_def(A, i, n)); s.lemma(split, A, i, n); R = mul(mul(inv(pp(A, n)), pp(A, i)), sp(A, i + 1, n))
    s.have('regrouped', mul(R, A[i]) == mul(inv(pp(A, n)), mul(pp(A, i), sp(A, i, n)))); s.have('inverse', isinv(R, A[i]))
w_bt = FnSpec('iv_batch', requires=lambda s: [And(0 <= s.n('a'), s.n('a') <= MAXN), ('invertible product', isinv(inv(pp(s.e('a'), s.n('a'))), pp(s.e('a'), s.n('a')))), ('no zero', rngq(0, s.n('a'), lambda k: Not(same(s.e('a')[k], of(V(0)))), pat=lambda k: s.e('a')[k]))],
    ensures=lambda s: [('size', s.n('out') == s.n('a')), ('inverses', rngq(0, s.n('a'), lambda k: isinv(s.e('out')[k], s.e('a')[k]), pat=lambda k: s.e('out')[k]))],
    loops=[LoopSpec(b1, dec=lambda s: s.n('a') - s.v('__begin0'), use=lambda s: s.assume_def(pp_def(s.e('a'), s.v('__begin0')))), LoopSpec(b2, dec=lambda s: s.v('i') + 1, use=lambda s: s.assume_def(sp_def(s.e('a'), s.v('i') + 1, s.n('a')))), LoopSpec(b3, dec=lambda s: s.n('a') - s.v('i'), use=b3_use)])
# ---- derangements, Stirling numbers by their recurrences
mm = UF('montmort', Int, T)
@definition
def mm_def(k): return mm(k) == If(k <= 0, of(V(1)), If(k == 1, of(V(0)), mul(of(k - 1), add(mm(k - 1), mm(k - 2)))))
def mm_inv(s): i, A = s.v('i'), s.e('out'); return [('range', And(2 <= i, s.n('out') == i, i <= mx(2, s('n') + 1))), ('numbers', rngq(0, i, lambda k: A[k] == mm(k), pat=lambda k: A[k]))]
def mm_use(s): [s.assume_def(mm_def(k)) for k in (V(0), V(1), s.v('i') - 1)]
w_mm = FnSpec('sq_montmort', requires=lambda s: [And(0 <= s('n'), s('n') <= MAXN)], ensures=lambda s: [('size', s.n('out') == s('n') + 1), ('numbers', rngq(0, s.n('out'), lambda k: s.e('out')[k] == mm(k), pat=lambda k: s.e('out')[k]))], loops=[LoopSpec(mm_inv, dec=lambda s: mx(2, s('n') + 1) - s.v('i'), use=mm_use)])
def table(name, f, step):
    @definition
    def d(i, j): return f(i, j) == If(j == i, of(V(1)), If(j <= 0, of(V(0)), add(f(i - 1, j - 1), step(i, j, f(i - 1, j)))))
    G = lambda s: (s.e('out', '__e'), s.e('out', '__n'), s.n('out'))
    def rows(s, i): A, N, n = G(s); return [('shape', And(n == s('n') + 1, forall(1, lambda r: Implies(And(0 <= r, r < n), N[r] == If(r < i, r + 1, 0)), pat=lambda r: N[r]))), ('numbers', forall(2, lambda r, c: Implies(And(0 <= c, c <= r, r < i), A[r][c] == f(r, c)), pat=lambda r, c: A[r][c]))]
    def t1(s): i = s.v('i'); return [('range', And(0 <= i, i <= s('n') + 1))] + rows(s, i)
    def t2(s):
        A, N, n = G(s); i, j = s.v('i'), s.v('j')
        return [('range', And(0 <= i, i <= s('n'), 1 <= j, j <= mx(i, 1), n == s('n') + 1)), ('shape', forall(1, lambda r: Implies(And(0 <= r, r < n), N[r] == If(r <= i, r + 1, 0)), pat=lambda r: N[r])), ('numbers', forall(2, lambda r, c: Implies(And(0 <= c, c <= r, r < i), A[r][c] == f(r, c)), pat=lambda r, c: A[r][c])), ('row', forall(1, lambda c: Implies(And(0 <= c, c <= i, Or(c < j, c == i)), A[i][c] == f(i, c)), pat=lambda c: A[i][c]))]
    def u1(s): i = s.v('i'); s.assume_def(d(i, V(0))); s.assume_def(d(i, i))
    def u2(s): i, j = s.v('i'), s.v('j'); s.assume_def(d(i, V(0))); s.assume_def(d(i, i)); s.assume_def(d(i, j - 1))
    return FnSpec(name, requires=lambda s: [And(0 <= s('n'), s('n') <= MAXN)], ensures=lambda s: rows(s, s('n') + 1), loops=[LoopSpec(t1, dec=lambda s: s('n') + 1 - s.v('i'), use=u1), LoopSpec(t2, dec=lambda s: mx(s.v('i'), 1) - s.v('j'), use=u2)])
s1, s2 = UF('stirling1', Int, Int, T), UF('stirling2', Int, Int, T)
w_s1 = table('sq_stir1', s1, lambda i, j, v: mul(of(i - 1), v)); w_s2 = table('sq_stir2', s2, lambda i, j, v: mul(of(j), v))
specs = [C_ens, w_ens, w_fac, w_finv, w_binom, w_perm, C_pw, w_pe, w_pg, C_iv, w_iv, w_bt, w_mm, w_s1, w_s2]
unit = Unit('comb', specs, opaque={'T': 'T'}, theory=MON + INTS, contracts=[C_ens, C_pw, C_iv], keep=['factorial<T, T>::ensure', 'inv_mods<T>::ensure', 'pow_mods<T>::ensure'])
