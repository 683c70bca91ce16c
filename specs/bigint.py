from irv.spec import *
from irv.unit import Unit
V = z3.IntVal
A_I = z3.ArraySort(Int, Int)
D = 10 ** 9
MAXN = 1 << 28
P, val, hv = UF('pow_D', Int, Int), UF('val', A_I, Int, Int), UF('high_part', A_I, Int, Int, Int)
mn, mx = lambda a, b: If(a < b, a, b), lambda a, b: If(a > b, a, b)
@definition
def P_def(k): return P(k) == If(k <= 0, V(1), D * P(k - 1))
@definition
def val_def(A, n): return val(A, n) == If(n <= 0, V(0), val(A, n - 1) + A[n - 1] * P(n - 1))
@definition     # the digits i .. n-1 read as a number
def hv_def(A, i, n): return hv(A, i, n) == If(i >= n, V(0), A[i] + D * hv(A, i + 1, n))
def rngq(lo, hi, f, pat): return forall(1, lambda k: Implies(And(lo <= k, k < hi), f(k)), pat=pat)
def digits(A, lo, hi): return rngq(lo, hi, lambda k: And(0 <= A[k], A[k] < D), pat=lambda k: A[k])
nonneg = Lemma('product_nonnegative', [Int, Int], lambda x, p: Implies(And(x >= 0, p >= 0), x * p >= 0), proof=lambda ih, u, x, p: [])
mono = Lemma('product_monotone', [Int, Int, Int], lambda x, y, p: Implies(And(x <= y, p >= 0), x * p <= y * p), proof=lambda ih, u, x, y, p: [(y - x) * p == y * p - x * p, u(nonneg, y - x, p)])
P_pos = Lemma('pow_positive', [Int], lambda k: P(k) >= 1, proof=lambda ih, u, k: [P_def(k), ih(k - 1)], measure=lambda k: mx(k, 0))
P_mono = Lemma('pow_monotone', [Int, Int], lambda j, k: Implies(And(0 <= j, j <= k), P(j) <= P(k)), proof=lambda ih, u, j, k: [P_def(k), ih(j, k - 1), u(P_pos, k - 1)], measure=lambda j, k: mx(k - j, 0))
bound = Lemma('value_bound', [A_I, Int], lambda A, n: Implies(And(n >= 0, digits(A, 0, n)), And(0 <= val(A, n), val(A, n) < P(n))),
    proof=lambda ih, u, A, n: [val_def(A, n), P_def(n), ih(A, n - 1), u(P_pos, n - 1), A[n - 1] == A[n - 1], u(nonneg, A[n - 1], P(n - 1)), u(mono, A[n - 1], V(D - 1), P(n - 1))], measure=lambda A, n: mx(n, 0))
ext = Lemma('value_ext', [A_I, A_I, Int], lambda A, B, n: Implies(rngq(0, n, lambda k: A[k] == B[k], pat=lambda k: A[k]), val(A, n) == val(B, n)), proof=lambda ih, u, A, B, n: [val_def(A, n), val_def(B, n), ih(A, B, n - 1), A[n - 1] == A[n - 1]], measure=lambda A, B, n: mx(n, 0))
diff = Lemma('value_difference', [A_I, A_I, Int, Int], lambda A, B, k, n: Implies(And(0 <= k, k <= n, rngq(k, n, lambda j: A[j] == B[j], pat=lambda j: A[j])), val(A, n) - val(B, n) == val(A, k) - val(B, k)), proof=lambda ih, u, A, B, k, n: [val_def(A, n), val_def(B, n), ih(A, B, k, n - 1), A[n - 1] == A[n - 1]], measure=lambda A, B, k, n: mx(n - k, 0))
upd = Lemma('value_update', [A_I, A_I, Int, Int], lambda A, B, k, n: Implies(And(0 <= k, k < n, rngq(0, n, lambda j: Or(j == k, A[j] == B[j]), pat=lambda j: B[j])), val(B, n) == val(A, n) + (B[k] - A[k]) * P(k)),
    proof=lambda ih, u, A, B, k, n: [u(diff, A, B, k + 1, n), u(ext, A, B, k), val_def(A, k + 1), val_def(B, k + 1), B[k] == B[k]])
zeros = Lemma('value_zeros', [A_I, Int, Int], lambda A, m, n: Implies(And(0 <= m, m <= n, rngq(m, n, lambda j: A[j] == 0, pat=lambda j: A[j])), val(A, n) == val(A, m)), proof=lambda ih, u, A, m, n: [val_def(A, n), ih(A, m, n - 1), A[n - 1] == A[n - 1]], measure=lambda A, m, n: mx(n - m, 0))
# a canonical number of n digits is at least D^(n-1)
low = Lemma('value_low', [A_I, Int], lambda A, n: Implies(And(n > 0, digits(A, 0, n), A[n - 1] > 0), val(A, n) >= P(n - 1)), proof=lambda ih, u, A, n: [val_def(A, n), u(bound, A, n - 1), u(P_pos, n - 1), u(mono, V(1), A[n - 1], P(n - 1))])
top = Lemma('value_top', [A_I, A_I, Int], lambda A, B, n: Implies(And(n > 0, digits(A, 0, n), digits(B, 0, n), A[n - 1] < B[n - 1]), val(A, n) < val(B, n)), proof=lambda ih, u, A, B, n: [val_def(A, n), val_def(B, n), u(bound, A, n - 1), u(bound, B, n - 1), u(mono, A[n - 1] + 1, B[n - 1], P(n - 1)), (A[n - 1] + 1) * P(n - 1) == A[n - 1] * P(n - 1) + P(n - 1), u(P_pos, n - 1)])
uniq = Lemma('value_unique', [A_I, A_I, Int, Int], lambda A, B, k, n: Implies(And(0 <= k, k < n, digits(A, 0, n), digits(B, 0, n), A[k] != B[k]), val(A, n) != val(B, n)), proof=lambda ih, u, A, B, k, n: [u(top, A, B, n), u(top, B, A, n), ih(A, B, k, n - 1), val_def(A, n), val_def(B, n), u(mono, A[n - 1], B[n - 1], P(n - 1)), u(mono, B[n - 1], A[n - 1], P(n - 1)), u(P_pos, n - 1)], measure=lambda A, B, k, n: mx(n, 0))
high = Lemma('value_high', [A_I, Int, Int], lambda A, i, n: Implies(And(0 <= i, i <= n), val(A, i) + P(i) * hv(A, i, n) == val(A, n)), proof=lambda ih, u, A, i, n: [hv_def(A, i, n), val_def(A, i + 1), P_def(i + 1), ih(A, i + 1, n), P(i) * (A[i] + D * hv(A, i + 1, n)) == A[i] * P(i) + (D * P(i)) * hv(A, i + 1, n)], measure=lambda A, i, n: mx(n - i, 0))
def G(s, o): return s.e(o), s.n(o)
def wf(s, o): A, n = G(s, o); return [('size', And(0 <= n, n <= MAXN)), ('digits', digits(A, 0, n)), ('no leading zero', Implies(n > 0, A[n - 1] > 0))]
def vl(s, o): return val(*G(s, o))
# ---- comparisons
def sized(s):
    (A, n), (B, m) = G(s, 'a'), G(s, 'b')
    for X, k in ((A, n), (B, m)): s.lemma(bound, X, k); s.lemma(low, X, k)
    s.lemma(P_mono, n, m - 1); s.lemma(P_mono, m, n - 1)
    s.assume_def(val_def(A, V(0))); s.assume_def(val_def(B, V(0)))
    for k in (n, m): s.lemma(P_pos, k); s.lemma(P_pos, k - 1)
def lt_inv(s): (A, n), (B, m), i = G(s, 'a'), G(s, 'b'), s.v('i'); return [('range', And(0 <= i, i <= n, n == m)), ('equal so far', rngq(i, n, lambda k: A[k] == B[k], pat=lambda k: A[k]))]
def lt_head(s): (A, n), (B, m), i = G(s, 'a'), G(s, 'b'), s.v('i'); s.lemma(diff, A, B, i, n); s.lemma(top, A, B, i); s.lemma(top, B, A, i); s.assume_def(val_def(A, V(0))); s.assume_def(val_def(B, V(0)))
C_lt = FnSpec('lt_contract', match=r'suisen::operator<\(suisen::unsigned_bigint const&', requires=lambda s: wf(s, 'a') + wf(s, 'b'), ensures=lambda s: [('a < b', s.res == (vl(s, 'a') < vl(s, 'b')))], pre=sized, loops=[LoopSpec(lt_inv, dec=lambda s: s.v('i'), head=lt_head)])
def eq_inv(s): (A, n), (B, m), i = G(s, 'a'), G(s, 'b'), s.v('i'); return [('range', And(0 <= i, i <= n, n == m)), ('equal so far', rngq(0, i, lambda k: A[k] == B[k], pat=lambda k: A[k]))]
def eq_head(s): (A, n), (B, m), i = G(s, 'a'), G(s, 'b'), s.v('i'); s.lemma(ext, A, B, n); s.lemma(uniq, A, B, i, n)
C_eq = FnSpec('eq_contract', match=r'suisen::operator==\(suisen::unsigned_bigint const&', requires=lambda s: wf(s, 'a') + wf(s, 'b'), ensures=lambda s: [('a == b', s.res == (vl(s, 'a') == vl(s, 'b')))], pre=sized, loops=[LoopSpec(eq_inv, dec=lambda s: s.n('a') - s.v('i'), head=eq_head)])
def bl(s): A, n = G(s, 'a'); s.lemma(bound, A, n); s.lemma(low, A, n); s.lemma(P_pos, n - 1); s.assume_def(val_def(A, V(0)))
w_bool = FnSpec('ub_bool', requires=lambda s: wf(s, 'a'), ensures=lambda s: [('nonzero', s.res == (vl(s, 'a') != 0))], pre=bl)
# ---- increment, decrement: what is still to be added (taken away) is carried as D^i
def incdec(O_):
    def inc_inv(s): (A, n), (O, n0), i = G(s, O_), G(s.old, O_), s.v('__begin2'); return [('range', And(0 <= i, i <= n, n == n0)), ('digits', digits(A, 0, n)), ('zeros', rngq(0, i, lambda k: A[k] == 0, pat=lambda k: A[k])), ('rest', rngq(i, n, lambda k: A[k] == O[k], pat=lambda k: A[k])), ('value', val(A, n) + P(i) == val(O, n) + 1)]
    def inc_head(s):
        (A, n), i = G(s, O_), s.v('__begin2')
        for B in (z3.Store(A, i, A[i] + 1), z3.Store(z3.Store(A, i, A[i] + 1), i, A[i] + 1 - D), z3.Store(A, i, A[i] + 1 - D), z3.Store(A, i, V(0))): s.lemma(upd, A, B, i, n); s.assume_def((A[i] + 1 - A[i]) * P(i) == P(i))
        s.assume_def(P_def(i + 1)); s.lemma(P_pos, i); s.lemma(zeros, A, V(0), i); s.assume_def(val_def(A, V(0))); s.assume_def(P_def(V(0)))
    def inc_use(s):
        s.assume_def(P_def(V(0))); (A, n), i = G(s, O_), s.v('__begin2'); s.assume_def(P_def(i))
        if s.prev is not None: s.lemma(upd, s.prev.e(O_), A, i - 1, n); s.assume_def((A[i - 1] - s.prev.e(O_)[i - 1]) * P(i - 1) == A[i - 1] * P(i - 1) - s.prev.e(O_)[i - 1] * P(i - 1))
    def inc_end(s): (A, n), (O, n0) = G(s, O_), G(s.old, O_); s.assume_def(val_def(A, n0 + 1)); s.lemma(zeros, A, V(0), n0); s.lemma(ext, A, O, n0); B = z3.Store(A, n0, V(0)); s.assume_def(val_def(A, V(0)))
    inc_loop = lambda: [LoopSpec(inc_inv, dec=lambda s: s.n(O_) - s.v('__begin2'), head=inc_head, use=inc_use)]

    def dec_inv(s): (A, n), (O, n0), i = G(s, O_), G(s.old, O_), s.v('__begin2'); return [('range', And(0 <= i, i <= n, n == n0, n > 0)), ('digits', digits(A, 0, n)), ('borrowed', rngq(0, i, lambda k: O[k] == 0, pat=lambda k: A[k])), ('rest', rngq(i, n, lambda k: A[k] == O[k], pat=lambda k: A[k])), ('value', val(A, n) - P(i) == val(O, n) - 1)]
    def dec_head(s):
        (A, n), i = G(s, O_), s.v('__begin2')
        for B in (z3.Store(A, i, A[i] - 1), z3.Store(z3.Store(A, i, A[i] - 1), i, A[i] - 1 + D)): s.lemma(upd, A, B, i, n)
        s.assume_def(P_def(i + 1)); s.lemma(P_pos, i); s.assume_def(P_def(V(0)))
    def cut_inv(s, n1=None):
        (A, n), (O, n0) = G(s, O_), G(s.old, O_); return [('range', And(0 <= n, n <= n0)), ('digits', digits(A, 0, n))]
    def cut_use(s): A, n = G(s, O_); s.assume_def(val_def(A, n + 1)); s.assume_def(val_def(A, n))
    def dec_cut(s): return cut_inv(s) + [('value', vl(s, O_) == vl(s.old, O_) - 1)]
    def dec_use(s):
        s.assume_def(P_def(V(0))); (A, n), i = G(s, O_), s.v('__begin2'); s.assume_def(P_def(i))
        if s.prev is not None: s.lemma(upd, s.prev.e(O_), A, i - 1, n); s.assume_def((A[i - 1] - s.prev.e(O_)[i - 1]) * P(i - 1) == A[i - 1] * P(i - 1) - s.prev.e(O_)[i - 1] * P(i - 1))
    dec_loop = lambda: [LoopSpec(dec_inv, dec=lambda s: s.n(O_) - s.v('__begin2'), head=dec_head, use=dec_use), LoopSpec(dec_cut, dec=lambda s: s.n(O_), use=cut_use)]
    return inc_loop(), dec_loop(), inc_end
il, dl, ie = incdec('a')
w_inc = FnSpec('ub_inc', requires=lambda s: wf(s, 'a') + [s.n('a') < MAXN], ensures=lambda s: wf(s, 'a') + [('value', vl(s, 'a') == vl(s.old, 'a') + 1)], loops=il, use=ie)
w_dec = FnSpec('ub_dec', requires=lambda s: wf(s, 'a') + [s.n('a') > 0], ensures=lambda s: wf(s, 'a') + [('value', vl(s, 'a') == vl(s.old, 'a') - 1)], loops=dl)
def cut_inv(s):
    (A, n), (O, n0) = G(s, 'a'), G(s.old, 'a'); return [('range', And(0 <= n, n <= n0)), ('digits', digits(A, 0, n))]
def cut_use(s): A, n = G(s, 'a'); s.assume_def(val_def(A, n + 1)); s.assume_def(val_def(A, n))
# ---- sum, difference
def add_inv(s):
    (A, n), (O, n0), (B, m), i, c = G(s, 'a'), G(s.old, 'a'), G(s.old, 'b'), s.v('i'), s.v('carry')
    return [('range', And(0 <= i, i <= n, n == mx(n0, m), Or(c == 0, c == 1), Implies(i == 0, c == 0))), ('digits', digits(A, 0, n)), ('rest', rngq(i, n, lambda k: A[k] == If(k < n0, O[k], 0), pat=lambda k: A[k])), ('top', Implies(And(i == n, n > 0), Or(c == 1, A[n - 1] > 0))), ('value', val(A, n) + c * P(i) == val(O, n0) + val(B, mn(i, m)))]
def add_pre(s): (A, n), (B, m) = G(s, 'a'), G(s, 'b'); s.assume_def(P_def(V(0))); s.assume_def(val_def(B, V(0)))
def add_head(s):
    (A, n), (O, n0), (B, m), i, c = G(s, 'a'), G(s.old, 'a'), G(s.old, 'b'), s.v('i'), s.v('carry')
    s.assume_def(val_def(B, i + 1)); s.assume_def(P_def(i + 1)); s.lemma(P_pos, i); s.lemma(ext, A, z3.Store(A, n, V(1)), n)
def add_use(s):
    (A, n), (O, n0), (B, m), i, c = G(s, 'a'), G(s.old, 'a'), G(s.old, 'b'), s.v('i'), s.v('carry'); s.assume_def(P_def(V(0))); s.assume_def(val_def(B, V(0))); s.lemma(zeros, A, n0, n); s.lemma(ext, A, O, n0)
    if s.prev is not None:
        Q = s.prev.e('a'); s.lemma(upd, Q, A, i - 1, n); s.assume_def((A[i - 1] - Q[i - 1]) * P(i - 1) == A[i - 1] * P(i - 1) - Q[i - 1] * P(i - 1)); c0 = s.prev.v('carry')
        p = P(i - 1); s.have('digit', A[i - 1] == Q[i - 1] + If(i - 1 < m, B[i - 1], 0) + c0 - D * c); 
        s.assume_def((Q[i - 1] + B[i - 1] + c0 - D * c) * p == Q[i - 1] * p + B[i - 1] * p + c0 * p - c * (D * p)); s.assume_def((Q[i - 1] + 0 + c0 - D * c) * p == Q[i - 1] * p + c0 * p - c * (D * p))
        s.have('weight', A[i - 1] * p == Q[i - 1] * p + If(i - 1 < m, B[i - 1] * p, 0) + c0 * p - c * (D * p)); s.have('next weight', c * (D * p) == c * P(i))
def add_end(s):
    (A, n), N = G(s, 'a'), mx(s.old.n('a'), s.n('b')); s.assume_def(val_def(A, N + 1))
C_add = FnSpec('add_contract', match=r'unsigned_bigint::_add_assign', modifies=lambda s: ["a"], requires=lambda s: wf(s, 'a') + wf(s, 'b') + [s.n('a') < MAXN, s.n('b') < MAXN], ensures=lambda s: wf(s, 'a') + [('value', vl(s, 'a') == vl(s.old, 'a') + vl(s.old, 'b'))], pre=add_pre, loops=[LoopSpec(add_inv, dec=lambda s: s.n('a') - s.v('i'), head=add_head, use=add_use)], use=add_end)
def sub_inv(s):
    (A, n), (O, n0), (B, m), i, c = G(s, 'a'), G(s.old, 'a'), G(s.old, 'b'), s.v('i'), s.v('borrow')
    return [('range', And(0 <= i, i <= n, n == n0, m <= n, Or(c == 0, c == 1), Implies(i == 0, c == 0))), ('digits', digits(A, 0, n)), ('rest', rngq(i, n, lambda k: A[k] == O[k], pat=lambda k: A[k])), ('value', val(A, n) - c * P(i) == val(O, n0) - val(B, mn(i, m)))]
def sub_use(s):
    (A, n), (O, n0), (B, m), i, c = G(s, 'a'), G(s.old, 'a'), G(s.old, 'b'), s.v('i'), s.v('borrow'); s.assume_def(P_def(V(0))); s.assume_def(val_def(B, V(0)))
    if s.prev is not None:
        Q = s.prev.e('a'); s.lemma(upd, Q, A, i - 1, n); s.assume_def((A[i - 1] - Q[i - 1]) * P(i - 1) == A[i - 1] * P(i - 1) - Q[i - 1] * P(i - 1)); c0 = s.prev.v('borrow')
        p = P(i - 1); s.have('digit', A[i - 1] == Q[i - 1] - If(i - 1 < m, B[i - 1], 0) - c0 + D * c)
        s.assume_def((Q[i - 1] - B[i - 1] - c0 + D * c) * p == Q[i - 1] * p - B[i - 1] * p - c0 * p + c * (D * p)); s.assume_def((Q[i - 1] - 0 - c0 + D * c) * p == Q[i - 1] * p - c0 * p + c * (D * p))
        s.have('weight', A[i - 1] * p == Q[i - 1] * p - If(i - 1 < m, B[i - 1] * p, 0) - c0 * p + c * (D * p)); s.have('next weight', c * (D * p) == c * P(i))
def sub_head(s): (A, n), (B, m), i = G(s, 'a'), G(s.old, 'b'), s.v('i'); s.assume_def(val_def(B, i + 1)); s.assume_def(P_def(i + 1)); s.lemma(P_pos, i); s.lemma(bound, A, n)
C_sub = FnSpec('sub_contract', match=r'unsigned_bigint::_sub_assign', modifies=lambda s: ["a"], requires=lambda s: wf(s, 'a') + wf(s, 'b') + [('a >= b', vl(s, 'a') >= vl(s, 'b'))], ensures=lambda s: wf(s, 'a') + [('value', vl(s, 'a') == vl(s.old, 'a') - vl(s.old, 'b'))], pre=lambda s: (sized(s), add_pre(s)), loops=[LoopSpec(sub_inv, dec=lambda s: s.n('a') - s.v('i'), head=sub_head, use=sub_use), LoopSpec(lambda s: cut_inv(s) + [('value', vl(s, 'a') == vl(s.old, 'a') - vl(s.old, 'b'))], dec=lambda s: s.n('a'), use=cut_use)])
# ---- conversions
def of_inv(s):
    A, n = G(s, 'out'); v, v0 = s.v('v'), s.old('v'); return [('range', And(0 <= n, n <= 3, 0 <= v, v <= v0)), ('shrinking', And(Implies(n == 1, v <= (1 << 64) // D), Implies(n == 2, v <= (1 << 64) // D // D), Implies(n == 3, v == 0))), ('fewer', v0 < (V(1 << 64))), ('digits', digits(A, 0, n)), ('top', Implies(And(v == 0, n > 0), A[n - 1] > 0)), ('value', val(A, n) + v * P(n) == v0)]
def of_use(s):
    A, n = G(s, 'out'); v = s.v('v'); s.assume_def(val_def(A, V(0))); s.assume_def(P_def(V(0))); s.assume_def(val_def(A, n)); s.assume_def(P_def(n))
    if s.prev is not None: B, m = G(s.prev, 'out'); w = s.prev.v('v'); s.lemma(ext, A, B, m); s.assume_def((w % D + D * (w / D)) * P(m) == (w % D) * P(m) + (w / D) * (D * P(m)))
def of(name, lo): return FnSpec(name, requires=lambda s: [s('v') >= 0], ensures=lambda s: wf(s, 'out') + [('value', vl(s, 'out') == s.old('v'))], loops=[LoopSpec(of_inv, dec=lambda s: s.v('v'), use=of_use)])
def to_inv(s): A, n = G(s, 'a'); i = s.v('it'); return [('range', And(0 <= i, i <= n)), ('upper digits', s.v('res') == hv(A, i, n))]
def to_head(s): A, n = G(s, 'a'); i = s.v('it'); s.assume_def(hv_def(A, i, n)); s.assume_def(hv_def(A, i - 1, n)); s.lemma(high, A, i - 1, n); s.lemma(high, A, i, n); s.lemma(bound, A, i - 1); s.lemma(P_pos, i - 1); s.lemma(hvpos, A, i - 1, n); s.lemma(hvpos, A, i, n); s.lemma(mono, V(1), P(i - 1), hv(A, i - 1, n)); s.assume_def(val_def(A, V(0))); s.assume_def(P_def(V(0)))
hvpos = Lemma('high_nonnegative', [A_I, Int, Int], lambda A, i, n: Implies(And(0 <= i, i <= n, digits(A, 0, n)), hv(A, i, n) >= 0), proof=lambda ih, u, A, i, n: [hv_def(A, i, n), ih(A, i + 1, n), A[i] == A[i]], measure=lambda A, i, n: mx(n - i, 0))
w_to = FnSpec('ub_toull', requires=lambda s: wf(s, 'a') + [vl(s, 'a') < 1 << 64], ensures=lambda s: [('value', s.res == vl(s, 'a'))], pre=lambda s: s.assume_def(hv_def(s.e('a'), s.n('a'), s.n('a'))), loops=[LoopSpec(to_inv, dec=lambda s: s.v('it'), head=to_head)])
def cp_pre(s): A, n = G(s, 'a'); k = s('k'); s.lemma(bound, A, n); s.lemma(low, A, n); s.lemma(P_mono, n, k); s.lemma(P_mono, k + 1, n - 1); s.assume_def(P_def(k + 1)); s.lemma(P_pos, k); s.assume_def(val_def(A, k + 1)); s.lemma(bound, A, k); s.lemma(mono, V(2), A[k], P(k))
def cp_inv(s): A, n = G(s, 'a'); i, k = s.v('i'), s('k'); return [('range', And(0 <= i, i <= k, n == k + 1, A[k] == 1)), ('zeros', rngq(0, i, lambda j: A[j] == 0, pat=lambda j: A[j]))]
def cp_head(s): A, n = G(s, 'a'); i, k = s.v('i'), s('k'); s.lemma(zeros, A, V(0), k); s.lemma(pos, A, i, k); s.assume_def(val_def(A, V(0)))
pos = Lemma('value_positive', [A_I, Int, Int], lambda A, i, n: Implies(And(0 <= i, i < n, digits(A, 0, n), A[i] > 0), val(A, n) > 0), proof=lambda ih, u, A, i, n: [val_def(A, n), ih(A, i, n - 1), u(bound, A, n - 1), u(P_pos, n - 1), u(mono, V(1), A[n - 1], P(n - 1)), u(nonneg, A[n - 1], P(n - 1)), A[n - 1] == A[n - 1]], measure=lambda A, i, n: mx(n, 0))
w_cp = FnSpec('ub_cmppow', requires=lambda s: wf(s, 'a') + [And(0 <= s('k'), s('k') <= MAXN)], ensures=lambda s: [('sign of a - D^k', s.res == If(vl(s, 'a') < P(s('k')), -1, If(vl(s, 'a') > P(s('k')), 1, 0)))], pre=cp_pre, loops=[LoopSpec(cp_inv, dec=lambda s: s('k') - s.v('i'), head=cp_head)])
w_lt = FnSpec('ub_lt', requires=C_lt.requires, ensures=C_lt.ensures); w_eq = FnSpec('ub_eq', requires=C_eq.requires, ensures=C_eq.ensures)
w_add = FnSpec('ub_add', requires=C_add.requires, ensures=C_add.ensures); w_sub = FnSpec('ub_sub', requires=C_sub.requires, ensures=C_sub.ensures)
# ---- signed numbers
def bwf(s, o): return wf(s, o + '._dat') + [('sign', And(Or(s(o + '._neg') == 0, s(o + '._neg') == 1), Implies(s(o + '._neg') == 1, s.n(o + '._dat') > 0)))]
def sv(s, o): v = vl(s, o + '._dat'); return If(s(o + '._neg') == 1, -v, v)
def bsized(*os):
    def f(s):
        for o in os: A, n = G(s, o + '._dat'); s.lemma(bound, A, n); s.lemma(low, A, n); s.lemma(P_pos, n - 1); s.assume_def(val_def(A, V(0)))
    return f
w_blt = FnSpec('bi_lt', requires=lambda s: bwf(s, 'a') + bwf(s, 'b'), ensures=lambda s: [('a < b', s.res == (sv(s, 'a') < sv(s, 'b')))], pre=bsized('a', 'b'))
w_beq = FnSpec('bi_eq', requires=lambda s: bwf(s, 'a') + bwf(s, 'b'), ensures=lambda s: [('a == b', s.res == (sv(s, 'a') == sv(s, 'b')))], pre=bsized('a', 'b'))
w_bneg = FnSpec('bi_neg', requires=lambda s: bwf(s, 'a'), ensures=lambda s: bwf(s, 'out') + [('value', sv(s, 'out') == -sv(s, 'a'))], pre=bsized('a'))
def asg(name, f): return FnSpec(name, requires=lambda s: bwf(s, 'a') + bwf(s, 'b') + [s.n('a._dat') < MAXN, s.n('b._dat') < MAXN], ensures=lambda s: bwf(s, 'a') + [('value', sv(s, 'a') == f(sv(s.old, 'a'), sv(s.old, 'b')))], pre=bsized('a', 'b'), use=bsized('a'))
w_badd, w_bsub = asg('bi_add', lambda x, y: x + y), asg('bi_sub', lambda x, y: x - y)
bil, bdl, bie = incdec('a._dat')
def bstep(name, d, loops): return FnSpec(name, requires=lambda s: bwf(s, 'a') + [s.n('a._dat') < MAXN], ensures=lambda s: bwf(s, 'a') + [('value', sv(s, 'a') == sv(s.old, 'a') + d)], pre=bsized('a'), use=lambda s: (bie(s), bsized('a')(s), s.assume_def(val_def(s.e('a._dat'), V(1))), s.assume_def(P_def(V(0)))), loops=loops)
w_binc = bstep('bi_inc', 1, bil + bdl); w_bdec = bstep('bi_dec', -1, [LoopSpec(unroll=3)] + bdl + bil)
# ---- multiplication and division by powers of the base
P_add = Lemma('pow_sum', [Int, Int], lambda j, k: Implies(And(0 <= j, 0 <= k), P(j + k) == P(j) * P(k)), proof=lambda ih, u, j, k: [P_def(j + k), P_def(k), ih(j, k - 1), P(j) * (D * P(k - 1)) == D * (P(j) * P(k - 1)), P(j) * 1 == P(j)], measure=lambda j, k: mx(k, 0))
shift = Lemma('value_shift', [A_I, A_I, Int, Int], lambda A, B, k, n: Implies(And(0 <= k, 0 <= n, rngq(0, n, lambda j: B[j + k] == A[j], pat=lambda j: A[j])), val(B, n + k) == val(B, k) + P(k) * val(A, n)),
    proof=lambda ih, u, A, B, k, n: [val_def(A, n), val_def(B, n + k), ih(A, B, k, n - 1), u(P_add, k, n - 1), A[n - 1] == A[n - 1], P(k) * (val(A, n - 1) + A[n - 1] * P(n - 1)) == P(k) * val(A, n - 1) + A[n - 1] * (P(k) * P(n - 1)), P(k) * 0 == 0], measure=lambda A, B, k, n: mx(n, 0))
def shl_end(s): (A, n), (O, n0), k = G(s, 'a'), G(s.old, 'a'), s('k'); s.lemma(shift, O, A, k, n0); s.lemma(zeros, A, V(0), k); s.assume_def(val_def(A, V(0))); s.assume_def(val_def(O, V(0))); s.have('zero', Implies(n0 == 0, val(O, n0) == 0)); s.assume_def(P(k) * 0 == 0)
w_shl = FnSpec('ub_shl', requires=lambda s: wf(s, 'a') + [And(0 <= s('k'), s('k') + s.n('a') <= MAXN)], ensures=lambda s: wf(s, 'a') + [('value', vl(s, 'a') == P(s('k')) * vl(s.old, 'a'))], use=shl_end)
def shr_end(s): (A, n), (O, n0), k = G(s, 'a'), G(s.old, 'a'), s('k'); s.lemma(shift, A, O, k, n); s.lemma(bound, O, k); s.lemma(bound, O, n0); s.lemma(P_mono, n0, k); s.assume_def(val_def(A, V(0))); s.assume_def(P(k) * 0 == 0)
w_shr = FnSpec('ub_shr', requires=lambda s: wf(s, 'a') + [And(0 <= s('k'), s('k') <= MAXN)], ensures=lambda s: wf(s, 'a') + [('value: a = new * D^k + rest', And(vl(s.old, 'a') - P(s('k')) * vl(s, 'a') >= 0, vl(s.old, 'a') - P(s('k')) * vl(s, 'a') < P(s('k'))))], use=shr_end)
# ---- multiplication: carry propagation and the schoolbook product
B120 = 1 << 120
def bd_req(s): A, n = G(s, 'dat'); return [And(0 <= n, n <= MAXN - 5), ('elements', rngq(0, n, lambda k: And(0 <= A[k], A[k] <= B120), pat=lambda k: A[k]))]
def bd1(s): (A, n), (X, m), i, c = G(s, 'dat'), G(s, 'sret'), s.v('__begin0'), s.v('carry'); return [('range', And(0 <= i, i <= n, m == i, 0 <= c, c <= B120)), ('digits', digits(X, 0, m)), ('value', val(X, m) + c * P(m) == val(A, i))]
def bd2(s): (A, n), (X, m), c = G(s, 'dat'), G(s, 'sret'), s.v('carry'); return [('range', And(n <= m, m <= n + 5, 0 <= c)), ('small', And(*[Implies(m == n + d, c <= B120 // D ** d) for d in range(6)])), ('digits', digits(X, 0, m)), ('value', val(X, m) + c * P(m) == val(A, n))]
def bd3(s): (A, n), (X, m) = G(s, 'dat'), G(s, 'sret'); return [('range', And(0 <= m, m <= n + 5)), ('digits', digits(X, 0, m)), ('value', val(X, m) == val(A, n))]
def bd_use(first):
    def f(s):
        (A, n), (X, m), c = G(s, 'dat'), G(s, 'sret'), s.v('carry'); s.assume_def(P_def(m)); s.assume_def(val_def(X, m)); s.assume_def(P_def(V(0))); s.assume_def(val_def(X, V(0))); s.assume_def(val_def(A, V(0)))
        if s.prev is None: return
        (Y, k), w = G(s.prev, 'sret'), s.prev.v('carry'); s.lemma(ext, X, Y, k)
        if first: w = w + A[k]; s.assume_def(val_def(A, k + 1)); s.assume_def((s.prev.v('carry') + A[k]) * P(k) == s.prev.v('carry') * P(k) + A[k] * P(k))
        s.assume_def((w % D + D * (w / D)) * P(k) == (w % D) * P(k) + (w / D) * (D * P(k))); s.have('digit', And(X[k] == w % D, c == w / D))
        s.have('split', w * P(k) == X[k] * P(k) + c * P(k + 1))
    return f
C_bd = FnSpec('_build', match=r'unsigned_bigint::_build<', requires=bd_req, ensures=lambda s: wf(s, 'sret') + [('value', vl(s, 'sret') == vl(s, 'dat'))], modifies=lambda s: ['sret'],
    loops=[LoopSpec(bd1, dec=lambda s: s.n('dat') - s.v('__begin0'), use=bd_use(True)), LoopSpec(bd2, dec=lambda s: s.v('carry'), use=bd_use(False)), LoopSpec(bd3, dec=lambda s: s.n('sret'), use=lambda s: (s.assume_def(val_def(s.e('sret'), s.n('sret') + 1)), s.assume_def(val_def(s.e('sret'), s.n('sret')))))])
Q2 = (D - 1) ** 2
def cn_req(s): (A, n), (B, m) = G(s, 'a'), G(s, 'b'); return [And(0 <= n, n <= MAXN // 2, 0 <= m, m <= MAXN // 2), ('digits', And(digits(A, 0, n), digits(B, 0, m)))]
def cn(outer, inner, x, y):     # x: index of the outer loop (over outer), y: of the inner
    def bnd(C, N, i, j): return rngq(0, N, lambda k: And(0 <= C[k], C[k] <= (i + (If(And(i <= k, k < i + j), 1, 0) if j is not None else 0)) * Q2), pat=lambda k: C[k])
    def o(s): (A, n), (B, m), (C, N), i = G(s, outer), G(s, inner), G(s, 'sret'), s.v(x); return [('range', And(0 <= i, i <= n, n > 0, m > 0, N == n + m - 1)), ('entries', bnd(C, N, i, None)), ('value', val(C, N) == val(A, i) * val(B, m))]
    def q(s): (A, n), (B, m), (C, N), i, j = G(s, outer), G(s, inner), G(s, 'sret'), s.v(x), s.v(y); return [('range', And(0 <= i, i < n, 0 <= j, j <= m, n > 0, m > 0, N == n + m - 1)), ('entries', bnd(C, N, i, j)), ('value', val(C, N) == val(A, i) * val(B, m) + A[i] * (P(i) * val(B, j)))]
    def ou(s):
        (A, n), (B, m), (C, N), i = G(s, outer), G(s, inner), G(s, 'sret'), s.v(x); s.assume_def(val_def(A, V(0))); s.lemma(zeros, C, V(0), N); s.assume_def(val_def(C, V(0))); s.assume_def(0 * val(B, m) == 0)
        s.assume_def(val_def(A, i)); s.assume_def((val(A, i - 1) + A[i - 1] * P(i - 1)) * val(B, m) == val(A, i - 1) * val(B, m) + A[i - 1] * (P(i - 1) * val(B, m)))
    def oh(s): (A, n), (B, m) = G(s, outer), G(s, inner); s.assume_def(val_def(B, V(0))); s.assume_def(A[s.v(x)] * (P(s.v(x)) * 0) == 0)
    def qu(s):
        (A, n), (B, m), (C, N), i, j = G(s, outer), G(s, inner), G(s, 'sret'), s.v(x), s.v(y); s.assume_def(val_def(B, V(0))); s.assume_def(A[i] * (P(i) * 0) == 0)
        if s.prev is None: return
        Y = s.prev.e('sret'); k = j - 1; s.lemma(upd, Y, C, i + k, N); s.lemma(P_add, i, k); s.assume_def(val_def(B, j))
        s.have('entry', C[i + k] - Y[i + k] == A[i] * B[k]); s.assume_def((A[i] * B[k]) * (P(i) * P(k)) == A[i] * (P(i) * (B[k] * P(k)))); s.assume_def(A[i] * (P(i) * (val(B, k) + B[k] * P(k))) == A[i] * (P(i) * val(B, k)) + A[i] * (P(i) * (B[k] * P(k))))
        s.have('added', val(C, N) == val(Y, N) + A[i] * (P(i) * (B[k] * P(k))))
    def qh(s): (A, n), (B, m), i, j = G(s, outer), G(s, inner), s.v(x), s.v(y); s.lemma(nonneg, A[i], B[j]); s.lemma(mono, A[i], V(D - 1), B[j]); s.lemma(mono, B[j], V(D - 1), V(D - 1))
    return [LoopSpec(o, dec=lambda s: s.n(outer) - s.v(x), use=ou, head=oh), LoopSpec(q, dec=lambda s: s.n(inner) - s.v(y), use=qu, head=qh)]
def cn_ens(s): (A, n), (B, m), (C, N) = G(s, 'a'), G(s, 'b'), G(s, 'sret'); return [('size', And(0 <= N, N <= n + m)), ('entries', rngq(0, N, lambda k: And(0 <= C[k], C[k] <= B120), pat=lambda k: C[k])), ('product', val(C, N) == val(A, n) * val(B, m))]
def cn_end(s):
    for o in ('a', 'b', 'sret'): s.assume_def(val_def(s.e(o), V(0)))
    s.assume_def(0 * vl(s, 'b') == 0); s.assume_def(vl(s, 'a') * 0 == 0)
C_cn = FnSpec('convolution_naive', match=r'internal::convolution_naive<int, __int128', requires=cn_req, ensures=cn_ens, modifies=lambda s: ['sret'], use=cn_end, loops=cn('a', 'b', 'i', 'j') + cn('b', 'a', 'j', 'i'))
w_mul = FnSpec('ub_mul', requires=lambda s: wf(s, 'a') + wf(s, 'b') + [s.n('a') <= MAXN // 4, s.n('b') <= MAXN // 4], ensures=lambda s: wf(s, 'out') + [('product', vl(s, 'out') == vl(s, 'a') * vl(s, 'b'))])
# ---- division by one digit
mv = UF('most_significant_first', A_I, Int, Int)
@definition
def mv_def(Q, k): return mv(Q, k) == If(k <= 0, V(0), D * mv(Q, k - 1) + Q[k - 1])
rev = Lemma('reversed', [A_I, A_I, Int, Int], lambda R, Q, i, n: Implies(And(0 <= i, i <= n, rngq(0, n, lambda j: R[j] == Q[n - 1 - j], pat=lambda j: R[j])), hv(R, i, n) == mv(Q, n - i)), proof=lambda ih, u, R, Q, i, n: [hv_def(R, i, n), mv_def(Q, n - i), ih(R, Q, i + 1, n), R[i] == R[i]], measure=lambda R, Q, i, n: mx(n - i, 0))
mv_ext = Lemma('msf_ext', [A_I, A_I, Int], lambda A, B, n: Implies(rngq(0, n, lambda k: A[k] == B[k], pat=lambda k: A[k]), mv(A, n) == mv(B, n)), proof=lambda ih, u, A, B, n: [mv_def(A, n), mv_def(B, n), ih(A, B, n - 1), A[n - 1] == A[n - 1]], measure=lambda A, B, n: mx(n, 0))
quo = Lemma('quotient_digit', [Int, Int, Int], lambda r, d, b: Implies(And(0 <= r, r < b, 0 <= d, d < D, b < D), And((r * D + d) / b < D, (r * D + d) / b >= 0, b * ((r * D + d) / b) + (r * D + d) % b == r * D + d)), proof=lambda ih, u, r, d, b: [u(quo2, r * D + d, b, (r * D + d) / b)])
quo2 = Lemma('quotient_bound', [Int, Int, Int], lambda w, b, q: Implies(And(0 < b, q >= D), b * q >= b * D), proof=lambda ih, u, w, b, q: [u(mono, V(D), q, b)])
def dv_b(s): return s.e('b')[0]
def dv_inv(s): (A, n), (Q, k), i, r = G(s, 'a'), G(s, 'q'), s.v('it'), s.v('r'); return [('range', And(0 <= i, i <= n, k == n - i, 0 <= r, r < dv_b(s))), ('digits', digits(Q, 0, k)), ('quotient', hv(A, i, n) == dv_b(s) * mv(Q, k) + r)]
STASH = {}
def dv_head(s): STASH['q'] = s.e('q'); (A, n), i, r = G(s, 'a'), s.v('it'), s.v('r'); s.assume_def(hv_def(A, i - 1, n)); s.lemma(quo, r, A[i - 1], dv_b(s))
def dv_use(s):
    (A, n), (Q, k) = G(s, 'a'), G(s, 'q'); s.assume_def(hv_def(A, n, n)); s.assume_def(mv_def(Q, V(0))); s.assume_def(dv_b(s) * 0 == 0)
    if s.prev is None: return
    (Y, j), r, i = G(s.prev, 'q'), s.prev.v('r'), s.v('it'); w = r * D + A[i]; b = dv_b(s); s.lemma(mv_ext, Q, Y, j); s.assume_def(mv_def(Q, k)); s.have('digit', And(Q[j] == w / b, s.v('r') == w % b)); s.assume_def(b * (D * mv(Y, j) + w / b) == D * (b * mv(Y, j)) + b * (w / b))
def dv_rev(s):
    A, n = G(s, 'a'); s.lemma(high, A, V(0), n); s.assume_def(P_def(V(0))); s.assume_def(val_def(A, V(0)))
def dc_inv(s): (A, n), (Q, k) = G(s, 'a'), G(s, 'q'); return [('range', And(0 <= k, k <= n, 0 <= s.v('r'), s.v('r') < dv_b(s))), ('digits', digits(Q, 0, k)), ('quotient', val(A, n) == dv_b(s) * val(Q, k) + s.v('r'))]
def dc_use(s):
    (A, n), (Q, k) = G(s, 'a'), G(s, 'q'); s.assume_def(val_def(Q, k + 1)); s.assume_def(val_def(Q, k)); s.assume_def(val_def(Q, V(0))); s.assume_def(val_def(A, V(0))); s.assume_def(P_def(V(0))); s.lemma(high, A, V(0), n)
    if s.prev is None: s.lemma(high, Q, V(0), k); [s.lemma(rev, Q, Y, V(0), k) for Y in [STASH['q']]]
def dv_end(s): [s.assume_def(val_def(s.e('out.second'), V(k))) for k in (0, 1)]; s.assume_def(P_def(V(0)))
w_div = FnSpec('ub_divint', requires=lambda s: wf(s, 'a') + wf(s, 'b') + [s.n('b') == 1], ensures=lambda s: wf(s, 'out.first') + wf(s, 'out.second') + [('quotient and remainder', And(vl(s, 'a') == vl(s, 'b') * vl(s, 'out.first') + vl(s, 'out.second'), vl(s, 'out.second') < vl(s, 'b')))], pre=lambda s: (s.assume_def(val_def(s.e('b'), V(1))), s.assume_def(val_def(s.e('b'), V(0))), s.assume_def(P_def(V(0)))), use=dv_end, loops=[LoopSpec(dv_inv, dec=lambda s: s.v('it'), head=dv_head, use=dv_use), LoopSpec(dc_inv, dec=lambda s: s.n('q'), use=dc_use), LoopSpec(unroll=3)])
CS = [C_lt, C_eq, C_add, C_sub, C_bd, C_cn]
specs = CS + [w_lt, w_eq, w_add, w_sub, w_bool, w_inc, w_dec, of('ub_ofull', 0), of('ub_ofint', 0), w_to, w_cp, w_blt, w_beq, w_bneg, w_badd, w_bsub, w_binc, w_bdec, w_shl, w_shr, w_mul, w_div]
unit = Unit('bigint', specs, post=',adce', contracts=CS, keep=[r'unsigned_bigint::_build<', r'convolution_naive<', r'operator(<|==)\(suisen::unsigned_bigint const&', r'unsigned_bigint::_(add|sub)_assign'])
