from irv.spec import *
from irv.unit import Unit
G = AbGroup(); T, fold, op, e, neg = G.T, G.fold, G.op, G.e, G.neg
sub = lambda a, b: op(a, neg(b))
AA = Arr(G.A)
# S2(a,i,j): sum of the elements of rows < i and columns < j;  rect: of rows [u,d) and columns [l,r)
S2 = UF('cs_S2', AA, Int, Int, T); rect = UF('cs_rect', AA, Int, Int, Int, Int, T)
@definition
def S2_def(a, i, j): return S2(a, i, j) == If(i <= 0, e, op(S2(a, i - 1, j), fold(a[i - 1], 0, j)))
@definition
def rect_def(a, u, d, l, r): return rect(a, u, d, l, r) == If(d <= u, e, op(rect(a, u, d - 1, l, r), fold(a[d - 1], l, r)))
S2_zero = Lemma('S2_zero_cols', [AA, Int], lambda a, i: S2(a, i, 0) == e, proof=lambda ih, u, a, i: [ih(a, i - 1), S2_def(a, i, z3.IntVal(0)), G.defn(a[i - 1], 0, 0)], measure=lambda a, i: If(i > 0, i, 0), theory=G.ax[1:])
def rp(ih, u, a, x, d, l, r):
    Sr, Sl, Ur, Ul, F, E_, R = S2(a, d - 1, r), S2(a, d - 1, l), S2(a, x, r), S2(a, x, l), fold(a[d - 1], 0, l), fold(a[d - 1], l, r), rect(a, x, d - 1, l, r)
    return [ih(a, x, d - 1, l, r), S2_def(a, d, r), S2_def(a, d, l), rect_def(a, x, d, l, r), rect_def(a, x, x, l, r), u(G.split, a[d - 1], z3.IntVal(0), l, r)] + \
        G.norm(op(op(Sr, op(F, E_)), Ul), u) + G.norm(op(op(op(Sr, Ul), F), E_), u) + G.norm(op(op(op(R, op(Ur, Sl)), F), E_), u) + G.norm(op(op(R, E_), op(Ur, op(Sl, F))), u) + G.norm(op(Ur, Ul), u) + G.norm(op(e, op(Ur, Ul)), u)
rect_incl_excl = Lemma('rect_inclusion_exclusion', [AA, Int, Int, Int, Int], lambda a, x, d, l, r: Implies(And(0 <= x, x <= d, 0 <= l, l <= r), op(S2(a, d, r), S2(a, x, l)) == op(rect(a, x, d, l, r), op(S2(a, x, r), S2(a, d, l)))),
    proof=rp, measure=lambda a, x, d, l, r: d - x, theory=G.ax[1:])
def wf(s, o, A):
    S, n = s.e(o + '.s'), s(o + '.n')
    return [('size', And(0 <= n, n < 1 << 50, s.n(o + '.s') == n + 1)), ('prefix sums', forall(1, lambda j: Implies(And(0 <= j, j <= n), S[j] == fold(A, 0, j)), pat=lambda j: S[j]))]
def cinv(s):
    S, i, n, A = s.e('out.s'), s.v('i'), s('out.n'), s.e('a')
    return [('range', And(0 <= i, i <= n, n == s.n('a'), s.n('out.s') == n + 1)), ('done', forall(1, lambda j: Implies(And(0 <= j, j <= i), S[j] == fold(A, 0, j)), pat=lambda j: S[j]))]
def cuse(s):
    A = s.e('a'); s.assume_def(G.defn(A, 0, 0))
    if s.prev is not None: i = s.prev.v('i'); s.assume_def(G.defn(A, 0, i + 1)); s.assume_def(G.comm(A[i], fold(A, 0, i)))
def quse(s):
    A, l, r = s.e('arr_A'), s('l'), s('r'); s.lemma(G.split, A, z3.IntVal(0), l, r); a, b = fold(A, 0, l), fold(A, l, r); G.eqhint(s, sub(op(a, b), a))
def query(nm): return FnSpec(nm, requires=lambda s: wf(s, 'c', s.e('arr_A')) + [And(s('l') <= s('r'), s('r') <= s('c.n'))], ensures=lambda s: ('sum of the interval', s.res == fold(s.e('arr_A'), s('l'), s('r'))), use=quse)
def push_post(s):
    A, n, v = s.old.e('arr_A'), s.old('c.n'), s.old('v')
    return wf(s, 'c', z3.Store(A, n, v)) + [('length', s('c.n') == n + 1)]
ext_store = Lemma('fold_store_beyond', [G.A, Int, T, Int, Int], lambda A, n, v, l, r: Implies(r <= n, fold(z3.Store(A, n, v), l, r) == fold(A, l, r)),
    proof=lambda ih, u, A, n, v, l, r: [ih(A, n, v, l, r - 1), G.defn(A, l, r), G.defn(z3.Store(A, n, v), l, r)], measure=lambda A, n, v, l, r: r - l, theory=G.ax[1:])
def push_use(s):
    A, n, v = s.old.e('arr_A'), s.old('c.n'), s.old('v')
    s.lemma_all(ext_store, forall(1, lambda j: ext_store.inst(A, n, v, z3.IntVal(0), j), pat=lambda j: fold(z3.Store(A, n, v), 0, j)))
    s.assume_def(G.defn(z3.Store(A, n, v), 0, n + 1))
# ------------------------------------------------------------ two dimensions
LIM = 1 << 28
def wf2(s, o, A):
    S, N, n, m = s.e(o + '.s', '__e'), s.e(o + '.s', '__n'), s(o + '.n'), s(o + '.m')
    return [('size', And(0 <= n, n < LIM, 0 <= m, m < LIM, s.n(o + '.s') == n + 1)), ('row sizes', rngq(0, n + 1, lambda i: N[i] == m + 1, pat=lambda i: N[i])),
            ('prefix sums', forall(2, lambda i, j: Implies(And(0 <= i, i <= n, 0 <= j, j <= m), S[i][j] == S2(A, i, j)), pat=lambda i, j: S[i][j]))]
def in2(s): return [And(s.n('a') < LIM, rngq(0, s.n('a'), lambda i: And(s.e('a', '__n')[i] == s.e('a', '__n')[0], s.e('a', '__n')[i] < LIM), pat=lambda i: s.e('a', '__n')[i]))]
def inv2(inner):
    def f(s):
        S, N, n, m, i, A = s.e('out.s', '__e'), s.e('out.s', '__n'), s('out.n'), s('out.m'), s.v('i'), s.e('a', '__e')
        j = s.v('j') if inner else 0
        return [('range', And(0 <= i, i < n if inner else i <= n, n == s.n('a'), Implies(n > 0, m == s.e('a', '__n')[0]), Implies(n == 0, m == 0), s.n('out.s') == n + 1, 0 <= j, j <= m)), ('row sizes', rngq(0, n + 1, lambda x: N[x] == m + 1, pat=lambda x: N[x])),
            ('prefix sums', forall(2, lambda x, y: Implies(And(0 <= x, x <= n, 0 <= y, y <= m), S[x][y] == If(Or(x <= i, And(x == i + 1, y <= j)), S2(A, x, y), e)), pat=lambda x, y: S[x][y]))]
    def use(s):
        A, i = s.e('a', '__e'), s.v('i')
        s.assume_def(forall(1, lambda y: S2_def(A, z3.IntVal(0), y), pat=lambda y: S2(A, 0, y))); s.lemma_all(S2_zero, forall(1, lambda x: S2_zero.inst(A, x), pat=lambda x: S2(A, x, 0)))
        if s.prev is not None and inner:
            j = s.prev.v('j'); s.assume_def(S2_def(A, i + 1, j)); s.assume_def(S2_def(A, i + 1, j + 1)); s.assume_def(G.defn(A[i], 0, j + 1))
            Z, F, Y, x = S2(A, i, j), fold(A[i], 0, j), S2(A, i, j + 1), A[i][j]
            S0 = s.prev.e('out.s', '__e'); s.have('small', And(s('out.m') < LIM, j < LIM)); s.have('neighbours', And(S0[i][j] == Z, S0[i][j + 1] == Y, S0[i + 1][j] == op(Z, F)))
            G.eqhint(s, sub(op(op(x, op(Z, F)), Y), Z), op(Y, op(F, x)))
            S1, n, m = s.e('out.s', '__e'), s('out.n'), s('out.m')
            s.have('cell', S1[i + 1][j + 1] == S2(A, i + 1, j + 1))
            s.focus('other cells', f(s)[2][1], [S1[i + 1][j + 1] == S2(A, i + 1, j + 1), f(s.prev)[2][1], forall(2, lambda x, y: Or(And(x == i + 1, y == j + 1), S1[x][y] == S0[x][y]), pat=lambda x, y: S1[x][y]), And(s.v('j') == j + 1, s.v('i') == i, s.prev.v('i') == i, n == s.prev('out.n'), m == s.prev('out.m'))])
    return LoopSpec(f, dec=(lambda s: s('out.m') - s.v('j')) if inner else (lambda s: s('out.n') - s.v('i')), use=use)
def q2_use(s):
    A, u, d, l, r = s.e('a', '__e'), s('u'), s('d'), s('l'), s('r'); s.lemma(rect_incl_excl, A, u, d, l, r)
    R, X = rect(A, u, d, l, r), op(S2(A, u, r), S2(A, d, l))
    s.assume_def(G.assoc(R, X, neg(X))); s.assume_def(G.inv(X))
def q2_ok(s): return And(s('u') <= s('d'), s('d') <= s('c.n'), s('l') <= s('r'), s('r') <= s('c.m'))
specs = [
    FnSpec('cs_ctor', requires=lambda s: s.n('a') < 1 << 50, ensures=lambda s: wf(s, 'out', s.e('a')) + [s('out.n') == s.n('a')], loops=[LoopSpec(cinv, dec=lambda s: s('out.n') - s.v('i'), use=cuse)], use=lambda s: s.assume_def(G.defn(s.e('a'), 0, 0))),
    FnSpec('cs_dflt', ensures=lambda s: wf(s, 'out', z3.K(Int, e)) + [s('out.n') == 0], use=lambda s: s.assume_def(G.defn(z3.K(Int, e), 0, 0))),
    query('cs_call'), query('cs_sum'),
    FnSpec('cs_push', requires=lambda s: wf(s, 'c', s.e('arr_A')) + [s('c.n') < (1 << 50) - 1], ensures=push_post, use=push_use),
    FnSpec('c2_ctor', requires=in2, ensures=lambda s: wf2(s, 'out', s.e('a', '__e')) + [('sizes', And(s('out.n') == s.n('a'), s('out.m') == If(s.n('a') == 0, 0, s.e('a', '__n')[0])))], loops=[inv2(False), inv2(True)], use=lambda s: None),
    FnSpec('c2_call', requires=lambda s: wf2(s, 'c', s.e('a', '__e')), ensures=lambda s: ('sum of the rectangle', s.res == If(q2_ok(s), rect(s.e('a', '__e'), s('u'), s('d'), s('l'), s('r')), e)), use=q2_use),
]
unit = Unit('cumsum', specs, opaque={'T': 'T'}, theory=G.ax[1:])
