from irv.spec import *
from irv.unit import Unit
M = Monoid('T', 'uf_op', 'uf_e', idem=True)
fold, op, e = M.fold, M.op, M.e
MAXN = 1 << 30
@definition
def p2_def(k): return pow2(k) == If(k <= 0, 1, 2 * pow2(k - 1))
p2_pos = Lemma('pow2_pos', [Int], lambda k: pow2(k) >= 1, proof=lambda ih, u, k: [p2_def(k), ih(k - 1)], measure=lambda k: If(k > 0, k, 0))
p2_mono = Lemma('pow2_mono', [Int, Int], lambda a, b: Implies(And(0 <= a, a <= b), And(pow2(a) <= pow2(b), Implies(a < b, 2 * pow2(a) <= pow2(b)))), proof=lambda ih, u, a, b: [p2_def(b), ih(a, b - 1), u(p2_pos, b), u(p2_pos, b - 1)], measure=lambda a, b: b - a)
# overlapping halves
overlap = Lemma('fold_overlap', [M.A, Int, Int, Int, Int], lambda A, l, b, c, r: Implies(And(l <= b, b <= c, c <= r), op(fold(A, l, c), fold(A, b, r)) == fold(A, l, r)),
    proof=lambda ih, u, A, l, b, c, r: [u(M.split, A, l, b, c), u(M.split, A, b, c, r), u(M.split, A, l, b, r), M.assoc(fold(A, l, b), fold(A, b, c), fold(A, b, r)), M.assoc(fold(A, b, c), fold(A, b, c), fold(A, c, r))], theory=M.ax)
extall = Lemma('fold_ext_range', [M.A, M.A, Int, Int, Int], lambda A, B, n, l, r: Implies(And(0 <= l, r <= n, forall(1, lambda j: Implies(And(0 <= j, j < n), A[j] == B[j]), pat=lambda j: B[j])), fold(A, l, r) == fold(B, l, r)),
    proof=lambda ih, u, A, B, n, l, r: [ih(A, B, n, l, r - 1), M.defn(A, l, r), M.defn(B, l, r), B[r - 1] == B[r - 1]], measure=lambda A, B, n, l, r: r - l, theory=M.ax)
def table(TT, NN, A, n, k):
    return [('row sizes', rngq(0, k, lambda i: NN[i] == If(n == 0, 0, n - pow2(i) + 1), pat=lambda i: NN[i])),
            ('rows', forall(2, lambda i, l: Implies(And(0 <= i, i < k, 0 <= l, l + pow2(i) <= n), TT[i][l] == fold(A, l, l + pow2(i))), pat=lambda i, l: TT[i][l]))]
def loginv(n, lg): return ('log', And(0 <= lg, lg <= 30, If(n == 0, lg == 0, And(pow2(lg) <= n, n < 2 * pow2(lg)))))
def flogq(F, lg, hi): return forall(1, lambda d: Implies(And(1 <= d, d < hi), And(0 <= F[d], F[d] <= lg, pow2(F[d]) <= d, d < 2 * pow2(F[d]))), pat=lambda d: F[d])
def wf(s, o):
    TT, NN, n, lg, F = s.e(o + '.table', '__e'), s.e(o + '.table', '__n'), s(o + '.n'), s(o + '.log'), s.e(o + '.flog')
    A = TT[0]
    return [('size', And(0 <= n, n <= MAXN, s.n(o + '.table') == lg + 1, s.n(o + '.flog') == n + 1)), loginv(n, lg)] + table(TT, NN, A, n, lg + 1) + [('flog', flogq(F, lg, n + 1))]
def hints(s, *ks):
    for k in ks: s.assume_def(p2_def(k)); s.lemma(p2_pos, k)
def b_inv(s):
    TT, NN, n, lg, i = s.e('out.table', '__e'), s.e('out.table', '__n'), s('out.n'), s('out.log'), s.v('i'); A = s.e('a')
    return [('range', And(0 <= i, i <= lg, s.n('out.table') == lg + 1)), loginv(n, lg)] + table(TT, NN, A, n, i + 1) + [('base', rngq(0, n, lambda j: TT[0][j] == A[j], pat=lambda j: TT[0][j]))]
def b_use(s):
    i, lg = s.v('i'), s('out.log'); hints(s, i, lg, i + 1); A = s.e('a')
    s.lemma(p2_mono, i, lg)
    s.assume_def(forall(1, lambda l: M.defn(A, l, l + 1), pat=lambda l: fold(A, l, l + 1))); s.assume_def(forall(1, lambda l: M.defn(A, l, l), pat=lambda l: fold(A, l, l)))
    if s.prev is not None: j = s.prev.v('i'); hints(s, j, j + 1); s.lemma(p2_mono, j, lg); s.lemma(p2_mono, j + 1, lg)
def c_inv(s):
    TT, NN, n, lg, i, l = s.e('out.table', '__e'), s.e('out.table', '__n'), s('out.n'), s('out.log'), s.v('i'), s.v('l'); A = s.e('a')
    return [('range', And(0 <= i, i < lg, 0 <= l, l <= n - pow2(i + 1) + 1, s.n('out.table') == lg + 1)), loginv(n, lg)] + table(TT, NN, A, n, i + 1) + [('base', rngq(0, n, lambda j: TT[0][j] == A[j], pat=lambda j: TT[0][j])),
        ('row size', NN[i + 1] == n - pow2(i + 1) + 1), ('row', rngq(0, l, lambda j: TT[i + 1][j] == fold(A, j, j + pow2(i + 1)), pat=lambda j: TT[i + 1][j]))]
def c_use(s):
    b_use_i = s.v('i'); lg = s('out.log'); hints(s, b_use_i, b_use_i + 1, lg); s.lemma(p2_mono, b_use_i, lg); s.lemma(p2_mono, b_use_i + 1, lg)
    if s.prev is not None:
        A, l, i = s.e('a'), s.prev.v('l'), s.v('i'); TT = s.e('out.table', '__e')
        s.lemma(M.split, A, l, l + pow2(i), l + pow2(i + 1))
def f_inv(s):
    F, lg, l, n = s.e('out.flog'), s('out.log'), s.v('l'), s('out.n')
    return [('range', And(0 <= l, l <= lg, s.n('out.flog') == n + 1)), loginv(n, lg), ('flog', flogq(F, lg, pow2(l)))]
def f_use(s):
    l, lg = s.v('l'), s('out.log'); hints(s, l, lg, l + 1, z3.IntVal(0)); s.lemma(p2_mono, l, lg)
    if s.prev is not None: hints(s, s.prev.v('l'), s.prev.v('l') + 1); s.lemma(p2_mono, s.prev.v('l') + 1, lg)
def f_head(s):
    l, lg = s.v('l'), s('out.log'); hints(s, l, l + 1, lg); s.lemma(p2_mono, l, lg); s.lemma(p2_mono, l + 1, lg)
def c_head(s):
    i, lg = s.v('i'), s('out.log'); hints(s, i, i + 1, lg); s.lemma(p2_mono, i, lg); s.lemma(p2_mono, i + 1, lg)
def prod(nm):
    def use(s):
        TT, n, F = s.e('s.table', '__e'), s('s.n'), s.e('s.flog'); A = TT[0]; l, r = s('l'), s('r'); k = F[r - l]
        hints(s, k); s.lemma(overlap, A, l, r - pow2(k), l + pow2(k), r); s.assume_def(M.defn(A, l, r))
    return FnSpec(nm, requires=lambda s: wf(s, 's') + [And(0 <= s('l'), s('l') <= s('s.n'), s('r') <= s('s.n'), s('r') >= 0)],
        ensures=lambda s: ('product of the interval', s.res == fold(s.e('s.table', '__e')[0], s('l'), s('r'))), use=use,
        pre=lambda s: (s.lemma(p2_mono, s.e('s.flog')[s('r') - s('l')], s('s.log')), hints(s, s.e('s.flog')[s('r') - s('l')], s('s.log'))))
def ctor_use(s):
    A, TT, n = s.e('a'), s.e('out.table', '__e'), s('out.n'); B = TT[0]
    s.lemma_all(extall, forall(2, lambda i, l: extall.inst(A, B, n, l, l + pow2(i)), pat=lambda i, l: fold(B, l, l + pow2(i))))
specs = [
    FnSpec('st_ctor', requires=lambda s: s.n('a') <= MAXN, ensures=lambda s: wf(s, 'out') + [('n', s('out.n') == s.n('a')), ('elements', rngq(0, s.n('a'), lambda j: s.e('out.table', '__e')[0][j] == s.e('a')[j], pat=lambda j: s.e('out.table', '__e')[0][j]))],
        pre=lambda s: [hints(s, z3.IntVal(k)) for k in range(33)], use=ctor_use,
        loops=[LoopSpec(b_inv, dec=lambda s: s('out.log') - s.v('i'), use=b_use, head=lambda s: c_head(s)), LoopSpec(f_inv, dec=lambda s: s('out.log') - s.v('l'), use=f_use, head=f_head), LoopSpec(c_inv, dec=lambda s: s('out.n') + 1 - s.v('l'), use=c_use, head=c_head)]),
    prod('st_prod'), prod('st_call')]
unit = Unit('sparse', specs, opaque={'T': 'T'}, theory=M.ax)
