from irv.spec import *
from irv.unit import Unit
from specs.fenwick import M, T, fold, op, e, A, N
from specs.fenwick2d import AA, f2, f2_def, rows, swap4
V = z3.IntVal
Rnode = lambda D, i, j: D[i][j] == op(D[i][2 * j], D[i][2 * j + 1])
Cnode = lambda D, i, j: D[i][j] == op(D[2 * i][j], D[2 * i + 1][j])
pd = lambda D: (lambda i, j: D[i][j])
Rleaf = lambda D, n, m: forall(2, lambda i, j: Implies(And(n <= i, i < 2 * n, 1 <= j, j < m), Rnode(D, i, j)), pat=pd(D))
Call = lambda D, n, m: forall(2, lambda i, j: Implies(And(1 <= i, i < n, 1 <= j, j < 2 * m), Cnode(D, i, j)), pat=pd(D))
Rall = Lemma('s2_rows_fold', [AA, Int, Int, Int, Int], lambda D, n, m, i, j: Implies(And(Rleaf(D, n, m), Call(D, n, m), 1 <= i, i < 2 * n, 1 <= j, j < m), Rnode(D, i, j)),
    proof=lambda ih, w, D, n, m, i, j: [ih(D, n, m, 2 * i, j), ih(D, n, m, 2 * i + 1, j), D[i][j] == D[i][j], D[i][2 * j] == D[i][2 * j], D[i][2 * j + 1] == D[i][2 * j + 1],
        w(swap4, D[2 * i][2 * j], D[2 * i][2 * j + 1], D[2 * i + 1][2 * j], D[2 * i + 1][2 * j + 1])], measure=lambda D, n, m, i, j: If(i < 2 * n, 2 * n - i, 0), theory=M.ax[1:])
halve = Lemma('s2_halve', [A, Int, Int], lambda a, l, r: Implies(forall(1, lambda k: Implies(And(l <= k, k < r), a[k] == op(a[2 * k], a[2 * k + 1])), pat=lambda k: a[k]), fold(a, 2 * l, 2 * r) == fold(a, l, r)),
    proof=lambda ih, w, a, l, r: [ih(a, l, r - 1), M.defn(a, l, r), M.defn(a, 2 * l, 2 * r), M.defn(a, 2 * l, 2 * r - 1), M.assoc(fold(a, 2 * l, 2 * r - 2), a[2 * r - 2], a[2 * r - 1])], measure=lambda a, l, r: If(r > l, r - l, 0), theory=M.ax[1:])
pair = Lemma('s2_pair', [A, A, A, Int, Int], lambda a, b, c, l, r: Implies(forall(1, lambda k: Implies(And(l <= k, k < r), a[k] == op(b[k], c[k])), pat=lambda k: a[k]), fold(a, l, r) == op(fold(b, l, r), fold(c, l, r))),
    proof=lambda ih, w, a, b, c, l, r: [ih(a, b, c, l, r - 1), M.defn(a, l, r), M.defn(b, l, r), M.defn(c, l, r), w(swap4, fold(b, l, r - 1), fold(c, l, r - 1), b[r - 1], c[r - 1])], measure=lambda a, b, c, l, r: If(r > l, r - l, 0), theory=M.ax[1:])
halve2 = Lemma('s2_halve_rows', [AA, Int, Int, Int, Int, Int, Int], lambda D, n, m, u, d, l, r: Implies(And(Call(D, n, m), 1 <= u, d <= n, Or(l >= r, l >= 1), r <= 2 * m), f2(D, 2 * u, 2 * d, l, r) == f2(D, u, d, l, r)),
    proof=lambda ih, w, D, n, m, u, d, l, r: [ih(D, n, m, u, d - 1, l, r), f2_def(D, u, d, l, r), f2_def(D, 2 * u, 2 * d, l, r), f2_def(D, 2 * u, 2 * d - 1, l, r), w(pair, D[d - 1], D[2 * d - 2], D[2 * d - 1], l, r),
        M.assoc(f2(D, 2 * u, 2 * d - 2, l, r), fold(D[2 * d - 2], l, r), fold(D[2 * d - 1], l, r))], measure=lambda D, n, m, u, d, l, r: If(d > u, d - u, 0), theory=M.ax[1:])
Rall_q = Lemma('s2_rows_fold_q', [AA, Int, Int, Int], lambda D, n, m, i: Implies(And(Rleaf(D, n, m), Call(D, n, m), 1 <= i, i < 2 * n), forall(1, lambda j: Implies(And(1 <= j, j < m), Rnode(D, i, j)), pat=lambda j: D[i][j])),
    proof=lambda ih, u, D, n, m, i: [forall(1, lambda j: u(Rall, D, n, m, i, j), pat=lambda j: D[i][j])])
def dims(s, o): return s(o + '.n'), s(o + '.m'), s.e(o + '.dat', '__e'), s.e(o + '.dat', '__n')
B = 2 ** 29
def shape(s, o):
    n, m, D, NN = dims(s, o)
    return [('shape', And(0 <= n, n <= B, 0 <= m, m <= B, s.n(o + '.dat') == 2 * n)), ('rows', forall(1, lambda x: Implies(And(0 <= x, x < 2 * n), NN[x] == 2 * m), pat=lambda x: NN[x]))]
def wf(s, o):
    n, m, D, NN = dims(s, o)
    return shape(s, o) + [('leaf rows', Rleaf(D, n, m)), ('inner rows', Call(D, n, m))]
# ---- query
def q_in(row):
    def inv(s):
        n, m, D, NN = dims(s, 'f'); a, b, l, r = s.v('tl'), s.v('tr'), s('l'), s('r')
        return [('range', And(0 <= a, a <= b, b <= 2 * m, Implies(m > 0, a >= 1))), ('row fold', op(s.v('res_l'), op(fold(D[row(s)], a, b), s.v('res_r'))) == fold(D[row(s)], l + m, r + m))]
    def use(s):
        if s.prev is None: return
        n, m, D, NN = dims(s, 'f'); p = s.prev; a0, b0 = p.v('tl'), p.v('tr'); rl, rr = p.v('res_l'), p.v('res_r'); a, b = s.v('tl'), s.v('tr'); R = D[row(s)]
        s.lemma(halve, R, a, b); s.lemma(M.split, R, a0, 2 * a, b0); s.lemma(M.split, R, 2 * a, 2 * b, b0)
        for x, y in ((a0, a0), (a0, a0 + 1), (b0 - 1, b0), (b0 - 1, b0 - 1), (b0, b0)): s.assume_def(M.defn(R, x, y))
        s.have('tl step', Or(2 * a == a0, 2 * a == a0 + 1)); s.have('tr step', Or(2 * b == b0, 2 * b == b0 - 1))
        mid = fold(R, 2 * a, 2 * b)
        s.assume_def(M.assoc(rl, R[a0], op(mid, rr))); s.assume_def(M.assoc(rl, R[a0], op(mid, op(R[b0 - 1], rr)))); s.assume_def(M.assoc(mid, R[b0 - 1], rr)); s.assume_def(M.assoc(R[a0], mid, rr)); s.assume_def(M.assoc(R[a0], mid, op(R[b0 - 1], rr)))
        s.assume_def(M.assoc(R[a0], op(mid, R[b0 - 1]), rr))
    def head(s): n, m, D, NN = dims(s, 'f'); s.lemma(Rall_q, D, n, m, row(s)); s.assume_def(M.defn(D[row(s)], s.v('tl'), s.v('tr')))
    return LoopSpec(inv, dec=lambda s: s.v('tr') - s.v('tl') + s.v('tr'), use=use, head=head)
def q_inv(s):
    n, m, D, NN = dims(s, 'f'); a, b, l, r = s.v('tu'), s.v('td'), s('l') + m, s('r') + m
    return [('range', And(0 <= a, a <= b, b <= 2 * n, Implies(n > 0, a >= 1))), ('fold', op(s.v('res_u'), op(f2(D, a, b, l, r), s.v('res_d'))) == f2(D, s('u') + n, s('d') + n, l, r))]
def q_use(s):
    if s.prev is None: return
    n, m, D, NN = dims(s, 'f'); p = s.prev; a0, b0 = p.v('tu'), p.v('td'); rl, rr = p.v('res_u'), p.v('res_d'); a, b = s.v('tu'), s.v('td'); l, r = s('l') + m, s('r') + m
    F = lambda x, y: f2(D, x, y, l, r); ra, rb = fold(D[a0], l, r), fold(D[b0 - 1], l, r); mid = F(2 * a, 2 * b)
    s.lemma(halve2, D, n, m, a, b, l, r); s.lemma(rows, D, a0, 2 * a, b0, l, r); s.lemma(rows, D, 2 * a, 2 * b, b0, l, r)
    for x, y in ((a0, a0), (a0, a0 + 1), (b0 - 1, b0), (b0 - 1, b0 - 1), (b0, b0)): s.assume_def(f2_def(D, x, y, l, r))
    s.have('tu step', Or(2 * a == a0, 2 * a == a0 + 1)); s.have('td step', Or(2 * b == b0, 2 * b == b0 - 1))
    for t in (M.assoc(rl, ra, op(mid, rr)), M.assoc(rl, ra, op(mid, op(rb, rr))), M.assoc(mid, rb, rr), M.assoc(ra, mid, rr), M.assoc(ra, mid, op(rb, rr)), M.assoc(ra, op(mid, rb), rr)): s.assume_def(t)
q = FnSpec('s2_prod', requires=lambda s: wf(s, 'f') + [And(0 <= s('u'), s('u') <= s('d'), s('d') <= s('f.n'), 0 <= s('l'), s('l') <= s('r'), s('r') <= s('f.m'))],
    ensures=lambda s: (lambda n, m, D, NN: ('fold of the rectangle', s.res == f2(D, s('u') + n, s('d') + n, s('l') + m, s('r') + m)))(*dims(s, 'f')),
    use=lambda s: (lambda n, m, D, NN: s.assume_def(f2_def(D, s.v('tu'), s.v('td'), s('l') + m, s('r') + m)))(*dims(s, 'f')),
    loops=[LoopSpec(q_inv, dec=lambda s: 2 * s.v('td') - s.v('tu'), use=q_use), q_in(lambda s: s.v('tu')), q_in(lambda s: s.v('td') - 1)])
# ---- constructors
def leaves(D, n, m, f, ok=lambda i, j: True): return forall(2, lambda x, y: Implies(And(n <= x, x < 2 * n, m <= y, y < 2 * m, ok(x - n, y - m)), D[x][y] == f(x - n, y - m)), pat=pd(D))
def cdim(s, o, h, w): n, m, D, NN = dims(s, o); return ('size', And(n == h(s), m == w(s)))
def ctor_loops(o, h, w, src):
    def L(*fs): return lambda s: shape(s, o) + [cdim(s, o, h, w)] + [x for f in fs for x in f(s, *dims(s, o)[:3])]
    all_leaves = lambda s, n, m, D: [('leaves', leaves(D, n, m, src(s)))]
    rl = lambda lim: (lambda s, n, m, D: [('leaf rows', forall(2, lambda x, y: Implies(And(n <= x, x < 2 * n, 1 <= y, y < m, lim(s, x, y)), Rnode(D, x, y)), pat=pd(D)))])
    cl = lambda lim: (lambda s, n, m, D: [('inner rows', forall(2, lambda x, y: Implies(And(1 <= x, x < n, 1 <= y, y < 2 * m, lim(s, x, y)), Cnode(D, x, y)), pat=pd(D)))])
    rng = lambda f: (lambda s, n, m, D: [('range', f(s, n, m))])
    i, j = (lambda s: s.v('i')), (lambda s: s.v('j'))
    ls = [LoopSpec(L(rng(lambda s, n, m: And(0 <= i(s), i(s) <= n)), lambda s, n, m, D: [('leaves', leaves(D, n, m, src(s), lambda a, b: a < i(s)))]), dec=lambda s: h(s) - i(s)),
        LoopSpec(L(rng(lambda s, n, m: And(0 <= i(s), i(s) < n, 0 <= j(s), j(s) <= m)), lambda s, n, m, D: [('leaves', leaves(D, n, m, src(s), lambda a, b: Or(a < i(s), And(a == i(s), b < j(s)))))]), dec=lambda s: w(s) - j(s)),
        LoopSpec(L(rng(lambda s, n, m: And(1 <= i(s), Or(i(s) <= 2 * n, n == 0))), all_leaves, rl(lambda s, x, y: x < i(s))), dec=lambda s: 2 * h(s) + 1 - i(s)),
        LoopSpec(L(rng(lambda s, n, m: And(1 <= i(s), i(s) < 2 * n, j(s) < m, j(s) >= -1)), all_leaves, rl(lambda s, x, y: Or(x < i(s), And(x == i(s), y > j(s))))), dec=lambda s: j(s) + 1),
        LoopSpec(L(rng(lambda s, n, m: And(-1 <= i(s), i(s) < n)), all_leaves, rl(lambda s, x, y: True), cl(lambda s, x, y: x > i(s))), dec=lambda s: i(s) + 1),
        LoopSpec(L(rng(lambda s, n, m: And(1 <= i(s), i(s) < n, 1 <= j(s), Or(j(s) <= 2 * m, m == 0))), all_leaves, rl(lambda s, x, y: True), cl(lambda s, x, y: Or(x > i(s), And(x == i(s), y < j(s))))), dec=lambda s: 2 * w(s) + 1 - j(s))]
    return [ls[k] for k in (0, 2, 4, 5, 3, 1)]   # the order in which the compiled loops appear
def c_post(o, h, w, src): return lambda s: (lambda n, m, D, NN: wf(s, o) + [cdim(s, o, h, w), ('leaves', leaves(D, n, m, src(s)))])(*dims(s, o))
aw = lambda s: If(s.n('a') == 0, 0, s.e('a', '__n')[0])
def a_pre(s):
    NN = s.e('a', '__n')
    return [And(s.n('a') <= B, Implies(s.n('a') > 0, NN[0] <= B), s.n('a') >= 0), forall(1, lambda x: Implies(And(0 <= x, x < s.n('a')), And(NN[x] == NN[0], NN[x] >= 0)), pat=lambda x: NN[x])]
asrc = lambda s: (lambda X: (lambda i, j: X[i][j]))(s.e('a', '__e'))
hn = lambda s: s.n('a')
def cspec(name, o, match=None):
    return FnSpec(name, match=match, requires=a_pre, ensures=c_post(o, hn, aw, asrc), modifies=(lambda s: ['this']) if match else None, loops=ctor_loops(o, hn, aw, asrc) if match else [])
C_ctor = cspec('ctor', 'this', match=r'SegmentTree2D<.*>::SegmentTree2D\(std::vector')
ctor = cspec('s2_ctor', 'out')
h0, w0 = (lambda s: s('h')), (lambda s: If(s('h') == 0, 0, s('w')))
ctor_n = FnSpec('s2_ctor_n', requires=lambda s: And(0 <= s('h'), s('h') <= B, 0 <= s('w'), s('w') <= B), ensures=c_post('out', h0, w0, lambda s: (lambda i, j: e)))
# ---- point assignment
onp = UF('on_path', Int, Int, Bool)
@definition
def onp_def(t, k): return onp(t, k) == And(t >= 1, Or(k == t, onp(t / 2, k)))
path = Lemma('on_path_parent', [Int, Int], lambda t, k: Implies(And(onp(t, k), k >= 2), onp(t, k / 2)), proof=lambda ih, w, t, k: [onp_def(t, k), onp_def(t, k / 2), ih(t / 2, k), onp_def(t / 2, k / 2)], measure=lambda t, k: If(t > 0, t, 0))
onp_q = lambda t: forall(1, lambda k: onp_def(t, k), pat=lambda k: onp(t, k))
def st(s):
    n, m, D, NN = dims(s, 'f'); n0, m0, D0, NN0 = dims(s.old, 'f'); i, j, v = s('i'), s('j'), s.old('val')
    base = shape(s, 'f') + [('size', And(n == n0, m == m0)), ('leaves', leaves(D, n, m, lambda a, b: If(And(a == i, b == j), v, D0[n + a][m + b])))]
    return n, m, D, D0, i, j, base
def s1(s):
    n, m, D, D0, i, j, b = st(s); t = s.v('tj')
    return b + [('path', And(0 <= t, t < m, Implies(t > 0, onp(m + j, t)))), ('other rows', forall(2, lambda x, y: Implies(Or(x != n + i, Not(onp(m + j, y))), D[x][y] == D0[x][y]), pat=pd(D))),
        ('leaf row', forall(1, lambda k: Implies(And(1 <= k, k < m, k != t), Rnode(D, n + i, k)), pat=lambda k: D[n + i][k]))]
def s1_use(s):
    n, m, D, D0, i, j, b = st(s); s.lemma(path, m + j, m + j); s.assume_def(onp_def(m + j, m + j))
    if s.prev is not None: s.lemma(path, m + j, s.prev.v('tj'))
def s2(s):
    n, m, D, D0, i, j, b = st(s); t = s.v('ti')
    return b + [('range', And(0 <= t, t < n)), ('leaf rows', Rleaf(D, n, m)), ('inner rows', forall(2, lambda x, y: Implies(And(1 <= x, x < n, 1 <= y, y < 2 * m, Or(x != t, Not(onp(m + j, y)))), Cnode(D, x, y)), pat=pd(D)))]
def s3(s):
    n, m, D, D0, i, j, b = st(s); t, c = s.v('ti'), s.v('tj')
    return b + [('range', And(1 <= t, t < n, 0 <= c, c < 2 * m, Implies(c > 0, onp(m + j, c)))), ('leaf rows', Rleaf(D, n, m)),
        ('inner rows', forall(2, lambda x, y: Implies(And(1 <= x, x < n, 1 <= y, y < 2 * m, Or(x != t, Not(onp(c, y))), Or(x != t / 2, Not(onp(m + j, y)))), Cnode(D, x, y)), pat=pd(D)))]
def s3_use(s):
    n, m, D, D0, i, j, b = st(s); s.assume_def(onp_def(m + j, m + j))
    if s.prev is not None: c = s.prev.v('tj'); s.lemma(path, m + j, c); s.lemma(onpq, c)
    s.lemma(onpq, V(0))
onpq = Lemma('on_path_unfold', [Int], lambda t: forall(1, lambda k: onp(t, k) == And(t >= 1, Or(k == t, onp(t / 2, k))), pat=lambda k: onp(t, k)), proof=lambda ih, u, t: [forall(1, lambda k: onp_def(t, k), pat=lambda k: onp(t, k))])
def set_post(s):
    n, m, D, D0, i, j, b = st(s); return b + wf(s, 'f')[2:]
setf = FnSpec('s2_set', requires=lambda s: wf(s, 'f') + [And(0 <= s('i'), s('i') < s('f.n'), 0 <= s('j'), s('j') < s('f.m'))], ensures=set_post,
    loops=[LoopSpec(s1, dec=lambda s: s.v('tj'), use=s1_use), LoopSpec(s2, dec=lambda s: s.v('ti'), use=s3_use), LoopSpec(s3, dec=lambda s: s.v('tj'), use=s3_use)])
specs = [q, C_ctor, ctor, ctor_n, setf, FnSpec('s2_get', requires=lambda s: wf(s, 'f') + [And(0 <= s('i'), s('i') < s('f.n'), 0 <= s('j'), s('j') < s('f.m'))], ensures=lambda s: (lambda n, m, D, NN: ('leaf', s.res == D[n + s('i')][m + s('j')]))(*dims(s, 'f')))]
unit = Unit('segtree2d', specs, opaque={'T': 'T'}, theory=M.ax[1:], contracts=[C_ctor], keep=[r'SegmentTree2D<.*>::SegmentTree2D\(std::vector'])
