from irv.spec import *
from irv.unit import Unit
V = z3.IntVal; S = OSort('S'); MX = (1 << 31) - 1
addl, addr, dell, delr = [UF('uf_' + k, S, Int, S) for k in ('addl', 'addr', 'dell', 'delr')]; ev = UF('uf_eval', S, Int)
win = UF('window', Int, Int, S); at = UF('position_in_order', Int, Int)
def theory():                             # the documented contract of the callbacks, for non-empty or empty windows [l, r) only
    l, r, i = z3.Ints('wl wr wi'); ax = lambda f, g, n: z3.ForAll([l, r, i], Implies(And(0 <= l, g), f(win(l, r), i) == n), patterns=[f(win(l, r), i)])
    return [ax(addr, And(l <= r, i == r), win(l, r + 1)), ax(addl, And(0 < l, l <= r, i == l - 1), win(l - 1, r)), ax(delr, And(l < r, i == r - 1), win(l, r - 1)), ax(dell, And(l < r, i == l), win(l + 1, r))]
QL, QR, NQ, OR = (lambda s: s.e('m.qs', 'first')), (lambda s: s.e('m.qs', 'second')), (lambda s: s('m.q')), (lambda s: s.e('m.ord'))
def mo_wf(s): L, R_, n, O = QL(s), QR(s), NQ(s), OR(s); return [('sizes', And(0 <= n, n < MX, s.n('m.qs') == n, s.n('m.ord') == n)), ('queries', rngq(0, n, lambda i: And(0 <= L[i], L[i] <= R_[i], R_[i] < MX), pat=lambda i: L[i])), ('query ends', rngq(0, n, lambda i: And(0 <= R_[i], R_[i] < MX), pat=lambda i: R_[i])), ('order', rngq(0, n, lambda k: And(0 <= O[k], O[k] < n), pat=lambda k: O[k]))]
perm = lambda s: ('every query listed', rngq(0, NQ(s), lambda i: And(0 <= at(i), at(i) < NQ(s), OR(s)[at(i)] == i), pat=lambda i: QL(s)[i]))
same = lambda s: ('unchanged', And(QL(s) == QL(s.old), QR(s) == QR(s.old), OR(s) == OR(s.old), NQ(s) == NQ(s.old)))
def state(s): l, r = s('m.l'), s('m.r'); return ('window', And(0 <= l, l <= r, r < MX, s('w.v') == win(l, r)))
def done(s, k): A = s.e('res'); return ('answers', And(s.n('res') == NQ(s), rngq(0, k, lambda j: A[OR(s)[j]] == ev(win(QL(s)[OR(s)[j]], QR(s)[OR(s)[j]])), pat=lambda j: OR(s)[j])))
def outer(s): k = s.v('__begin2'); return [same(s), ('range', And(0 <= k, k <= NQ(s))), state(s), done(s, k)]
nl, nr = (lambda s: QL(s)[s.v('qi')]), (lambda s: QR(s)[s.v('qi')]); l_, r_ = (lambda s: s('m.l')), (lambda s: s('m.r'))
def inner(extra, dec): return LoopSpec(lambda s: [state(s), ('query', And(0 <= s.v('qi'), s.v('qi') < NQ(s)))] + extra(s), dec=dec)
mo = FnSpec('mo_solve', requires=lambda s: mo_wf(s) + [perm(s), s('w.v') == win(V(0), V(0))], ensures=lambda s: [('every query answered', rngq(0, NQ(s), lambda i: s.e('out')[i] == ev(win(QL(s)[i], QR(s)[i])), pat=lambda i: QL(s)[i]))], modifies=lambda s: ['m.l', 'm.r', 'm.query_id', 'w', 'out'],
    loops=[LoopSpec(outer, dec=lambda s: NQ(s) - s.v('__begin2')), inner(lambda s: [], lambda s: nr(s) - r_(s)), inner(lambda s: [('grown', r_(s) >= nr(s))], lambda s: l_(s) - nl(s)),
        inner(lambda s: [('covers', And(l_(s) <= nl(s), r_(s) >= nr(s)))], lambda s: r_(s) - nr(s)), inner(lambda s: [('right end', And(l_(s) <= nl(s), r_(s) == nr(s)))], lambda s: nl(s) - l_(s))])
# ------------------------------------------------------------------ rectangles of a histogram; (L, R, H) is arbitrary, K an index where the minimum of [L, R) is attained
K = z3.Int('g_k'); h = lambda s: s.e('h'); n = lambda s: s.n('h'); HR = lambda s, r: If(r < n(s), h(s)[r], V(0))
SJ, SV, SN = (lambda s: s.e('stack', 'first')), (lambda s: s.e('stack', 'second')), (lambda s: s.n('stack'))
def is_rect(s): L, R_, H = s('L'), s('R'), s('H'); return And(0 <= L, L < R_, R_ <= n(s), rngq(L, R_, lambda i: h(s)[i] >= H, pat=lambda i: h(s)[i]), Or(L == 0, h(s)[L - 1] < H), Or(R_ == n(s), h(s)[R_] <= H))
def maximal(s): L, R_, H = s('L'), s('R'), s('H'); return And(is_rect(s), H > 0, L <= K, K < R_, h(s)[K] == H, Or(R_ == n(s), h(s)[R_] < H))
HIT = lambda s: s('hit.v') != 0
def stk(s, r, top):
    J, W, m, H = SJ(s), SV(s), SN(s), h(s)
    return [('stack', And(0 <= m, m <= r, rngq(0, m, lambda k: And(0 <= J[k], J[k] < r, 0 <= W[k], Implies(k == 0, J[k] == 0), Implies(k > 0, And(J[k - 1] < J[k], H[J[k] - 1] == W[k - 1]))), pat=lambda k: J[k]), Implies(m > 0, And(J[m - 1] < top, H[top - 1] == W[m - 1])), Implies(m == 0, top == 0))),
        ('increasing', forall(2, lambda a, b: Implies(And(0 <= a, a < b, b < m), W[a] < W[b]), pat=lambda a, b: z3.MultiPattern(W[a], W[b]))), ('entries are lower bounds', forall(2, lambda k, i: Implies(And(0 <= k, k < m, J[k] <= i, i < r), H[i] >= W[k]), pat=lambda k, i: z3.MultiPattern(J[k], H[i])))]
def entry_at(s, r, p): J, W, m, H = SJ(s), SV(s), SN(s), s('H'); return And(0 <= p, p < m, J[p] == s('L'), W[p] >= H, Implies(K < r, W[p] == H), Or(p == 0, W[p - 1] < H))
def entry(s, r): p = z3.Int('ex_p'); return z3.Exists([p], entry_at(s, r, p), patterns=[SJ(s)[p]])
STASH = {}
def h_head(s): STASH['in'] = s
def h_use(s):
    if s.prev is None: return
    t = STASH['in']; r, m, W, H, L = s.prev.v('r'), SN(t), SV(t), s('H'), s('L'); hr = HR(s, r); inr = And(maximal(s), L <= r, r < s('R'))
    s.have('kept entries', forall(1, lambda p: Implies(And(inr, entry_at(t, r, p)), entry_at(s, r + 1, p)), pat=lambda p: SJ(t)[p]))
    s.have('pushed entry', Implies(And(inr, Or(L == r, And(t.v('j') == L, Or(m == 0, W[m - 1] < H), Implies(K < r, hr <= H)))), entry_at(s, r + 1, m)))
def h_outer(s): r = s.v('r'); return [('range', And(0 <= r, r <= n(s) + 1)), ('sound', Implies(HIT(s), is_rect(s)))] + [(a, Implies(r <= n(s), f)) for a, f in stk(s, r, r)] + [('complete', Implies(maximal(s), And(Implies(r > s('R'), HIT(s)), Implies(And(s('L') < r, r <= s('R')), entry(s, r)))))]
def h_inner(s):
    r, j, m, W = s.v('r'), s.v('j'), SN(s), SV(s); L, R_, H = s('L'), s('R'), s('H'); hr = HR(s, r)
    return [('range', And(0 <= r, r <= n(s), 0 <= j, j <= r)), ('sound', Implies(HIT(s), is_rect(s)))] + stk(s, r, j) + [('popped', rngq(j, r, lambda i: h(s)[i] >= hr, pat=lambda i: h(s)[i])), ('complete', Implies(maximal(s), And(Implies(r > R_, HIT(s)), Implies(r == L, j == r), Implies(r == R_, Or(HIT(s), entry(s, r))), Implies(And(L < r, r < R_), Or(entry(s, r), And(j == L, Or(m == 0, W[m - 1] < H), Implies(K < r, hr <= H)))))))]
hist = FnSpec('hist', requires=lambda s: [n(s) < MX, ('heights', rngq(0, n(s), lambda i: h(s)[i] >= 0, pat=lambda i: h(s)[i]))], ensures=lambda s: [('only rectangles', Implies(HIT(s), is_rect(s))), ('every maximal one', Implies(maximal(s), HIT(s)))], loops=[LoopSpec(h_outer, dec=lambda s: n(s) - s.v('r') + 1, use=h_use), LoopSpec(h_inner, dec=lambda s: SN(s), head=h_head)])
# ------------------------------------------------------------------ largest all-ones square
AA = z3.ArraySort(Int, z3.ArraySort(Int, Int)); side = UF('side', AA, Int, Int, Int); MS = 46340
mn = lambda a, b: If(a < b, a, b)
@definition
def side_def(A, i, j): return side(A, i, j) == If(Or(i < 0, j < 0), 0, If(A[i][j] == 0, 0, 1 + mn(side(A, i, j - 1), mn(side(A, i - 1, j - 1), side(A, i - 1, j)))))
def full(A, i, j, k): return And(k <= i + 1, k <= j + 1, forall(2, lambda u, v: Implies(And(i - k < u, u <= i, j - k < v, v <= j), A[u][v] != 0), pat=lambda u, v: A[u][v]))
meas = lambda A, i, j, *_: If(And(i >= 0, j >= 0), i + j + 1, 0)
sd_rng = Lemma('side_range', [AA, Int, Int], lambda A, i, j: And(0 <= side(A, i, j), Implies(And(i >= -1, j >= -1), And(side(A, i, j) <= i + 1, side(A, i, j) <= j + 1))), proof=lambda ih, u, A, i, j: [side_def(A, i, j), ih(A, i, j - 1), ih(A, i - 1, j), ih(A, i - 1, j - 1)], measure=meas)
sd_ones = Lemma('side_all_ones', [AA, Int, Int, Int, Int, Int], lambda A, i, j, k, u_, v: Implies(And(0 <= k, k <= side(A, i, j), i - k < u_, u_ <= i, j - k < v, v <= j), A[u_][v] != 0), proof=lambda ih, u, A, i, j, k, u_, v: [side_def(A, i, j), ih(A, i, j - 1, k - 1, u_, v), ih(A, i - 1, j, k - 1, u_, v), ih(A, i - 1, j - 1, k - 1, u_, v)], measure=meas)
sd_max = Lemma('side_maximal', [AA, Int, Int, Int], lambda A, i, j, k: Implies(And(i >= 0, j >= 0, full(A, i, j, k)), k <= side(A, i, j)), proof=lambda ih, u, A, i, j, k: [side_def(A, i, j), side_def(A, i - 1, j), side_def(A, i, j - 1), side_def(A, i - 1, j - 1), A[i][j] == A[i][j], ih(A, i, j - 1, k - 1), ih(A, i - 1, j, k - 1), ih(A, i - 1, j - 1, k - 1)], measure=meas)
GA, GN, gn = (lambda s: s.e('g', '__e')), (lambda s: s.e('g', '__n')), (lambda s: s.n('g'))
gm = lambda s: If(gn(s) == 0, V(0), GN(s)[0])
sq_wf = lambda s: [('rectangular', And(0 <= gn(s), gn(s) <= MS, 0 <= gm(s), gm(s) <= MS, rngq(0, gn(s), lambda i: GN(s)[i] == GN(s)[0], pat=lambda i: GN(s)[i])))]
best = lambda s: s.v('max_l')
nn = Lemma('nonneg', [Int, Int], lambda p, q: Implies(And(p >= 0, q >= 0), p * q >= 0), proof=lambda ih, u, p, q: [ih(p - 1, q), (p - 1) * q == p * q - q, 0 * q == 0], measure=lambda p, q: If(p > 0, p, 0))
sqb = Lemma('square_bound', [Int, Int], lambda c, m: Implies(And(0 <= m, m <= c), And(m * m <= c * c, m <= m * m)), proof=lambda ih, u, c, m: [u(nn, c - m, c + m), (c - m) * (c + m) == c * c - m * m, u(nn, m - 1, m), (m - 1) * m == m * m - m, 0 * m == 0])
def where(s, A, M, u, d, l, r): return ('place', Or(M == 0, And(0 <= u, u + M == d, d <= gn(s), 0 <= l, l + M == r, r <= gm(s), side(A, d - 1, r - 1) == M)))
at_ = lambda s: [s.v('max_square#%d' % k) for k in (3, 2, 1, 0)]
def bound(s, A, M, lo): return ('best', forall(2, lambda u, v: Implies(And(0 <= u, 0 <= v, v < gm(s), lo(u, v)), side(A, u, v) <= M), pat=lambda u, v: side(A, u, v)))
def sq1(s): A, i, m, M = GA(s), s.v('i'), gm(s), best(s); P = s.e('pd'); return [('range', And(0 <= i, i <= gn(s), 0 <= M, M <= MS, s.n('pd') == m)), ('previous row', rngq(0, m, lambda j: P[j] == side(A, i - 1, j), pat=lambda j: P[j])), bound(s, A, M, lambda u, v: u < i), where(s, A, M, *at_(s))]
def sq2(s): A, i, j, m, M = GA(s), s.v('i'), s.v('j'), gm(s), best(s); P, D = s.e('pd'), s.e('dp'); return [('range', And(0 <= i, i < gn(s), 0 <= j, j <= m, 0 <= M, M <= MS, s.n('pd') == m, s.n('dp') == m)), ('this row', And(rngq(0, j, lambda t: D[t] == side(A, i, t), pat=lambda t: D[t]), rngq(j, m, lambda t: D[t] == 0, pat=lambda t: D[t]))), bound(s, A, M, lambda u, v: Or(u < i, And(u == i, v < j))), where(s, A, M, *at_(s))]
def sq1_use(s):
    if s.prev is None: A = GA(s); s.assume_def(forall(1, lambda j: side_def(A, V(-1), j), pat=lambda j: side(A, V(-1), j)))
def sq2_head(s): A, i, j = GA(s), s.v('i'), s.v('j'); [s.assume_def(side_def(A, a, b)) for a, b in ((i, j), (i, V(-1)), (i - 1, V(-1)))]; [s.lemma(sd_rng, A, a, b) for a, b in ((i, j), (i, j - 1), (i - 1, j), (i - 1, j - 1))]; s.assume_def(Implies(j == 0, And(side_def(A, i, j - 1), side_def(A, i - 1, j - 1))))
I_, J_, K_, U_, V_ = z3.Ints('g_i g_j g_s g_u g_v')
def msq_ens(s):
    A, M = GA(s), s('o.d') - s('o.u'); u, d, l, r, ar = [s('o.' + k) for k in ('u', 'd', 'l', 'r', 'area')]
    return [('square', Or(ar == 0, And(0 <= u, d <= gn(s), 0 <= l, r <= gm(s), d - u == r - l, ar == M * M, M > 0))), ('all ones', Implies(And(ar != 0, u <= U_, U_ < d, l <= V_, V_ < r), A[U_][V_] != 0)),
        ('no larger one', Implies(And(0 < K_, 0 <= I_, I_ < gn(s), 0 <= J_, J_ < gm(s), full(A, I_, J_, K_)), And(ar != 0, K_ <= M)))]
def msq_use(s):
    A = GA(s); s.lemma(sd_max, A, I_, J_, K_); s.lemma(sd_ones, A, s('o.d') - 1, s('o.r') - 1, s('o.d') - s('o.u'), U_, V_); M = s('o.d') - s('o.u')
    s.lemma(sqb, V(MS), M)
msq = FnSpec('msq', requires=sq_wf, ensures=msq_ens, use=msq_use, loops=[LoopSpec(sq1, dec=lambda s: gn(s) - s.v('i'), use=sq1_use, head=lambda s: s.lemma(sqb, V(MS), best(s))), LoopSpec(sq2, dec=lambda s: gm(s) - s.v('j'), head=sq2_head), LoopSpec(unroll=3)])
specs = [mo, hist, msq]
unit = Unit('offline', specs, opaque={'S': 'S'}, theory=theory())
