from irv.spec import *
from irv.unit import Unit
N = (1 << 31) - 1
# ghost constants: C = representative of each vertex, K = strictly decreasing rank along parent links
C, K, C2, K2 = [z3.Const('g_' + x, Arr()) for x in ('C', 'K', 'C2', 'K2')]
cnt = UF('uf_cnt', Arr(), Int, Int, Int)          # number of i < k with C[i] == r
@definition
def cnt_def(A, k, r): return cnt(A, k, r) == If(k <= 0, 0, cnt(A, k - 1, r) + If(A[k - 1] == r, 1, 0))
cnt_nn = Lemma('cnt_bounds', [Arr(), Int, Int], lambda A, k, r: And(cnt(A, k, r) >= 0, Implies(k >= 0, cnt(A, k, r) <= k)), proof=lambda ih, u, A, k, r: [cnt_def(A, k, r), ih(A, k - 1, r)], measure=lambda A, k, r: If(k > 0, k, 0))
cnt_two = Lemma('cnt_disjoint', [Arr(), Int, Int, Int], lambda A, k, r, q: Implies(And(k >= 0, r != q), cnt(A, k, r) + cnt(A, k, q) <= k), proof=lambda ih, u, A, k, r, q: [cnt_def(A, k, r), cnt_def(A, k, q), ih(A, k - 1, r, q)], measure=lambda A, k, r, q: k)
cnt_pos = Lemma('cnt_pos', [Arr(), Int, Int], lambda A, k, i: Implies(And(0 <= i, i < k), cnt(A, k, A[i]) >= 1), proof=lambda ih, u, A, k, i: [cnt_def(A, k, A[i]), ih(A, k - 1, i), u(cnt_nn, A, k - 1, A[i])], measure=lambda A, k, i: k)
def relabel(A, B_, w, l): return forall(1, lambda i: B_[i] == If(A[i] == l, w, A[i]), pat=lambda i: B_[i])
cnt_merge = Lemma('cnt_merge', [Arr(), Arr(), Int, Int, Int, Int], lambda A, B_, k, w, l, r: Implies(And(w != l, relabel(A, B_, w, l)),
        cnt(B_, k, r) == If(r == w, cnt(A, k, w) + cnt(A, k, l), If(r == l, 0, cnt(A, k, r)))),
    proof=lambda ih, u, A, B_, k, w, l, r: [cnt_def(A, k, r), cnt_def(A, k, w), cnt_def(A, k, l), cnt_def(B_, k, r), ih(A, B_, k - 1, w, l, r), B_[k - 1] == B_[k - 1]], measure=lambda A, B_, k, w, l, r: If(k > 0, k, 0))
cnt_mergeq = Lemma('cnt_merge_all', [Arr(), Arr(), Int, Int, Int], lambda A, B_, k, w, l: Implies(And(w != l, relabel(A, B_, w, l)), forall(1, lambda r: cnt_merge.stmt(A, B_, k, w, l, r), pat=lambda r: cnt(B_, k, r))),
    proof=lambda ih, u, A, B_, k, w, l: [forall(1, lambda r: u(cnt_merge, A, B_, k, w, l, r), pat=lambda r: cnt(B_, k, r))])
cnt_id = Lemma('cnt_identity', [Arr(), Int, Int], lambda A, k, r: Implies(forall(1, lambda i: A[i] == i, pat=lambda i: A[i]), cnt(A, k, r) == If(And(0 <= r, r < k), 1, 0)),
    proof=lambda ih, u, A, k, r: [cnt_def(A, k, r), ih(A, k - 1, r), A[k - 1] == A[k - 1]], measure=lambda A, k, r: If(k > 0, k, 0))
cnt_idq = Lemma('cnt_identity_all', [Arr(), Int], lambda A, k: Implies(forall(1, lambda i: A[i] == i, pat=lambda i: A[i]), forall(1, lambda r: cnt_id.stmt(A, k, r), pat=lambda r: cnt(A, k, r))),
    proof=lambda ih, u, A, k: [forall(1, lambda r: u(cnt_id, A, k, r), pat=lambda r: cnt(A, k, r))])

def forest(D, n, C, K):
    inr = lambda x: And(0 <= x, x < n)
    return [('labels', forall(1, lambda x: Implies(inr(x), And(inr(C[x]), D[C[x]] < 0, K[x] >= 0)), pat=lambda x: [C[x], D[x]])),
            ('roots', forall(1, lambda x: Implies(And(inr(x), D[x] < 0), And(C[x] == x, D[x] == -cnt(C, n, x))), pat=lambda x: D[x])),
            ('links', forall(1, lambda x: Implies(And(inr(x), D[x] >= 0), And(D[x] < n, C[D[x]] == C[x], K[D[x]] < K[x], K[C[x]] < K[x])), pat=lambda x: D[x]))]
def wf(s, o='f', C=C, K=K):
    n = s(o + '._n')
    return [('size', And(0 <= n, n <= N, s.n(o + '._dat') == n))] + forest(s.e(o + '._dat'), n, C, K)
inr = lambda s, x, o='f': And(0 <= s(x), s(x) < s(o + '._n'))
buf0 = lambda s: ('buffer empty', s.n('buf') == 0)

# ------------------------------------------------------------------ UnionFind
def root_l1():
    def inv(s):
        B_, nb, x, n = s.e('buf'), s.n('buf'), s.v('x'), s('this._n'); D = s.e('this._dat')
        return [('x', And(0 <= x, x < n, C[x] == C[s('x')])), ('len', And(nb + K[x] <= K[s('x')], 0 <= nb)),
                ('buffer', rngq(0, nb, lambda i: And(0 <= B_[i], B_[i] < n, D[B_[i]] >= 0, C[B_[i]] == C[s('x')]), pat=lambda i: B_[i]))]
    return LoopSpec(inv, dec=lambda s: K[s.v('x')])
def root_l2():
    def inv(s):
        B_, nb, x, n = s.e('buf'), s.n('buf'), s.v('x'), s('this._n'); D = s.e('this._dat')
        return [('len', nb >= 0), ('buffer', rngq(0, nb, lambda i: And(0 <= B_[i], B_[i] < n, D[B_[i]] >= 0, C[B_[i]] == C[s('x')]), pat=lambda i: B_[i]))] + wf(s, 'this')
    return LoopSpec(inv, dec=lambda s: s.n('buf'))
root_c = FnSpec('UnionFind::root', requires=lambda s: wf(s, 'this') + [inr(s, 'x', 'this'), buf0(s)],
    ensures=lambda s: wf(s, 'this') + [('representative', s.res == C[s('x')]), buf0(s), ('n', s('this._n') == s.old('this._n'))],
    loops=[root_l1(), root_l2()], modifies=lambda s: ['this._dat', 'buf'])
root_c.match = r'suisen::UnionFind::root\('
winner = lambda D, x, y: If(D[C[x]] > D[C[y]], C[y], C[x])
loser = lambda D, x, y: If(D[C[x]] > D[C[y]], C[x], C[y])
def merge_ghost(s, D):
    """C2, K2 describe the merged partition"""
    x, y = s('x'), s('y'); w, l = winner(D, x, y), loser(D, x, y)
    return [relabel(C, C2, w, l), forall(1, lambda i: K2[i] == K[i] + If(C[i] == l, K[w] + 1, 0), pat=lambda i: K2[i])]
def merge_post(s, o='f'):
    D = s.old.e(o + '._dat'); x, y = s('x'), s('y')
    res = s.res if z3.is_bool(s.res) else s.res != 0
    return [('n', s(o + '._n') == s.old(o + '._n')), ('result', res == (C[x] != C[y]))] + \
           [('same set: ' + a, Implies(C[x] == C[y], f)) for a, f in wf(s, o)] + [('merged: ' + a, Implies(C[x] != C[y], f)) for a, f in wf(s, o, C2, K2)]
def merge_use(s, o='f'):
    D = s.old.e(o + '._dat'); x, y = s('x'), s('y'); w, l = winner(D, x, y), loser(D, x, y); n = s(o + '._n')
    s.lemma(cnt_mergeq, C, C2, n, w, l); s.lemma(cnt_two, C, n, w, l); s.lemma(cnt_pos, C, n, w); s.lemma(cnt_pos, C, n, l)
isTrue = lambda r: r if z3.is_bool(r) else r != 0
def ctor_use(A): return lambda s: s.lemma(cnt_idq, A, s('n'))
IDC = [forall(1, lambda i: C[i] == i, pat=lambda i: C[i]), forall(1, lambda i: K[i] == 0, pat=lambda i: K[i])]
# sizes are merged without overflow
def merge_pre(s, o='f'):
    D = s.e(o + '._dat'); n = s(o + '._n')
    return wf(s, o) + [inr(s, 'x', o), inr(s, 'y', o)] + merge_ghost(s, D)
specs = [root_c,
    FnSpec('uf_ctor', requires=lambda s: [0 <= s('n')] + IDC, ensures=lambda s: wf(s, 'out') + [s('out._n') == s('n')], use=ctor_use(C)),
    FnSpec('uf_root', requires=lambda s: wf(s) + [inr(s, 'x'), buf0(s)], ensures=lambda s: wf(s) + [('representative', s.res == C[s('x')]), buf0(s)]),
    FnSpec('uf_index', requires=lambda s: wf(s) + [inr(s, 'x'), buf0(s)], ensures=lambda s: wf(s) + [('representative', s.res == C[s('x')]), buf0(s)]),
    FnSpec('uf_merge', requires=lambda s: merge_pre(s) + [buf0(s)], ensures=lambda s: merge_post(s) + [buf0(s)], pre=merge_use),
    FnSpec('uf_same', requires=lambda s: wf(s) + [inr(s, 'x'), inr(s, 'y'), buf0(s)], ensures=lambda s: wf(s) + [('same', isTrue(s.res) == (C[s('x')] == C[s('y')]))]),
    FnSpec('uf_size', requires=lambda s: wf(s) + [inr(s, 'x'), buf0(s)], ensures=lambda s: wf(s) + [('component size', s.res == cnt(C, s('f._n'), C[s('x')]))],
           pre=lambda s: (s.lemma(cnt_nn, C, s('f._n'), C[s('x')]), s.lemma(cnt_pos, C, s('f._n'), s('x')))),
]

# ------------------------------------------------------------------ LinkedUnionFind: the links of a component form one cycle; P is the position on it
P, P2 = z3.Const('g_P', Arr()), z3.Const('g_P2', Arr())
wrap = lambda t, m: If(t >= m, t - m, t)
def links(s, o='f', C=C, P=P):
    L, n = s.e(o + '._link'), s(o + '._n'); ir = lambda x: And(0 <= x, x < n)
    return [('link size', s.n(o + '._link') == n),
            ('cycle', forall(1, lambda x: Implies(ir(x), And(ir(L[x]), C[L[x]] == C[x], 0 <= P[x], P[x] < cnt(C, n, C[x]), P[L[x]] == wrap(P[x] + 1, cnt(C, n, C[x])))), pat=lambda x: [L[x], P[x]])),
            ('one cycle', forall(2, lambda x, y: Implies(And(ir(x), ir(y), C[x] == C[y], P[x] == P[y]), x == y), pat=lambda x, y: [(P[x], P[y])]))]
def link_ghost(s):
    x, y, n = s('x'), s('y'), s('f._n'); sx, sy = cnt(C, n, C[x]), cnt(C, n, C[y])
    rot = lambda v, a, m: If(P[v] - P[a] - 1 < 0, P[v] - P[a] - 1 + m, P[v] - P[a] - 1)
    return [forall(1, lambda v: P2[v] == If(C[v] == C[y], rot(v, y, sy), If(C[v] == C[x], sy + rot(v, x, sx), P[v])), pat=lambda v: P2[v])]
def lu_post(s):
    x, y = s('x'), s('y')
    return merge_post(s) + [('same set: ' + a, Implies(C[x] == C[y], f)) for a, f in links(s)] + [('merged: ' + a, Implies(C[x] != C[y], f)) for a, f in links(s, 'f', C2, P2)]
def comp_inv(s):
    x, n, y = s('x'), s('f._n'), s.v('y'); Q, nb = s.e('out'), s.n('out'); m = cnt(C, n, C[x])
    return [('members', rngq(0, nb, lambda k: And(0 <= Q[k], Q[k] < n, C[Q[k]] == C[x], P[Q[k]] == wrap(P[x] + k, m)), pat=lambda k: Q[k])),
            ('at', And(1 <= nb, nb <= m, 0 <= y, y < n, C[y] == C[x], P[y] == wrap(P[x] + nb, m), Q[0] == x))]
specs += [
    FnSpec('lu_ctor', requires=lambda s: [0 <= s('n')] + IDC + [forall(1, lambda i: P[i] == 0, pat=lambda i: P[i])], ensures=lambda s: wf(s, 'out') + links(s, 'out') + [s('out._n') == s('n')], use=ctor_use(C)),
    FnSpec('lu_merge', requires=lambda s: merge_pre(s) + links(s) + link_ghost(s) + [buf0(s)], ensures=lambda s: lu_post(s) + [buf0(s)], pre=lambda s: (merge_use(s), s.assume_def(P2[s('x')] == P2[s('x')]))),
    FnSpec('lu_comp', requires=lambda s: wf(s) + links(s) + [inr(s, 'x')],
           ensures=lambda s: [('as many as the component has members', s.n('out') == cnt(C, s('f._n'), C[s('x')])), ('starts at x', s.e('out')[0] == s('x')),
               ('members', rngq(0, s.n('out'), lambda k: And(0 <= s.e('out')[k], s.e('out')[k] < s('f._n'), C[s.e('out')[k]] == C[s('x')]), pat=lambda k: s.e('out')[k])),
               ('distinct', forall(2, lambda j, k: Implies(And(0 <= j, j < k, k < s.n('out')), s.e('out')[j] != s.e('out')[k]), pat=lambda j, k: [(s.e('out')[j], s.e('out')[k])]))],
           loops=[LoopSpec(comp_inv, dec=lambda s: cnt(C, s('f._n'), C[s('x')]) - s.n('out'))]),
]

# ------------------------------------------------------------------ UndoUnionFind
SNAP = z3.Const('g_SNAP', Arr())
und = UF('uu_und', Arr(), Arr(), Arr(), Int, Arr())        # the parent array after undoing the k oldest entries, newest first
@definition
def und_def(D, F, S, k): return und(D, F, S, k) == If(k <= 0, D, und(z3.Store(D, F[k - 1], S[k - 1]), F, S, k - 1))
und_ext = Lemma('undo_ext', [Arr(), Arr(), Arr(), Arr(), Arr(), Int], lambda D, F, S, F2, S2, k: Implies(rngq(0, k, lambda i: And(F[i] == F2[i], S[i] == S2[i]), pat=lambda i: F2[i]), und(D, F, S, k) == und(D, F2, S2, k)),
    proof=lambda ih, u, D, F, S, F2, S2, k: [und_def(D, F, S, k), und_def(D, F2, S2, k), ih(z3.Store(D, F[k - 1], S[k - 1]), F, S, F2, S2, k - 1), F2[k - 1] == F2[k - 1]], measure=lambda D, F, S, F2, S2, k: If(k > 0, k, 0))
def hist(s, o='f'): return s.e(o + '._dat'), s.e(o + '._history', 'first'), s.e(o + '._history', 'second'), s.n(o + '._history')
def uwf(s, o='f', C=C, K=K): return wf(s, o, C, K) + uhist(s, o)
def uhist(s, o='f'):
    D, F, S, h = hist(s, o)
    return [('history', And(h >= 0, h % 2 == 0, und(D, F, S, h) == SNAP)), ('entries', rngq(0, h, lambda i: And(0 <= F[i], F[i] < s(o + '._n')), pat=lambda i: F[i]))]
def unchanged(s, o='f'):
    D, F, S, h = hist(s, o); D0, F0, S0, h0 = hist(s.old, o)
    return [('unchanged', And(D == D0, F == F0, S == S0, h == h0))]
uroot_c = FnSpec('UndoUnionFind::root', requires=lambda s: wf(s, 'this') + [inr(s, 'x', 'this')], ensures=lambda s: ('representative', s.res == C[s('x')]), dec=lambda s: K[s('x')], recursive=True)
uroot_c.match = r'UndoUnionFind::root\('
def uu_hint(s):
    D, F, S, h = hist(s); D0, F0, S0, h0 = hist(s.old)
    s.assume_def(und_def(D, F, S, h)); s.assume_def(und_def(z3.Store(D, F[h - 1], S[h - 1]), F, S, h - 1)); s.lemma(und_ext, D0, F, S, F0, S0, h0)
    E = z3.Store(z3.Store(D, F[h - 1], S[h - 1]), F[h - 2], S[h - 2])
    s.lemma(und_ext, E, F, S, F0, S0, h0)
    s.assume_def(ext_inst(E, D0))
ext_inst = definition(lambda A, B_: Implies(forall(1, lambda i: A[i] == B_[i], pat=lambda i: A[i]), A == B_))   # extensionality of arrays
def uu_undo_hint(s):
    D0, F0, S0, h0 = hist(s.old); D, F, S, h = hist(s)
    s.assume_def(und_def(D0, F0, S0, h0)); D1 = z3.Store(D0, F0[h0 - 1], S0[h0 - 1]); s.assume_def(und_def(D1, F0, S0, h0 - 1))
    s.lemma(und_ext, D, F, S, F0, S0, h); s.lemma(und_ext, D, F0, S0, F, S, h)
def rb_inv(s):
    D, F, S, h = hist(s)
    return [('size', And(s.n('f._dat') == s('f._n'), 0 <= s('f._n')))] + uhist(s)
def rb_use(s):
    D, F, S, h = hist(s); s.assume_def(und_def(D, F, S, h))
    if s.prev is not None:
        D0, F0, S0, h0 = hist(s.prev); s.assume_def(und_def(D0, F0, S0, h0)); s.assume_def(und_def(z3.Store(D0, F0[h0 - 1], S0[h0 - 1]), F0, S0, h0 - 1)); s.lemma(und_ext, D, F, S, F0, S0, h)
UIDC = IDC + [forall(1, lambda i: SNAP[i] == -1, pat=lambda i: SNAP[i])]
specs += [uroot_c,
    FnSpec('uu_ctor', requires=lambda s: [0 <= s('n')] + IDC, ensures=lambda s: wf(s, 'out') + [s('out._n') == s('n'), s.n('out._history') == 0], use=ctor_use(C)),
    FnSpec('uu_root', requires=lambda s: uwf(s) + [inr(s, 'x')], ensures=lambda s: unchanged(s) + [('representative', s.res == C[s('x')])]),
    FnSpec('uu_same', requires=lambda s: uwf(s) + [inr(s, 'x'), inr(s, 'y')], ensures=lambda s: unchanged(s) + [('same', isTrue(s.res) == (C[s('x')] == C[s('y')]))]),
    FnSpec('uu_size', requires=lambda s: uwf(s) + [inr(s, 'x')], ensures=lambda s: unchanged(s) + [('component size', s.res == cnt(C, s('f._n'), C[s('x')]))],
           pre=lambda s: (s.lemma(cnt_nn, C, s('f._n'), C[s('x')]), s.lemma(cnt_pos, C, s('f._n'), s('x')))),
    FnSpec('uu_merge', requires=lambda s: merge_pre(s) + uhist(s), ensures=lambda s: merge_post(s) + uhist(s) + [('history grows by one merge', s.n('f._history') == s.old.n('f._history') + If(isTrue(s.res), 2, 0))], pre=merge_use, use=uu_hint),
    FnSpec('uu_merge_undo', requires=lambda s: merge_pre(s) + uhist(s), ensures=lambda s: [('restored', ext(s.e('f._dat'), s.old.e('f._dat'))), ('history', s.n('f._history') == s.old.n('f._history'))], pre=merge_use),
    FnSpec('uu_undo', requires=lambda s: [('size', And(s.n('f._dat') == s('f._n'), 0 <= s('f._n')))] + uhist(s) + [s.n('f._history') > 0], ensures=lambda s: uhist(s) + [('one merge', s.n('f._history') == s.old.n('f._history') - 2)], use=uu_undo_hint),
    FnSpec('uu_snapshot', requires=lambda s: wf(s), ensures=lambda s: [('empty history', s.n('f._history') == 0), ('state kept', s.e('f._dat') == s.old.e('f._dat'))]),
    FnSpec('uu_rollback', requires=lambda s: [('size', And(s.n('f._dat') == s('f._n'), 0 <= s('f._n')))] + uhist(s), ensures=lambda s: [('restored', s.e('f._dat') == SNAP), ('empty history', s.n('f._history') == 0)],
           loops=[LoopSpec(rb_inv, dec=lambda s: s.n('f._history'), use=rb_use)], use=lambda s: s.assume_def(und_def(*hist(s)))),
]
def ext(A, B_): return forall(1, lambda i: A[i] == B_[i], pat=lambda i: A[i])


# ------------------------------------------------------------------ WeightedUnionFind over an arbitrary (also non-commutative) group
M = Monoid('T', 'uf_op', 'uf_e'); T = M.T; op, e = M.op, M.e; neg = UF('uf_neg', T, T)
ga, gb = z3.Consts('ga gb', T)
GRP = M.ax + [z3.ForAll([ga], op(ga, neg(ga)) == e, patterns=[neg(ga)]), z3.ForAll([ga], op(neg(ga), ga) == e, patterns=[neg(ga)])]
W, W2 = z3.Const('g_W', M.A), z3.Const('g_W2', M.A)
inv_op = lambda a, b: neg(op(a, b)) == op(neg(b), neg(a))
def wwf(s, o='f', C=C, K=K, W=W):
    n = s(o + '.n'); P, Z, Vv = s.e(o + '.par'), s.e(o + '.siz'), s.e(o + '.value')
    ir = lambda x: And(0 <= x, x < n)
    return [('size', And(0 <= n, n <= N, s.n(o + '.par') == n, s.n(o + '.siz') == n, s.n(o + '.value') == n)),
            ('labels', forall(1, lambda x: Implies(ir(x), And(ir(C[x]), P[C[x]] == C[x], K[x] >= 0, W[C[x]] == e)), pat=lambda x: [C[x], P[x]])),
            ('roots', forall(1, lambda x: Implies(And(ir(x), P[x] == x), And(C[x] == x, Z[x] == cnt(C, n, x), Vv[x] == e)), pat=lambda x: P[x])),
            ('links', forall(1, lambda x: Implies(And(ir(x), P[x] != x), And(ir(P[x]), C[P[x]] == C[x], K[P[x]] < K[x], K[C[x]] < K[x], W[x] == op(W[P[x]], Vv[x]))), pat=lambda x: P[x]))]
winr = lambda s, x, o='f': And(0 <= s(x), s(x) < s(o + '.n'))
def wloop(res):
    def inv(s):
        x = s.v('x')
        return wwf(s, 'this') + [('x', And(0 <= x, x < s('this.n'), C[x] == C[s('x')]))] + ([('weight', W[s('x')] == op(W[x], s.v('res')))] if res else [])
    return LoopSpec(inv, dec=lambda s: K[s.v('x')])
wroot_c = FnSpec('WeightedUnionFind::root', requires=lambda s: wwf(s, 'this') + [winr(s, 'x', 'this')], ensures=lambda s: wwf(s, 'this') + [('representative', s.res == C[s('x')])],
    loops=[wloop(False)], modifies=lambda s: ['this.par', 'this.value'], theory=M.ax)
wroot_c.match = r'WeightedUnionFind.*::root\('
wweight_c = FnSpec('WeightedUnionFind::weight', requires=lambda s: wwf(s, 'this') + [winr(s, 'x', 'this')], ensures=lambda s: wwf(s, 'this') + [('weight', s.res == W[s('x')])],
    loops=[wloop(True)], modifies=lambda s: ['this.par', 'this.value'], theory=M.ax, use=lambda s: s.assume_def(W[C[s('x')]] == W[C[s('x')]]))
wweight_c.match = r'WeightedUnionFind.*::weight\('; wweight_c.res_sort = 'T'
def wmerge_ghost(s):
    x, y = s('x'), s('y'); Z = s.e('f.siz'); d = s('d')
    sw = Z[C[x]] < Z[C[y]]; w, l = If(sw, C[y], C[x]), If(sw, C[x], C[y]); rd = op(op(W[x], d), neg(W[y]))
    return [relabel(C, C2, w, l), forall(1, lambda i: K2[i] == K[i] + If(C[i] == l, K[w] + 1, 0), pat=lambda i: K2[i]),
            forall(1, lambda i: W2[i] == If(C[i] == l, op(If(sw, neg(rd), rd), W[i]), W[i]), pat=lambda i: W2[i])]
def wmerge_post(s):
    x, y = s('x'), s('y')
    return [('result', isTrue(s.res) == (C[x] != C[y]))] + [('same set: ' + a, Implies(C[x] == C[y], f)) for a, f in wwf(s)] + \
           [('merged: ' + a, Implies(C[x] != C[y], f)) for a, f in wwf(s, 'f', C2, K2, W2)] + [('distance', Implies(C[x] != C[y], op(neg(W2[x]), W2[y]) == s.old('d')))]
def wmerge_use(s):
    x, y = s('x'), s('y'); Z = s.old.e('f.siz'); n = s('f.n'); sw = Z[C[x]] < Z[C[y]]; w, l = If(sw, C[y], C[x]), If(sw, C[x], C[y])
    d = s.old('d'); rd = op(op(W[x], d), neg(W[y]))
    s.lemma(cnt_mergeq, C, C2, n, w, l); s.lemma(cnt_two, C, n, w, l); s.lemma(cnt_pos, C, n, w); s.lemma(cnt_pos, C, n, l)
    for g in (op(W[x], d), W[y], rd, neg(rd), W[x], neg(W[y])): s.lemma(neg_neg, g); s.lemma(cancel, g, d); s.lemma(cancel, g, W[y]); s.lemma(cancel, g, W[x])
    s.lemma(neg_op, op(W[x], d), neg(W[y])); s.lemma(neg_op, W[x], d); s.lemma(neg_op, rd, W[y]); s.lemma(neg_op, neg(rd), W[x]); s.lemma(neg_op, rd, W[x])
    s.assume_def(And(W2[x] == W2[x], W2[y] == W2[y], C2[x] == C2[x], C2[y] == C2[y]))
neg_neg = Lemma('group_neg_neg', [T], lambda a: neg(neg(a)) == a, proof=lambda ih, u, a: [M.assoc(neg(neg(a)), neg(a), a)], theory=GRP)
cancel = Lemma('group_cancel', [T, T], lambda a, b: And(op(neg(a), op(a, b)) == b, op(a, op(neg(a), b)) == b, op(op(b, a), neg(a)) == b, op(op(b, neg(a)), a) == b), proof=lambda ih, u, a, b: [neg(a) == neg(a)], theory=GRP)
neg_op = Lemma('group_neg_op', [T, T], lambda a, b: neg(op(a, b)) == op(neg(b), neg(a)), proof=lambda ih, u, a, b: [u(cancel, op(a, b), op(neg(b), neg(a))), u(cancel, b, neg(a)), u(cancel, a, e), M.assoc(a, b, op(neg(b), neg(a)))], theory=GRP)
idW = forall(1, lambda i: W[i] == e, pat=lambda i: W[i])
specs += [wroot_c, wweight_c,
    FnSpec('wu_ctor', requires=lambda s: [0 <= s('n'), idW] + IDC, ensures=lambda s: wwf(s, 'out') + [s('out.n') == s('n')], use=ctor_use(C)),
    FnSpec('wu_root', requires=lambda s: wwf(s) + [winr(s, 'x')], ensures=lambda s: wwf(s) + [('representative', s.res == C[s('x')])]),
    FnSpec('wu_weight', requires=lambda s: wwf(s) + [winr(s, 'x')], ensures=lambda s: wwf(s) + [('weight', s.res == W[s('x')])]),
    FnSpec('wu_merge', requires=lambda s: wwf(s) + [winr(s, 'x'), winr(s, 'y')] + wmerge_ghost(s), ensures=wmerge_post, pre=wmerge_use, theory=M.ax),
    FnSpec('wu_diff', requires=lambda s: wwf(s) + [winr(s, 'x'), winr(s, 'y'), C[s('x')] == C[s('y')]], ensures=lambda s: wwf(s) + [('difference', s.res == op(neg(W[s('x')]), W[s('y')]))]),
    FnSpec('wu_same', requires=lambda s: wwf(s) + [winr(s, 'x'), winr(s, 'y')], ensures=lambda s: wwf(s) + [('same', isTrue(s.res) == (C[s('x')] == C[s('y')]))]),
    FnSpec('wu_size', requires=lambda s: wwf(s) + [winr(s, 'x')], ensures=lambda s: wwf(s) + [('component size', s.res == cnt(C, s('f.n'), C[s('x')]))]),
]
unit = Unit('uf', specs, contracts=[root_c, uroot_c, wroot_c, wweight_c], opaque={'T': 'T'}, keep=[r'UnionFind.*::root\(', r'UnionFind.*::weight\('])
