from irv.spec import *
from irv.unit import Unit
M = Monoid('T', 'uf_op', 'uf_e')
fold, op, e = M.fold, M.op, M.e
MAXN = 1 << 29
A = z3.Const('ghost_seq', M.A)          # the represented sequence: elements A[off], A[off+1], ...
def parts(s, o='s'): return s.e(o + '._st_l', 'first'), s.e(o + '._st_l', 'second'), s.e(o + '._st_r', 'first'), s.e(o + '._st_r', 'second'), s.n(o + '._st_l'), s.n(o + '._st_r')
def seqL(L, Ls, nl, mid, A): return rngq(0, nl, lambda j: And(L[j] == A[mid - 1 - j], Ls[j] == fold(A, mid - 1 - j, mid)), pat=lambda j: [L[j], Ls[j]])
def seqR(R, Rs, nr, mid, A): return rngq(0, nr, lambda j: And(R[j] == A[mid + j], Rs[j] == fold(A, mid, mid + j + 1)), pat=lambda j: [R[j], Rs[j]])
def wf(s, A, off=0, n=None):
    L, Ls, R, Rs, nl, nr = parts(s); off = z3.IntVal(off) if isinstance(off, int) else off
    return [('size', And(nl >= 0, nr >= 0, nl <= MAXN, nr <= MAXN)), ('left stack', seqL(L, Ls, nl, off + nl, A)), ('right stack', seqR(R, Rs, nr, off + nl, A))] + ([('length', nl + nr == n)] if n is not None else [])
ln = lambda s: s.n('s._st_l') + s.n('s._st_r')
def fdef(s, *ps):
    for p in ps: s.assume_def(M.defn(*p))
def prod_use(s):
    L, Ls, R, Rs, nl, nr = parts(s); s.lemma(M.split, A, z3.IntVal(0), nl, nl + nr); fdef(s, (A, nl, nl), (A, 0, 0), (A, 0, nl), (A, nl, nl + nr))

I0 = z3.IntVal(0)
def pushb_use(s):
    L, Ls, R, Rs, nl, nr = parts(s.old); fdef(s, (A, nl, nl + nr + 1), (A, nl, nl), (A, nl, nl + nr))
def pushf_use(s):
    L, Ls, R, Rs, nl, nr = parts(s.old); s.lemma(M.left, A, z3.IntVal(-1), nl); fdef(s, (A, nl, nl), (A, -1, nl), (A, 0, nl))
# splitting the left stack when the right one is empty
def pb_inv(s):
    L, Ls, R, Rs, nl, nr = parts(s); i, r = s.v('i'), s.old.n('s._st_l') - s.old.n('s._st_l') / 2; n0 = s.old.n('s._st_l'); mid = n0 - r
    return [('range', And(0 <= i, i <= r - 1, nr == r - 1 - i, nl == n0, s.old.n('s._st_r') == 0, n0 >= 1)), ('left', seqL(L, Ls, nl, n0, A)), ('right', seqR(R, Rs, nr, mid, A))]
def pb_use(s):
    n0 = s.old.n('s._st_l'); r = n0 - n0 / 2; mid = n0 - r; fdef(s, (A, mid, mid))
    if s.prev is not None: i = s.prev.v('i'); fdef(s, (A, mid, mid + (r - 1 - i) + 1), (A, mid, mid + (r - 1 - i)))
def pb2_inv(s):
    L, Ls, R, Rs, nl, nr = parts(s); i = s.v('i'); n0 = s.old.n('s._st_l'); r = n0 - n0 / 2; mid = n0 - r
    return [('range', And(1 <= i, i <= mid, nr == r - 1, nl == mid, n0 >= 1)), ('right', seqR(R, Rs, nr, mid, A)), ('left', rngq(0, nl, lambda j: L[j] == A[mid - 1 - j], pat=lambda j: L[j])), ('left sums', rngq(0, i, lambda j: Ls[j] == fold(A, mid - 1 - j, mid), pat=lambda j: Ls[j]))]
def pb2_use(s):
    n0 = s.old.n('s._st_l'); mid = n0 / 2; fdef(s, (A, mid, mid), (A, mid - 1, mid), (A, mid - 1, mid - 1))
    if s.prev is not None: i = s.prev.v('i'); s.lemma(M.left, A, mid - 1 - i, mid)
def pf_inv(s):
    L, Ls, R, Rs, nl, nr = parts(s); n0 = s.old.n('s._st_r'); l = n0 - n0 / 2; i = s.v('i')
    return [('range', And(0 <= i, i <= l - 1, nl == l - 1 - i, nr == n0, s.old.n('s._st_l') == 0, n0 >= 1)), ('right', seqR(R, Rs, nr, I0, A)), ('left', seqL(L, Ls, nl, l, A))]
def pf_use(s):
    n0 = s.old.n('s._st_r'); l = n0 - n0 / 2; fdef(s, (A, l, l))
    if s.prev is not None: i = s.prev.v('i'); s.lemma(M.left, A, i, l)
def pf2_inv(s):
    L, Ls, R, Rs, nl, nr = parts(s); n0 = s.old.n('s._st_r'); l = n0 - n0 / 2; i = s.v('i')
    return [('range', And(1 <= i, i <= nr, nl == l - 1, nr == n0 / 2, n0 >= 1)), ('left', seqL(L, Ls, nl, l, A)), ('right', rngq(0, nr, lambda j: R[j] == A[l + j], pat=lambda j: R[j])), ('right sums', rngq(0, i, lambda j: Rs[j] == fold(A, l, l + j + 1), pat=lambda j: Rs[j]))]
def pf2_use(s):
    n0 = s.old.n('s._st_r'); l = n0 - n0 / 2; fdef(s, (A, l, l), (A, l, l + 1))
    if s.prev is not None: i = s.prev.v('i'); fdef(s, (A, l, l + i + 1), (A, l, l + i))
# ---- queue: separate monoid action append : S x T -> S, result merged
T, S = M.T, OSort('S')
app = UF('uf_app', S, T, S); unit0 = UF('uf_unit', S)(); mrg = UF('uf_mrg', S, S, T)
fr = UF('fold_right_end', M.A, Int, Int, S); fl = UF('fold_left_end', M.A, Int, Int, S)
@definition
def fr_def(A, l, r): return fr(A, l, r) == If(r <= l, unit0, app(fr(A, l, r - 1), A[r - 1]))
@definition
def fl_def(A, l, r): return fl(A, l, r) == If(r <= l, unit0, app(fl(A, l + 1, r), A[l]))
def qL(L, Ls, nl, mid): return rngq(0, nl, lambda j: And(L[j] == A[mid - 1 - j], Ls[j] == fl(A, mid - 1 - j, mid)), pat=lambda j: [L[j], Ls[j]])
def qR(R, Rs, nr, mid): return rngq(0, nr, lambda j: And(R[j] == A[mid + j], Rs[j] == fr(A, mid, mid + j + 1)), pat=lambda j: [R[j], Rs[j]])
def qwf(s, off=0, n=None):
    L, Ls, R, Rs, nl, nr = parts(s)
    return [('size', And(nl >= 0, nr >= 0, nl <= MAXN, nr <= MAXN)), ('left stack', qL(L, Ls, nl, off + nl)), ('right stack', qR(R, Rs, nr, off + nl))] + ([('length', nl + nr == n)] if n is not None else [])
def qdef(s, *ps):
    for l, r in ps: s.assume_def(fr_def(A, l, r)); s.assume_def(fl_def(A, l, r))
def qp_inv(s):
    L, Ls, R, Rs, nl, nr = parts(s); n0 = s.old.n('s._st_r'); i = s.v('i')
    return [('range', And(0 <= i, i <= n0 - 1, nl == n0 - 1 - i, nr == n0, s.old.n('s._st_l') == 0, n0 >= 1)), ('right', qR(R, Rs, nr, I0)), ('left', qL(L, Ls, nl, n0))]
def qp_use(s):
    n0 = s.old.n('s._st_r'); qdef(s, (n0, n0))
    if s.prev is not None: i = s.prev.v('i'); qdef(s, (i, n0))
# ---- sliding window; better(x, y): x is preferred over y when x comes first; worse pops
def win(k, strict_better):
    """bad(x, v): an earlier value x is dropped when v arrives"""
    bad = {1: lambda x, v: x > v, 2: lambda x, v: x >= v, 3: lambda x, v: x < v, 4: lambda x, v: x <= v}[k]
    def st(s): D, b, n = s.e('s._dq'), s('s._dq.__b'), s.n('s._dq'); return D, b, n, s.e('s._a'), s('s._l'), s('s._r'), s('s._n')
    def core(D, b, n, a, l, r):
        return [('increasing', forall(2, lambda i, j: Implies(And(b <= i, i < j, j < b + n), D[i] < D[j]), pat=lambda i, j: [(D[i], D[j])])),
                ('in window', rngq(b, b + n, lambda i: And(l <= D[i], D[i] < r), pat=lambda i: D[i])),
                ('best of its suffix', forall(2, lambda i, p: Implies(And(b <= i, i < b + n, D[i] < p, p < r), Not(bad(a[D[i]], a[p]))), pat=lambda i, p: [(D[i], a[p])])),
                ('dropped between', forall(2, lambda i, p: Implies(And(b <= i, i < b + n, p < D[i], p >= l, Implies(i > b, D[i - 1] < p)), bad(a[p], a[D[i]])), pat=lambda i, p: [(D[i], a[p])]))]
    def wfw(s):
        D, b, n, a, l, r, N = st(s)
        return [('sizes', And(0 <= l, l <= r, r <= N, N == s.n('s._a'), N <= 1 << 30, n >= 0, (n == 0) == (l == r), Implies(n > 0, D[b + n - 1] == r - 1)))] + core(D, b, n, a, l, r)
    same = lambda s: ('sequence unchanged', And(s.e('s._a') == s.old.e('s._a'), s('s._n') == s.old('s._n')))
    def best(a, l, r, q): return And(l <= q, q < r, rngq(l, r, lambda p: If(p < q, bad(a[p], a[q]), Or(p == q, Not(bad(a[q], a[p])))), pat=lambda p: a[p]))
    def r_inv(s):
        D, b, n, a, l, r, N = st(s); v = a[r]
        return [('range', And(0 <= l, l <= r, r < N, n >= 0, n <= s.old.n('s._dq'), b == s.old('s._dq.__b'), Implies(n == 0, rngq(l, r, lambda p: bad(a[p], v), pat=lambda p: a[p])))),
                ('sequence', And(l == s.old('s._l'), r == s.old('s._r')))] + core(D, b, n, a, l, r) + [('all later ones are worse', Implies(n > 0, rngq(D[b + n - 1] + 1, r, lambda p: bad(a[p], v), pat=lambda p: a[p])))]
    def arg_use(s): pass
    return [FnSpec('w%d_right' % k, requires=lambda s: wfw(s) + [s('s._r') < s('s._n')], ensures=lambda s: wfw(s) + [('window', And(s('s._r') == s.old('s._r') + 1, s('s._l') == s.old('s._l'))), same(s)], loops=[LoopSpec(r_inv, dec=lambda s: s.n('s._dq'))]),
            FnSpec('w%d_left' % k, requires=lambda s: wfw(s) + [s('s._l') < s('s._r')], ensures=lambda s: wfw(s) + [('window', And(s('s._l') == s.old('s._l') + 1, s('s._r') == s.old('s._r'))), same(s)]),
            FnSpec('w%d_arg' % k, requires=lambda s: wfw(s) + [s('s._l') < s('s._r')], ensures=lambda s: ('extremal position', best(s.e('s._a'), s('s._l'), s('s._r'), s.res))),
            FnSpec('w%d_query' % k, requires=lambda s: wfw(s) + [s('s._l') < s('s._r')], ensures=lambda s: ('extremal value', rngq(s('s._l'), s('s._r'), lambda p: s.res <= s.e('s._a')[p] if k < 3 else s.res >= s.e('s._a')[p], pat=lambda p: s.e('s._a')[p])))]
W = lambda s: wf(s, A)
specs = [
    FnSpec('dq_ctor', ensures=lambda s: wf(s, A, 0, 0)),
    FnSpec('dq_prod', requires=W, ensures=lambda s: ('product of all elements in order', s.res == fold(A, 0, ln(s))), use=prod_use),
    FnSpec('dq_push_back', requires=lambda s: W(s) + [ln(s) < MAXN, A[ln(s)] == s('v')], ensures=lambda s: wf(s, A, 0, ln(s.old) + 1), use=pushb_use),
    FnSpec('dq_push_front', requires=lambda s: W(s) + [ln(s) < MAXN, A[-1] == s('v')], ensures=lambda s: wf(s, A, -1, ln(s.old) + 1), use=pushf_use),
    FnSpec('dq_pop_back', requires=lambda s: W(s) + [ln(s) > 0], ensures=lambda s: wf(s, A, 0, ln(s.old) - 1), loops=[LoopSpec(pb_inv, dec=lambda s: s.v('i'), use=pb_use), LoopSpec(pb2_inv, dec=lambda s: s.n('s._st_l') - s.v('i'), use=pb2_use)]),
    FnSpec('dq_pop_front', requires=lambda s: W(s) + [ln(s) > 0], ensures=lambda s: wf(s, A, 1, ln(s.old) - 1), loops=[LoopSpec(pf_inv, dec=lambda s: s.v('i'), use=pf_use), LoopSpec(pf2_inv, dec=lambda s: s.n('s._st_r') - s.v('i'), use=pf2_use)]),
    FnSpec('dq_front', requires=lambda s: W(s) + [ln(s) > 0], ensures=lambda s: s.res == A[0]),
    FnSpec('dq_back', requires=lambda s: W(s) + [ln(s) > 0], ensures=lambda s: s.res == A[ln(s) - 1]),
    FnSpec('dq_at', requires=lambda s: W(s) + [And(0 <= s('i'), s('i') < ln(s))], ensures=lambda s: s.res == A[s('i')]),
    FnSpec('dq_size', requires=W, ensures=lambda s: s.res == ln(s)),
    FnSpec('dq_clear', requires=W, ensures=lambda s: wf(s, A, 0, 0)),
    FnSpec('qa_ctor', ensures=lambda s: qwf(s, 0, 0)),
    FnSpec('qa_prod', requires=qwf, ensures=lambda s: ('merge of the two halves', s.res == mrg(fl(A, 0, s.n('s._st_l')), fr(A, s.n('s._st_l'), ln(s)))), use=lambda s: qdef(s, (I0, s.n('s._st_l')), (s.n('s._st_l'), ln(s)))),
    FnSpec('qa_push', requires=lambda s: qwf(s) + [ln(s) < MAXN, A[ln(s)] == s('v')], ensures=lambda s: qwf(s, 0, ln(s.old) + 1), use=lambda s: qdef(s, (s.old.n('s._st_l'), ln(s.old) + 1), (s.old.n('s._st_l'), ln(s.old)))),
    FnSpec('qa_pop', requires=lambda s: qwf(s) + [ln(s) > 0], ensures=lambda s: qwf(s, 1, ln(s.old) - 1), loops=[LoopSpec(qp_inv, dec=lambda s: s.v('i'), use=qp_use)]),
    FnSpec('qa_front', requires=lambda s: qwf(s) + [ln(s) > 0], ensures=lambda s: s.res == A[0]),
    FnSpec('qa_back', requires=lambda s: qwf(s) + [ln(s) > 0], ensures=lambda s: s.res == A[ln(s) - 1]),
    FnSpec('qa_at', requires=lambda s: qwf(s) + [And(0 <= s('i'), s('i') < ln(s))], ensures=lambda s: s.res == A[s('i')]),
    FnSpec('qa_size', requires=qwf, ensures=lambda s: s.res == ln(s)),
]
for k in (1, 2, 3, 4): specs += win(k, None)
unit = Unit('swag', specs, opaque={'T': 'T', 'S': 'S'}, theory=M.ax)
