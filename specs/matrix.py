from irv.spec import *
from irv.unit import Unit
V = z3.IntVal
T = OSort('T'); AT = z3.ArraySort(Int, T); AAT = z3.ArraySort(Int, AT)
add, sub, mul, of = UF('uf_add', T, T, T), UF('uf_sub', T, T, T), UF('uf_mul', T, T, T), UF('uf_of', Int, T)
MAXN = 1 << 30
# dot(A, B, i, k, j): sum of A[i][t] * B[t][k] over t < j, added from left to right
dot, vdot = UF('dot', AAT, AAT, Int, Int, Int, T), UF('vdot', AT, AT, Int, T)
@definition
def dot_def(A, B, i, k, j): return dot(A, B, i, k, j) == If(j <= 0, of(0), add(dot(A, B, i, k, j - 1), mul(A[i][j - 1], B[j - 1][k])))
@definition
def vdot_def(a, x, j): return vdot(a, x, j) == If(j <= 0, of(0), add(vdot(a, x, j - 1), mul(a[j - 1], x[j - 1])))
def E(s, o): return s.e(o + '.dat', '__e'), s.e(o + '.dat', '__n'), s.n(o + '.dat')
def rect(s, o, m=None):
    A, N, n = E(s, o); m = N[0] if m is None else m
    return [('rectangular', And(n <= MAXN, Implies(n > 0, And(0 <= m, m <= MAXN)), forall(1, lambda i: Implies(And(0 <= i, i < n), N[i] == m), pat=lambda i: N[i])))]
def cells(n, m, f, A): return forall(2, lambda i, j: Implies(And(0 <= i, i < n, 0 <= j, j < m), f(i, j)), pat=lambda i, j: A[i][j])
def elementwise(nm, match, g):
    def inv1(s):
        A, N, n = E(s, 'A'); A0, N0, _ = E(s.old, 'A'); B, _, _ = E(s, 'B'); i = s.v('i'); m = N0[0]
        return [('range', And(0 <= i, i <= n, n == s.old.n('A.dat')))] + rect(s, 'A', m) + [('cells', cells(n, m, lambda r, c: A[r][c] == If(r < i, g(A0[r][c], B[r][c]), A0[r][c]), A))]
    def inv2(s):
        A, N, n = E(s, 'A'); A0, N0, _ = E(s.old, 'A'); B, _, _ = E(s, 'B'); i, j = s.v('i'), s.v('j'); m = N0[0]
        return [('range', And(0 <= i, i < n, 0 <= j, j <= m, n == s.old.n('A.dat')))] + rect(s, 'A', m) + [('cells', cells(n, m, lambda r, c: A[r][c] == If(Or(r < i, And(r == i, c < j)), g(A0[r][c], B[r][c]), A0[r][c]), A))]
    req = lambda s: rect(s, 'A') + rect(s, 'B') + [And(s.n('A.dat') == s.n('B.dat'), Implies(s.n('A.dat') > 0, E(s, 'A')[1][0] == E(s, 'B')[1][0]))]
    def ens(s):
        A, N, n = E(s, 'A'); A0, N0, n0 = E(s.old, 'A'); B = E(s, 'B')[0]
        return [('shape', n == n0)] + rect(s, 'A', N0[0]) + [('cells', cells(n, N0[0], lambda r, c: A[r][c] == g(A0[r][c], B[r][c]), A))]
    return FnSpec(nm, match=match, requires=req, ensures=ens, modifies=lambda s: ['A.dat'], loops=[LoopSpec(inv1, dec=lambda s: s.n('A.dat') - s.v('i')), LoopSpec(inv2, dec=lambda s: E(s.old, 'A')[1][0] - s.v('j'))])
C_add = elementwise('operator+=', r'suisen::operator\+=\(suisen::Matrix<T>&, suisen::Matrix<T> const&\)', add)
C_sub = elementwise('operator-=', r'suisen::operator-=\(suisen::Matrix<T>&, suisen::Matrix<T> const&\)', sub)
def shape_req(s, a, b): return rect(s, a) + rect(s, b) + [And(s.n(a + '.dat') == s.n(b + '.dat'), Implies(s.n(a + '.dat') > 0, E(s, a)[1][0] == E(s, b)[1][0]))]
def ew_ens(a, b, o, g):
    def f(s):
        A, N, n = E(s.old, a); B = E(s, b)[0]; C, NC, nc = E(s, o)
        return [('shape', nc == n)] + rect(s, o, N[0]) + [('cells', cells(n, N[0], lambda r, c: C[r][c] == g(A[r][c], B[r][c]), C))]
    return f
w_add = FnSpec('mx_add', requires=lambda s: shape_req(s, 'a', 'b'), ensures=ew_ens('a', 'b', 'a', add))
w_sub = FnSpec('mx_sub', requires=lambda s: shape_req(s, 'a', 'b'), ensures=ew_ens('a', 'b', 'a', sub))
# ---- submatrix / assign_submatrix / identity
def sm_dim(s): return s('row_end') - s('row_begin'), s('col_end') - s('col_begin')
def sm_cells(s, o, bound):
    A, B = E(s, 'this')[0], E(s, o)[0]; n, m = sm_dim(s)
    return [('cells', cells(n, m, lambda r, c: Implies(bound(r, c), B[r][c] == A[s('row_begin') + r][s('col_begin') + c]), B))]
def sm_inv1(s): i, (n, m) = s.v('i'), sm_dim(s); return [('range', And(s('row_begin') <= i, i <= s('row_end'), s.n('sret.dat') == n))] + rect(s, 'sret', m) + sm_cells(s, 'sret', lambda r, c: r < i - s('row_begin'))
def sm_inv2(s): i, j, (n, m) = s.v('i'), s.v('j'), sm_dim(s); return [('range', And(s('row_begin') <= i, i < s('row_end'), s('col_begin') <= j, j <= s('col_end'), s.n('sret.dat') == n))] + rect(s, 'sret', m) + sm_cells(s, 'sret', lambda r, c: Or(r < i - s('row_begin'), And(r == i - s('row_begin'), c < j - s('col_begin'))))
def sm_req(s): return rect(s, 'this') + [And(0 <= s('row_begin'), s('row_begin') <= s('row_end'), s('row_end') <= s.n('this.dat'), 0 <= s('col_begin'), s('col_begin') <= s('col_end'), Implies(s.n('this.dat') > 0, s('col_end') <= E(s, 'this')[1][0]))]
def sm_ens(o):
    return lambda s: [('shape', s.n(o + '.dat') == sm_dim(s)[0])] + rect(s, o, sm_dim(s)[1]) + sm_cells(s, o, lambda r, c: True)
C_sm = FnSpec('submatrix', match=r'Matrix<T>::submatrix', requires=sm_req, ensures=sm_ens('sret'), modifies=lambda s: ['sret'], loops=[LoopSpec(sm_inv1, dec=lambda s: s('row_end') - s.v('i')), LoopSpec(sm_inv2, dec=lambda s: s('col_end') - s.v('j'))])
C_plus = FnSpec('operator+', match=r'suisen::operator\+\(suisen::Matrix<T>, suisen::Matrix<T> const&\)', requires=lambda s: shape_req(s, 'A', 'B'), ensures=ew_ens('A', 'B', 'sret', add), modifies=lambda s: ['sret', 'A.dat'])
C_minus = FnSpec('operator-', match=r'suisen::operator-\(suisen::Matrix<T>, suisen::Matrix<T> const&\)', requires=lambda s: shape_req(s, 'A', 'B'), ensures=ew_ens('A', 'B', 'sret', sub), modifies=lambda s: ['sret', 'A.dat'])
# ---- assign_submatrix
def as_box(s, r, c): n, m = s.n('A.dat'), E(s, 'A')[1][0]; return And(s('row_begin') <= r, r < s('row_begin') + n, s('col_begin') <= c, c < s('col_begin') + m)
def as_cells(s, done):
    D, N, n = E(s, 'this'); D0 = E(s.old, 'this')[0]; A = E(s, 'A')[0]; rb, cb = s('row_begin'), s('col_begin')
    return [('cells', cells(n, E(s.old, 'this')[1][0], lambda r, c: D[r][c] == If(And(as_box(s, r, c), done(r - rb, c - cb)), A[r - rb][c - cb], D0[r][c]), D))]
def as_fix(s): return [('size', s.n('this.dat') == s.old.n('this.dat'))] + rect(s, 'this', E(s.old, 'this')[1][0])
def as_inv1(s): i = s.v('i'); return as_fix(s) + [('range', And(0 <= i, i <= s.n('A.dat')))] + as_cells(s, lambda r, c: r < i)
def as_inv2(s): i, j = s.v('i'), s.v('j'); return as_fix(s) + [('range', And(0 <= i, i < s.n('A.dat'), 0 <= j, j <= E(s, 'A')[1][0]))] + as_cells(s, lambda r, c: Or(r < i, And(r == i, c < j)))
C_as = FnSpec('assign_submatrix', match=r'Matrix<T>::assign_submatrix', requires=lambda s: rect(s, 'this') + rect(s, 'A') + [And(s.n('this.dat') >= 1, 0 <= s('row_begin'), 0 <= s('col_begin'), s('row_begin') + s.n('A.dat') <= s.n('this.dat'), s('col_begin') + If(s.n('A.dat') == 0, 0, E(s, 'A')[1][0]) <= E(s, 'this')[1][0])],
    ensures=lambda s: as_fix(s) + as_cells(s, lambda r, c: True), modifies=lambda s: ['this.dat'], loops=[LoopSpec(as_inv1, dec=lambda s: s.n('A.dat') - s.v('i')), LoopSpec(as_inv2, dec=lambda s: E(s, 'A')[1][0] - s.v('j'))])
# ---- identity, matrix * vector, scalar
e1 = FnSpec('mx_e1', requires=lambda s: And(0 <= s('n'), s('n') <= MAXN), ensures=lambda s: [('shape', s.n('out.dat') == s('n'))] + rect(s, 'out', s('n')) + [('identity', cells(s('n'), s('n'), lambda r, c: E(s, 'out')[0][r][c] == If(r == c, of(1), of(0)), E(s, 'out')[0]))],
    loops=[LoopSpec(lambda s: [('size', s.n('out.dat') == s('n'))] + rect(s, 'out', s('n')) + [('range', And(0 <= s.v('i'), s.v('i') <= s('n'))), ('cells', cells(s('n'), s('n'), lambda r, c: E(s, 'out')[0][r][c] == If(And(r == c, r < s.v('i')), of(1), of(0)), E(s, 'out')[0]))], dec=lambda s: s('n') - s.v('i'))])
def v_inv1(s):
    A, N, n = E(s, 'a'); i = s.v('i'); b, x, m = s.e('out'), s.e('x'), s.n('x')
    return [('range', And(0 <= i, i <= n, s.n('out') == n)), ('rows', forall(1, lambda r: Implies(And(0 <= r, r < n), b[r] == If(r < i, vdot(A[r], x, m), of(0))), pat=lambda r: b[r]))]
def v_inv2(s):
    A, N, n = E(s, 'a'); i, j = s.v('i'), s.v('j'); b, x, m = s.e('out'), s.e('x'), s.n('x')
    return [('range', And(0 <= i, i < n, 0 <= j, j <= m, s.n('out') == n)), ('rows', forall(1, lambda r: Implies(And(0 <= r, r < n), b[r] == If(r < i, vdot(A[r], x, m), If(r == i, vdot(A[r], x, j), of(0)))), pat=lambda r: b[r]))]
def v_use(s):
    A, i, x = E(s, 'a')[0], s.v('i'), s.e('x'); s.assume_def(vdot_def(A[i], x, V(0)))
    if s.prev is not None: s.assume_def(vdot_def(A[i], x, s.v('j')))
vec = FnSpec('mx_vec', requires=lambda s: rect(s, 'a') + [And(s.n('a.dat') >= 1, s.n('x') == E(s, 'a')[1][0])], ensures=lambda s: [('size', s.n('out') == s.n('a.dat')), ('rows', forall(1, lambda r: Implies(And(0 <= r, r < s.n('a.dat')), s.e('out')[r] == vdot(E(s, 'a')[0][r], s.e('x'), s.n('x'))), pat=lambda r: s.e('out')[r]))],
    loops=[LoopSpec(v_inv1, dec=lambda s: s.n('a.dat') - s.v('i')), LoopSpec(v_inv2, dec=lambda s: s.n('x') - s.v('j'), use=v_use)])
specs = [C_add, C_sub, w_add, w_sub, C_sm, C_plus, C_minus, C_as, e1, vec]
KEEP = [r'^suisen::operator\*\(suisen::Matrix<T> const&, suisen::Matrix<T> const&\)', r'operator[+-]\(suisen::Matrix', r'submatrix', r'operator[+-]=\(suisen::Matrix<T>&, suisen::Matrix', r'operator\*=\(suisen::Matrix<T>&, T const']
unit = Unit('matrix', specs, opaque={'T': 'T'}, contracts=[C_add, C_sub, C_sm, C_plus, C_minus, C_as], keep=KEEP)
