from irv.spec import *
from irv.unit import Unit
from specs.fenwick import M, T, fold, op, e, A, sub, neg, mul, lb, lbd, inner, nxt, upd, zero, subinst, N
V = z3.IntVal
AA = z3.ArraySort(Int, A); GA = z3.Const('ghost_A', AA)
# f2(B, u, d, l, r): the sum of the cells of rows [u, d) and columns [l, r)
f2 = UF('fold2', AA, Int, Int, Int, Int, T)
@definition
def f2_def(B, u, d, l, r): return f2(B, u, d, l, r) == If(u >= d, e, op(f2(B, u, d - 1, l, r), fold(B[d - 1], l, r)))
def set2(B, i, j, v): return z3.Store(B, i, z3.Store(B[i], j, op(B[i][j], v)))
upd2 = Lemma('fold2_upd', [AA, Int, Int, T, Int, Int, Int, Int],
    lambda B, i, j, v, u, d, l, r: Implies(l <= r, f2(set2(B, i, j, v), u, d, l, r) == If(And(u <= i, i < d, l <= j, j < r), op(f2(B, u, d, l, r), v), f2(B, u, d, l, r))),
    proof=lambda ih, w, B, i, j, v, u, d, l, r: [ih(B, i, j, v, u, d - 1, l, r), f2_def(B, u, d, l, r), f2_def(set2(B, i, j, v), u, d, l, r), w(upd, B[i], j, v, l, r),
        M.comm(v, fold(B[d - 1], l, r)), M.assoc(f2(B, u, d - 1, l, r), v, fold(B[d - 1], l, r)), M.assoc(f2(B, u, d - 1, l, r), fold(B[d - 1], l, r), v)], measure=lambda B, i, j, v, u, d, l, r: If(d > u, d - u, 0), theory=M.ax[1:])
rows = Lemma('fold2_rows', [AA, Int, Int, Int, Int, Int], lambda B, u, m, d, l, r: Implies(And(u <= m, m <= d), op(f2(B, u, m, l, r), f2(B, m, d, l, r)) == f2(B, u, d, l, r)),
    proof=lambda ih, w, B, u, m, d, l, r: [ih(B, u, m, d - 1, l, r), f2_def(B, m, d, l, r), f2_def(B, u, d, l, r), M.assoc(f2(B, u, m, l, r), f2(B, m, d - 1, l, r), fold(B[d - 1], l, r))], measure=lambda B, u, m, d, l, r: If(d > m, d - m, 0), theory=M.ax[1:])
four = lambda a, b, c, d: [M.assoc(a, c, op(b, d)), M.assoc(c, b, d), M.assoc(b, c, d), M.assoc(a, b, op(c, d)), M.comm(b, c)]
swap4 = Lemma('swap4', [T, T, T, T], lambda a, b, c, d: op(op(a, b), op(c, d)) == op(op(a, c), op(b, d)), proof=lambda ih, w, a, b, c, d: four(a, b, c, d) + [M.assoc(a, b, op(c, d))], theory=M.ax[1:])
cols = Lemma('fold2_cols', [AA, Int, Int, Int, Int, Int], lambda B, u, d, l, m, r: Implies(And(l <= m, m <= r), op(f2(B, u, d, l, m), f2(B, u, d, m, r)) == f2(B, u, d, l, r)),
    proof=lambda ih, w, B, u, d, l, m, r: [ih(B, u, d - 1, l, m, r), f2_def(B, u, d, l, m), f2_def(B, u, d, m, r), f2_def(B, u, d, l, r), w(M.split, B[d - 1], l, m, r),
        w(swap4, f2(B, u, d - 1, l, m), fold(B[d - 1], l, m), f2(B, u, d - 1, m, r), fold(B[d - 1], m, r))], measure=lambda B, u, d, l, m, r: If(d > u, d - u, 0), theory=M.ax[1:])
zero2 = Lemma('fold2_zero', [Int, Int, Int, Int], lambda u, d, l, r: f2(z3.K(Int, z3.K(Int, e)), u, d, l, r) == e,
    proof=lambda ih, w, u, d, l, r: [f2_def(z3.K(Int, z3.K(Int, e)), u, d, l, r), ih(u, d - 1, l, r), w(zero, l, r)], measure=lambda u, d, l, r: If(d > u, d - u, 0), theory=M.ax)
emptyr = Lemma('fold2_empty_cols', [AA, Int, Int, Int], lambda B, u, d, l: f2(B, u, d, l, l) == e, proof=lambda ih, w, B, u, d, l: [f2_def(B, u, d, l, l), ih(B, u, d - 1, l), M.defn(B[d - 1], l, l)], measure=lambda B, u, d, l: If(d > u, d - u, 0), theory=M.ax)
def nd(B, x, y): return f2(B, x - lb(x), x, y - lb(y), y)
q2 = lambda n, m, f, D, ok=lambda x, y: True: forall(2, lambda x, y: Implies(And(1 <= x, x <= n, 1 <= y, y <= m, ok(x, y)), f(x, y)), pat=lambda x, y: [(lb(x), lb(y))])
upd2q = Lemma('fold2_upd_nodes', [AA, Int, Int, T], lambda B, i, j, v: forall(2, lambda x, y: Implies(And(x >= 1, y >= 1), And(lb(x) >= 1, lb(y) >= 1, nd(set2(B, i, j, v), x, y) == If(And(x - lb(x) <= i, i < x, y - lb(y) <= j, j < y), op(nd(B, x, y), v), nd(B, x, y)))), pat=lambda x, y: [(lb(x), lb(y))]),
    proof=lambda ih, w, B, i, j, v: [forall(2, lambda x, y: And(w(upd2, B, i, j, v, x - lb(x), x, y - lb(y), y), w(lb_pos, x), w(lb_pos, y)), pat=lambda x, y: [(lb(x), lb(y))])], theory=M.ax[1:])
innerq = Lemma('fw2_inner_q', [Int], lambda k: forall(1, lambda j: And(inner.stmt(k, j), lb_pos.stmt(j)), pat=lambda j: lb(j)), proof=lambda ih, u, k: [forall(1, lambda j: And(u(inner, k, j), u(lb_pos, j)), pat=lambda j: lb(j))])
def dims(s, o):
    n, m = s(o + '.n'), s(o + '.m'); D, NN = s.e(o + '.data', '__e'), s.e(o + '.data', '__n')
    return n, m, D, NN
def shape(s, o):
    n, m, D, NN = dims(s, o)
    return [('shape', And(0 <= n, n <= N, 0 <= m, m <= N, s.n(o + '.data') == n)), ('rows', forall(1, lambda x: Implies(And(0 <= x, x < n), NN[x] == m), pat=lambda x: NN[x]))]
def wf(s, o, B):
    n, m, D, NN = dims(s, o)
    return shape(s, o) + [('nodes', q2(n, m, lambda x, y: D[x - 1][y - 1] == nd(B, x, y), D))]
def same(s, o): return [('same size', And(s(o + '.n') == s.old(o + '.n'), s(o + '.m') == s.old(o + '.m')))]
# ---- add
def add_c(match, name):
    vv = lambda s: s('v')
    A2 = lambda s: set2(GA, s('i'), s('j'), vv(s))
    def inv1(s):
        n, m, D, NN = dims(s, 'this'); k = s.v('x')
        return shape(s, 'this') + same(s, 'this') + [('range', And(1 <= k, k <= 2 * N)), ('covers', And(k - lb(k) <= s('i'), s('i') < k)),
            ('done', q2(n, m, lambda x, y: D[x - 1][y - 1] == nd(A2(s), x, y), D, lambda x, y: x < k)), ('todo', q2(n, m, lambda x, y: D[x - 1][y - 1] == nd(GA, x, y), D, lambda x, y: x >= k))]
    def inv2(s):
        n, m, D, NN = dims(s, 'this'); k, c = s.v('x'), s.v('y')
        dn = lambda x, y: Or(x < k, And(x == k, y < c))
        return shape(s, 'this') + same(s, 'this') + [('range', And(1 <= k, k <= n, 1 <= c, c <= 2 * N)), ('covers', And(k - lb(k) <= s('i'), s('i') < k, c - lb(c) <= s('j'), s('j') < c)),
            ('done', q2(n, m, lambda x, y: D[x - 1][y - 1] == nd(A2(s), x, y), D, dn)), ('todo', q2(n, m, lambda x, y: D[x - 1][y - 1] == nd(GA, x, y), D, lambda x, y: Not(dn(x, y))))]
    def use1(s):
        k = s.v('x'); s.lemma(upd2q, GA, s('i'), s('j'), vv(s)); s.lemma(lb_pos, k)
        if s.prev is not None: k0 = s.prev.v('x'); s.lemma(nxt, k0); s.lemma(innerq, k0); s.lemma(lb_pos, k0)
        else: s.lemma(innerq, k)
    def use2(s):
        k, c = s.v('x'), s.v('y'); s.lemma(upd2q, GA, s('i'), s('j'), vv(s)); s.lemma(lb_pos, k); s.lemma(lb_pos, c)
        if s.prev is not None: c0 = s.prev.v('y'); s.lemma(nxt, c0); s.lemma(innerq, c0); s.lemma(lb_pos, c0)
        else: s.lemma(innerq, c)
    return FnSpec(name, match=match, requires=lambda s: wf(s, 'this', GA) + [And(0 <= s('i'), s('i') < s('this.n'), 0 <= s('j'), s('j') < s('this.m'))],
        ensures=lambda s: wf(s, 'this', set2(GA, s('i'), s('j'), s.old('v'))) + same(s, 'this'), modifies=lambda s: ['this.data'],
        loops=[LoopSpec(inv1, dec=lambda s: 2 * N + 1 - s.v('x'), use=use1), LoopSpec(inv2, dec=lambda s: 2 * N + 1 - s.v('y'), use=use2)])
C_add = add_c(r'FenwickTree2D<T>::add\(', 'add')
# ---- prefix sum
def ps_inv1(s):
    x, X, Y = s.v('x'), s('xr'), s('yr')
    return [('range', And(0 <= x, x <= X)), ('sum', op(s.v('s'), f2(GA, 0, x, 0, Y)) == f2(GA, 0, X, 0, Y))]
def ps_inv2(s):
    x, y, X, Y = s.v('x'), s.v('y'), s('xr'), s('yr')
    return [('range', And(1 <= x, x <= X, 0 <= y, y <= Y)), ('sum', op(s.v('s'), op(f2(GA, x - lb(x), x, 0, y), f2(GA, 0, x - lb(x), 0, Y))) == f2(GA, 0, X, 0, Y))]
def ps_use1(s):
    x, Y = s.v('x'), s('yr'); s.lemma(lb_pos, x); s.lemma(rows, GA, 0, x - lb(x), x, 0, Y); s.assume_def(f2_def(GA, 0, 0, 0, Y)); s.assume_def(M.comm(f2(GA, 0, x - lb(x), 0, Y), f2(GA, x - lb(x), x, 0, Y)))
    if s.prev is not None: x0 = s.prev.v('x'); s.lemma(lb_pos, x0); s.lemma(emptyr, GA, x0 - lb(x0), x0, 0)
def ps_use2(s):
    ps_use1(s); x, y, Y = s.v('x'), s.v('y'), s('yr'); s.lemma(lb_pos, y); s.lemma(emptyr, GA, x - lb(x), x, 0)
    if s.prev is not None:
        y0 = s.prev.v('y'); s0 = s.prev.v('s'); s.lemma(lb_pos, y0); s.lemma(cols, GA, x - lb(x), x, 0, y0 - lb(y0), y0)
        a, b, c = f2(GA, x - lb(x), x, 0, y0 - lb(y0)), nd(GA, x, y0), f2(GA, 0, x - lb(x), 0, Y)
        s.assume_def(M.comm(a, b)); s.assume_def(M.assoc(b, a, c)); s.assume_def(M.assoc(s0, b, op(a, c)))
C_ps = FnSpec('prefix', match=r'FenwickTree2D<T>::sum\(int, int\) const', requires=lambda s: wf(s, 'this', GA) + [And(0 <= s('xr'), s('xr') <= s('this.n'), 0 <= s('yr'), s('yr') <= s('this.m'))],
    ensures=lambda s: ('prefix sum', s.res == f2(GA, 0, s('xr'), 0, s('yr'))), use=lambda s: s.assume_def(f2_def(GA, 0, 0, 0, s('yr'))),
    loops=[LoopSpec(ps_inv1, dec=lambda s: s.v('x'), use=ps_use1), LoopSpec(ps_inv2, dec=lambda s: s.v('y'), use=ps_use2)])
# ---- rectangle sum: in an abelian group a*b*c*d - (a*b) ... with a = [0,xl)x[0,yl), b = [xl,xr)x[0,yl), c = [0,xl)x[yl,yr), d the wanted rectangle
incl = Lemma('inclusion_exclusion', [T, T, T, T], lambda a, b, c, d: op(sub(sub(op(op(a, b), op(c, d)), op(a, c)), op(a, b)), a) == d,
    proof=lambda ih, w, a, b, c, d: [w(swap4, a, b, c, d), subinst(op(a, c), op(b, d)), subop(op(b, d), a, b), subinst(b, d), M.comm(a, sub(d, a)), opsub(a, d), M.comm(sub(d, a), a), M.comm(a, b)], theory=M.ax[1:])
@definition
def opsub(a, b): return op(a, sub(b, a)) == b
@definition
def subop(x, a, b): return sub(x, op(a, b)) == sub(sub(x, b), a)
def r_hint(s, xl, xr, yl, yr):
    s.lemma(rows, GA, 0, xl, xr, 0, yl); s.lemma(rows, GA, 0, xl, xr, yl, yr); s.lemma(cols, GA, 0, xr, 0, yl, yr); s.lemma(cols, GA, 0, xl, 0, yl, yr)
    s.lemma(incl, f2(GA, 0, xl, 0, yl), f2(GA, xl, xr, 0, yl), f2(GA, 0, xl, yl, yr), f2(GA, xl, xr, yl, yr))
def box(s, xl, xr, yl, yr, o): return And(0 <= xl, xl <= xr, xr <= s(o + '.n'), 0 <= yl, yl <= yr, yr <= s(o + '.m'))
C_rs = FnSpec('rect', match=r'FenwickTree2D<T>::sum\(int, int, int, int\) const', requires=lambda s: wf(s, 'this', GA) + [box(s, s('xl'), s('xr'), s('yl'), s('yr'), 'this')],
    ensures=lambda s: ('rectangle sum', s.res == f2(GA, s('xl'), s('xr'), s('yl'), s('yr'))), use=lambda s: r_hint(s, s('xl'), s('xr'), s('yl'), s('yr')))
def rs_w(name): return FnSpec(name, requires=lambda s: wf(s, 'f', GA) + [box(s, s('a'), s('b'), s('c'), s('d'), 'f')], ensures=lambda s: ('rectangle sum', s.res == f2(GA, s('a'), s('b'), s('c'), s('d'))))
idx = lambda s: And(0 <= s('pi'), s('pi') < s('f.n'), 0 <= s('pj'), s('pj') < s('f.m'))
cell = lambda s: GA[s('pi')][s('pj')]
def one(s): i, j = s('pi'), s('pj'); s.assume_def(f2_def(GA, i, i + 1, j, j + 1)); s.assume_def(f2_def(GA, i, i, j, j + 1)); s.assume_def(M.defn(GA[i], j, j + 1)); s.assume_def(M.defn(GA[i], j, j))
def upd_w(name, v): return FnSpec(name, requires=lambda s: wf(s, 'f', GA) + [idx(s)], ensures=lambda s: wf(s, 'f', set2(GA, s('pi'), s('pj'), v(s))) + same(s, 'f'), use=one)
OV = lambda s: s.old('pv')
specs = [C_add, C_ps, C_rs,
    FnSpec('f2_ctor', requires=lambda s: And(0 <= s('h'), s('h') <= N, 0 <= s('w'), s('w') <= N), ensures=lambda s: wf(s, 'out', z3.K(Int, z3.K(Int, e))) + [('size', And(s('out.n') == s('h'), s('out.m') == s('w')))], use=lambda s: s.lemma(zero2q)),
    upd_w('f2_add', OV), rs_w('f2_sum'), rs_w('f2_call'), FnSpec('f2_get', requires=lambda s: wf(s, 'f', GA) + [idx(s)], ensures=lambda s: ('cell', s.res == cell(s)), use=one),
    upd_w('f2_pluseq', OV), upd_w('f2_minuseq', lambda s: neg(OV(s))), upd_w('f2_assign', lambda s: sub(OV(s), cell(s))), upd_w('f2_muleq', lambda s: sub(mul(cell(s), OV(s)), cell(s)))]
zero2q = Lemma('fw2_zero_q', [], lambda: forall(2, lambda x, y: nd(z3.K(Int, z3.K(Int, e)), x, y) == e, pat=lambda x, y: [(lb(x), lb(y))]), proof=lambda ih, u: [forall(2, lambda x, y: u(zero2, x - lb(x), x, y - lb(y), y), pat=lambda x, y: [(lb(x), lb(y))])], theory=M.ax)
unit = Unit('fenwick2d', specs, opaque={'T': 'T'}, theory=M.ax[1:], contracts=[C_add, C_ps, C_rs], keep=[r'FenwickTree2D<T>::(add|sum)\('])
