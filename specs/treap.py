from irv.spec import *
from irv.unit import Unit
V = z3.IntVal
NUL = (1 << 32) - 1
# ghost: P = in-order position of a node, A = node at a position.  Both are constants: concatenating two trees that occupy
# adjacent position intervals keeps every node where it is.
P, A = z3.Const('g_P', Arr()), z3.Const('g_A', Arr())
mk = UF('uf_mk', Int, Int)          # marks the positions at which the nesting invariant is instantiated (constant 0)
@definition
def mk_def(i): return mk(i) == 0
CHT = z3.ArraySort(Int, Arr())
ulo, uhi = UF('uf_lo', CHT, Arr(), Int, Int), UF('uf_hi', CHT, Arr(), Int, Int)     # first position of a subtree, and one past the last
def usz(SZ, c): return If(c == NUL, 0, SZ[c])
@definition
def lo_def(CH, SZ, v): return ulo(CH, SZ, v) == P[v] - usz(SZ, CH[v][0])
@definition
def hi_def(CH, SZ, v): return uhi(CH, SZ, v) == P[v] + 1 + usz(SZ, CH[v][1])
class St:
    def __init__(s, v):
        s.n = v.n('_nodes'); s.CH = v.e('_nodes', '_ch'); s.SZ = v.e('_nodes', '_size'); s.NX = v.e('_nodes', '_next'); s.PV = v.e('_nodes', '_prev'); s.VA = v.e('_nodes', '_val')
    def c0(s, v): return s.CH[v][0]
    def c1(s, v): return s.CH[v][1]
    def ssz(s, c): return If(c == NUL, 0, s.SZ[c])
    def lo(s, v): return ulo(s.CH, s.SZ, v)
    def hi(s, v): return uhi(s.CH, s.SZ, v)
def mem(v, a, b): return And(a <= P[v], P[v] < b, A[P[v]] == v)
def nodeok(S, a, b, i):
        v = A[i]; l, r = S.c0(v), S.c1(v)
        return And(mk(i) == 0, 0 <= v, v < S.n, P[v] == i, S.SZ[v] == S.ssz(l) + S.ssz(r) + 1, S.ssz(l) >= 0, S.ssz(r) >= 0, a <= S.lo(v), S.hi(v) <= b,
                   Or(l == NUL, And(mem(l, a, i), S.hi(l) == i, S.SZ[l] >= 1)), Or(r == NUL, And(mem(r, i + 1, b), S.lo(r) == i + 1, S.SZ[r] >= 1)))
def valid(S, a, b):
    def node(i): return nodeok(S, a, b, i)
    def lam(i, j):
        v, w = A[i], A[j]
        return Implies(And(S.lo(w) <= i, i < S.hi(w)), And(S.lo(w) <= S.lo(v), S.hi(v) <= S.hi(w)))
    return [('nodes', rngq(a, b, node, pat=lambda i: A[i])),
            ('nested', forall(2, lambda i, j: Implies(And(a <= i, i < b, a <= j, j < b), And(mk(i) == 0, mk(j) == 0, lam(i, j))), pat=lambda i, j: [(mk(i), mk(j))])),
            ('next', rngq(a, b - 1, lambda i: S.NX[A[i]] == A[i + 1], pat=lambda i: S.NX[A[i]])), ('prev', rngq(a + 1, b, lambda i: S.PV[A[i]] == A[i - 1], pat=lambda i: S.PV[A[i]]))]
def tree(S, t, a, b): return And(a < b, 0 <= t, t < S.n, mem(t, a, b), S.lo(t) == a, S.hi(t) == b)
def frame(S, O, a, c):
    f = lambda v: And(S.c0(v) == O.c0(v), S.c1(v) == O.c1(v), S.SZ[v] == O.SZ[v], S.NX[v] == O.NX[v], S.PV[v] == O.PV[v])
    return [('frame', forall(1, lambda v: Implies(Not(mem(v, a, c)), f(v)), pat=lambda v: [S.CH[v], S.SZ[v], S.NX[v], S.PV[v]])),
            ('outer links', And(S.NX[A[c - 1]] == O.NX[A[c - 1]], S.PV[A[a]] == O.PV[A[a]])), ('values', S.VA == O.VA), ('pool', S.n == O.n)]
def m_req(s):
    S = St(s); l, r = s('tl'), s('tr'); a, b, c = S.lo(l), S.hi(l), S.hi(r)
    return [('pool', And(0 <= S.n, S.n <= NUL)), ('positions', And(0 <= a, c < NUL, b == S.lo(r))), ('left', tree(S, l, a, b)), ('right', tree(S, r, b, c))] + [('left ' + x, f) for x, f in valid(S, a, b)] + [('right ' + x, f) for x, f in valid(S, b, c)]
def m_ens(s):
    O = St(s.old); S = St(s); l, r = s('tl'), s('tr'); a, c = O.lo(l), O.hi(r)
    return [('root', tree(S, s.res, a, c))] + valid(S, a, c) + frame(S, O, a, c)
def mx_inv(s):
    S = St(s); t, l = s.v('t.addr.0.i'), s('tl'); a, b = S.lo(l), S.hi(l)
    return [('node', And(mem(t, a, b), S.hi(t) == b))]
def walk(side):
    def inv(s):
        S = St(s); x = s('tl') if side else s('tr'); t = s.v('t'); a, b = S.lo(x), S.hi(x)
        return [('node', And(mem(t, a, b), (S.hi(t) == b) if side else (S.lo(t) == a)))]
    return LoopSpec(inv, dec=lambda s: (V(NUL) - P[s.v('t')]) if side else P[s.v('t')])
def m_pre(s):
    S = St(s); l, r = s('tl'), s('tr')
    for x in (l, r, S.c0(l), S.c1(l), S.c0(r), S.c1(r)): s.assume_def(mk_def(P[x]))
def side(S, O, x, y):
    """positions [x, y) form a closed group of subtrees in S"""
    return [rngq(x, y, lambda i: And(mk(i) == 0, x <= S.lo(A[i]), S.hi(A[i]) <= y), pat=lambda i: mk(i)),
            forall(2, lambda i, j: Implies(And(x <= i, i < y, x <= j, j < y), And(mk(i) == 0, mk(j) == 0, Implies(And(S.lo(A[j]) <= i, i < S.hi(A[j])), And(S.lo(A[j]) <= S.lo(A[i]), S.hi(A[i]) <= S.hi(A[j]))))), pat=lambda i, j: [(mk(i), mk(j))])]
def before(s, S):
    """children and sizes before the last update of the root (a proof hint only: read off the store terms)"""
    strip = lambda t: next((u for c, u in s.ex.named.values() if c.eq(t)), t)
    t = [strip(S.CH), strip(S.SZ)]
    return [u.arg(0) for u in t] if all(z3.is_store(u) for u in t) else None
def m_use(s):
    m_pre(s)
    S, O = St(s), St(s.old); a, c = O.lo(s('tl')), O.hi(s('tr')); r = s.res; q = P[r]
    s.assume_def(mk_def(q)); s.assume_def(lo_def(S.CH, S.SZ, r)); s.assume_def(hi_def(S.CH, S.SZ, r))
    g = [And(a <= q, q < c, A[q] == r, S.lo(r) == a, S.hi(r) == c)]
    inv = rngq(a, c, lambda i: P[A[i]] == i, pat=lambda i: A[i])
    s.have('inverse', inv)
    for nm, f in valid(S, a, c)[2:]: s.have(nm, f)
    mid = before(s, S)
    same = lambda x, y: rngq(x, y, lambda i: And(mk(i) == 0, S.lo(A[i]) == O.lo(A[i]), S.hi(A[i]) == O.hi(A[i])), pat=lambda i: mk(i))
    s.have('left same', Implies(r == s('tl'), same(a, q))); s.have('right same', Implies(r == s('tr'), same(q + 1, c)))
    for nm, (x, y) in (('left', (a, q)), ('right', (q + 1, c))):
        f = side(S, O, x, y); s.have(nm + ' apart', rngq(x, y, lambda i: And(mk(i) == 0, A[i] != r, S.c0(A[i]) != r, S.c1(A[i]) != r), pat=lambda i: mk(i)))
        if mid: s.have(nm + ' mid', rngq(x, y, lambda i: And(mk(i) == 0, S.lo(A[i]) == ulo(*mid, A[i]), S.hi(A[i]) == uhi(*mid, A[i])), pat=lambda i: mk(i)))
        s.have(nm + ' bounds', f[0]); s.have(nm + ' nested', f[1]); g += f
    nk = lambda i: nodeok(S, a, c, i)
    parts = [rngq(a, q, nk, pat=lambda i: mk(i)), nk(q), rngq(q + 1, c, nk, pat=lambda i: mk(i))]
    for nm, f in zip(('left', 'root', 'right'), parts): s.have(nm + ' nodes', f)
    s.focus('nodes', valid(S, a, c)[0][1], parts + [And(a <= q, q < c)])
    s.focus('nested', valid(S, a, c)[1][1], g)
merge_impl = FnSpec('merge_impl', match=r'Node<int, Nd>::merge_impl\(', requires=m_req, ensures=m_ens, modifies=lambda s: ['_nodes'], recursive=True, pre=m_pre, use=m_use,
    dec=lambda s: St(s).hi(s('tr')) - St(s).lo(s('tl')), loops=[walk(0), walk(1)])
specs = [merge_impl]
cq, zq, vq = z3.Const('cq', CHT), z3.Const('zq', Arr()), z3.Int('vq')
unit = Unit('treap', specs=specs, theory=[z3.ForAll([cq, zq, vq], lo_def(cq, zq, vq), patterns=[ulo(cq, zq, vq)]), z3.ForAll([cq, zq, vq], hi_def(cq, zq, vq), patterns=[uhi(cq, zq, vq)]), forall(1, lambda i: mk_def(i), pat=lambda i: mk(i))], contracts=[merge_impl], keep=['merge_impl'])
