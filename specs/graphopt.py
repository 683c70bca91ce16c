from irv.spec import *
from irv.unit import Unit
from specs.graph import mem, mw, mem_elim, mem_intro, mem_ext, AA, AI, BO
V = z3.IntVal
MAXN = 1 << 29
alpha = UF('independence_number', AA, AI, Int, Int)
def inset(R, c, n): return forall(1, lambda x: Implies(And(0 <= x, x < c), And(0 <= R[x], R[x] < n)), pat=lambda x: R[x])
def distinct(R, c): return forall(2, lambda x, y: Implies(And(0 <= x, x < y, y < c), R[x] != R[y]), pat=lambda x, y: [(R[x], R[y])])
def indep(H, N, R, c): return forall(3, lambda x, y, k: Implies(And(0 <= x, x < c, 0 <= y, y < c, x != y, 0 <= k, k < N[R[x]]), H[R[x]][k] != R[y]), pat=lambda x, y, k: [(H[R[x]][k], R[y])])
def vert(G, N, n): return And(0 <= n, n <= MAXN, rngq(0, n, lambda u: N[u] <= MAXN, pat=lambda u: N[u]), forall(2, lambda u, k: Implies(And(0 <= u, u < n, 0 <= k, k < N[u]), And(0 <= G[u][k], G[u][k] < n)), pat=lambda u, k: G[u][k]))
def g(s, o='g'): return s.e(o, '__e'), s.e(o, '__n'), s.n(o)
C = FnSpec('maximum_independent_set', match=r'suisen::maximum_independent_set', requires=lambda s: vert(*g(s)), modifies=lambda s: ['sret'],
    ensures=lambda s: (lambda G, N, n, R, c: [('vertices', And(c <= n, inset(R, c, n), distinct(R, c))), ('independent', indep(G, N, R, c)), ('maximum', c == alpha(G, N, n))])(*g(s), s.e('sret'), s.n('sret')))
# number of zero entries
cz = UF('zeros', AI, Int, Int)
@definition
def cz_def(F, n): return cz(F, n) == If(n <= 0, 0, cz(F, n - 1) + If(F[n - 1] == 0, 1, 0))
cz_rng = Lemma('zeros_range', [AI, Int], lambda F, n: And(0 <= cz(F, n), Implies(n >= 0, cz(F, n) <= n)), proof=lambda ih, u, F, n: [cz_def(F, n), ih(F, n - 1)], measure=lambda F, n: If(n > 0, n, 0))
cz_all = Lemma('zeros_all', [AI, Int], lambda F, n: Implies(And(n >= 0, forall(1, lambda j: Implies(And(0 <= j, j < n), F[j] == 0), pat=lambda j: F[j])), cz(F, n) == n), proof=lambda ih, u, F, n: [cz_def(F, n), ih(F, n - 1), F[n - 1] == F[n - 1]], measure=lambda F, n: If(n > 0, n, 0))
cz_upd = Lemma('zeros_update', [AI, AI, Int, Int], lambda F, E, n, x: Implies(And(0 <= x, F[x] == 0, E[x] != 0, forall(1, lambda j: Implies(j != x, E[j] == F[j]), pat=lambda j: E[j])), cz(E, n) == cz(F, n) - If(x < n, 1, 0)),
    proof=lambda ih, u, F, E, n, x: [cz_def(F, n), cz_def(E, n), ih(F, E, n - 1, x), E[n - 1] == E[n - 1]], measure=lambda F, E, n, x: If(n > 0, n, 0))
M = 'maximum_independent_set'
def setof(s): return s.e(M), s.n(M)
def flags(s, F, p, n):
    R, c = setof(s)
    return And(forall(1, lambda v: Implies(And(0 <= v, v < n), And(F[v] >= 0, F[v] <= 1, (F[v] == 1) == mem(R, p, v))), pat=lambda v: F[v]))
def minv(s):
    p = s.v(B1); n = s.n('g'); R, c = setof(s)
    return [('range', And(0 <= p, p <= c, s.n('in_msi') == n)), ('flags', flags(s, s.e('in_msi'), p, n)), ('count', cz(s.e('in_msi'), n) == n - p)]
def muse(s):
    R, c = setof(s); F, n = s.e('in_msi'), s.n('g'); 
    s.assume_def(forall(1, lambda v: mem_elim(R, s.v(B1), v), pat=lambda v: mem(R, s.v(B1), v)))
    if s.prev is None: s.lemma(cz_all, F, n); return
    p = s.prev.v(B1); s.lemma(cz_upd, s.prev.e('in_msi'), F, n, R[p]); s.assume_def(mem_intro(R, p + 1, p)); s.assume_def(forall(1, lambda v: mem_elim(R, p, v), pat=lambda v: mem(R, p, v)))
    s.lemma_all(mem_ext, forall(1, lambda v: mem_ext.inst(R, R, p, p + 1, v), pat=lambda v: mem(R, p, v))); s.assume_def(forall(1, lambda v: mem_intro(R, p, mw(R, p + 1, v)), pat=lambda v: mem(R, p + 1, v)))
B1 = '__begin1'
def coverlist(s, i):
    F, X, x = s.e('in_msi'), s.e('out'), s.n('out')
    return [('how many', x == cz(F, i)), ('ascending', forall(2, lambda p, q: Implies(And(0 <= p, p < q, q < x), X[p] < X[q]), pat=lambda p, q: [(X[p], X[q])])), ('members', forall(1, lambda q: Implies(And(0 <= q, q < x), And(0 <= X[q], X[q] < i, F[X[q]] == 0)), pat=lambda q: X[q])), ('complete', forall(1, lambda v: Implies(And(0 <= v, v < i, F[v] == 0), And(0 <= cz(F, v), cz(F, v) < x, X[cz(F, v)] == v)), pat=lambda v: cz(F, v)))]
def oinv(s):
    i, n = s.v('i'), s.n('g'); R, c = setof(s)
    return [('range', And(0 <= i, i <= n, s.n('in_msi') == n)), ('flags', flags(s, s.e('in_msi'), c, n)), ('count', cz(s.e('in_msi'), n) == n - c)] + coverlist(s, i)
def ouse(s):
    F = s.e('in_msi'); i = s.v('i'); s.assume_def(cz_def(F, V(0))); s.assume_def(cz_def(F, i)); s.lemma(cz_rng, F, i); s.lemma(cz_rng, F, i - 1)
def mens(s):
    G, N, n = g(s); X, x = s.e('out'), s.n('out')
    return [('minimum size', x == n - alpha(G, N, n)), ('vertices', And(inset(X, x, n), forall(2, lambda p, q: Implies(And(0 <= p, p < q, q < x), X[p] != X[q]), pat=lambda p, q: [(X[p], X[q])]))), ('covers every edge', forall(2, lambda u, k: Implies(And(0 <= u, u < n, 0 <= k, k < N[u], G[u][k] != u), Or(mem(X, x, u), mem(X, x, G[u][k]))), pat=lambda u, k: G[u][k]))]
def mend(s):
    G, N, n = g(s); X, x, F = s.e('out'), s.n('out'), s.e('in_msi'); R, c = setof(s)
    s.assume_def(forall(1, lambda v: mem_intro(X, x, cz(F, v)), pat=lambda v: mem(X, x, v))); s.assume_def(forall(1, lambda v: mem_elim(R, c, v), pat=lambda v: mem(R, c, v)))
cover = FnSpec('min_cover', requires=lambda s: vert(*g(s)), ensures=mens, loops=[LoopSpec(minv, dec=lambda s: s.n(M) - s.v(B1), use=muse), LoopSpec(oinv, dec=lambda s: s.n('g') - s.v('i'), use=ouse)], use=mend, modifies=lambda s: ['out'])
# ------------------------------------------------------------ maximum clique: independent set of the complement graph
def row(s, r, hi):
    G, N, n = g(s); H, HN, _ = g(s, 'h')
    return [('non-neighbours only', forall(2, lambda a, k: Implies(And(0 <= a, r(a), 0 <= k, k < HN[a]), And(0 <= H[a][k], H[a][k] < hi(a), H[a][k] != a, Not(mem(G[a], N[a], H[a][k])))), pat=lambda a, k: H[a][k])),
            ('every non-neighbour', forall(2, lambda a, j: Implies(And(0 <= a, r(a), 0 <= j, j < hi(a), j != a), Or(mem(G[a], N[a], j), mem(H[a], HN[a], j))), pat=lambda a, j: [mem(G[a], N[a], j), mem(H[a], HN[a], j)])),
            ('row lengths', forall(1, lambda a: Implies(And(0 <= a, a < n), And(HN[a] >= 0, If(r(a), HN[a] <= hi(a), HN[a] == 0))), pat=lambda a: HN[a]))]
def qo(s):
    i, n = s.v('i'), s.n('g'); return [('range', And(0 <= i, i <= n, s.n('h') == n))] + row(s, lambda a: a < i, lambda a: n)
def qa(s):
    i, n = s.v('i'), s.n('g'); G, N, _ = g(s); p, F = s.v(QB), s.e('adj')
    return [('range', And(0 <= i, i < n, s.n('h') == n, s.n('adj') == n, 0 <= p, p <= N[i]))] + row(s, lambda a: a < i, lambda a: n) + [('flags', forall(1, lambda v: Implies(And(0 <= v, v < n), And(F[v] >= 0, F[v] <= 1, (F[v] == 1) == mem(G[i], p, v))), pat=lambda v: F[v]))]
QB = '__begin2'
def qause(s):
    G, N, n = g(s); i = s.v('i'); R = G[i]; s.assume_def(forall(1, lambda v: mem_elim(R, s.v(QB), v), pat=lambda v: mem(R, s.v(QB), v)))
    if s.prev is None: return
    p = s.prev.v(QB); s.assume_def(mem_intro(R, p + 1, p)); s.lemma_all(mem_ext, forall(1, lambda v: mem_ext.inst(R, R, p, p + 1, v), pat=lambda v: mem(R, p, v))); s.assume_def(forall(1, lambda v: mem_intro(R, p, mw(R, p + 1, v)), pat=lambda v: mem(R, p + 1, v)))
def qj(s):
    i, j, n = s.v('i'), s.v('j'), s.n('g'); G, N, _ = g(s); F = s.e('adj')
    return [('range', And(0 <= i, i < n, s.n('h') == n, s.n('adj') == n, 0 <= j, j <= n))] + row(s, lambda a: a <= i, lambda a: If(a == i, j, n)) + [('flags', forall(1, lambda v: Implies(And(0 <= v, v < n), And(F[v] >= 0, F[v] <= 1, (F[v] == 1) == mem(G[i], N[i], v))), pat=lambda v: F[v]))]
def qjuse(s):
    if s.prev is None: return
    i, j = s.v('i'), s.prev.v('j'); H, HN, _ = g(s, 'h'); H0, HN0, _ = g(s.prev, 'h'); G, N, n = g(s)
    s.lemma_all(mem_ext, forall(1, lambda v: mem_ext.inst(H0[i], H[i], HN0[i], HN[i], v), pat=lambda v: mem(H0[i], HN0[i], v))); s.assume_def(mem_intro(H[i], HN[i], HN0[i]))
def qens(s):
    G, N, n = g(s); H, HN, _ = g(s, 'h'); R, c = s.e('out'), s.n('out')
    return [('vertices', And(inset(R, c, n), distinct(R, c))), ('clique', forall(2, lambda x, y: Implies(And(0 <= x, x < c, 0 <= y, y < c, x != y), mem(G[R[x]], N[R[x]], R[y])), pat=lambda x, y: [(R[x], R[y])])), ('maximum in the complement', And(s.n('h') == n, c == alpha(H, HN, n)))] + row(s, lambda a: a < n, lambda a: n)
def qend(s):
    H, HN, n = g(s, 'h'); s.assume_def(forall(2, lambda a, v: mem_elim(H[a], HN[a], v), pat=lambda a, v: mem(H[a], HN[a], v)))
clique = FnSpec('max_clique', requires=lambda s: vert(*g(s)), ensures=qens, loops=[LoopSpec(qo, dec=lambda s: s.n('g') - s.v('i')), LoopSpec(qa, dec=lambda s: s.e('g', '__n')[s.v('i')] - s.v(QB), use=qause), LoopSpec(qj, dec=lambda s: s.n('g') - s.v('j'), use=qjuse)], use=qend, modifies=lambda s: ['out'])
specs = [cover, clique]
unit = Unit('graphopt', specs, contracts=[C], keep=[r'^suisen::maximum_independent_set'])
