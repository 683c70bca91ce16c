from irv.spec import *
from irv.unit import Unit
from specs.sparse import p2_def, p2_pos, p2_mono
AI = Arr()
V = z3.IntVal
MAXN = 1 << 29
# ------------------------------------------------------------ functional graphs
it = UF('iterate', AI, Int, Int, Int)
@definition
def it_def(F, d, u): return it(F, d, u) == If(d <= 0, u, F[it(F, d - 1, u)])
def inr(F, n): return forall(1, lambda j: Implies(And(0 <= j, j < n), And(0 <= F[j], F[j] < n)), pat=lambda j: F[j])
it_add = Lemma('iterate_add', [AI, Int, Int, Int], lambda F, a, b, u: Implies(And(a >= 0, b >= 0), it(F, a + b, u) == it(F, a, it(F, b, u))), proof=lambda ih, w, F, a, b, u: [ih(F, a - 1, b, u), it_def(F, a + b, u), it_def(F, a, it(F, b, u))], measure=lambda F, a, b, u: If(a > 0, a, 0))
it_rng = Lemma('iterate_range', [AI, Int, Int, Int], lambda F, n, d, u: Implies(And(inr(F, n), 0 <= u, u < n), And(0 <= it(F, d, u), it(F, d, u) < n)), proof=lambda ih, w, F, n, d, u: [ih(F, n, d - 1, u), it_def(F, d, u), F[it(F, d - 1, u)] == F[it(F, d - 1, u)]], measure=lambda F, n, d, u: If(d > 0, d, 0))
it_eq = Lemma('iterate_same_function', [AI, AI, Int, Int, Int], lambda F, G, n, d, u: Implies(And(inr(F, n), forall(1, lambda j: Implies(And(0 <= j, j < n), F[j] == G[j]), pat=lambda j: F[j]), 0 <= u, u < n), it(F, d, u) == it(G, d, u)),
    proof=lambda ih, w, F, G, n, d, u: [ih(F, G, n, d - 1, u), it_def(F, d, u), it_def(G, d, u), w(it_rng, F, n, d - 1, u), F[it(F, d - 1, u)] == F[it(F, d - 1, u)]], measure=lambda F, G, n, d, u: If(d > 0, d, 0))
# k div 2P and the next bit
step = Lemma('binary_prefix', [Int, Int], lambda k, P: Implies(And(k >= 0, P >= 1), And(k / P == 2 * (k / (2 * P)) + (k / P) % 2, (k / P) * P == (k / (2 * P)) * (2 * P) + ((k / P) % 2) * P, (k / (2 * P)) * (2 * P) >= 0, (k / P) * P >= 0)),
    proof=lambda ih, w, k, P: [])
def wf(s, o):
    TT, NN, n, lg = s.e(o + '._nxt', '__e'), s.e(o + '._nxt', '__n'), s(o + '._n'), s(o + '._log')
    return [('shape', And(0 <= lg, lg <= 62, 0 <= n, n <= MAXN, s.n(o + '._nxt') == lg + 1)), ('rows', rows(TT, NN, TT[0], n, lg + 1))]
def rows(TT, NN, F, n, hi): return And(rngq(0, hi, lambda i: NN[i] == n, pat=lambda i: NN[i]), forall(2, lambda i, j: Implies(And(0 <= i, i < hi, 0 <= j, j < n), And(TT[i][j] == it(F, pow2(i), j), 0 <= TT[i][j], TT[i][j] < n)), pat=lambda i, j: TT[i][j]))
def qinv(s):
    F, l, k = s.e('d._nxt', '__e')[0], s.v('l'), s('k'); u0 = s.entry('u')
    return [('range', And(-1 <= l, l <= s('d._log'))), ('position', And(0 <= s.v('u'), s.v('u') < s('d._n'), s.v('u') == it(F, (k / pow2(l + 1)) * pow2(l + 1), u0)))]
def quse(s):
    F, l, k = s.e('d._nxt', '__e')[0], s.v('l'), s('k'); u0 = s.entry('u')
    s.assume_def(it_def(F, V(0), u0)); s.assume_def(p2_def(l + 1)); s.assume_def(p2_def(V(0)))
    if s.prev is None: s.lemma(p2_pos, l + 1); return
    L = s.prev.v('l'); P = pow2(L); s.assume_def(p2_def(L + 1)); s.lemma(p2_pos, L); s.lemma(step, k, P); s.lemma(it_add, F, P, (k / (2 * P)) * (2 * P), u0)
query = FnSpec('fg_query', requires=lambda s: wf(s, 'd') + [And(0 <= s('u'), s('u') < s('d._n'), s('k') >= 0, s('k') / 2 < pow2(s('d._log')))],
    ensures=lambda s: [('d-fold iterate', s.res == it(s.e('d._nxt', '__e')[0], s('k'), s.old('u')))], use=lambda s: s.assume_def(p2_def(V(0))), loops=[LoopSpec(qinv, dec=lambda s: s.v('l') + 1, use=quse)], pre=lambda s: (s.assume_def(p2_def(s('d._log') + 1)), s.lemma(p2_pos, s('d._log'))))
p2_63 = Lemma('pow2_63', [Int], lambda z: pow2(V(63)) == V(1 << 63), proof=lambda ih, u, z: [p2_def(V(i)) for i in range(64)])
# floor_log2: the while loop finds the top bit of k
def winv(s):
    l = s.v('l'); return [('range', And(0 <= l, l <= 62, Or(l == 0, pow2(l) <= s('k'))))]
def wuse(s):
    l = s.v('l'); s.assume_def(p2_def(l)); s.assume_def(p2_def(l + 1)); s.lemma(p2_pos, l)
def whead(s):
    l = s.v('l'); s.assume_def(p2_def(l + 1)); s.lemma(p2_pos, l + 1); s.lemma(p2_63, V(0)); s.lemma(p2_mono, V(63), l + 1)
def gF(s): return s.e('g._nxt')
def base(s):
    TT, n, F = s.e('out._nxt', '__e'), s('out._n'), gF(s)
    return And(n == s.n('g._nxt'), s.n('out._nxt') == s('out._log') + 1, 0 <= s('out._log'), s('out._log') <= 62, inr(F, n), s('k') / 2 < pow2(s('out._log')), Or(s('out._log') == 0, pow2(s('out._log')) <= s('k')), rngq(0, n, lambda j: TT[0][j] == F[j], pat=lambda j: TT[0][j]))
def dinv(s):
    i = s.v('i'); return [('range', And(1 <= i, i <= s('out._log') + 1)), ('base', base(s)), ('row sizes', rngq(0, s('out._log') + 1, lambda r: s.e('out._nxt', '__n')[r] == s('out._n'), pat=lambda r: s.e('out._nxt', '__n')[r])), ('rows', rows(s.e('out._nxt', '__e'), s.e('out._nxt', '__n'), gF(s), s('out._n'), i))]
def dj(s):
    i, j, TT = s.v('i'), s.v('j'), s.e('out._nxt', '__e')
    return dinv(s)[:-1] + [('below', i <= s('out._log')), ('index', And(0 <= j, j <= s('out._n'))), ('rows', rows(TT, s.e('out._nxt', '__n'), gF(s), s('out._n'), i)), ('row', forall(1, lambda x: Implies(And(0 <= x, x < j), And(TT[i][x] == it(gF(s), pow2(i), x), 0 <= TT[i][x], TT[i][x] < s('out._n'))), pat=lambda x: TT[i][x]))]
def diuse(s):
    s.assume_def(p2_def(V(0)))
    if s.prev is None: F = gF(s); s.assume_def(p2_def(V(1))); s.assume_def(forall(1, lambda j: it_def(F, V(1), j), pat=lambda j: it(F, V(1), j))); s.assume_def(forall(1, lambda j: it_def(F, V(0), j), pat=lambda j: it(F, V(0), j)))
def djuse(s):
    i, F = s.v('i'), gF(s); s.assume_def(p2_def(i)); s.lemma(p2_pos, i - 1)
    if s.prev is not None: s.lemma(it_add, F, pow2(i - 1), pow2(i - 1), s.prev.v('j'))
def duse(s):
    F, n, TT = gF(s), s('out._n'), s.e('out._nxt', '__e'); s.assume_def(p2_def(V(0)))
    s.lemma_all(it_eq, forall(2, lambda i, j: it_eq.inst(F, TT[0], n, i, j), pat=lambda i, j: it(F, i, j)))
ctor = FnSpec('fg_doubling', requires=lambda s: And(s.n('g._nxt') <= MAXN, s('g._n') == s.n('g._nxt'), s('k') >= 0, inr(gF(s), s.n('g._nxt'))),
    ensures=lambda s: wf(s, 'out') + [('of the same function', And(s('out._n') == s.n('g._nxt'), rngq(0, s.n('g._nxt'), lambda j: s.e('out._nxt', '__e')[0][j] == gF(s)[j], pat=lambda j: s.e('out._nxt', '__e')[0][j]))), ('enough levels', s('k') / 2 < pow2(s('out._log')))],
    loops=[LoopSpec(winv, dec=lambda s: 63 - s.v('l'), use=wuse, head=whead), LoopSpec(dinv, dec=lambda s: s('out._log') + 1 - s.v('i'), use=diuse), LoopSpec(dj, dec=lambda s: s('out._n') - s.v('j'), use=djuse)], use=duse, modifies=lambda s: ['out'])
# ------------------------------------------------------------ breadth-first search
AA = z3.ArraySort(Int, AI); BO = z3.BoolSort()
mem = UF('occurs', AI, Int, Int, BO); mw = UF('occurs_at', AI, Int, Int, Int)
@definition
def mem_elim(Q, h, v): return Implies(mem(Q, h, v), And(0 <= mw(Q, h, v), mw(Q, h, v) < h, Q[mw(Q, h, v)] == v))
@definition
def mem_intro(Q, h, p): return Implies(And(0 <= p, p < h), mem(Q, h, Q[p]))
mem_ext = Lemma('occurs_monotone', [AI, AI, Int, Int, Int], lambda Q, R, h, h2, v: Implies(And(mem(Q, h, v), h <= h2, forall(1, lambda p: Implies(And(0 <= p, p < h), R[p] == Q[p]), pat=lambda p: Q[p])), mem(R, h2, v)), proof=lambda ih, u, Q, R, h, h2, v: [mem_elim(Q, h, v), mem_intro(R, h2, mw(Q, h, v))])
# a walk of at most d edges from one of the m sources S to v
W = UF('within', AA, AI, AI, Int, Int, Int, BO); wu = UF('within_u', AA, AI, AI, Int, Int, Int, Int); wk = UF('within_k', AA, AI, AI, Int, Int, Int, Int)
@definition
def W_elim(g, d, v):
    G, N, S, m = g; a, k = wu(G, N, S, m, d, v), wk(G, N, S, m, d, v)
    return Implies(W(G, N, S, m, d, v), If(d <= 0, And(d == 0, mem(S, m, v)), Or(W(G, N, S, m, d - 1, v), And(W(G, N, S, m, d - 1, a), 0 <= k, k < N[a], G[a][k] == v))))
@definition
def W_zero(g, v): return (lambda G, N, S, m: Implies(mem(S, m, v), W(G, N, S, m, V(0), v)))(*g)
@definition
def W_step(g, d, a, k): return (lambda G, N, S, m: Implies(And(d >= 0, W(G, N, S, m, d, a), 0 <= k, k < N[a]), W(G, N, S, m, d + 1, G[a][k])))(*g)
def vert(G, N, n): return forall(2, lambda u, k: Implies(And(0 <= u, u < n, 0 <= k, k < N[u]), And(0 <= G[u][k], G[u][k] < n)), pat=lambda u, k: G[u][k])
def srcs(S, m, n): return forall(1, lambda i: Implies(And(0 <= i, i < m), And(0 <= S[i], S[i] < n)), pat=lambda i: S[i])
def edge_closed(D, G, N, u, k): return And(D[G[u][k]] >= 0, D[G[u][k]] <= D[u] + 1)
def closed(D, G, N, n): return forall(2, lambda u, k: Implies(And(0 <= u, u < n, D[u] >= 0, 0 <= k, k < N[u]), edge_closed(D, G, N, u, k)), pat=lambda u, k: G[u][k])
def src0(D, S, m): return forall(1, lambda i: Implies(And(0 <= i, i < m), D[S[i]] == 0), pat=lambda i: S[i])
complete = Lemma('bfs_complete', [AI, AA, AI, AI, Int, Int, Int, Int], lambda D, G, N, S, m, n, d, v: Implies(And(vert(G, N, n), srcs(S, m, n), closed(D, G, N, n), src0(D, S, m), W(G, N, S, m, d, v)), And(0 <= v, v < n, d >= 0, 0 <= D[v], D[v] <= d)),
    proof=lambda ih, u, D, G, N, S, m, n, d, v: (lambda g, a, k: [W_elim(g, d, v), ih(D, G, N, S, m, n, d - 1, v), ih(D, G, N, S, m, n, d - 1, a), mem_elim(S, m, v), G[a][k] == G[a][k], S[mw(S, m, v)] == S[mw(S, m, v)]])((G, N, S, m), wu(G, N, S, m, d, v), wk(G, N, S, m, d, v)), measure=lambda D, G, N, S, m, n, d, v: If(d > 0, d, 0))
# undiscovered vertices
und = UF('undiscovered', AI, Int, Int)
@definition
def und_def(D, n): return und(D, n) == If(n <= 0, 0, und(D, n - 1) + If(D[n - 1] == -1, 1, 0))
und_rng = Lemma('undiscovered_range', [AI, Int], lambda D, n: And(0 <= und(D, n), Implies(n >= 0, und(D, n) <= n)), proof=lambda ih, u, D, n: [und_def(D, n), ih(D, n - 1)], measure=lambda D, n: If(n > 0, n, 0))
und_upd = Lemma('undiscovered_update', [AI, AI, Int, Int], lambda D, E, n, x: Implies(And(0 <= x, D[x] == -1, E[x] != -1, forall(1, lambda j: Implies(j != x, E[j] == D[j]), pat=lambda j: E[j])), und(E, n) == und(D, n) - If(x < n, 1, 0)),
    proof=lambda ih, u, D, E, n, x: [und_def(D, n), und_def(E, n), ih(D, E, n - 1, x), E[n - 1] == E[n - 1]], measure=lambda D, E, n, x: If(n > 0, n, 0))
OUT = 'out'
def gr(s): return s.e('b.g', '__e'), s.e('b.g', '__n'), s.e('src'), s.n('src')
def static(s):
    G, N, S, m = gr(s); n = s('b.n')
    return And(n == s.n('b.g'), 0 <= n, n <= MAXN, m <= MAXN, rngq(0, n, lambda u: N[u] <= MAXN, pat=lambda u: N[u]), vert(G, N, n), srcs(S, m, n))
def s1inv(s):
    p, D, S = s.v('__begin2'), s.e(OUT), s.e('src'); n = s('b.n')
    return [('range', And(0 <= p, p <= s.n('src'), s.n(OUT) == n)), ('marks', forall(1, lambda v: Implies(And(0 <= v, v < n), Or(D[v] == -1, And(D[v] == 0, mem(S, p, v)))), pat=lambda v: D[v])), ('sources', forall(1, lambda i: Implies(And(0 <= i, i < p), D[S[i]] == 0), pat=lambda i: S[i]))]
def s1use(s):
    S = s.e('src')
    if s.prev is None: return
    p = s.prev.v('__begin2'); s.assume_def(mem_intro(S, p + 1, p)); s.lemma_all(mem_ext, forall(1, lambda v: mem_ext.inst(S, S, p, p + 1, v), pat=lambda v: mem(S, p, v)))
def s2inv(s):
    p, Q, S, c = s.v('f'), s.e('dq'), s.e('src'), s.n('dq')
    return [('range', And(0 <= p, p <= s.n('src'), s('dq.__b') == 0, c == p)), ('copied', forall(1, lambda i: Implies(And(0 <= i, i < p), Q[i] == S[i]), pat=lambda i: Q[i]))]
def bound(s): return s.n('src') + s('b.n')
def core(s, done):
    G, N, S, m = gr(s); n, D, Q, b, hi = s('b.n'), s.e(OUT), s.e('dq'), s('dq.__b'), s('dq.__b') + s.n('dq')
    return [('queue', And(0 <= b, b <= hi, s.n(OUT) == n)), ('sources', src0(D, S, m)),
        ('marks', forall(1, lambda v: Implies(And(0 <= v, v < n), And(D[v] >= -1, Implies(D[v] >= 0, And(mem(Q, hi, v), W(G, N, S, m, D[v], v))))), pat=lambda v: D[v])),
        ('queued', forall(1, lambda p: Implies(And(0 <= p, p < hi), And(0 <= Q[p], Q[p] < n, D[Q[p]] >= 0, D[Q[p]] <= p)), pat=lambda p: Q[p])),
        ('processed', forall(2, lambda p, k: Implies(And(0 <= p, p < done, 0 <= k, k < N[Q[p]]), edge_closed(D, G, N, Q[p], k)), pat=lambda p, k: G[Q[p]][k])),
        ('in order', forall(2, lambda p, q: Implies(And(0 <= p, p <= q, q < hi), D[Q[p]] <= D[Q[q]]), pat=lambda p, q: [(Q[p], Q[q])])),
        ('pushes', hi + und(D, n) <= bound(s))]
def oinv(s):
    D, Q, b, hi = s.e(OUT), s.e('dq'), s('dq.__b'), s('dq.__b') + s.n('dq')
    return core(s, b) + [('levels', forall(1, lambda p: Implies(And(0 <= p, p < hi, b < hi), D[Q[p]] <= D[Q[b]] + 1), pat=lambda p: Q[p]))]
def ouse(s):
    G, N, S, m = gr(s); n, D, Q = s('b.n'), s.e(OUT), s.e('dq'); s.lemma(und_rng, D, n)
    if s.prev is None:
        s.lemma_all(mem_ext, forall(1, lambda v: mem_ext.inst(S, Q, m, m, v), pat=lambda v: mem(S, m, v))); s.assume_def(forall(1, lambda v: W_zero((G, N, S, m), v), pat=lambda v: mem(S, m, v)))
def iinv(s):
    G, N, S, m = gr(s); D, Q, b, hi, u, k = s.e(OUT), s.e('dq'), s('dq.__b'), s('dq.__b') + s.n('dq'), s.v('u'), s.v('__begin3')
    return core(s, b - 1) + [('current', And(b >= 1, u == Q[b - 1], 0 <= k, k <= N[u])), ('edges so far', forall(1, lambda e: Implies(And(0 <= e, e < k), edge_closed(D, G, N, u, e)), pat=lambda e: G[u][e])), ('levels', forall(1, lambda p: Implies(And(0 <= p, p < hi), D[Q[p]] <= D[u] + 1), pat=lambda p: Q[p]))]
def iuse(s):
    G, N, S, m = gr(s); n, D, Q = s('b.n'), s.e(OUT), s.e('dq'); s.lemma(und_rng, D, n)
    if s.prev is None: return
    P = s.prev; D0, Q0, h0, u, k = P.e(OUT), P.e('dq'), P('dq.__b') + P.n('dq'), P.v('u'), P.v('__begin3'); x = G[u][k]; h = s('dq.__b') + s.n('dq')
    s.lemma(und_upd, D0, D, n, x); s.assume_def(W_step((G, N, S, m), D0[u], u, k)); s.assume_def(mem_intro(Q, h, h - 1)); s.lemma_all(mem_ext, forall(1, lambda v: mem_ext.inst(Q0, Q, h0, h, v), pat=lambda v: mem(Q0, h0, v)))
def ihead(s):
    G, N, S, m = gr(s); Q, b, D, n = s.e('dq'), s('dq.__b'), s.e(OUT), s('b.n'); hi = b + s.n('dq'); s.assume_def(mem_elim(Q, hi, G[s.v('u')][s.v('__begin3')])); s.lemma(und_rng, D, n)
def bens(s):
    G, N, S, m = gr(s); n, D = s('b.n'), s.e(OUT)
    return [('length', s.n(OUT) == n), ('reached', forall(1, lambda v: Implies(And(0 <= v, v < n, D[v] >= 0), W(G, N, S, m, D[v], v)), pat=lambda v: D[v])), ('shortest', forall(2, lambda v, d: Implies(And(0 <= v, v < n, W(G, N, S, m, d, v)), And(0 <= D[v], D[v] <= d)), pat=lambda v, d: W(G, N, S, m, d, v)))]
def buse(s):
    G, N, S, m = gr(s); n, D, Q = s('b.n'), s.e(OUT), s.e('dq'); hi = s('dq.__b') + s.n('dq')
    s.assume_def(forall(1, lambda v: mem_elim(Q, hi, v), pat=lambda v: mem(Q, hi, v)))
    s.have('closed', closed(D, G, N, n))
    s.lemma_all(complete, forall(2, lambda v, d: complete.inst(D, G, N, S, m, n, d, v), pat=lambda v, d: W(G, N, S, m, d, v)))
bfs = FnSpec('bfs_dist', requires=lambda s: static(s), ensures=bens, loops=[LoopSpec(s1inv, dec=lambda s: s.n('src') - s.v('__begin2'), use=s1use), LoopSpec(s2inv, dec=lambda s: s.n('src') - s.v('f')), LoopSpec(oinv, dec=lambda s: bound(s) - s('dq.__b'), use=ouse), LoopSpec(iinv, dec=lambda s: s.e('b.g', '__n')[s.v('u')] - s.v('__begin3'), use=iuse, head=ihead)], use=buse, modifies=lambda s: ['out'])
specs = [query, ctor, bfs]
unit = Unit('graph', specs, contracts=[])
