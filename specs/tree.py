from irv.spec import *
from irv.unit import Unit
AI = Arr()
V = z3.IntVal
MAXI = (1 << 31) - 1; MAXN = 1 << 29
# A decomposed rooted forest: visit order, chain heads, order, parents, depths.
def nodes(T, n):
    vi, hd, od, pa, de = T
    def f(x): return And(0 <= vi[x], vi[x] < n, od[vi[x]] == x, 0 <= hd[x], hd[x] < n, -1 <= pa[x], pa[x] < n, vi[hd[x]] <= vi[x], hd[hd[x]] == hd[x], de[x] >= 0, de[x] < n,
        Implies(pa[x] < 0, de[x] == 0), Implies(pa[x] >= 0, And(de[x] == de[pa[x]] + 1, vi[pa[x]] < vi[x])), Implies(x != hd[x], And(pa[x] >= 0, vi[x] >= 1, pa[x] == od[vi[x] - 1], hd[pa[x]] == hd[x])))
    return And(forall(1, lambda x: Implies(And(0 <= x, x < n), f(x)), pat=lambda x: [vi[x], hd[x], pa[x], de[x]]), forall(1, lambda t: Implies(And(0 <= t, t < n), And(0 <= od[t], od[t] < n, vi[od[t]] == t)), pat=lambda t: od[t]))
up = UF('ancestor_at', AI, Int, Int, Int)          # k-th ancestor, -1 above the root
@definition
def up_def(P, x, k): return up(P, x, k) == If(Or(k <= 0, x < 0), x, up(P, P[x], k - 1))
TS = [AI] * 5
def pk(f): return lambda *a: f(tuple(a[:5]), *a[5:])
def L_(name, sorts, st, proof, measure=None):
    return Lemma(name, TS + sorts, lambda *a: st(a[:5], *a[5:]), proof=lambda ih, w, *a: proof(lambda *b: ih(*a[:5], *b), lambda l, *b: w(l, *a[:5], *b), a[:5], *a[5:]), **({'measure': lambda *a: measure(a[:5], *a[5:])} if measure else {}))
up_add = Lemma('ancestor_at_add', [AI, Int, Int, Int], lambda P, x, i, j: Implies(And(i >= 0, j >= 0), up(P, x, i + j) == up(P, up(P, x, i), j)), proof=lambda ih, w, P, x, i, j: [up_def(P, x, i), up_def(P, x, i + j), up_def(P, x, j), up_def(P, up(P, x, i), j), ih(P, P[x], i - 1, j)], measure=lambda P, x, i, j: If(i > 0, i, 0))
up_dep = L_('ancestor_depth', [Int, Int, Int], lambda T, n, x, k: Implies(And(nodes(T, n), 0 <= x, x < n, k >= 0), (lambda y: If(k <= T[4][x], And(0 <= y, y < n, T[4][y] == T[4][x] - k, T[0][y] <= T[0][x]), y == -1))(up(T[3], x, k))),
    lambda ih, w, T, n, x, k: [up_def(T[3], x, k), ih(n, T[3][x], k - 1), up_def(T[3], T[3][x], k - 1)], lambda T, n, x, k: If(k > 0, k, 0))
up_chain = L_('ancestor_in_chain', [Int, Int, Int], lambda T, n, x, k: Implies(And(nodes(T, n), 0 <= x, x < n, k >= 0, k <= T[0][x] - T[0][T[1][x]]), And(up(T[3], x, k) == T[2][T[0][x] - k], T[4][T[2][T[0][x] - k]] == T[4][x] - k, T[1][T[2][T[0][x] - k]] == T[1][x])),
    lambda ih, w, T, n, x, k: [up_def(T[3], x, k), ih(n, T[3][x], k - 1), T[2][T[0][x] - 1] == T[2][T[0][x] - 1]], lambda T, n, x, k: If(k > 0, k, 0))
BO = z3.BoolSort()
anc = UF('is_ancestor', AI, AI, Int, Int, BO)      # anc(parents, depths, a, x)
@definition
def anc_def(P, D, a, x): return anc(P, D, a, x) == And(a >= 0, D[a] >= 0, D[a] <= D[x], up(P, x, D[x] - D[a]) == a)
def an(T, a, x): return anc(T[3], T[4], a, x)
def ad(T, a, x): return anc_def(T[3], T[4], a, x)
anc_facts = L_('ancestor_facts', [Int, Int, Int], lambda T, n, a, x: Implies(And(nodes(T, n), 0 <= x, x < n, an(T, a, x)), And(0 <= a, a < n, T[4][a] <= T[4][x], T[0][a] <= T[0][x])), lambda ih, w, T, n, a, x: [ad(T, a, x), w(up_dep, n, x, T[4][x] - T[4][a])])
anc_refl = L_('ancestor_reflexive', [Int, Int], lambda T, n, x: Implies(And(nodes(T, n), 0 <= x, x < n), an(T, x, x)), lambda ih, w, T, n, x: [ad(T, x, x), up_def(T[3], x, V(0))])
anc_trans = L_('ancestor_transitive', [Int, Int, Int, Int], lambda T, n, a, b, x: Implies(And(nodes(T, n), 0 <= x, x < n, an(T, a, b), an(T, b, x)), an(T, a, x)),
    lambda ih, w, T, n, a, b, x: (lambda D: [ad(T, a, b), ad(T, b, x), ad(T, a, x), w(anc_facts, n, b, x), up_add_(T[3], x, D[x] - D[b], D[b] - D[a], w)])(T[4]))
def up_add_(P, x, i, j, w): return up_add.inst(P, x, i, j)
# chain: the ancestors of v at or below its chain head are exactly the chain, above it those of the head's parent
chain_up = L_('ancestors_of_chain_member', [Int, Int, Int], lambda T, n, a, v: Implies(And(nodes(T, n), 0 <= v, v < n, 0 <= a, a < n), (lambda vi, hd, od, pa, de: (lambda h: And(
        de[h] == de[v] - (vi[v] - vi[h]),
        And(vi[h] <= vi[a], vi[a] <= vi[v]) == And(an(T, a, v), de[a] >= de[h]),
        Implies(And(vi[h] <= vi[a], vi[a] <= vi[v]), hd[a] == hd[v]),
        Implies(pa[h] >= 0, And(an(T, a, pa[h]) == And(an(T, a, v), de[a] < de[h]))),
        Implies(And(an(T, a, v), de[a] < de[h]), pa[h] >= 0)))(hd[v]))(*T)),
    lambda ih, w, T, n, a, v: (lambda vi, hd, od, pa, de: (lambda h: (lambda c, D: [w(up_chain, n, v, c), w(up_chain, n, v, vi[v] - vi[a]), w(up_chain, n, v, D), ad(T, a, v), ad(T, a, pa[h]), up_def(pa, h, de[h] - de[a]), up_def(pa, h, D - c), od[vi[h]] == od[vi[h]], od[vi[a]] == od[vi[a]], up_add_(pa, v, c, D - c, w), w(up_dep, n, v, D), de[a] == de[a], vi[h] == vi[h]])(vi[v] - vi[h], de[v] - de[a]))(hd[v]))(*T))
LC = UF('lowest_common_ancestor', AI, AI, Int, Int, Int)
@definition
def lc_def(P, D, u, v, a): return (lambda l: Implies(And(anc(P, D, a, u), anc(P, D, a, v)), And(anc(P, D, l, u), anc(P, D, l, v), D[a] <= D[l])))(LC(P, D, u, v))
def T_(s, o): return tuple(s.e(o + '.' + f) for f in ('visit', 'head', 'ord', 'par', 'dep'))
def wf(s, o):
    n = s(o + '.n'); return [('shape', And(1 <= n, n <= MAXN, *[s.n(o + '.' + f) == n for f in ('visit', 'head', 'ord', 'par', 'dep')])), ('decomposed forest', nodes(T_(s, o), n))]
RT = z3.Int('ghost_root')
def same_tree(s, o, u, v): T = T_(s, o); return And(an(T, RT, u), an(T, RT, v), 0 <= u, u < s(o + '.n'), 0 <= v, v < s(o + '.n'))
def lcaf(T, u, v): return LC(T[3], T[4], u, v)
# ---- lca
def orient(T, u, v, u0, v0): return Or(And(an(T, u, u0), an(T, v, v0)), And(an(T, u, v0), an(T, v, u0)))
def lca_inv(o):
    def f(s):
        T, n, u, v, u0, v0 = T_(s, o), s(o + '.n'), s.v('u'), s.v('v'), s.old('u'), s.old('v'); l = lcaf(T, u0, v0)
        return [('range', And(0 <= u, u < n, 0 <= v, v < n)), ('above the arguments', orient(T, u, v, u0, v0)), ('still below the answer', And(an(T, l, u), an(T, l, v)))]
    return f
def lca_use(o, extra=None):
    def f(s):
        T, n, u, v, u0, v0 = T_(s, o), s(o + '.n'), s.v('u'), s.v('v'), s.old('u'), s.old('v'); l = lcaf(T, u0, v0)
        if s.prev is None:
            s.lemma(anc_refl, *T, n, u0); s.lemma(anc_refl, *T, n, v0); s.assume_def(lc_def(T[3], T[4], u0, v0, RT)); return
        U, W = s.prev.v('u'), s.prev.v('v')
        for a, b in ((U, W), (W, U)):
            h = T[1][b]; s.lemma(chain_up, *T, n, l, b); s.lemma(chain_up, *T, n, a, b); s.lemma(chain_up, *T, n, T[3][h], b); s.lemma(anc_facts, *T, n, l, a); s.lemma(anc_facts, *T, n, l, b)
            s.lemma(anc_refl, *T, n, T[3][h])
            for x in (u0, v0): s.lemma(anc_trans, *T, n, T[3][h], b, x)
    return f
def lca_end(o):
    def f(s):
        T, n, u0, v0 = T_(s, o), s(o + '.n'), s.old('u'), s.old('v'); r = s.res; l = lcaf(T, u0, v0)
        for w in (s.v('u'), s.v('v')):
            s.lemma(chain_up, *T, n, r, w); s.lemma(anc_facts, *T, n, l, w)
            for x in (u0, v0): s.lemma(anc_trans, *T, n, r, w, x)
        s.assume_def(lc_def(T[3], T[4], u0, v0, r)); s.assume_def(ad(T, l, u0)); s.assume_def(ad(T, r, u0))
    return f
def lca_ens(o): return lambda s: (lambda T: [('a common ancestor', And(0 <= s.res, s.res < s(o + '.n'), an(T, s.res, s.old('u')), an(T, s.res, s.old('v')))), ('the lowest one', s.res == lcaf(T, s.old('u'), s.old('v')))])(T_(s, o))
def lca_dec(s): T = T_(s, 'this'); return T[0][s.v('u')] + T[0][s.v('v')]
C_lca = FnSpec('HeavyLightDecomposition::lca', match=r'HeavyLightDecomposition::lca\(int, int\)', requires=lambda s: wf(s, 'this') + [same_tree(s, 'this', s('u'), s('v'))], ensures=lca_ens('this'), loops=[LoopSpec(lca_inv('this'), dec=lca_dec, use=lca_use('this'))], use=lca_end('this'))
# ---- level ancestor
def la_inv(s):
    T, n, u, k = T_(s, 'this'), s('this.n'), s.v('u'), s.v('k')
    return [('range', And(-1 <= u, u < n, k >= 0, k <= s.old('k'))), ('same target', up(T[3], u, k) == up(T[3], s.old('u'), s.old('k')))]
def la_use(s):
    T, n = T_(s, 'this'), s('this.n'); u, k = s.v('u'), s.v('k')
    if s.prev is None: return
    U, K = s.prev.v('u'), s.prev.v('k'); h = T[1][U]; c = T[0][U] - T[0][h]; s.lemma(up_chain, *T, n, U, c); s.lemma(up_add, T[3], U, c, K - c); s.assume_def(up_def(T[3], h, K - c)); s.have('head', T[2][T[0][h]] == h)
def la_val(T, u, k, d): return If(And(k >= 0, k <= T[4][u]), up(T[3], u, k), d)
def la_end(s):
    T, n = T_(s, 'this'), s('this.n'); s.lemma(up_dep, *T, n, s.old('u'), s.old('k'))
    u, k = s.v('u'), s.v('k'); s.assume_def(up_def(T[3], u, k)); s.lemma(up_chain, *T, n, u, k)
C_la = FnSpec('HeavyLightDecomposition::la', match=r'HeavyLightDecomposition::la\(int, int, int\)', requires=lambda s: wf(s, 'this') + [And(0 <= s('u'), s('u') < s('this.n'))],
    ensures=lambda s: [('the k-th ancestor, or the default', s.res == la_val(T_(s, 'this'), s.old('u'), s.old('k'), s('default_value')))], loops=[LoopSpec(la_inv, dec=lambda s: If(s.v('u') < 0, 0, 1 + T_(s, 'this')[0][s.v('u')]), use=la_use)], use=la_end)
# ---- wrappers
lca = FnSpec('hld_lca', requires=lambda s: wf(s, 'h') + [same_tree(s, 'h', s('u'), s('v'))], ensures=lca_ens('h'))
la = FnSpec('hld_la', requires=lambda s: wf(s, 'h') + [And(0 <= s('u'), s('u') < s('h.n'))], ensures=lambda s: [('the k-th ancestor, or the default', s.res == la_val(T_(s, 'h'), s('u'), s('k'), s('d')))])
def dl(s): T = T_(s, 'h'); return T, s('u'), s('v'), lcaf(T, s('u'), s('v'))
def lf(s):
    T, u, v, l = dl(s); s.lemma(anc_facts, *T, s('h.n'), l, u); s.lemma(anc_facts, *T, s('h.n'), l, v)
dist = FnSpec('hld_dist', requires=lambda s: wf(s, 'h') + [same_tree(s, 'h', s('u'), s('v'))], ensures=lambda s: (lambda T, u, v, l: [('path length', s.res == T[4][u] + T[4][v] - 2 * T[4][l])])(*dl(s)), pre=lambda s: (lambda T, u, v, l: s.assume_def(lc_def(T[3], T[4], u, v, RT)))(*dl(s)) or lf(s), use=lf)
def jens(s):
    T, u, v, l = dl(s); D = T[4]; d = s('d'); a, b = D[u] - D[l], D[v] - D[l]
    return [('d-th vertex of the path', s.res == If(Or(d < 0, d > a + b), s('dv'), If(d <= a, up(T[3], u, d), up(T[3], v, a + b - d))))]
jump = FnSpec('hld_jump', requires=lambda s: wf(s, 'h') + [same_tree(s, 'h', s('u'), s('v'))], ensures=jens, use=lf)
# ---- update_path: the callback is invoked on ranges that cover every vertex of the path exactly once
X = z3.Int('ghost_vertex')
def marked(s, i): return [('marked', And(s.n('c') == s.old.n('c'), forall(1, lambda t: s.e('c')[t] == s.old.e('c')[t] + If(And(s('l') <= t, t < i), 1, 0), pat=lambda t: s.e('c')[t])))]
C_cover = FnSpec('cover_range', loops=[LoopSpec(lambda s: marked(s, s.v('i')) + [And(s('l') <= s.v('i'), s.v('i') <= s('r'))], dec=lambda s: s('r') - s.v('i'))], requires=lambda s: And(0 <= s('l'), s('l') <= s('r'), s('r') <= s.n('c'), forall(1, lambda t: Implies(And(0 <= t, t < s.n('c')), s.e('c')[t] < MAXI), pat=lambda t: s.e('c')[t])), ensures=lambda s: marked(s, s('r')), modifies=lambda s: ['c'])
def on(T, l, u, v): return And(Or(an(T, X, u), an(T, X, v)), T[4][X] >= T[4][l])
def pinv(s):
    T, n, u, v, u0, v0 = T_(s, 'h'), s('h.n'), s.v('u'), s.v('v'), s.old('u'), s.old('v'); l = lcaf(T, u0, v0)
    return lca_inv('h')(s) + [('size', s.n('c') == n), ('small counts', forall(1, lambda t: Implies(And(0 <= t, t < n), s.e('c')[t] <= 2 * n - T[0][u] - T[0][v]), pat=lambda t: s.e('c')[t])), ('path', Implies(on(T, l, u, v), on(T, l, u0, v0))), ('count', s.e('c')[T[0][X]] == s.old.e('c')[T[0][X]] + If(And(on(T, l, u0, v0), Not(on(T, l, u, v))), 1, 0))]
def puse(s):
    lca_use('h')(s); T, n = T_(s, 'h'), s('h.n')
    if s.prev is None: return
    U, W = s.prev.v('u'), s.prev.v('v'); l = lcaf(T, s.old('u'), s.old('v'))
    for a, b in ((U, W), (W, U)): s.lemma(chain_up, *T, n, X, b); s.lemma(anc_facts, *T, n, X, a); s.lemma(anc_facts, *T, n, l, T[3][T[1][b]])
def pend(s):
    T, n, u0, v0 = T_(s, 'h'), s('h.n'), s.old('u'), s.old('v'); l = lcaf(T, u0, v0); u, v = s.v('u'), s.v('v')
    for w, x in ((u, v), (v, u)):
        s.lemma(chain_up, *T, n, X, w); s.lemma(chain_up, *T, n, x, w); s.lemma(chain_up, *T, n, l, w); s.lemma(anc_facts, *T, n, l, w); s.lemma(anc_facts, *T, n, X, w)
        for y in (u0, v0): s.lemma(anc_trans, *T, n, w, w, y); s.lemma(anc_trans, *T, n, w, x, y)
    for w in (u, v): s.assume_def(lc_def(T[3], T[4], u0, v0, w)); s.assume_def(ad(T, w, u0))
    s.assume_def(ad(T, l, u0)); s.lemma(chain_up, *T, n, l, X); s.assume_def(ad(T, X, u)); s.assume_def(ad(T, X, v)); s.assume_def(ad(T, u, u)); s.assume_def(up_def(T[3], u, V(0))); s.assume_def(up_def(T[3], v, V(0)))
def pens(s):
    T, l = T_(s, 'h'), lcaf(T_(s, 'h'), s.old('u'), s.old('v')); c, c0 = s.e('c'), s.old.e('c')
    return [('every vertex (or edge) of the path once, no other', c[T[0][X]] == c0[T[0][X]] + If(And(on(T, l, s.old('u'), s.old('v')), Not(And(s('edge'), X == l))), 1, 0))]
path = FnSpec('hld_update_path', requires=lambda s: wf(s, 'h') + [same_tree(s, 'h', s('u'), s('v')), And(0 <= X, X < s('h.n'), s.n('c') == s('h.n')), forall(1, lambda t: s.e('c')[t] == 0, pat=lambda t: s.e('c')[t])], ensures=pens, loops=[LoopSpec(pinv, dec=lambda s: T_(s, 'h')[0][s.v('u')] + T_(s, 'h')[0][s.v('v')], use=puse)], use=pend, modifies=lambda s: ['c'])
specs = [C_cover, C_lca, C_la, lca, la, dist, jump, path]
unit = Unit('tree', specs, contracts=[C_lca, C_la, C_cover], keep=[r'cover_range', r'HeavyLightDecomposition::(lca|la)\('])
