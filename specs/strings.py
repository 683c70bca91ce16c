from irv.spec import *
from irv.unit import Unit
AI = Arr()
V = z3.IntVal
MAXS = 1 << 29
isB = UF('is_border', AI, Int, Int, z3.BoolSort())
@definition
def isB_def(S, i, b): return isB(S, i, b) == And(0 <= b, b < i, forall(1, lambda k: Implies(And(0 <= k, k < b), S[k] == S[i - b + k]), pat=lambda k: S[k]))
# longest proper border
def best(S, i, m): return And(isB(S, i, m), forall(1, lambda b: Implies(And(m < b, b < i), Not(isB(S, i, b))), pat=lambda b: isB(S, i, b)))
ext = Lemma('border_extend', [AI, Int, Int], lambda S, i, b: Implies(And(i >= 1, b >= 1), isB(S, i + 1, b) == And(isB(S, i, b - 1), S[b - 1] == S[i])), proof=lambda ih, u, S, i, b: [isB_def(S, i + 1, b), isB_def(S, i, b - 1)])
nest = Lemma('border_of_border', [AI, Int, Int, Int], lambda S, i, b, c: Implies(And(isB(S, i, b), isB(S, i, c), c < b), isB(S, b, c)), proof=lambda ih, u, S, i, b, c: [isB_def(S, i, b), isB_def(S, i, c), isB_def(S, b, c)])
comp = Lemma('border_compose', [AI, Int, Int, Int], lambda S, i, b, c: Implies(And(isB(S, i, b), isB(S, b, c)), isB(S, i, c)), proof=lambda ih, u, S, i, b, c: [isB_def(S, i, b), isB_def(S, i, c), isB_def(S, b, c)])
zero = Lemma('empty_border', [AI, Int], lambda S, i: Implies(i >= 1, isB(S, i, V(0))), proof=lambda ih, u, S, i: [isB_def(S, i, V(0))])
bnd = Lemma('border_range', [AI, Int, Int], lambda S, i, b: Implies(isB(S, i, b), And(0 <= b, b < i)), proof=lambda ih, u, S, i, b: [isB_def(S, i, b)])
def table(S, M, upto): return [('first', M[0] == -1), ('borders', forall(1, lambda k: Implies(And(1 <= k, k <= upto), best(S, k, M[k])), pat=lambda k: M[k]))]
def build_loops(sv, mv):
    def oinv(s):
        i, j, n, S, M = s.v('i'), s.v('j'), s.n(sv), s.e(sv), s.e(mv)
        return [('range', And(0 <= i, i <= n, s.n(mv) == n + 1)), ('current', j == M[i])] + table(S, M, i)
    def ouse(s):
        S = s.e(sv)
        if s.prev is None: return
        i, j, M = s.prev.v('i'), s.v('j') , s.e(mv)
        s.lemma_all(ext, forall(1, lambda b: ext.inst(S, i, b), pat=lambda b: isB(S, i + 1, b))); s.lemma_all(bnd, forall(2, lambda k, b: bnd.inst(S, k, b), pat=lambda k, b: isB(S, k, b))); s.lemma(zero, S, i + 1); s.lemma(ext, S, i, j)
    def iinv(s):
        i, j, n, S, M = s.v('i'), s.v('j'), s.n(sv), s.e(sv), s.e(mv)
        return [('range', And(-1 <= j, j < i)), ('a border', Implies(j >= 0, isB(S, i, j))), ('longer borders do not extend', forall(1, lambda b: Implies(And(j < b, b < i, isB(S, i, b)), S[b] != S[i]), pat=lambda b: isB(S, i, b)))]
    def iuse(s):
        i, S, M = s.v('i'), s.e(sv), s.e(mv); s.lemma_all(bnd, forall(2, lambda k, b: bnd.inst(S, k, b), pat=lambda k, b: isB(S, k, b)))
        if s.prev is None: s.assume_def(isB_def(S, i, s.v('j'))); return
        j = s.prev.v('j'); s.lemma_all(nest, forall(1, lambda c: nest.inst(S, i, j, c), pat=lambda c: isB(S, i, c))); s.lemma(comp, S, i, j, M[j])
    return [LoopSpec(oinv, dec=lambda s: s.n(sv) - s.v('i'), use=ouse), LoopSpec(iinv, dec=lambda s: s.v('j') + 1, use=iuse)]
mpb = FnSpec('mp_build', requires=lambda s: s.n('s') <= MAXS, ensures=lambda s: [('length', s.n('out') == s.n('s') + 1)] + table(s.e('s'), s.e('out'), s.n('s')), loops=build_loops('s', 'out'), modifies=lambda s: ['out'])
# ------------------------------------------------------------ matching
pm = UF('prefix_matches', AI, AI, Int, Int, z3.BoolSort())
@definition
def pm_def(S, T, i, b): return pm(S, T, i, b) == And(0 <= b, b <= i, forall(1, lambda k: Implies(And(0 <= k, k < b), S[k] == T[i - b + k]), pat=lambda k: S[k]))
oc = UF('occurrences', AI, AI, Int, Int, Int)
@definition
def oc_def(S, T, n, i): return oc(S, T, n, i) == If(i <= 0, 0, oc(S, T, n, i - 1) + If(pm(S, T, i, n), 1, 0))
pext = Lemma('match_extend', [AI, AI, Int, Int], lambda S, T, i, b: Implies(And(i >= 0, b >= 1), pm(S, T, i + 1, b) == And(pm(S, T, i, b - 1), S[b - 1] == T[i])), proof=lambda ih, u, S, T, i, b: [pm_def(S, T, i + 1, b), pm_def(S, T, i, b - 1)])
pnest = Lemma('border_of_match', [AI, AI, Int, Int, Int], lambda S, T, i, b, c: Implies(And(pm(S, T, i, b), pm(S, T, i, c), c < b), isB(S, b, c)), proof=lambda ih, u, S, T, i, b, c: [pm_def(S, T, i, b), pm_def(S, T, i, c), isB_def(S, b, c)])
pcomp = Lemma('match_compose', [AI, AI, Int, Int, Int], lambda S, T, i, b, c: Implies(And(pm(S, T, i, b), isB(S, b, c)), pm(S, T, i, c)), proof=lambda ih, u, S, T, i, b, c: [pm_def(S, T, i, b), pm_def(S, T, i, c), isB_def(S, b, c)])
pbnd = Lemma('match_range', [AI, AI, Int, Int], lambda S, T, i, b: And(Implies(pm(S, T, i, b), And(0 <= b, b <= i)), Implies(i >= 0, pm(S, T, i, V(0)))), proof=lambda ih, u, S, T, i, b: [pm_def(S, T, i, b), pm_def(S, T, i, V(0))])
def listing(s, i):
    S, T, n, r, R = s.e('m.s'), s.e('t'), s.n('m.s'), s.n('out'), s.e('out')
    return [('number of occurrences', r == oc(S, T, n, i)), ('each in its place', forall(1, lambda x: Implies(And(0 <= x, x < r), And(0 <= R[x], R[x] + n <= i, pm(S, T, R[x] + n, n), oc(S, T, n, R[x] + n) == x + 1)), pat=lambda x: R[x]))]
def minv(s):
    i, j, S, T, n = s.v('i'), s.v('j'), s.e('m.s'), s.e('t'), s.n('m.s')
    return [('range', And(0 <= i, i <= s.n('t'), 0 <= j, j < n)), ('matched', pm(S, T, i, j)), ('longest', forall(1, lambda b: Implies(And(j < b, b < n), Not(pm(S, T, i, b))), pat=lambda b: pm(S, T, i, b)))] + listing(s, i)
def muse(s):
    S, T, n, M = s.e('m.s'), s.e('t'), s.n('m.s'), s.e('m.mp'); s.assume_def(pm_def(S, T, V(0), V(0))); s.assume_def(oc_def(S, T, n, V(0)))
    s.lemma_all(pbnd, forall(2, lambda k, b: pbnd.inst(S, T, k, b), pat=lambda k, b: pm(S, T, k, b)))
    if s.prev is None: return
    i = s.prev.v('i'); s.lemma_all(pext, forall(1, lambda b: pext.inst(S, T, i, b), pat=lambda b: pm(S, T, i + 1, b))); s.assume_def(oc_def(S, T, n, i + 1)); s.lemma(pbnd, S, T, i + 1, V(0)); s.lemma(pext, S, T, i, n)
    s.lemma(pext, S, T, i, s.v('j'))
    s.lemma_all(pnest, forall(1, lambda c: pnest.inst(S, T, i + 1, n, c), pat=lambda c: pm(S, T, i + 1, c))); s.lemma(pcomp, S, T, i + 1, n, M[n]); s.lemma_all(bnd, forall(2, lambda k, b: bnd.inst(S, k, b), pat=lambda k, b: isB(S, k, b)))
def miinv(s):
    i, j, S, T, n = s.v('i'), s.v('j'), s.e('m.s'), s.e('t'), s.n('m.s')
    return [('range', And(-1 <= j, j < n)), ('matched', Implies(j >= 0, pm(S, T, i, j))), ('longer matches do not extend', forall(1, lambda b: Implies(And(j < b, b < n, pm(S, T, i, b)), S[b] != T[i]), pat=lambda b: pm(S, T, i, b)))]
def miuse(s):
    S, T, n, M = s.e('m.s'), s.e('t'), s.n('m.s'), s.e('m.mp'); i = s.v('i'); s.lemma_all(pbnd, forall(2, lambda k, b: pbnd.inst(S, T, k, b), pat=lambda k, b: pm(S, T, k, b))); s.lemma_all(bnd, forall(2, lambda k, b: bnd.inst(S, k, b), pat=lambda k, b: isB(S, k, b)))
    if s.prev is None: return
    j = s.prev.v('j'); s.lemma_all(pnest, forall(1, lambda c: pnest.inst(S, T, i, j, c), pat=lambda c: pm(S, T, i, c))); s.lemma(pcomp, S, T, i, j, M[j])
mok = lambda s: And(s.n('m.s') >= 1, s.n('m.s') <= MAXS, s.n('m.mp') == s.n('m.s') + 1, *[f for _, f in table(s.e('m.s'), s.e('m.mp'), s.n('m.s'))])
match = FnSpec('mp_match', requires=lambda s: And(mok(s), s.n('t') <= MAXS), ensures=lambda s: listing(s, s.n('t')), loops=[LoopSpec(minv, dec=lambda s: s.n('t') - s.v('i'), use=muse), LoopSpec(miinv, dec=lambda s: s.v('j') + 1, use=miuse)], modifies=lambda s: ['out'])
ctor = FnSpec('mp_ctor', requires=lambda s: s.n('s') <= MAXS, ensures=lambda s: [('pattern', And(s.n('out.s') == s.n('s'), forall(1, lambda k: Implies(And(0 <= k, k < s.n('s')), s.e('out.s')[k] == s.e('s')[k]), pat=lambda k: s.e('out.s')[k]))), ('length', s.n('out.mp') == s.n('s') + 1)] + table(s.e('s'), s.e('out.mp'), s.n('s')), loops=build_loops('s', 'out.mp'), modifies=lambda s: ['out'])
# ------------------------------------------------------------ palindromes
IL = UF('interleaved', AI, Int, AI)
@definition
def IL_def(S, d): return forall(1, lambda x: IL(S, d)[x] == If(x % 2 == 0, d, S[x / 2]), pat=lambda x: IL(S, d)[x])
sym = UF('symmetric', AI, Int, Int, z3.BoolSort())
wit = UF('asymmetry_witness', AI, Int, Int, Int)
@definition
def sym_intro(A, c, r): return (lambda w: Or(sym(A, c, r), And(0 <= w, w < r, A[c - w] != A[c + w])))(wit(A, c, r))
@definition
def sym_elim(A, c, r, t): return Implies(And(sym(A, c, r), 0 <= t, t < r), A[c - t] == A[c + t])
mx = UF('maximal_radius', AI, Int, Int, Int, z3.BoolSort())
@definition
def mx_def(A, z, c, r): return mx(A, z, c, r) == And(r >= 1, c - r + 1 >= 0, c + r - 1 < z, sym(A, c, r), Or(c - r < 0, c + r >= z, A[c - r] != A[c + r]))
sel = Lemma('symmetric_at', [AI, Int, Int, Int], lambda A, c, r, t: Implies(And(sym(A, c, r), -r < t, t < r), A[c - t] == A[c + t]), proof=lambda ih, u, A, c, r, t: [sym_elim(A, c, r, t), sym_elim(A, c, r, -t)])
grow = Lemma('symmetric_grow', [AI, Int, Int], lambda A, c, r: And(Implies(r <= 0, sym(A, c, r)), Implies(And(r >= 0, sym(A, c, r), A[c - r] == A[c + r]), sym(A, c, r + 1))), proof=lambda ih, u, A, c, r: [sym_intro(A, c, r), sym_intro(A, c, r + 1), sym_elim(A, c, r, wit(A, c, r + 1))])
msym = Lemma('mirror_symmetric', [AI, Int, Int, Int, Int, Int], lambda A, i, j, k, r, q: Implies(And(sym(A, i, j), 1 <= k, sym(A, i - k, r), q <= r, k + q <= j), sym(A, i + k, q)),
    proof=lambda ih, u, A, i, j, k, r, q: (lambda w: [sym_intro(A, i + k, q), u(sel, A, i - k, r, w), u(sel, A, i, j, k + w), u(sel, A, i, j, k - w)])(wit(A, i + k, q)))
mmax = Lemma('mirror_maximal', [AI, Int, Int, Int, Int, Int], lambda A, z, i, j, k, r: Implies(And(sym(A, i, j), 0 <= j, j <= i + 1, i + j <= z, 1 <= k, mx(A, z, i - k, r), k + r < j), mx(A, z, i + k, r)),
    proof=lambda ih, u, A, z, i, j, k, r: [mx_def(A, z, i - k, r), mx_def(A, z, i + k, r), u(msym, A, i, j, k, r, r), u(sel, A, i, j, k + r), u(sel, A, i, j, k - r)])
def il(s): return IL(s.e('s'), s('d'))
def same(s): return And(s.n('v') == 2 * s.n('s') + 1, s.n('out._r') == s.n('v'), forall(1, lambda x: Implies(And(0 <= x, x < s.n('v')), s.e('v')[x] == il(s)[x]), pat=lambda x: s.e('v')[x]))
def radii(s, hi, add=0): return forall(1, lambda c: Implies(And(0 <= c, c < hi), mx(il(s), s.n('v'), c, s.e('out._r')[c] + add)), pat=lambda c: s.e('out._r')[c])
def finv(s):
    i = s.v('__begin0' if False else FB)
    return [('range', And(0 <= i, i <= s.n('s'))), ('interleaved', And(s.n('v') == 2 * i + 1, s.n('out._r') == 2 * s.n('s') + 1, forall(1, lambda x: Implies(And(0 <= x, x < s.n('v')), s.e('v')[x] == il(s)[x]), pat=lambda x: s.e('v')[x])))]
FB = '__begin0'
fill = LoopSpec(finv, dec=lambda s: s.n('s') - s.v(FB), use=lambda s: s.assume_def(IL_def(s.e('s'), s('d'))))
def binv(s):
    i, j, z = s.v('i'), s.v('j'), s.n('v')
    return [('range', And(0 <= i, 0 <= j, j <= i + 1, i + j <= z)), ('text', same(s)), ('radius so far', sym(il(s), i, j)), ('radii', radii(s, i))]
def buse(s):
    A = il(s); s.lemma(grow, A, V(0), V(0))
    if s.prev is None: return
    i = s.prev.v('i'); k = s.v('i') - i; j = s.v('j') + k; r = s.prev.e('out._r')
    s.lemma(msym, A, i, j, k, s.e('out._r')[i - k], j - k); s.lemma(grow, A, i + k, j - k); s.assume_def(mx_def(A, s.n('v'), i - k, s.e('out._r')[i - k])); s.assume_def(mx_def(A, s.n('v'), i, j))
build = LoopSpec(binv, dec=lambda s: s.n('v') - s.v('i'), use=buse)
def einv(s):
    i, j, z = s.v('i'), s.v('j'), s.n('v')
    return [('range', And(0 <= j, j <= i + 1, i + j <= z)), ('radius so far', sym(il(s), i, j))]
def euse(s):
    if s.prev is not None: s.lemma(grow, il(s), s.v('i'), s.prev.v('j'))
expand = LoopSpec(einv, dec=lambda s: s.n('v') - s.v('i') - s.v('j'), use=euse)
def cinv(s):
    i, j, k, z = s.v('i'), s.v('j'), s.v('k'), s.n('v')
    return [('range', And(1 <= k, k <= j, 0 <= i, j <= i + 1, i + j <= z)), ('text', same(s)), ('radius', And(sym(il(s), i, j), mx(il(s), z, i, j))), ('radii', radii(s, i + k))]
def cuse(s):
    A, z, i, j = il(s), s.n('v'), s.v('i'), s.v('j'); s.assume_def(mx_def(A, z, i, j))
    if s.prev is None: return
    k = s.prev.v('k'); r = s.prev.e('out._r')[i - k]; s.lemma(mmax, A, z, i, j, k, r); s.assume_def(mx_def(A, z, i - k, r))
copy = LoopSpec(cinv, dec=lambda s: s.v('j') - s.v('k'), use=cuse, head=lambda s: s.assume_def(mx_def(il(s), s.n('v'), s.v('i') - s.v('k'), s.e('out._r')[s.v('i') - s.v('k')])))
def dinv(s):
    x = s.v(DB)
    return [('range', And(0 <= x, x <= s.n('out._r'))), ('text', same(s)), ('radii', forall(1, lambda c: Implies(And(0 <= c, c < s.n('v')), mx(il(s), s.n('v'), c, s.e('out._r')[c] + If(c < x, 1, 0))), pat=lambda c: s.e('out._r')[c]))]
DB = '__begin2'
decr = LoopSpec(dinv, dec=lambda s: s.n('out._r') - s.v(DB), head=lambda s: s.assume_def(mx_def(il(s), s.n('v'), s.v(DB), s.e('out._r')[s.v(DB)])))
mn = FnSpec('mn_ctor', requires=lambda s: s.n('s') <= MAXS, ensures=lambda s: [('length', And(s.n('out._r') == 2 * s.n('s') + 1, s('out._n') == s.n('s'))), ('maximal palindrome at every centre', forall(1, lambda c: Implies(And(0 <= c, c < 2 * s.n('s') + 1), mx(il(s), 2 * s.n('s') + 1, c, s.e('out._r')[c] + 1)), pat=lambda c: s.e('out._r')[c]))],
    loops=[fill, build, decr, expand, copy], modifies=lambda s: ['out'])
# ------------------------------------------------------------ periods
def plisting(s, r):
    n, S, c, R = s.n('s'), s.e('s'), s.n('out'), s.e('out'); good = lambda b: And(isB(S, n, b), Or(s('frag'), n % (n - b) == 0))
    return [('periods', forall(1, lambda x: Implies(And(0 <= x, x < c), And(good(n - R[x]), n - R[x] >= r)), pat=lambda x: R[x])), ('ascending', forall(2, lambda x, y: Implies(And(0 <= x, x < y, y < c), R[x] < R[y]), pat=lambda x, y: [(R[x], R[y])])),
        ('none above the first', forall(1, lambda b: Implies(And(good(b), b >= r), And(c >= 1, b <= n - R[0])), pat=lambda b: isB(S, n, b))), ('none below the last', forall(1, lambda b: Implies(And(good(b), b >= r), b >= n - R[c - 1]), pat=lambda b: isB(S, n, b))),
        ('none between', forall(2, lambda x, b: Implies(And(0 <= x, x + 1 < c, good(b)), Or(b >= n - R[x], b <= n - R[x + 1])), pat=lambda x, b: [(R[x], isB(S, n, b))]))]
def pinv(s):
    n, S, r = s.n('s'), s.e('s'), s.v('r')
    return [('range', And(0 <= r, r <= n, s.n('mp') == n + 1)), ('chain', Or(r == n, isB(S, n, r)))] + table(S, s.e('mp'), n) + plisting(s, r)
def puse(s):
    n, S = s.n('s'), s.e('s'); s.lemma_all(bnd, forall(2, lambda k, b: bnd.inst(S, k, b), pat=lambda k, b: isB(S, k, b)))
    if s.prev is None: return
    r, M = s.prev.v('r'), s.e('mp'); s.lemma_all(nest, forall(1, lambda c: nest.inst(S, n, r, c), pat=lambda c: isB(S, n, c))); s.lemma(comp, S, n, r, M[r])
def phead(s):
    n, S, r, M = s.n('s'), s.e('s'), s.v('r'), s.e('mp'); s.lemma_all(bnd, forall(2, lambda k, b: bnd.inst(S, k, b), pat=lambda k, b: isB(S, k, b)))
per = FnSpec('mp_periods', requires=lambda s: s.n('s') <= MAXS, ensures=lambda s: plisting(s, V(0)), loops=(lambda b: [b[0], LoopSpec(pinv, dec=lambda s: s.v('r'), use=puse, head=phead), b[1]])(build_loops('s', 'mp')), modifies=lambda s: ['out'])
acc = lambda nm, o: FnSpec(nm, requires=lambda s: And(0 <= s('i'), s('i') < MAXS, 2 * s('i') + o < s.n('m._r')), ensures=lambda s: [('stored length', s.res == s.e('m._r')[2 * s('i') + o])])
specs = [mpb, ctor, match, per, mn, acc('mn_odd', 1), acc('mn_even', 0)]
unit = Unit('strings', specs, contracts=[])
