from irv.spec import *
from irv.unit import Unit
from specs.lazyseg import *
from specs.segtree import tree, span, lb_pow2, pred
from specs.lazyseg import NA_ as A, V, odd, odd_def, stradd, und_par
from specs.nt import divu
from specs.sparse import p2_def, p2_pos, p2_mono
mp, act, clean = A.map, A.act, A.clean
distr = definition(lambda f, x, y: mp(f, op(x, y)) == op(mp(f, x), mp(f, y)))
wv = UF('lazy_values', AF, AT, AT)
@definition
def wv_def(Z, D, p): return wv(Z, D)[p] == act(Z, p / 2, D[p])
node = lambda Z, D, p: D[p] == mp(Z[p], op(D[2 * p], D[2 * p + 1]))
def nodes(Z, D, m, ex=lambda p: z3.BoolVal(False), pat=None): return forall(1, lambda p: Implies(And(1 <= p, p < m, Not(ex(p))), node(Z, D, p)), pat=pat or (lambda p: Z[p]))
act_distr = Lemma('act_distributes', [AF, Int, T, T], lambda Z, q, x, y: act(Z, q, op(x, y)) == op(act(Z, q, x), act(Z, q, y)),
    proof=lambda ih, u, Z, q, x, y: [A.defn(Z, q, x), A.defn(Z, q, y), A.defn(Z, q, op(x, y)), distr(Z[q], x, y), ih(Z, q / 2, mp(Z[q], x), mp(Z[q], y))], measure=lambda Z, q, x, y: If(q > 0, q, 0))
# the values a user sees form an ordinary segment tree
wtree = Lemma('values_tree', [AF, AT, Int], lambda Z, D, p: Implies(And(p >= 1, node(Z, D, p)), wv(Z, D)[p] == op(wv(Z, D)[2 * p], wv(Z, D)[2 * p + 1])),
    proof=lambda ih, u, Z, D, p: [wv_def(Z, D, p), wv_def(Z, D, 2 * p), wv_def(Z, D, 2 * p + 1), A.defn(Z, p, op(D[2 * p], D[2 * p + 1])), u(act_distr, Z, p, D[2 * p], D[2 * p + 1])])
PZ = lambda Z, k, m: If(2 * k < m, z3.Store(z3.Store(z3.Store(Z, 2 * k, comp(Z[k], Z[2 * k])), 2 * k + 1, comp(Z[k], Z[2 * k + 1])), k, ID), z3.Store(Z, k, ID))
PD = lambda Z, D, k: z3.Store(z3.Store(D, 2 * k, mp(Z[k], D[2 * k])), 2 * k + 1, mp(Z[k], D[2 * k + 1]))
ps = And
w_push = Lemma('push_keeps_values', [AF, AT, Int, Int, Int], lambda Z, D, m, k, p: Implies(And(1 <= k, k < m, ispow2(m), p < 2 * m), wv(PZ(Z, k, m), PD(Z, D, k))[p] == wv(Z, D)[p]),
    proof=lambda ih, u, Z, D, m, k, p: (lambda q, y: [wv_def(Z, D, p), wv_def(PZ(Z, k, m), PD(Z, D, k), p), u(A.act_push, Z, k, q, y), u(A.act_not, Z, k, ID, q, y), und_def(k, q), und_def(k, q / 2), u(und_le, k, q / 2), ispow2_def(m),
        A.defn(PZ(Z, k, m), k, mp(Z[k], y)), A.defn(Z, k, y), A.ident(mp(Z[k], y)), u(A.act_not, Z, k, ID, k / 2, mp(Z[k], y)), und_def(k, k / 2), u(und_le, k, k / 2), u(A.act_push, Z, k, k, y)])(p / 2, D[p]))
n_push = Lemma('push_keeps_nodes', [AF, AT, Int, Int, Int], lambda Z, D, m, k, p: Implies(And(1 <= k, k < m, ispow2(m), 1 <= p, p < m, node(Z, D, p), node(Z, D, k)), node(PZ(Z, k, m), PD(Z, D, k), p)),
    proof=lambda ih, u, Z, D, m, k, p: [ispow2_def(m), A.ident(op(mp(Z[k], D[2 * k]), mp(Z[k], D[2 * k + 1]))), distr(Z[k], D[2 * k], D[2 * k + 1]), A.hom(Z[k], Z[p], op(D[2 * p], D[2 * p + 1]))])
c_push = Lemma('push_keeps_clean', [AF, Int, Int, Int], lambda Z, m, k, q: Implies(And(1 <= k, k < m, clean(Z, q)), clean(PZ(Z, k, m), q)),
    proof=lambda ih, u, Z, m, k, q: [A.clean_def(Z, q), A.clean_def(PZ(Z, k, m), q), ih(Z, m, k, q / 2), A.clean_def(Z, q / 2), A.cid(Z[q])], measure=lambda Z, m, k, q: If(q > 0, q, 0))
def wfl(s, o='this', nd=True):
    n, m, lg = s(o + '.n'), s(o + '.m'), s(o + '.lg')
    r = [('size', And(0 <= n, n <= m, 1 <= m, m <= MAXN, 0 <= lg, lg <= 29, m == pow2(lg), s.n(o + '.data') == 2 * m, s.n(o + '.lazy') == m)), ('pow2', ispow2(m))]
    if nd: r.append(('nodes', nodes(s.e(o + '.lazy'), s.e(o + '.data'), m)))
    return r
W = lambda s, o='this': wv(s.e(o + '.lazy'), s.e(o + '.data'))
fr = lambda s, o='this': ('frame', And(s(o + '.n') == s.old(o + '.n'), s(o + '.m') == s.old(o + '.m'), s(o + '.lg') == s.old(o + '.lg')))
def sameW(s, o='this'): return ('values', forall(1, lambda p: Implies(And(0 <= p, p < 2 * s(o + '.m')), W(s, o)[p] == W(s.old, o)[p]), pat=lambda p: [W(s, o)[p], W(s.old, o)[p]]))
def push_use(s):
    Z, D, m, k = s.old.e('this.lazy'), s.old.e('this.data'), s('this.m'), s.old('k')
    s.assume_def(ispow2_def(m)); Z1, D1 = PZ(Z, k, m), PD(Z, D, k)
    s.have('arrays', And(s.e('this.lazy') == Z1, s.e('this.data') == D1))
    s.lemma_all(w_push, forall(1, lambda p: w_push.inst(Z, D, m, k, p), pat=lambda p: wv(Z, D)[p]))
    s.lemma_all(n_push, forall(1, lambda p: n_push.inst(Z, D, m, k, p), pat=lambda p: Z[p]))
C_push = FnSpec('LazySegmentTree::push', match=r'LazySegmentTree<.*>::push\(int\)', modifies=lambda s: ['this.data', 'this.lazy'],
    requires=lambda s: wfl(s) + [And(1 <= s('k'), s('k') < s('this.m'))],
    ensures=lambda s: wfl(s) + [sameW(s), ('lazy', s.e('this.lazy') == PZ(s.old.e('this.lazy'), s.old('k'), s('this.m')))], use=push_use)
from specs.lazyseg import p2_ctz, dd, dmono, odd_pow, odd_pos, odd_pw2, dr, odd_sh
def path_loop(xs, keep=lambda s: [], lo=None, o='this'):
    """pushing the ancestors x >> i of a leaf (or end position) x from the root down"""
    def inv(s):
        m, i, Z = s(o + '.m'), s.v('i'), s.e(o + '.lazy'); x = xs(s)
        lg = s(o + '.lg'); c = V(0) if lo is None else lo(s)
        return [('range', Or(And(0 <= c, c <= i, i <= lg, x < 2 * m), And(i == lg, x == 2 * m, c > lg))), ('path clean', Implies(i >= c, clean(Z, x / pow2(i + 1)))), sameW(s, o), fr(s, o)] + [('kept', clean(Z, q)) for q in keep(s)] + wfl(s, o)
    def head(s):
        m, i = s(o + '.m'), s.v('i'); x = xs(s)
        s.assume_def(p2_def(i + 1)); s.assume_def(p2_def(i)); s.lemma(p2_pos, i); s.lemma(p2_pos, i - 1); s.lemma(p2_mono, i, s(o + '.lg')); s.lemma(dd, x, pow2(i)); s.lemma(dd, x, pow2(i - 1))
        s.lemma(dmono, pow2(i), x, pow2(i)); s.lemma(divu, pow2(i), pow2(i), V(1), V(0))
    def use(s):
        m, Z, lg = s(o + '.m'), s.e(o + '.lazy'), s(o + '.lg'); x = xs(s)
        if s.prev is None:
            s.assume_def(A.clean_def(Z, V(0))); s.lemma(divu, x, 2 * m, V(0), x); s.assume_def(p2_def(lg + 1))
            if lo is not None: ctz_hints(s, x, lo(s))
            if keep(s): ctz_hints(s, pos('l')(s), s.v('li'))
            return
        i = s.prev.v('i'); Z0 = s.prev.e(o + '.lazy'); k = x / pow2(i)
        s.lemma(c_push, Z0, m, k, k / 2); s.assume_def(A.clean_def(Z, k))
        for q in keep(s): s.lemma(c_push, Z0, m, k, q)
    return LoopSpec(inv, dec=lambda s: s.v('i'), use=use, head=head)
C_pt1 = FnSpec('LazySegmentTree::push_to(p)', match=r'LazySegmentTree<.*>::push_to\(int\)', modifies=lambda s: ['this.data', 'this.lazy'],
    requires=lambda s: wfl(s) + [And(0 <= s('p'), s('p') < s('this.m'))],
    ensures=lambda s: wfl(s) + [sameW(s), ('ancestors clean', clean(s.e('this.lazy'), (s.old('p') + s('this.m')) / 2))],
    loops=[path_loop(lambda s: s.old('p') + s('this.m'))], use=lambda s: s.assume_def(p2_def(V(1))) or s.assume_def(p2_def(V(0))))
pos = lambda n: (lambda s: s.old(n) + s('this.m'))
def ctz_hints(s, x, c):
    m, lg = s('this.m'), s('this.lg')
    s.lemma(p2_ctz, x, c); s.assume_def(ispow2_def(2 * m)); s.lemma(p2_mono, lg + 1, c); s.lemma(p2_mono, c, lg); s.lemma(odd_pow, x, c); s.assume_def(p2_def(c + 1)); s.lemma(p2_pos, c); s.lemma(dd, x, pow2(c)); s.lemma(odd_pw2, 2 * m); s.assume_def(p2_def(lg + 1))
def pt2_end(s):
    m = s('this.m'); s.assume_def(A.clean_def(s.e('this.lazy'), V(0)))
    ctz_hints(s, s.old('l') + m, s.v('li')); ctz_hints(s, s.old('r') + m, s.v('ri'))
C_pt2 = FnSpec('LazySegmentTree::push_to(l,r)', match=r'LazySegmentTree<.*>::push_to\(int, int\)', modifies=lambda s: ['this.data', 'this.lazy'],
    requires=lambda s: wfl(s) + [And(0 <= s('l'), s('l') <= s('r'), s('r') <= s('this.n'))],
    ensures=lambda s: wfl(s) + [sameW(s), ('left border clean', clean(s.e('this.lazy'), odd(s.old('l') + s('this.m')) / 2)), ('right border clean', clean(s.e('this.lazy'), odd(s.old('r') + s('this.m')) / 2))],
    loops=[path_loop(pos('l'), lo=lambda s: s.v('li')), path_loop(pos('r'), lo=lambda s: s.v('ri'), keep=lambda s: [odd(pos('l')(s)) / 2])], use=pt2_end)
from specs.lazyseg import lev, lev_np, lev_mono, lev_m
def upd_loop(xs, other=lambda s, p: z3.BoolVal(False), oc=lambda s: []):
    """recomputing the ancestors x >> i of x from the bottom up"""
    def inv(s):
        m, i, Z, D, lg = s('this.m'), s.v('i'), s.e('this.lazy'), s.e('this.data'), s('this.lg'); x = xs(s); h = x / pow2(i)
        return [('range', And(1 <= i, Or(And(i <= lg + 1, x < 2 * m), And(x == 2 * m, i == lg + 2)))), ('path clean', clean(Z, h)), ('nodes', nodes(Z, D, m, lambda p: Or(und(p, h), other(s, p)))), leaves(s), fr(s)] + wfl(s, nd=False)
    def head(s):
        m, i = s('this.m'), s.v('i'); x = xs(s); lg = s('this.lg')
        s.assume_def(p2_def(i + 1)); s.assume_def(p2_def(i)); s.lemma(p2_pos, i); s.lemma(p2_pos, i - 1); s.lemma(p2_mono, i, lg); s.lemma(dd, x, pow2(i)); s.lemma(dd, x, pow2(i - 1)); s.assume_def(p2_def(lg + 1)); s.lemma(divu, x, 2 * m, V(0), x)
        s.lemma(dmono, pow2(i), x, pow2(i)); s.lemma(divu, pow2(i), pow2(i), V(1), V(0))
    def use(s):
        m, Z, lg = s('this.m'), s.e('this.lazy'), s('this.lg'); x = xs(s); unds(s)
        if s.prev is None:
            s.assume_def(p2_def(V(1))); s.assume_def(p2_def(V(0))); s.assume_def(p2_def(lg + 1)); s.assume_def(p2_def(lg + 2)); s.lemma(p2_pos, lg); s.lemma(divu, x, 2 * m, V(0), x); s.lemma(divu, x, 4 * m, V(0), x); s.assume_def(A.clean_def(Z, V(0)))
            for y, c in oc(s): ctz_hints(s, y, c)
            return
        i = s.prev.v('i'); k = x / pow2(i); D = s.prev.e('this.data'); unds(s, k)
        s.assume_def(A.clean_def(Z, k)); s.assume_def(A.ident(op(D[2 * k], D[2 * k + 1]))); s.assume_def(und_def(k / 2, k / 2))
    return LoopSpec(inv, dec=lambda s: s('this.lg') + 2 - s.v('i'), use=use, head=head)
def unds(s, k=V(0)): s.assume_def(forall(1, lambda p: und_def(p, k), pat=lambda p: und(p, k)))
leaves = lambda s: ('leaves', forall(1, lambda j: Implies(j >= s('this.m'), s.e('this.data')[j] == s.old.e('this.data')[j]), pat=lambda j: s.e('this.data')[j]))
C_uf1 = FnSpec('LazySegmentTree::update_from(p)', match=r'LazySegmentTree<.*>::update_from\(int\)', modifies=lambda s: ['this.data'],
    requires=lambda s: wfl(s, nd=False) + [And(0 <= s('p'), s('p') < s('this.m')), clean(s.e('this.lazy'), (s('p') + s('this.m')) / 2), nodes(s.e('this.lazy'), s.e('this.data'), s('this.m'), lambda p: und(p, (s('p') + s('this.m')) / 2))],
    ensures=lambda s: wfl(s) + [leaves(s)], loops=[upd_loop(pos('p'))], use=lambda s: unds(s))
pLR = lambda s: (odd(pos('l')(s)) / 2, odd(pos('r')(s)) / 2)
C_uf2 = FnSpec('LazySegmentTree::update_from(l,r)', match=r'LazySegmentTree<.*>::update_from\(int, int\)', modifies=lambda s: ['this.data'],
    requires=lambda s: wfl(s, nd=False) + [And(0 <= s('l'), s('l') <= s('r'), s('r') <= s('this.n'))] + [clean(s.e('this.lazy'), odd(s(v) + s('this.m')) / 2) for v in 'lr'] + [nodes(s.e('this.lazy'), s.e('this.data'), s('this.m'), lambda p: Or(und(p, odd(s('l') + s('this.m')) / 2), und(p, odd(s('r') + s('this.m')) / 2)))],
    ensures=lambda s: wfl(s) + [leaves(s)],
    loops=[upd_loop(pos('l'), lambda s, p: und(p, pLR(s)[1]), oc=lambda s: [(pos('l')(s), s.v('li'))]), upd_loop(pos('r'), oc=lambda s: [(pos('r')(s), s.v('ri'))])], use=lambda s: unds(s))
cs = [C_push, C_pt1, C_pt2, C_uf1, C_uf2]
x_ = lambda s: J + s('s.m')
inJ = lambda s: And(0 <= J, J < s('s.m'))
def geom(s, m, l, r, l2, r2, nodeh):
    a, b = l, r - 1
    for k in (a, b, a + 1, b - 1, l2, r2 - 1): nodeh(s, k)
    s.lemma(adj, m, a); s.lemma(adj, m, b - 1); s.lemma(lev_np, a, a + 1); s.lemma(lev_np, a, b)
    for u, v in ((a, a + 1), (a + 1, b), (b - 1, b), (a, b - 1), (a + 1, b - 1)): s.lemma(lev_mono, u, v)
    for u, v in ((a, b), (a + 1, b), (a, b - 1), (a + 1, b - 1)): s.lemma(span_mono, m, u, v)
def nodeh(s, k):
    m = s('s.m'); x = J + m
    s.lemma(und_span, m, k, x); s.lemma(und_span, m, k, m); s.assume_def(lf_def(m, k)); s.assume_def(re_def(m, k)); s.assume_def(lev_def(k)); s.assume_def(und_def(k, x)); s.assume_def(und_def(k, x / 2))
def cover(s, l, r, L_, R_):
    m = s('s.m')
    return [('range', And(1 <= l, l <= 2 * m, 1 <= r, r <= 2 * m)), ('same level', Implies(l < r, And(lev(l) == lev(r - 1), L_ <= lf(m, l), re(m, r - 1) <= R_)))]
def border(s, l, r, L_, R_):
    Z = s.e('s.lazy'); pL, pR = odd(L_) / 2, odd(R_) / 2
    return [('clean left', clean(Z, pL)), ('clean right', clean(Z, pR)), ('left', Implies(l < r, Or(und(odd(l) / 2, pL), und((l - 1) / 2, pL)))), ('right', Implies(l < r, Or(und(odd(r) / 2, pR), und(r / 2, pR))))]
def border_hints(s, m, l, r, L_, R_, Zs):
    pL, pR = odd(L_) / 2, odd(R_) / 2
    for k in (l, r - 1): s.lemma(stradd, m, k, L_); s.lemma(stradd, m, k, R_)
    for x in (l, r): s.assume_def(odd_def(x))
    for q in (odd(l) / 2, (l - 1) / 2, l / 2):
        s.lemma(und_par, q, pL)
        for Z in Zs: s.lemma(A.clean_up, Z, q, pL)
    for q in (odd(r) / 2, r / 2):
        s.lemma(und_par, q, pR)
        for Z in Zs: s.lemma(A.clean_up, Z, q, pR)
valJ = lambda s: act(s.e('s.lazy'), x_(s) / 2, s.e('s.data')[x_(s)])
def apply_loop():
    LR = lambda s: (s.old('l') + s('s.m'), s.old('r') + s('s.m'))
    def inv(s):
        m = s('s.m'); l, r = s.v('l2'), s.v('r2'); x = x_(s); L_, R_ = LR(s); pL, pR = odd(L_) / 2, odd(R_) / 2; w0 = W(s.old, 's')[x]
        return cover(s, l, r, L_, R_) + border(s, l, r, L_, R_) + [('element', Implies(inJ(s), valJ(s) == If(And(L_ <= x, x < R_, Not(cov(m, l, r, x))), mp(s('f'), w0), w0))),
            ('nodes', nodes(s.e('s.lazy'), s.e('s.data'), m, lambda p: Or(und(p, pL), und(p, pR)))), fr(s, 's')] + wfl(s, 's', nd=False)
    def use(s):
        m = s('s.m'); x = x_(s); f = s('f'); L_, R_ = LR(s); Z, D = s.e('s.lazy'), s.e('s.data')
        if s.prev is None:
            l, r = s.v('l2'), s.v('r2'); nodeh(s, l); nodeh(s, r - 1); s.lemma(lev_m, m, l); s.lemma(lev_m, m, r - 1)
            for y in (L_, R_): s.assume_def(und_def(odd(y) / 2, odd(y) / 2))
            s.assume_def(wv_def(Z, D, x)); return
        p = s.prev; l, r = p.v('l2'), p.v('r2'); Z, D = p.e('s.lazy'), p.e('s.data'); a, b = l, r - 1
        l1, r1 = If(l % 2 == 1, l + 1, l), If(r % 2 == 1, r - 1, r); l2, r2 = s.v('l2'), s.v('r2')
        s.have('halves', And(l1 == 2 * l2, r1 == 2 * r2))
        geom(s, m, l, r, l2, r2, nodeh)
        q = x / 2; U = A.up(Z, a, f)
        for y in (D[x], mp(f, D[x])):
            s.lemma(A.act_upd, Z, a, f, q, y); s.lemma(A.act_upd, U, b, f, q, y); s.lemma(A.act_upd, Z, b, f, q, y); s.lemma(A.act_clean, Z, q, y); s.lemma(A.act_clean, U, q, y)
        border_hints(s, m, l, r, L_, R_, (Z, U))
        for q in (odd(L_) / 2, odd(R_) / 2): s.lemma(A.clean_st, Z, a, comp(f, Z[a]), q); s.lemma(A.clean_st, Z, b, comp(f, Z[b]), q); s.lemma(A.clean_st, U, b, comp(f, U[b]), q)
        for k in (a, b): s.assume_def(A.hom(f, Z[k], op(D[2 * k], D[2 * k + 1])))
    return LoopSpec(inv, dec=lambda s: s.v('r2') + s.v('l2'), use=use)
rq = lambda s: And(0 <= s('l'), s('l') <= s('r'), s('r') <= s('s.n'))
def ap_end(s): s.assume_def(wv_def(s.e('s.lazy'), s.e('s.data'), x_(s)))
sp_apply = FnSpec('lz_apply', requires=lambda s: wfl(s, 's') + [rq(s)], ensures=lambda s: wfl(s, 's') + [fr(s, 's'), ('element', Implies(inJ(s), W(s, 's')[x_(s)] == If(And(s.old('l') <= J, J < s.old('r')), mp(s.old('f'), W(s.old, 's')[x_(s)]), W(s.old, 's')[x_(s)])))],
    loops=[apply_loop()], use=ap_end)
def prod_loop():
    LR = lambda s: (s.old('l') + s('s.m'), s.old('r') + s('s.m'))
    def inv(s):
        m = s('s.m'); l, r = s.v('l'), s.v('r'); L_, R_ = LR(s)
        return cover(s, l, r, L_, R_) + border(s, l, r, L_, R_) + [('product', fold(W(s, 's'), L_, R_) == op(s.v('res_l'), op(fold(W(s, 's'), l, If(l < r, r, l)), s.v('res_r'))))]
    def use(s):
        m = s('s.m'); L_, R_ = LR(s); Z, D = s.e('s.lazy'), s.e('s.data'); w = wv(Z, D)
        if s.prev is None:
            l, r = s.v('l'), s.v('r'); nodeh(s, l); nodeh(s, r - 1); s.lemma(lev_m, m, l); s.lemma(lev_m, m, r - 1)
            for y in (L_, R_): s.assume_def(und_def(odd(y) / 2, odd(y) / 2))
            return
        p = s.prev; l, r = p.v('l'), p.v('r'); a, b = l, r - 1
        l1, r1 = If(l % 2 == 1, l + 1, l), If(r % 2 == 1, r - 1, r); l2, r2 = s.v('l'), s.v('r')
        s.have('halves', And(l1 == 2 * l2, r1 == 2 * r2))
        geom(s, m, l, r, l2, r2, nodeh); border_hints(s, m, l, r, L_, R_, (Z,))
        s.have('border', And(clean(Z, a / 2), Implies(r % 2 == 1, clean(Z, b / 2)))) if 0 else None
        for k in (a, b): s.assume_def(wv_def(Z, D, k)); s.lemma(A.act_clean, Z, k / 2, D[k])
        s.lemma(M.left, w, l, r); s.assume_def(M.defn(w, l1, r)); s.assume_def(M.defn(w, l1, r1)); s.assume_def(M.defn(w, l, r)); s.assume_def(M.defn(w, l + 1, r)); s.assume_def(M.defn(w, l2, l2)); s.assume_def(M.defn(w, l2, r2))
        s.lemma_all(wtree, forall(1, lambda q: wtree.inst(Z, D, q), pat=lambda q: w[q])); s.lemma(level, w, m, l2, r2)
        for X in (w[a],): s.assume_def(M.assoc(p.v('res_l'), X, op(fold(w, l1, r1), p.v('res_r')))); s.assume_def(M.assoc(p.v('res_l'), X, op(fold(w, l1, r1), op(w[b], p.v('res_r')))))
        s.assume_def(M.assoc(fold(w, l1, r1), w[b], p.v('res_r'))); s.assume_def(M.assoc(w[a], fold(w, l1, r), p.v('res_r'))); s.assume_def(M.assoc(w[a], fold(w, l1, r1), p.v('res_r')))
        s.assume_def(M.assoc(w[a], op(fold(w, l1, r1), w[b]), p.v('res_r')))
    return LoopSpec(inv, dec=lambda s: s.v('r') + s.v('l'), use=use)
def prod_end(s):
    m = s('s.m'); w, w0 = W(s, 's'), W(s.old, 's'); L_, R_ = s.old('l') + m, s.old('r') + m
    s.assume_def(M.defn(w, s.v('l'), s.v('l'))); s.lemma(M.ext, w, w0, L_, R_, V(0))
sp_prod = FnSpec('lz_prod', requires=lambda s: wfl(s, 's') + [rq(s)], ensures=lambda s: wfl(s, 's') + [fr(s, 's'), sameW(s, 's'), ('product', s.res == fold(W(s.old, 's'), s.old('l') + s('s.m'), s.old('r') + s('s.m')))],
    loops=[prod_loop()], use=prod_end)
def leaf(s, o, x): s.assume_def(wv_def(s.e(o + '.lazy'), s.e(o + '.data'), x)); s.lemma(A.act_clean, s.e(o + '.lazy'), x / 2, s.e(o + '.data')[x])
rp = lambda s: And(0 <= s('p'), s('p') < s('s.n'))
sp_get = FnSpec('lz_get', requires=lambda s: wfl(s, 's') + [rp(s)], ensures=lambda s: wfl(s, 's') + [fr(s, 's'), sameW(s, 's'), ('value', s.res == W(s.old, 's')[s.old('p') + s('s.m')])], use=lambda s: leaf(s, 's', s.old('p') + s('s.m')))
def set_post(v): return lambda s: wfl(s, 's') + [fr(s, 's'), ('element', Implies(inJ(s), W(s, 's')[x_(s)] == If(J == s.old('p'), v(s), W(s.old, 's')[x_(s)])))]
def set_use(s): leaf(s, 's', s.old('p') + s('s.m')); leaf(s, 's', x_(s))
def dirty(s, x): s.assume_def(und_def(x / 2, x / 2))
def set_pre(s):
    x = s('p') + s('s.m'); dirty(s, x)
    for y in (x, x_(s)): s.assume_def(forall(2, lambda Z, D: wv_def(Z, D, y), pat=lambda Z, D: wv(Z, D)[y], sorts=[AF, AT]))
    s.lemma_all(A.act_clean, forall(2, lambda Z, v: A.act_clean.inst(Z, x / 2, v), pat=lambda Z, v: act(Z, x / 2, v), sorts=[AF, T]))
sp_set = FnSpec('lz_set', requires=lambda s: wfl(s, 's') + [rp(s)], ensures=set_post(lambda s: s.old('v')), use=set_use, pre=set_pre)
sp_apply1 = FnSpec('lz_apply1', requires=lambda s: wfl(s, 's') + [rp(s)], ensures=set_post(lambda s: mp(s.old('f'), W(s.old, 's')[s.old('p') + s('s.m')])), use=set_use, pre=set_pre)
tree_ = lambda w, m: rngq(1, m, lambda j: w[j] == op(w[2 * j], w[2 * j + 1]), pat=lambda j: w[j])
padW = lambda s, o='s': rngq(s(o + '.m') + s(o + '.n'), 2 * s(o + '.m'), lambda j: W(s, o)[j] == e, pat=lambda j: W(s, o)[j])
def all_use(s):
    w, m, n = W(s, 's'), s('s.m'), s('s.n'); Z, D = s.e('s.lazy'), s.e('s.data')
    s.lemma_all(wtree, forall(1, lambda q: wtree.inst(Z, D, q), pat=lambda q: w[q])); s.lemma(root, w, m, m); s.lemma(M.split, w, m, m + n, 2 * m); s.lemma(pad, w, m + n, 2 * m); s.assume_def(wv_def(Z, D, V(1))); s.assume_def(A.defn(Z, V(0), D[1]))
sp_all = FnSpec('lz_all', requires=lambda s: wfl(s, 's') + [('padding', padW(s))], ensures=lambda s: ('product', s.res == fold(W(s, 's'), s('s.m'), s('s.m') + s('s.n'))), use=all_use)
def build_loop():
    def inv(s):
        m, D, Z, k = s('out.m'), s.e('out.data'), s.e('out.lazy'), s.v('k'); D0 = s.entry.e('out.data')
        return [('range', And(0 <= k, k < m)), ('nodes', tree(D, k + 1, m)), ('leaves', forall(1, lambda j: Implies(j >= m, D[j] == D0[j]), pat=lambda j: D[j]))]
    return LoopSpec(inv, dec=lambda s: s.v('k'))
fresh = Lemma('act_fresh_lazy', [AF, Int, Int, T], lambda Z, m, q, x: Implies(And(q < m, forall(1, lambda i: Implies(And(0 <= i, i < m), Z[i] == ID), pat=lambda i: Z[i])), act(Z, q, x) == x),
    proof=lambda ih, u, Z, m, q, x: [A.defn(Z, q, x), A.ident(x), ih(Z, m, q / 2, x), Z[q] == Z[q]], measure=lambda Z, m, q, x: If(q > 0, q, 0))
n_fresh = Lemma('nodes_fresh', [AF, AT, Int], lambda Z, D, m: Implies(And(forall(1, lambda i: Implies(And(0 <= i, i < m), Z[i] == ID), pat=lambda i: Z[i]), tree(D, 1, m)), nodes(Z, D, m)),
    proof=lambda ih, u, Z, D, m: [forall(1, lambda y: A.ident(y), pat=lambda y: mp(ID, y), sorts=[T])])
def ctor_use(s):
    m = s('out.m'); Z, D = s.e('out.lazy'), s.e('out.data'); x = J + m
    s.lemma(n_fresh, Z, D, m)
    s.lemma(fresh, Z, m, x / 2, D[x]); s.assume_def(wv_def(Z, D, x)); s.lemma(p2_ctz, m, s('out.lg')); s.lemma(p2_mono, V(30), s('out.lg'))
    for i in range(31): s.assume_def(p2_def(V(i)))
def ctor_post(n, el): return lambda s: wfl(s, 'out') + [('n', s('out.n') == n(s)), ('elements', Implies(And(0 <= J, J < s('out.m')), W(s, 'out')[J + s('out.m')] == If(J < n(s), el(s), e)))]
sp_ctor = FnSpec('lz_ctor', requires=lambda s: s.n('a') <= MAXN, ensures=ctor_post(lambda s: s.n('a'), lambda s: s.e('a')[J]), loops=[ceil_loop(lambda s: s.n('a')), build_loop()], use=ctor_use)
sp_ctor_n = FnSpec('lz_ctor_n', requires=lambda s: And(0 <= s('n'), s('n') <= MAXN), ensures=ctor_post(lambda s: s('n'), lambda s: e), loops=[ceil_loop(lambda s: s('n')), build_loop()], use=ctor_use)
und_odd = Lemma('odd_part_is_ancestor', [Int], lambda x: Implies(x >= 1, und(odd(x), x)), proof=lambda ih, u, x: [odd_def(x), ih(x / 2), und_def(odd(x), x), u(odd_pos, x / 2)], measure=lambda x: If(x > 0, x, 0))
und_oddp = Lemma('odd_parent_is_ancestor', [Int], lambda x: Implies(x >= 1, und(odd(x) / 2, x / 2)), proof=lambda ih, u, x: [odd_def(x), ih(x / 2), und_def(odd(x) / 2, x / 2), u(odd_pos, x), und_def(x / 2, x / 2)], measure=lambda x: If(x > 0, x, 0))
w0 = lambda s: W(s.old, 's')
def hn(s, *ps):
    w, m, n = w0(s), s('s.m'), s('s.n'); s.lemma(lf_first, m, m); Z, D = s.e('s.lazy'), s.e('s.data')
    for p in ps:
        s.lemma(span, w, m, p, n); s.assume_def(lf_def(m, p)); s.assume_def(re_def(m, p)); s.lemma(adj, m, p); s.lemma(re_last, m, p); s.lemma(lf_first, m, p); s.lemma(lb_pow2, p); s.lemma(lb_pow2, p + 1); s.assume_def(ispow2_def(p)); s.assume_def(ispow2_def(p + 1))
        s.assume_def(lf_def(m, p + 1)); s.assume_def(wv_def(Z, D, p)); s.lemma(A.act_clean, Z, p / 2, D[p])
def s_pre(v):
    def pre(s):
        Z, D = s.e('s.lazy'), s.e('s.data'); w = W(s, 's')
        s.lemma_all(wtree, forall(1, lambda q: wtree.inst(Z, D, q), pat=lambda q: w[q]))
    return pre
def lpath(s, l, pX): return Or(und(odd(l) / 2, pX), und((l - 1) / 2, pX))
def rpath(s, r, pX): return Or(und(odd(r) / 2, pX), und(r / 2, pX))
def ups(s, l, pX):
    Z = s.e('s.lazy'); s.assume_def(odd_def(l))
    for q in (odd(l) / 2, (l - 1) / 2, l / 2): s.lemma(und_par, q, pX); s.lemma(A.clean_up, Z, q, pX)
def mr_inv(kind):
    def inv(s):
        w, m, n, l, L = w0(s), s('s.m'), s('s.n'), s.v('l'), s.old('l'); S = s.v('sum'); Z = s.e('s.lazy')
        r = [('range', And(1 <= l, l < 2 * m)), ('left part', And(S == fold(w, m + L, lf(m, l)), m + L <= lf(m, l), pred(S)))]
        if kind == 2: r += [('answer below', Not(pred(op(S, w[l])))), ('path clean', clean(Z, l / 2)), sameW(s, 's'), fr(s, 's')] + wfl(s, 's')
        else: r.append(('path', lpath(s, l, (m + L) / 2)))
        if kind == 1: r.append(('same start', lf(m, l) == lf(m, s.entry.v('l'))))
        return r
    def use(s):
        w, m, l, L = w0(s), s('s.m'), s.v('l'), s.old('l'); Z = s.e('s.lazy'); pX = (m + L) / 2
        hn(s, l); s.assume_def(M.defn(w, m + L, m + L)); ups(s, l, pX)
        if s.prev is None: s.lemma(und_oddp, l); s.assume_def(p2_def(V(1))); s.assume_def(p2_def(V(0)))
        if s.prev is not None:
            p = s.prev.v('l'); hn(s, p); s.lemma(M.split, w, m + L, lf(m, p), re(m, p)); ups(s, p, pX)
            if kind == 2:
                hn(s, 2 * p, 2 * p + 1); s.lemma(M.split, w, m + L, lf(m, 2 * p), re(m, 2 * p)); s.assume_def(M.assoc(s.prev.v('sum'), w[2 * p], w[2 * p + 1]))
                s.lemma(c_push, s.prev.e('s.lazy'), m, p, p / 2); s.assume_def(A.clean_def(Z, p)); s.assume_def(w[p] == w[p])
            if kind == 0: q = s.v('l') - 1; hn(s, q); s.lemma(M.split, w, m + L, lf(m, q), re(m, q)); ups(s, q, pX)
    return LoopSpec(inv, dec=lambda s: [lambda: 2 * s('s.m') - lf(s('s.m'), s.v('l')), lambda: s.v('l'), lambda: s('s.m') - s.v('l')][kind](), use=use)
def mr_use(s):
    w, m, n, L = w0(s), s('s.m'), s('s.n'), s.old('l'); r = s.res
    s.lemma(M.split, w, m + L, m + n, 2 * m); s.lemma(pad, w, m + n, 2 * m); s.assume_def(M.defn(w, m + L, m + L)); s.assume_def(M.defn(w, m + L, m + r + 1))
    for q in ([s.v('l')] if s.has('l') else []):
        for p in (q, q - 1): hn(s, p); s.lemma(M.split, w, m + L, lf(m, p), re(m, p)); ups(s, p, (m + L) / 2)
    s.assume_def(lf_def(m, m + r)); s.assume_def(w[m + r] == w[m + r])
sp_mr = FnSpec('lz_maxright', requires=lambda s: wfl(s, 's') + [('padding', padW(s)), And(0 <= s('l'), s('l') <= s('s.n')), pred(e)], pre=s_pre(0),
    ensures=lambda s: wfl(s, 's') + [sameW(s, 's'), ('range', And(s.old('l') <= s.res, s.res <= s('s.n'))), ('holds up to the answer', pred(fold(w0(s), s('s.m') + s.old('l'), s('s.m') + s.res))),
        ('fails one further', Or(s.res == s('s.n'), Not(pred(fold(w0(s), s('s.m') + s.old('l'), s('s.m') + s.res + 1)))))],
    loops=[path_loop(lambda s: s.old('l') + s('s.m'), o='s'), mr_inv(0), mr_inv(1), mr_inv(2)], use=mr_use)
und_oddm = Lemma('odd_parent_is_ancestor_of_predecessor', [Int], lambda x: Implies(x >= 1, und(odd(x) / 2, (x - 1) / 2)), proof=lambda ih, u, x: [odd_def(x), ih(x / 2), und_def(odd(x) / 2, (x - 1) / 2), u(odd_pos, x), und_def(x / 2, x / 2), u(und_le, odd(x) / 2, (x / 2 - 1) / 2)], measure=lambda x: If(x > 0, x, 0))
def upr(s, E, pX):
    Z = s.e('s.lazy'); s.assume_def(odd_def(E)); s.assume_def(A.clean_def(Z, V(0)))
    for q in (odd(E) / 2, E / 2): s.lemma(und_par, q, pX); s.lemma(A.clean_up, Z, q, pX)
def ml_inv(kind):
    def inv(s):
        w, m, n, r, Rr = w0(s), s('s.m'), s('s.n'), s.v('r'), s.old('r'); S = s.v('sum'); Z = s.e('s.lazy')
        q = r - 1 if kind == 0 else r
        o = [('range', And(1 <= q, q < 2 * m)), ('right part', And(S == fold(w, re(m, q), m + Rr), re(m, q) <= m + Rr, pred(S)))]
        if kind == 2: o += [('answer below', Not(pred(op(w[r], S)))), ('path clean', clean(Z, r / 2)), sameW(s, 's'), fr(s, 's')] + wfl(s, 's')
        else: o.append(('path', rpath(s, q + 1, (m + Rr - 1) / 2)))
        if kind == 1: o.append(('same end', re(m, r) == re(m, s.entry.v('r'))))
        return o
    def use(s):
        w, m, r, Rr = w0(s), s('s.m'), s.v('r'), s.old('r'); Z = s.e('s.lazy'); pX = (m + Rr - 1) / 2
        q = r - 1 if kind == 0 else r
        hn(s, q); s.assume_def(M.defn(w, m + Rr, m + Rr)); upr(s, q + 1, pX)
        if s.prev is None: s.lemma(und_oddm, q + 1); s.assume_def(p2_def(V(1))); s.assume_def(p2_def(V(0)))
        if s.prev is not None:
            p = s.prev.v('r'); hn(s, p); upr(s, p + 1, pX)
            if kind == 0: hn(s, r); s.lemma(M.split, w, lf(m, r), re(m, r), m + Rr); upr(s, r + 1, pX); upr(s, r, pX)
            if kind == 2:
                hn(s, 2 * p, 2 * p + 1); s.lemma(M.split, w, lf(m, 2 * p + 1), re(m, 2 * p + 1), m + Rr); s.assume_def(M.assoc(w[2 * p], w[2 * p + 1], s.prev.v('sum')))
                s.lemma(c_push, s.prev.e('s.lazy'), m, p, p / 2); s.assume_def(A.clean_def(Z, p)); s.assume_def(w[p] == w[p])
    return LoopSpec(inv, dec=lambda s: [lambda: re(s('s.m'), s.v('r') - 1), lambda: s.v('r'), lambda: s('s.m') - s.v('r')][kind](), use=use)
def ml_use(s):
    w, m, n, Rr = w0(s), s('s.m'), s('s.n'), s.old('r'); r = s.res
    s.assume_def(M.defn(w, m + Rr, m + Rr)); s.lemma(M.left, w, m + r - 1, m + Rr)
    for p in ([s.v('r')] if s.has('r') else []): hn(s, p); s.lemma(M.split, w, lf(m, p), re(m, p), m + Rr); s.lemma(pow2_le, m, p); upr(s, p + 1, (m + Rr - 1) / 2)
    s.assume_def(re_def(m, m + r - 1))
sp_ml = FnSpec('lz_minleft', requires=lambda s: wfl(s, 's') + [And(0 <= s('r'), s('r') <= s('s.n')), pred(e)], pre=s_pre(0),
    ensures=lambda s: wfl(s, 's') + [sameW(s, 's'), ('range', And(0 <= s.res, s.res <= s.old('r'))), ('holds up to the answer', pred(fold(w0(s), s('s.m') + s.res, s('s.m') + s.old('r')))),
        ('fails one further', Or(s.res == 0, Not(pred(fold(w0(s), s('s.m') + s.res - 1, s('s.m') + s.old('r'))))))],
    loops=[path_loop(lambda s: s.old('r') - 1 + s('s.m'), o='s'), ml_inv(0), ml_inv(1), ml_inv(2)], use=ml_use)
specs = [C_push, C_pt1, C_pt2, C_uf1, C_uf2, sp_apply, sp_prod, sp_get, sp_set, sp_apply1, sp_all, sp_ctor, sp_ctor_n, sp_mr, sp_ml]
unit = Unit('lazy', specs, contracts=cs, keep=[r'LazySegmentTree<.*>::(push|push_to|update_from)\('], opaque={'T': 'T', 'F': 'F'}, theory=M.ax[1:])
