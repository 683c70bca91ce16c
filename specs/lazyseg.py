from irv.spec import *
from irv.unit import Unit
from specs.segtree import M, ispow2, ispow2_def, fold, op, e, lf, re, lf_def, re_def, mz, adj, lf_first, re_last, pow2_le, pow2_step, ceil_loop, MAXN, level, pad, root
T, F = M.T, OSort('F'); AT, AF = M.A, z3.ArraySort(Int, F); V = z3.IntVal
comp = UF('uf_comp', F, F, F); idf = UF('uf_id', F); ID = idf()
lev = UF('level', Int, Int); und = UF('under', Int, Int, Bool)
@definition
def lev_def(p): return lev(p) == If(p <= 1, 0, 1 + lev(p / 2))
@definition
def und_def(k, q): return und(k, q) == Or(q == k, And(q > k, und(k, q / 2)))
lev_pos = Lemma('level_nonneg', [Int], lambda p: lev(p) >= 0, proof=lambda ih, u, p: [lev_def(p), ih(p / 2)], measure=lambda p: If(p > 0, p, 0))
lev_mono = Lemma('level_mono', [Int, Int], lambda p, q: Implies(p <= q, lev(p) <= lev(q)), proof=lambda ih, u, p, q: [lev_def(p), lev_def(q), ih(p / 2, q / 2), u(lev_pos, q / 2)], measure=lambda p, q: If(q > 0, q, 0))
lev_np = Lemma('level_not_first', [Int, Int], lambda p, q: Implies(And(1 <= p, p < q, lev(p) == lev(q)), Not(ispow2(q))),
    proof=lambda ih, u, p, q: [lev_def(p), lev_def(q), ispow2_def(q), ih(p / 2, q / 2), u(lev_pos, q / 2)], measure=lambda p, q: If(q > 0, q, 0))
und_kids = Lemma('under_children', [Int, Int], lambda k, x: Implies(And(1 <= k, k < x), und(k, x) == Or(und(2 * k, x), und(2 * k + 1, x))),
    proof=lambda ih, u, k, x: [und_def(k, x), und_def(2 * k, x), und_def(2 * k + 1, x), ih(k, x / 2), und_def(k, x / 2), und_def(2 * k, x / 2), und_def(2 * k + 1, x / 2)], measure=lambda k, x: If(x > 0, x, 0))
und_span = Lemma('under_span', [Int, Int, Int], lambda m, k, x: Implies(And(ispow2(m), 1 <= m, 1 <= k, k < 2 * m, m <= x, x < 2 * m), And(und(k, x) == And(lf(m, k) <= x, x < re(m, k)), lf(m, k) < re(m, k))),
    proof=lambda ih, u, m, k, x: [ih(m, 2 * k, x), ih(m, 2 * k + 1, x), und_def(k, x), und_def(k, x / 2), u(und_kids, k, x), lf_def(m, k), re_def(m, k), u(adj, m, 2 * k), ispow2_def(2 * k + 1)], measure=lambda m, k, x: mz(m, k))
und_trans = Lemma('under_trans', [Int, Int, Int], lambda a, b, c: Implies(And(0 <= a, und(a, b), und(b, c)), und(a, c)),
    proof=lambda ih, u, a, b, c: [und_def(a, c), und_def(b, c), und_def(a, b), ih(a, b, c / 2), u(und_le, b, c / 2)], measure=lambda a, b, c: If(c > 0, c, 0))
und_le = Lemma('under_le', [Int, Int], lambda a, b: Implies(und(a, b), a <= b), proof=lambda ih, u, a, b: [und_def(a, b)], measure=lambda a, b: If(b > 0, b, 0))

span_mono = Lemma('span_mono', [Int, Int, Int], lambda m, p, q: Implies(And(ispow2(m), 1 <= m, 1 <= p, p <= q, q < 2 * m, lev(p) == lev(q)), And(lf(m, p) <= lf(m, q), re(m, p) <= re(m, q))),
    proof=lambda ih, u, m, p, q: [ih(m, 2 * p, 2 * q), ih(m, 2 * p + 1, 2 * q + 1), lf_def(m, p), lf_def(m, q), re_def(m, p), re_def(m, q), lev_def(2 * p), lev_def(2 * q), lev_def(2 * p + 1), lev_def(2 * q + 1), u(lev_np, p, m), u(lev_mono, p, m), u(lev_mono, m, q)], measure=lambda m, p, q: mz(m, p))
class Act:
    def __init__(s, mapname, comm):
        s.map = mp = UF(mapname, F, T, T); s.comm = comm
        f, g = z3.Consts('lf_ lg_', F); x = z3.Const('lx_', T)
        s.hom = definition(lambda f, g, x: mp(comp(f, g), x) == mp(f, mp(g, x)))
        s.ident = definition(lambda x: mp(ID, x) == x)
        s.cid = definition(lambda f: And(comp(ID, f) == f, comp(f, ID) == f))
        s.commute = definition(lambda f, g, x: mp(f, mp(g, x)) == mp(g, mp(f, x)))
        s.act = act = UF('act_' + mapname, AF, Int, T, T)
        s.defn = definition(lambda Z, q, x: act(Z, q, x) == If(q <= 0, x, act(Z, q / 2, mp(Z[q], x))))
        s.clean = clean = UF('clean', AF, Int, Bool)
        s.clean_def = definition(lambda Z, q: clean(Z, q) == Or(q <= 0, And(Z[q] == ID, clean(Z, q / 2))))
        nn = lambda q: If(q > 0, q, 0)
        s.act_clean = Lemma('act_clean_' + mapname, [AF, Int, T], lambda Z, q, x: Implies(clean(Z, q), act(Z, q, x) == x), proof=lambda ih, u, Z, q, x: [s.defn(Z, q, x), s.clean_def(Z, q), ih(Z, q / 2, x), s.ident(x)], measure=lambda Z, q, x: nn(q))
        s.act_comm = Lemma('act_commute_' + mapname, [AF, Int, F, T], lambda Z, q, f, x: act(Z, q, mp(f, x)) == mp(f, act(Z, q, x)),
            proof=lambda ih, u, Z, q, f, x: [s.defn(Z, q, x), s.defn(Z, q, mp(f, x)), s.commute(Z[q], f, x), ih(Z, q / 2, f, mp(Z[q], x))], measure=lambda Z, q, f, x: nn(q)) if comm else None
        hyp = (lambda Z, k: z3.BoolVal(True)) if comm else (lambda Z, k: clean(Z, k / 2))
        def up(Z, k, f): return z3.Store(Z, k, comp(f, Z[k]))
        s.up = up
        s.act_upd = Lemma('act_update_' + mapname, [AF, Int, F, Int, T], lambda Z, k, f, q, x: Implies(And(1 <= k, hyp(Z, k)), act(up(Z, k, f), q, x) == If(und(k, q), mp(f, act(Z, q, x)), act(Z, q, x))),
            proof=lambda ih, u, Z, k, f, q, x: [s.defn(Z, q, x), s.defn(up(Z, k, f), q, x), ih(Z, k, f, q / 2, mp(Z[q], x)), ih(Z, k, f, q / 2, mp(up(Z, k, f)[q], x)), s.hom(f, Z[k], x), und_def(k, q), und_def(k, q / 2)]
                + ([u(s.act_comm, Z, q / 2, f, mp(Z[q], x))] if comm else [u(s.act_clean, Z, q / 2, mp(Z[q], x)), u(s.act_clean, Z, q / 2, mp(f, mp(Z[q], x)))]), measure=lambda Z, k, f, q, x: nn(q))
        s.act_above = Lemma('act_above_' + mapname, [AF, Int, F, Int, T], lambda Z, k, g, q, x: Implies(And(q < k), act(z3.Store(Z, k, g), q, x) == act(Z, q, x)),
            proof=lambda ih, u, Z, k, g, q, x: [s.defn(Z, q, x), s.defn(z3.Store(Z, k, g), q, x), ih(Z, k, g, q / 2, mp(Z[q], x))], measure=lambda Z, k, g, q, x: nn(q))
        s.clean_st = Lemma('clean_store', [AF, Int, F, Int], lambda Z, k, g, q: Implies(And(clean(Z, q), 1 <= k, Or(Not(und(k, q)), g == ID)), clean(z3.Store(Z, k, g), q)),
            proof=lambda ih, u, Z, k, g, q: [s.clean_def(Z, q), s.clean_def(z3.Store(Z, k, g), q), ih(Z, k, g, q / 2), und_def(k, q), u(und_le, k, q / 2)], measure=lambda Z, k, g, q: nn(q))
        s.clean_up = Lemma('clean_ancestor', [AF, Int, Int], lambda Z, a, q: Implies(And(clean(Z, q), und(a, q), 0 <= a), clean(Z, a)),
            proof=lambda ih, u, Z, a, q: [s.clean_def(Z, q), ih(Z, a, q / 2), und_def(a, q)], measure=lambda Z, a, q: nn(q))
J = z3.Int('ghost_leaf')        # an arbitrary element: the postconditions on its value hold for every element
CA, NA_ = Act('uf_cmap', True), Act('uf_map', False)

def wfd(s, o='s'):
    n, m = s(o + '.n'), s(o + '.m')
    return [('size', And(0 <= n, n <= m, 1 <= m, m <= MAXN, s.n(o + '.data') == n, s.n(o + '.lazy') == m)), ('pow2', ispow2(m))]
def val(A, s, o, j): return A.act(s.e(o + '.lazy'), (j + s(o + '.m')) / 2, s.e(o + '.data')[j])
def get_spec(A, p):
    def use(s):
        Z = s.e('s.lazy'); s.assume_def(A.defn(Z, s.v('i'), s.v('res')))
        if s.prev is not None: s.assume_def(A.defn(Z, s.prev.v('i'), s.prev.v('res')))
    return FnSpec(p + '_get', requires=lambda s: wfd(s) + [And(0 <= s('i'), s('i') < s('s.n'))], ensures=lambda s: ('value', s.res == val(A, s, 's', s.old('i'))),
        loops=[LoopSpec(lambda s: [('range', And(0 <= s.v('i'), s.v('i') < s('s.m'))), ('rest of the path', A.act(s.e('s.lazy'), s.v('i'), s.v('res')) == val(A, s, 's', s.old('i')))], dec=lambda s: s.v('i'), use=use)], use=lambda s: s.assume_def(A.defn(s.e('s.lazy'), V(0), s.res)))
def ctor_spec(A, p):
    zero = Lemma('act_fresh_' + p, [AF, Int, Int, T], lambda Z, m, q, x: Implies(And(q < m, forall(1, lambda i: Implies(And(0 <= i, i < m), Z[i] == ID), pat=lambda i: Z[i])), A.act(Z, q, x) == x),
        proof=lambda ih, u, Z, m, q, x: [A.defn(Z, q, x), A.ident(x), ih(Z, m, q / 2, x), Z[q] == Z[q]], measure=lambda Z, m, q, x: If(q > 0, q, 0))
    def use(s): m = s('out.m'); s.lemma(zero, s.e('out.lazy'), m, (J + m) / 2, s.e('out.data')[J])
    return FnSpec(p + '_ctor', requires=lambda s: s.n('a') <= MAXN, ensures=lambda s: wfd(s, 'out') + [('n', s('out.n') == s.n('a')), ('elements', Implies(And(0 <= J, J < s.n('a')), val(A, s, 'out', J) == s.e('a')[J]))],
        loops=[ceil_loop(lambda s: s.n('a'))], use=use)
def cov(m, l, r, x): return And(l < r, lf(m, l) <= x, x < re(m, r - 1))
def app_loop(A, L, R, lz=None):
    """the loop over the O(log n) nodes covering [L, R)"""
    odd_ = odd
    def inv(s):
        m, n = s('s.m'), s('s.n'); l, r = s.v('l'), s.v('r'); x = J + m; L_, R_ = L(s) + m, R(s) + m
        o = [('range', And(1 <= l, l <= 2 * m, 1 <= r, r <= 2 * m)), ('same level', Implies(l < r, And(lev(l) == lev(r - 1), L_ <= lf(m, l), re(m, r - 1) <= R_))),
             ('element', Implies(And(0 <= J, J < n), val(A, s, 's', J) == If(And(L_ <= x, x < R_, Not(cov(m, l, r, x))), A.map(s('f'), val(A, s.old, 's', J)), val(A, s.old, 's', J))))] + wfd(s) + [('frame', And(m == s.old('s.m'), n == s.old('s.n')))]
        if not A.comm:
            Z = s.e('s.lazy'); pL, pR = odd(L_) / 2, odd(R_) / 2
            o += [('clean left', A.clean(Z, pL)), ('clean right', A.clean(Z, pR)), ('left', Implies(l < r, Or(und(odd(l) / 2, pL), und((l - 1) / 2, pL)))), ('right', Implies(l < r, Or(und(odd(r) / 2, pR), und(r / 2, pR))))]
        return o
    def node(s, k):
        m = s('s.m'); x = J + m
        s.lemma(und_span, m, k, x); s.lemma(und_span, m, k, m); s.assume_def(lf_def(m, k)); s.assume_def(re_def(m, k)); s.assume_def(lev_def(k)); s.assume_def(und_def(k, x)); s.assume_def(und_def(k, x / 2))
    def use(s):
        m = s('s.m'); x = J + m; f = s('f'); L_, R_ = L(s) + m, R(s) + m
        if s.prev is None:
            l, r = s.v('l'), s.v('r'); node(s, l); node(s, r - 1); s.lemma(lev_m, m, l); s.lemma(lev_m, m, r - 1)
            for x in (L_, R_): s.assume_def(und_def(odd(x) / 2, odd(x) / 2))
            return
        p = s.prev; l, r = p.v('l'), p.v('r'); Z, D = p.e('s.lazy'), p.e('s.data'); a, b = l, r - 1
        l1, r1 = If(l % 2 == 1, l + 1, l), If(r % 2 == 1, r - 1, r); l2, r2 = s.v('l'), s.v('r')
        s.have('halves', And(l1 == 2 * l2, r1 == 2 * r2))
        for k in (a, b, a + 1, b - 1, l2, r2 - 1): node(s, k)
        s.lemma(adj, m, a); s.lemma(adj, m, b - 1); s.lemma(lev_np, a, a + 1); s.lemma(lev_np, a, b); s.lemma(lev_mono, a, a + 1); s.lemma(lev_mono, a + 1, b); s.lemma(lev_mono, b - 1, b); s.lemma(lev_mono, a, b - 1); s.lemma(lev_mono, a + 1, b - 1); s.lemma(span_mono, m, a, b); s.lemma(span_mono, m, a + 1, b); s.lemma(span_mono, m, a, b - 1); s.lemma(span_mono, m, a + 1, b - 1)
        q = x / 2; Z1 = If(And(l % 2 == 1, a < m), A.up(Z, a, f), Z); D0 = D[J]
        U = A.up(Z, a, f)
        for y in (D0, A.map(f, D0)):
            s.lemma(A.act_upd, Z, a, f, q, y); s.lemma(A.act_upd, U, b, f, q, y); s.lemma(A.act_upd, Z, b, f, q, y)
            if A.comm: s.lemma(A.act_comm, Z, q, f, y); s.lemma(A.act_comm, U, q, f, y)
            else: s.lemma(A.act_clean, Z, q, y); s.lemma(A.act_clean, U, q, y)
        if not A.comm: extra(s, A, m, l, r, a, b, Z, U, f, L_, R_)
    return LoopSpec(inv, dec=lambda s: s.v('r') + s.v('l'), use=use)
odd = UF('oddpart', Int, Int)
@definition
def odd_def(x): return odd(x) == If(And(x > 0, x % 2 == 0), odd(x / 2), x)
lev_m = Lemma('level_of_leaves', [Int, Int], lambda m, p: Implies(And(ispow2(m), 1 <= m, m <= p, p < 2 * m), lev(p) == lev(m)), proof=lambda ih, u, m, p: [lev_def(m), lev_def(p), ispow2_def(m), ih(m / 2, p / 2)], measure=lambda m, p: If(m > 0, m, 0))
und_par = Lemma('under_parent', [Int, Int], lambda a, q: Implies(And(0 <= a, und(a, q)), und(a / 2, q)), proof=lambda ih, u, a, q: [u(und_trans, a / 2, a, q), und_def(a / 2, a), und_def(a / 2, a / 2)])
span_ne = Lemma('span_nonempty', [Int, Int], lambda m, k: Implies(And(ispow2(m), 1 <= k, k < 2 * m), lf(m, k) < re(m, k)), proof=lambda ih, u, m, k: [u(und_span, m, k, m)])
nest = Lemma('span_nested', [Int, Int, Int], lambda m, k, q: Implies(And(ispow2(m), 1 <= m, 1 <= k, q < 2 * m, und(k, q)), And(lf(m, k) <= lf(m, q), re(m, q) <= re(m, k))),
    proof=lambda ih, u, m, k, q: [und_def(k, q), ih(m, k, q / 2), u(und_le, k, q / 2), lf_def(m, q / 2), re_def(m, q / 2), u(span_ne, m, q), u(span_ne, m, 2 * (q / 2)), u(span_ne, m, 2 * (q / 2) + 1), u(adj, m, 2 * (q / 2)), ispow2_def(2 * (q / 2) + 1)], measure=lambda m, k, q: If(q > 0, q, 0))
lf_odd = Lemma('first_leaf_of_odd_part', [Int, Int], lambda m, x: Implies(And(1 <= m, 1 <= x, x < 2 * m), lf(m, odd(x)) == lf(m, x)), proof=lambda ih, u, m, x: [odd_def(x), lf_def(m, x / 2), ih(m, x / 2)], measure=lambda m, x: If(x > 0, x, 0))
stradd = Lemma('border_nodes_straddle', [Int, Int, Int], lambda m, k, x: Implies(And(ispow2(m), 1 <= m, m <= x, x <= 2 * m, 1 <= k, k < 2 * m, und(k, odd(x) / 2)), And(lf(m, k) < x, x < re(m, k), x < 2 * m)),
    proof=lambda ih, u, m, k, x: (lambda o: [u(nest, m, k, o / 2), u(lf_odd, m, x), lf_def(m, x), u(odd_pos, x), u(odd_pw2, x), ispow2_def(2 * m), und_def(k, V(0)), lf_def(m, o / 2), re_def(m, o / 2), u(adj, m, o - 1), ispow2_def(o), u(span_ne, m, o), u(span_ne, m, o - 1), u(und_le, k, o / 2)])(odd(x)))
def extra(s, A, m, l, r, a, b, Z, U, f, L_, R_):
    pL, pR = odd(L_) / 2, odd(R_) / 2
    Zb, Ub = A.up(Z, b, f), A.up(U, b, f)
    for k in (a, b):
        s.lemma(stradd, m, k, L_); s.lemma(stradd, m, k, R_)
    for x, y in ((l, l), (r, r)): s.assume_def(odd_def(x))
    for q in (odd(l) / 2, (l - 1) / 2, l / 2): s.lemma(und_par, q, pL); s.lemma(A.clean_up, Z, q, pL)
    for q in (odd(r) / 2, r / 2): s.lemma(und_par, q, pR); s.lemma(A.clean_up, Z, q, pR); s.lemma(A.clean_up, U, q, pR)
    for q in (pL, pR):
        s.lemma(A.clean_st, Z, a, comp(f, Z[a]), q); s.lemma(A.clean_st, Z, b, comp(f, Z[b]), q); s.lemma(A.clean_st, U, b, comp(f, U[b]), q)
rngs = lambda s: And(0 <= s('l'), s('l') <= s('r'), s('r') <= s('s.n'))
def app_post(A): return lambda s: wfd(s) + [('n', And(s('s.n') == s.old('s.n'), s('s.m') == s.old('s.m'))), ('element', Implies(And(0 <= J, J < s('s.n')), val(A, s, 's', J) == If(And(s.old('l') <= J, J < s.old('r')), A.map(s.old('f'), val(A, s.old, 's', J)), val(A, s.old, 's', J))))]

from specs.nt import divu
from specs.sparse import p2_def, p2_pos, p2_mono
from specs.nt import mul_nn, mul_ge
dr = Lemma('div_rem', [Int, Int], lambda x, P: Implies(P >= 1, And(x == P * (x / P) + x % P, 0 <= x % P, x % P < P)), proof=lambda ih, u, x, P: [])
dh = Lemma('div_double', [Int, Int], lambda x, P: Implies(P >= 1, And(x / (2 * P) == (x / P) / 2, x % (2 * P) == P * ((x / P) % 2) + x % P)),
    proof=lambda ih, u, x, P: [u(dr, x, P), u(divu, x, 2 * P, (x / P) / 2, P * ((x / P) % 2) + x % P), u(mul_parts, P, x / P)])
mul_parts = Lemma('mul_parts', [Int, Int], lambda P, q: Implies(P >= 1, And(P * q == 2 * P * (q / 2) + P * (q % 2), 0 <= P * (q % 2), P * (q % 2) <= P, (P * (q % 2) == 0) == (q % 2 == 0))), proof=lambda ih, u, P, q: [])
dm1 = Lemma('div_pred', [Int, Int], lambda x, P: Implies(And(P >= 1, x % P != 0), (x - 1) / P == x / P), proof=lambda ih, u, x, P: [u(dr, x, P), u(divu, x - 1, P, x / P, x % P - 1)])
dle = Lemma('div_le', [Int, Int], lambda x, P: Implies(And(P >= 1, x >= 0), And(0 <= x / P, x / P <= x)), proof=lambda ih, u, x, P: [u(dr, x, P), u(mul_nn, P - 1, x / P), u(mul_ge, P, -(x / P))])
dd = Lemma('div_halving', [Int, Int], lambda x, P: Implies(And(P >= 1, x >= 0), And(x / (2 * P) == (x / P) / 2, (x % (2 * P) == 0) == And(x % P == 0, (x / P) % 2 == 0), (P * (x / P) == x) == (x % P == 0), Implies(x % P != 0, (x - 1) / P == x / P), (x - 1) / (2 * P) == ((x - 1) / P) / 2, 0 <= x / P, x / P <= x)),
    proof=lambda ih, u, x, P: [u(dr, x, P), u(dh, x, P), u(dh, x - 1, P), u(dm1, x, P), u(dle, x, P), u(mul_parts, P, x / P)])
dd2 = Lemma('div_even', [Int, Int], lambda x, P: Implies(And(P >= 1, x >= 0, x % (2 * P) == 0), And(x % 2 == 0, (x / 2) % P == 0, (x / 2) / P == x / (2 * P))),
    proof=lambda ih, u, x, P: [u(dr, x, 2 * P), u(divu, x / 2, P, x / (2 * P), V(0)), u(two, P, x / (2 * P), x)])
two = Lemma('two_times', [Int, Int, Int], lambda P, q, x: Implies(x == 2 * P * q, And(x % 2 == 0, x / 2 == P * q)), proof=lambda ih, u, P, q, x: [u(divu, x, V(2), P * q, V(0))])
odd_pow = Lemma('odd_part', [Int, Int], lambda x, i: Implies(And(0 <= i, x >= 1, x % pow2(i) == 0, (x / pow2(i)) % 2 == 1), odd(x) == x / pow2(i)),
    proof=lambda ih, u, x, i: [p2_def(i), u(p2_pos, i - 1), odd_def(x), ih(x / 2, i - 1), u(dd2, x, pow2(i - 1))], measure=lambda x, i: If(i > 0, i, 0))
odd_sh = Lemma('odd_part_le', [Int, Int], lambda x, i: Implies(And(0 <= i, x >= 1, x % pow2(i) == 0), odd(x) <= x / pow2(i)),
    proof=lambda ih, u, x, i: [p2_def(i), u(p2_pos, i - 1), odd_def(x), ih(x / 2, i - 1), u(dd2, x, pow2(i - 1)), u(odd_pos, x)], measure=lambda x, i: If(i > 0, i, 0))
odd_pw2 = Lemma('odd_part_of_power', [Int], lambda m: Implies(And(m >= 1, ispow2(m)), odd(m) == 1), proof=lambda ih, u, m: [odd_def(m), ispow2_def(m), ih(m / 2)], measure=lambda m: If(m > 0, m, 0))
odd_pos = Lemma('odd_part_range', [Int], lambda x: Implies(x >= 1, And(odd(x) >= 1, odd(x) <= x, odd(x) % 2 == 1)), proof=lambda ih, u, x: [odd_def(x), ih(x / 2)], measure=lambda x: If(x > 0, x, 0))
p2_ctz = Lemma('pow2_ctz', [Int, Int], lambda m, k: Implies(And(m >= 1, ispow2(m), k >= 0, m % pow2(k) == 0, (m / pow2(k)) % 2 == 1), pow2(k) == m), proof=lambda ih, u, m, k: [u(odd_pow, m, k), u(odd_pw2, m), u(p2_pos, k)])
def pushed(A, s):
    """state after pushing node k: only k and its children change, k becomes clean"""
    k = s.old('k'); Z, Z0 = s.e('this.lazy'), s.old.e('this.lazy')
    return [('node cleared', Z[k] == ID), ('above', forall(1, lambda i: Implies(And(i < 2 * k, i != k), Z[i] == Z0[i]), pat=lambda i: Z[i]))]
def mkpush(A):
    mp, act = A.map, A.act; nn = lambda q: If(q > 0, q, 0)
    P = lambda Z, k: z3.Store(z3.Store(z3.Store(Z, 2 * k, comp(Z[k], Z[2 * k])), 2 * k + 1, comp(Z[k], Z[2 * k + 1])), k, ID)
    A.act_push = Lemma('act_push', [AF, Int, Int, T], lambda Z, k, q, x: Implies(k >= 1, And(Implies(q != k, act(P(Z, k), q, x) == act(Z, q, x)), act(P(Z, k), k, mp(Z[k], x)) == act(Z, k, x))),
        proof=lambda ih, u, Z, k, q, x: [A.defn(Z, q, x), A.defn(P(Z, k), q, x), ih(Z, k, q / 2, mp(Z[q], x)), A.hom(Z[k], Z[q], x), A.defn(P(Z, k), k, mp(Z[k], x)), A.defn(Z, k, x), A.ident(mp(Z[k], x)), ih(Z, k, k / 2, mp(Z[k], x)), u(A.act_same, Z, P(Z, k), k / 2, mp(Z[k], x), k)], measure=lambda Z, k, q, x: nn(q))
    A.act_same = Lemma('act_same', [AF, AF, Int, T, Int], lambda Z, Y, q, x, k: Implies(And(q < k, forall(1, lambda i: Implies(i < k, Z[i] == Y[i]), pat=lambda i: Z[i])), act(Z, q, x) == act(Y, q, x)),
        proof=lambda ih, u, Z, Y, q, x, k: [A.defn(Z, q, x), A.defn(Y, q, x), Z[q] == Z[q], ih(Z, Y, q / 2, mp(Z[q], x), k)], measure=lambda Z, Y, q, x, k: nn(q))
    A.clean_fr = Lemma('clean_frame', [AF, AF, Int, Int], lambda Z, Y, q, k: Implies(And(A.clean(Z, q), q < k, forall(1, lambda i: Implies(i < k, Or(Y[i] == Z[i], Y[i] == ID)), pat=lambda i: Y[i])), A.clean(Y, q)),
        proof=lambda ih, u, Z, Y, q, k: [A.clean_def(Z, q), A.clean_def(Y, q), ih(Z, Y, q / 2, k), Y[q] == Y[q]], measure=lambda Z, Y, q, k: nn(q))
    A.act_not = Lemma('act_not_on_path', [AF, Int, F, Int, T], lambda Z, k, g, q, x: Implies(And(1 <= k, Not(und(k, q))), act(z3.Store(Z, k, g), q, x) == act(Z, q, x)),
        proof=lambda ih, u, Z, k, g, q, x: [A.defn(Z, q, x), A.defn(z3.Store(Z, k, g), q, x), ih(Z, k, g, q / 2, mp(Z[q], x)), und_def(k, q), u(und_le, k, q / 2)], measure=lambda Z, k, g, q, x: nn(q))
A = NA_
mkpush(A)
def same_val(s, o='this'): return ('element', Implies(And(0 <= J, J < s(o + '.n')), val(A, s, o, J) == val(A, s.old, o, J)))
def push_use(s):
    m = s('this.m'); x = J + m; q = x / 2; k = s.old('k'); Z, D = s.old.e('this.lazy'), s.old.e('this.data'); y = D[J]
    s.assume_def(ispow2_def(m)); s.lemma(A.act_push, Z, k, q, y); Y = z3.Store(Z, k, ID); s.lemma(A.act_not, Z, k, ID, q, y); s.assume_def(und_def(k, q)); s.assume_def(und_def(k, q / 2))
    s.assume_def(A.defn(Y, k, A.map(Z[k], y))); s.assume_def(A.ident(A.map(Z[k], y))); s.assume_def(A.defn(Z, k, y)); s.lemma(A.act_not, Z, k, ID, k / 2, A.map(Z[k], y)); s.assume_def(und_def(k, k / 2))
frame_nm = lambda s, o='this': ('frame', And(s(o + '.n') == s.old(o + '.n'), s(o + '.m') == s.old(o + '.m')))
C_push1 = FnSpec('DualSegmentTree::push(k)', match=r'DualSegmentTree<.*>::push\(int\)', modifies=lambda s: ['this.data', 'this.lazy'],
    requires=lambda s: wfd(s, 'this') + [And(1 <= s('k'), s('k') < s('this.m'))], ensures=lambda s: wfd(s, 'this') + [same_val(s)] + pushed(A, s), use=push_use)
dmono = Lemma('div_mono', [Int, Int, Int], lambda x, y, P: Implies(And(P >= 1, x <= y), x / P <= y / P), proof=lambda ih, u, x, y, P: [u(dr, x, P), u(dr, y, P), u(mul_ge, P, x / P - y / P)])
dmon2 = Lemma('div_mono_double', [Int, Int, Int], lambda x, y, P: Implies(And(P >= 1, x <= 2 * y), x / (2 * P) <= y / P), proof=lambda ih, u, x, y, P: [u(dr, x, 2 * P), u(dr, y, P), u(mul_ge, P, x / (2 * P) - y / P)])
HD = lambda x, i: If(x % pow2(i + 1) == 0, odd(x) / 2, x / pow2(i + 1))
def p2_inv(s):
    m = s('this.m'); i = s.v('i'); Z = s.e('this.lazy'); l, r = s.old('l') + m, s.old('r') + m
    return [('range', And(0 <= i, i <= s.v('log'), pow2(s.v('log')) == m)), ('left', A.clean(Z, HD(l, i))), ('right', A.clean(Z, HD(r, i))), same_val(s), frame_nm(s)] + wfd(s, 'this')
def p2_hd(s):
    m = s('this.m'); l, r = s.old('l') + m, s.old('r') + m; i = s.v('i'); k = s.v('log')
    s.assume_def(p2_def(i + 1)); s.assume_def(p2_def(i)); s.lemma(p2_pos, i); s.lemma(p2_pos, i - 1); s.lemma(p2_mono, i, k)
    s.lemma(dmono, l, r, pow2(i)); s.lemma(dmon2, r, l, pow2(i))
    for x in (l, r): s.lemma(dd, x, pow2(i)); s.lemma(dd, x, pow2(i - 1)); s.lemma(odd_pow, x, i); s.lemma(odd_sh, x, i); s.lemma(odd_pos, x); s.lemma(dmono, pow2(i), x, pow2(i)); s.lemma(divu, pow2(i), pow2(i), V(1), V(0))
def p2_use(s):
    m = s('this.m'); l, r = s.old('l') + m, s.old('r') + m; Z = s.e('this.lazy')
    if s.prev is None:
        k = s.v('log'); s.lemma(p2_ctz, m, k); s.assume_def(p2_def(k + 1)); s.lemma(p2_pos, k)
        for x in (l, r): s.lemma(odd_pw2, x); s.assume_def(ispow2_def(2 * m)); s.lemma(odd_pw2, 2 * m)
        s.assume_def(A.clean_def(Z, V(0))); s.lemma(divu, l, 2 * m, V(0), l); s.lemma(divu, r, 2 * m, V(0), r); return
    i = s.prev.v('i'); Z0 = s.prev.e('this.lazy')
    for x in (l, r):
        k = x / pow2(i); s.lemma(A.clean_fr, Z0, Z, k / 2, 2 * (l / pow2(i))); s.assume_def(A.clean_def(Z, k))
        s.lemma(A.clean_fr, Z0, Z, odd(x) / 2, 2 * (l / pow2(i)))
def p2_end(s):
    m = s('this.m'); s.assume_def(p2_def(V(0))); s.assume_def(p2_def(V(1)))
    for x in (s.old('l') + m, s.old('r') + m): s.assume_def(odd_def(x))
C_push2 = FnSpec('DualSegmentTree::push(l,r)', match=r'DualSegmentTree<.*>::push\(int, int\)', modifies=lambda s: ['this.data', 'this.lazy'],
    requires=lambda s: wfd(s, 'this') + [And(0 <= s('l'), s('l') <= s('r'), s('r') <= s('this.n'))],
    ensures=lambda s: wfd(s, 'this') + [same_val(s), ('left chain clean', A.clean(s.e('this.lazy'), odd(s.old('l') + s('this.m')) / 2)), ('right chain clean', A.clean(s.e('this.lazy'), odd(s.old('r') + s('this.m')) / 2))],
    loops=[LoopSpec(p2_inv, dec=lambda s: s.v('i'), use=p2_use, head=p2_hd)], use=p2_end)
cs = [C_push1, C_push2]
specs = [ctor_spec(CA, 'cd'), get_spec(CA, 'cd'), FnSpec('cd_apply', requires=lambda s: wfd(s) + [rngs(s)], ensures=app_post(CA), loops=[app_loop(CA, lambda s: s.old('l'), lambda s: s.old('r'))]),
    ctor_spec(NA_, 'du'), get_spec(NA_, 'du'), C_push1, C_push2,
    FnSpec('du_apply', requires=lambda s: wfd(s) + [rngs(s)], ensures=app_post(NA_), loops=[app_loop(NA_, lambda s: s.old('l'), lambda s: s.old('r'))])]
unit = Unit('lazyseg', specs, contracts=cs, keep=[r'DualSegmentTree<.*>::push\('], opaque={'T': 'T', 'F': 'F'}, theory=M.ax)
