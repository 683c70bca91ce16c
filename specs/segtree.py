from irv.spec import *
from irv.unit import Unit
M = Monoid('T', 'uf_op', 'uf_e')
ispow2 = UF('ispow2', Int, Bool)
@definition
def ispow2_def(k): return ispow2(k) == Or(k == 1, And(k > 1, k % 2 == 0, ispow2(k / 2)))
fold, op, e = M.fold, M.op, M.e
def eq(D, j): return D[j] == op(D[2 * j], D[2 * j + 1])
def tree(D, lo, hi): return rngq(lo, hi, lambda j: eq(D, j), pat=lambda j: D[j])

# fold over one level equals fold over the level above
level = Lemma('seg_level', [M.A, Int, Int, Int],
    lambda D, m, l, r: Implies(And(1 <= l, r <= m, tree(D, 1, m)), fold(D, 2 * l, 2 * r) == fold(D, l, r)),
    proof=lambda ih, u, D, m, l, r: [ih(D, m, l, r - 1), M.defn(D, l, r), M.defn(D, 2 * l, 2 * r), M.defn(D, 2 * l, 2 * r - 1), D[r - 1] == D[r - 1]],
    measure=lambda D, m, l, r: r - l, theory=M.ax)
root = Lemma('seg_root', [M.A, Int, Int],
    lambda D, m, k: Implies(And(1 <= k, k <= m, ispow2(k), tree(D, 1, m)), fold(D, k, 2 * k) == D[1]),
    proof=lambda ih, u, D, m, k: [ih(D, m, k / 2), ispow2_def(k), u(level, D, m, k / 2, k), M.defn(D, 1, 2), M.defn(D, 1, 1)],
    measure=lambda D, m, k: k, theory=M.ax)
pad = Lemma('seg_pad', [M.A, Int, Int],
    lambda D, l, r: Implies(rngq(l, r, lambda j: D[j] == e, pat=lambda j: D[j]), fold(D, l, r) == e),
    proof=lambda ih, u, D, l, r: [ih(D, l, r - 1), M.defn(D, l, r), D[r - 1] == D[r - 1]], measure=lambda D, l, r: r - l, theory=M.ax)

MAXN = 1 << 29
# a power of two that is < 2^29 is at most 2^28
pow2_le = Lemma('pow2_gap', [Int, Int], lambda k, b: Implies(And(ispow2(k), ispow2(b), k < b), 2 * k <= b),
    proof=lambda ih, u, k, b: [ispow2_def(k), ispow2_def(b), ih(k / 2, b / 2)], measure=lambda k, b: k + b)
# leaves below node p: [lf(m,p), re(m,p))
lf, re = UF('seg_lf', Int, Int, Int), UF('seg_re', Int, Int, Int)
@definition
def lf_def(m, p): return lf(m, p) == If(p >= m, p, lf(m, 2 * p))
@definition
def re_def(m, p): return re(m, p) == If(p >= m, p + 1, re(m, 2 * p + 1))
mz = lambda m, p: If(p < m, m - p, 0)
adj = Lemma('seg_adjacent', [Int, Int], lambda m, p: Implies(And(ispow2(m), 1 <= m, 1 <= p, Not(ispow2(p + 1))), re(m, p) == lf(m, p + 1)),
    proof=lambda ih, u, m, p: [ih(m, 2 * p + 1), re_def(m, p), lf_def(m, p + 1), ispow2_def(2 * p + 2)], measure=lambda m, p: mz(m, p))
lf_first = Lemma('seg_lf_pow2', [Int, Int], lambda m, p: Implies(And(ispow2(m), 1 <= m, 1 <= p, p <= m, ispow2(p)), lf(m, p) == m),
    proof=lambda ih, u, m, p: [ih(m, 2 * p), lf_def(m, p), ispow2_def(2 * p), ispow2_def(m), u(pow2_le, p, m)], measure=lambda m, p: mz(m, p))
re_last = Lemma('seg_re_pow2', [Int, Int], lambda m, p: Implies(And(ispow2(m), 1 <= m, 1 <= p, p + 1 <= 2 * m, ispow2(p + 1)), re(m, p) == 2 * m),
    proof=lambda ih, u, m, p: [ih(m, 2 * p + 1), re_def(m, p), ispow2_def(2 * p + 2), ispow2_def(2 * m), u(pow2_le, p + 1, 2 * m), u(pow2_le, m, p + 1)], measure=lambda m, p: mz(m, p))
span = Lemma('seg_span', [M.A, Int, Int, Int], lambda D, m, p, n: Implies(And(ispow2(m), 1 <= m, 1 <= p, p < 2 * m, tree(D, 1, m)),
        And(fold(D, lf(m, p), re(m, p)) == D[p], m <= lf(m, p), lf(m, p) < re(m, p), re(m, p) <= 2 * m)),
    proof=lambda ih, u, D, m, p, n: [ih(D, m, 2 * p, n), ih(D, m, 2 * p + 1, n), lf_def(m, p), re_def(m, p), u(adj, m, 2 * p), ispow2_def(2 * p + 1), D[p] == D[p],
        M.defn(D, p, p + 1), M.defn(D, p, p), u(M.split, D, lf(m, p), lf(m, 2 * p + 1), re(m, p))], measure=lambda D, m, p, n: mz(m, p), theory=M.ax)
lb_pow2 = Lemma('lowbit_pow2', [Int], lambda k: Implies(k > 0, (lowbit(k) == k) == ispow2(k)),
    proof=lambda ih, u, k: [ih(k / 2), lowbit_def(k), ispow2_def(k), u(lb_pos, k), u(lb_pos, k / 2)], measure=lambda k: k)
pred = UF('uf_pred', M.T, Bool)
def wf(s, o='s'):
    n, m, D = s(o + '.n'), s(o + '.m'), s.e(o + '.data')
    return [('size', And(0 <= n, n <= m, 1 <= m, m <= MAXN, s.n(o + '.data') == 2 * m)),
            ('pow2', ispow2(m)),
            ('nodes', tree(D, 1, m)),
            ('padding', rngq(m + n, 2 * m, lambda j: D[j] == e, pat=lambda j: D[j]))]

def prod_loop(L, R):
    def inv(s):
        D, m = s.e('s.data'), s('s.m'); l, r = s.v('l'), s.v('r')
        return [('range', And(1 <= l, l <= r, r <= 2 * m, Implies(l < r, r <= 2 * m), l <= 2 * m)),
                ('product', op(op(s.v('res_l'), fold(D, l, r)), s.v('res_r')) == fold(D, m + L(s), m + R(s)))]
    def use(s):
        D, m = s.e('s.data'), s('s.m'); l, r = s.v('l'), s.v('r')
        if s.prev is None: return
        l0, r0 = s.prev.v('l'), s.prev.v('r')
        a = If(l0 % 2 == 1, l0 + 1, l0); b = If(r0 % 2 == 1, r0 - 1, r0)
        s.lemma(M.left, D, l0, r0); s.assume_def(M.defn(D, a, r0)); s.assume_def(M.defn(D, a, b)); s.assume_def(M.defn(D, l0, r0)); s.assume_def(M.defn(D, l0 + 1, r0))
        s.have('parity', And(a == 2 * l, b == 2 * r))
        s.lemma(level, D, m, l, r)
    return LoopSpec(inv, dec=lambda s: s.v('r'), use=use)
def post_prod(s):
    D, m = s.e('s.data'), s('s.m')
    return D, m
def wf_old(s): return wf(s.old)

def build_loops():
    pow_loop = LoopSpec(lambda s: [And(1 <= s.v('m'), s.v('m') <= MAXN), ispow2(s.v('m')), Or(s.v('m') == 1, s.v('m') < 2 * s.nn())], None)

def ceil_loop(nof):
    def inv(s):
        m, n = s.v('m'), nof(s)
        return [('pow2', ispow2(m)), ('range', And(1 <= m, m <= MAXN, Or(m == 1, m < 2 * n)))]
    def use(s):
        s.assume_def(ispow2_def(s.v('m')))
        # powers of two below the limit: doubling stays within it
        if s.prev is not None: s.lemma(pow2_step, s.prev.v('m'))
    return LoopSpec(inv, dec=lambda s: 2 * nof(s) - s.v('m') + 2, use=use)
pow2_step = Lemma('pow2_step_2p29', [Int], lambda k: Implies(And(ispow2(k), k < MAXN), 2 * k <= MAXN),
    proof=lambda ih, u, k: [u(pow2_le, k, z3.IntVal(MAXN))] + [ispow2_def(z3.IntVal(1 << i)) for i in range(30)], measure=lambda k: k)

def build_loop():
    def inv(s):
        m, D, k = s('out.m'), s.e('out.data'), s.v('k')
        D0 = s.entry.e('out.data')
        return [('range', And(0 <= k, k < m)), ('nodes', tree(D, k + 1, m)),
                ('leaves', forall(1, lambda j: Implies(j >= m, D[j] == D0[j]), pat=lambda j: D[j]))]
    return LoopSpec(inv, dec=lambda s: s.v('k'))
def ctor_post(s, n, a):
    D, m = s.e('out.data'), s('out.m')
    return wf(s, 'out') + [('n', s('out.n') == n), ('elements', rngq(m, m + n, lambda j: D[j] == a(j - m), pat=lambda j: D[j]))]

def set_loop():
    def inv(s):
        D, m, k = s.e('s.data'), s('s.m'), s.v('k'); D0 = s.old.e('s.data'); i = s('i')
        return [('range', And(0 <= k, k < m)),
                ('nodes', rngq(1, m, lambda j: Implies(j != k, eq(D, j)), pat=lambda j: D[j])),
                ('leaves', forall(1, lambda j: Implies(j >= m, D[j] == If(j == m + i, s.old('v'), D0[j])), pat=lambda j: D[j]))]
    return LoopSpec(inv, dec=lambda s: s.v('k'))

specs = [
    FnSpec('seg_ctor_n', requires=lambda s: And(0 <= s('n'), s('n') <= MAXN),
           ensures=lambda s: ctor_post(s, s('n'), lambda j: e), loops=[ceil_loop(lambda s: s('n')), build_loop()]),
    FnSpec('seg_ctor_v', requires=lambda s: s.n('a') <= MAXN,
           ensures=lambda s: ctor_post(s, s.n('a'), lambda j: s.e('a')[j]), loops=[ceil_loop(lambda s: s.n('a')), build_loop()]),
    FnSpec('seg_get', requires=lambda s: wf(s) + [And(0 <= s('i'), s('i') < s('s.n'))],
           ensures=lambda s: s.res == s.e('s.data')[s('s.m') + s('i')]),
    FnSpec('seg_prod', requires=lambda s: wf(s) + [And(0 <= s('l'), s('l') <= s('r'), s('r') <= s('s.n'))],
           ensures=lambda s: ('fold', s.res == fold(s.e('s.data'), s('s.m') + s('l'), s('s.m') + s('r'))),
           loops=[prod_loop(lambda s: s('l'), lambda s: s('r'))],
           use=lambda s: s.assume_def(M.defn(s.e('s.data'), s.v('l'), s.v('r')))),
    FnSpec('seg_prefix', requires=lambda s: wf(s) + [And(0 <= s('r'), s('r') <= s('s.n'))],
           ensures=lambda s: ('fold', s.res == fold(s.e('s.data'), s('s.m'), s('s.m') + s('r'))),
           loops=[prod_loop(lambda s: z3.IntVal(0), lambda s: s('r'))],
           use=lambda s: s.assume_def(M.defn(s.e('s.data'), s.v('l'), s.v('r')))),
    FnSpec('seg_suffix', requires=lambda s: wf(s) + [And(0 <= s('l'), s('l') <= s('s.n'))],
           ensures=lambda s: ('fold', s.res == fold(s.e('s.data'), s('s.m') + s('l'), s('s.m') + s('s.n'))),
           loops=[prod_loop(lambda s: s('l'), lambda s: s('s.m'))],
           use=lambda s: (s.assume_def(M.defn(s.e('s.data'), s.v('l'), s.v('r'))),
                          s.lemma(M.split, s.e('s.data'), s('s.m') + s('l'), s('s.m') + s('s.n'), 2 * s('s.m')), s.lemma(pad, s.e('s.data'), s('s.m') + s('s.n'), 2 * s('s.m')))),
    FnSpec('seg_all', requires=lambda s: wf(s),
           ensures=lambda s: ('fold', s.res == fold(s.e('s.data'), s('s.m'), s('s.m') + s('s.n'))),
           use=lambda s: (s.lemma(root, s.e('s.data'), s('s.m'), s('s.m')), s.lemma(M.split, s.e('s.data'), s('s.m'), s('s.m') + s('s.n'), 2 * s('s.m')),
                          s.lemma(pad, s.e('s.data'), s('s.m') + s('s.n'), 2 * s('s.m')))),
    FnSpec('seg_set', requires=lambda s: wf(s) + [And(0 <= s('i'), s('i') < s('s.n'))],
           ensures=lambda s: wf(s) + [('n', And(s('s.n') == s.old('s.n'), s('s.m') == s.old('s.m'))),
               ('elements', rngq(s('s.m'), 2 * s('s.m'), lambda j: s.e('s.data')[j] == If(j == s('s.m') + s('i'), s.old('v'), s.old.e('s.data')[j]), pat=lambda j: s.e('s.data')[j]))],
           loops=[set_loop()]),
]
def hint_nodes(s, *ps):
    D, m, n = s.e('s.data'), s('s.m'), s('s.n')
    s.lemma(lf_first, m, m); 
    for p in ps:
        s.lemma(span, D, m, p, n); s.assume_def(lf_def(m, p)); s.assume_def(re_def(m, p)); s.lemma(adj, m, p); s.lemma(re_last, m, p); s.lemma(lf_first, m, p); s.lemma(lb_pow2, p); s.lemma(lb_pow2, p + 1); s.assume_def(ispow2_def(p)); s.assume_def(ispow2_def(p + 1))
        s.assume_def(lf_def(m, p + 1))
def mr_inv(kind):
    def inv(s):
        D, m, n, l, L = s.e('s.data'), s('s.m'), s('s.n'), s.v('l'), s('l'); S = s.v('sum_l')
        r = [('range', And(1 <= l, l < 2 * m)), ('left part', And(S == fold(D, m + L, lf(m, l)), m + L <= lf(m, l), pred(S)))]
        if kind == 2: r.append(('answer below', Not(pred(op(S, D[l])))))
        if kind == 1: r.append(('same start', lf(m, l) == lf(m, s.entry.v('l'))))
        return r
    def use(s):
        D, m, l, L = s.e('s.data'), s('s.m'), s.v('l'), s('l')
        hint_nodes(s, l); s.assume_def(M.defn(D, m + L, m + L))
        if s.prev is not None:
            p = s.prev.v('l'); hint_nodes(s, p); s.lemma(M.split, D, m + L, lf(m, p), re(m, p))
            if kind == 2: hint_nodes(s, 2 * p); s.lemma(M.split, D, m + L, lf(m, 2 * p), re(m, 2 * p)); s.assume_def(M.assoc(s.prev.v('sum_l'), D[2 * p], D[2 * p + 1]))
            if kind == 0: q = s.v('l') - 1; hint_nodes(s, q); s.lemma(M.split, D, m + L, lf(m, q), re(m, q))
    return LoopSpec(inv, dec=lambda s: [lambda: 2 * s('s.m') - lf(s('s.m'), s.v('l')), lambda: s.v('l'), lambda: s('s.m') - s.v('l') + 0][kind](), use=use)
def ml_inv(kind):
    def inv(s):
        D, m, n, r, Rr = s.e('s.data'), s('s.m'), s('s.n'), s.v('r'), s('r'); S = s.v('sum_r')
        q = r - 1 if kind == 0 else r
        o = [('range', And(1 <= q, q < 2 * m)), ('right part', And(S == fold(D, re(m, q), m + Rr), re(m, q) <= m + Rr, pred(S)))]
        if kind == 2: o.append(('answer below', Not(pred(op(D[r], S)))))
        if kind == 1: o.append(('same end', re(m, r) == re(m, s.entry.v('r'))))
        return o
    def use(s):
        D, m, r, Rr = s.e('s.data'), s('s.m'), s.v('r'), s('r')
        q = r - 1 if kind == 0 else r
        hint_nodes(s, q); s.assume_def(M.defn(D, m + Rr, m + Rr))
        if s.prev is not None:
            p = s.prev.v('r'); hint_nodes(s, p)
            if kind == 0: hint_nodes(s, r); s.lemma(M.split, D, lf(m, r), re(m, r), m + Rr)
            if kind == 2: hint_nodes(s, 2 * p, 2 * p + 1); s.lemma(M.split, D, lf(m, 2 * p + 1), re(m, 2 * p + 1), m + Rr); s.assume_def(M.assoc(D[2 * p], D[2 * p + 1], s.prev.v('sum_r')))
    return LoopSpec(inv, dec=lambda s: [lambda: re(s('s.m'), s.v('r') - 1), lambda: s.v('r'), lambda: s('s.m') - s.v('r')][kind](), use=use)
def mr_use(s):
    D, m, n, L = s.e('s.data'), s('s.m'), s('s.n'), s('l'); r = s.res
    s.lemma(M.split, D, m + L, m + n, 2 * m); s.lemma(pad, D, m + n, 2 * m); s.assume_def(M.defn(D, m + L, m + L)); s.assume_def(M.defn(D, m + L, m + r + 1))
    for p in ([s.v('l')] if s.has('l') else []): hint_nodes(s, p); s.lemma(M.split, D, m + L, lf(m, p), re(m, p))
    s.assume_def(lf_def(m, m + r)); s.assume_def(D[m + r] == D[m + r])
def ml_use(s):
    D, m, n, Rr = s.e('s.data'), s('s.m'), s('s.n'), s('r'); r = s.res
    s.assume_def(M.defn(D, m + Rr, m + Rr)); s.lemma(M.left, D, m + r - 1, m + Rr)
    for p in ([s.v('r')] if s.has('r') else []): hint_nodes(s, p); s.lemma(M.split, D, lf(m, p), re(m, p), m + Rr)
    s.assume_def(re_def(m, m + r - 1))
    for p in ([s.v("r")] if s.has("r") else []): s.lemma(pow2_le, m, p)
specs += [
    FnSpec('seg_maxright', requires=lambda s: wf(s) + [And(0 <= s('l'), s('l') <= s('s.n')), pred(e)],
           ensures=lambda s: [('range', And(s('l') <= s.res, s.res <= s('s.n'))), ('holds up to the answer', pred(fold(s.e('s.data'), s('s.m') + s('l'), s('s.m') + s.res))),
               ('fails one further', Or(s.res == s('s.n'), Not(pred(fold(s.e('s.data'), s('s.m') + s('l'), s('s.m') + s.res + 1)))))],
           loops=[mr_inv(0), mr_inv(1), mr_inv(2)], use=mr_use),
    FnSpec('seg_minleft', requires=lambda s: wf(s) + [And(0 <= s('r'), s('r') <= s('s.n')), pred(e)],
           ensures=lambda s: [('range', And(0 <= s.res, s.res <= s('r'))), ('holds up to the answer', pred(fold(s.e('s.data'), s('s.m') + s.res, s('s.m') + s('r')))),
               ('fails one further', Or(s.res == 0, Not(pred(fold(s.e('s.data'), s('s.m') + s.res - 1, s('s.m') + s('r'))))))],
           loops=[ml_inv(0), ml_inv(1), ml_inv(2)], use=ml_use),
]
unit = Unit('segtree', specs, opaque={'T': 'T'}, theory=M.ax)
