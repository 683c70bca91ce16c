from irv.spec import *
from irv.unit import Unit
M = Monoid('T', 'uf_op', 'uf_e', comm=True)
T = M.T; fold, op, e, A = M.fold, M.op, M.e, M.A
sub = UF('uf_sub', T, T, T); neg = UF('uf_neg', T, T); mul = UF('uf_mul', T, T, T); ofint = UF('uf_ofint', Int, T)
a_, b_, x_ = z3.Consts('ga gb gx', T)
# abelian group, used for differences only
subinst = definition(lambda a, b: sub(op(a, b), a) == b)
GRP = M.ax + [z3.ForAll([a_, b_], sub(op(a_, b_), a_) == b_, patterns=[sub(op(a_, b_), a_)]), z3.ForAll([a_, b_], op(a_, sub(b_, a_)) == b_, patterns=[sub(b_, a_)]),
              z3.ForAll([a_, b_], op(a_, neg(b_)) == sub(a_, b_), patterns=[op(a_, neg(b_))])]
lb = lowbit; N = (1 << 30) - 1
lbd = lowbit_def
inner = Lemma('lowbit_inner', [Int, Int], lambda k, j: Implies(And(0 < k, k < j, j < k + lb(k)), j - lb(j) >= k),
    proof=lambda ih, u, k, j: [lbd(k), lbd(j), ih(k / 2, j / 2)], measure=lambda k, j: k)
nxt = Lemma('lowbit_next', [Int], lambda k: Implies(k > 0, k + lb(k) - lb(k + lb(k)) <= k - lb(k)),
    proof=lambda ih, u, k: [lbd(k), lbd(k + lb(k)), ih(k / 2), u(lb_pos, k), u(lb_pos, k / 2), u(lb_pos, (k + lb(k)) / 2)], measure=lambda k: k)
below = Lemma('lowbit_below', [Int, Int], lambda c, i: Implies(And(0 < c, i - lb(i) < c, c < i), c + lb(c) <= i),
    proof=lambda ih, u, c, i: [lbd(c), lbd(i), ih(c / 2, i / 2)], measure=lambda c, i: c)
# the previous child of the same parent
prevc = Lemma('lowbit_prev_child', [Int], lambda i: Implies(i > 0, Or(i - lb(i) == i + lb(i) - lb(i + lb(i)), And(i - lb(i) > 0, i - lb(i) + lb(i - lb(i)) == i + lb(i)))),
    proof=lambda ih, u, i: [lbd(i), lbd(i + lb(i)), lbd(i - lb(i)), ih(i / 2), u(lb_pos, i), u(lb_pos, i / 2), lbd(i / 2), lbd((i + lb(i)) / 2), lbd((i - lb(i)) / 2), u(lb_pos, (i - lb(i)) / 2)], measure=lambda i: i)
lastc = Lemma('lowbit_last_child', [Int], lambda j: Implies(And(j > 1, j % 2 == 0), j - 1 + lb(j - 1) == j),
    proof=lambda ih, u, j: [lbd(j - 1)], measure=lambda j: j)
upd = Lemma('fold_upd', [A, Int, T, Int, Int],
    lambda B_, i, v, l, r: Implies(l <= r, fold(z3.Store(B_, i, op(B_[i], v)), l, r) == If(And(l <= i, i < r), op(fold(B_, l, r), v), fold(B_, l, r))),
    proof=lambda ih, u, B_, i, v, l, r: [ih(B_, i, v, l, r - 1), M.defn(B_, l, r), M.defn(z3.Store(B_, i, op(B_[i], v)), l, r), M.comm(v, B_[r - 1]), M.assoc(fold(B_, l, r - 1), v, B_[r - 1]), M.assoc(fold(B_, l, r - 1), B_[r - 1], v)], measure=lambda B_, i, v, l, r: r - l, theory=M.ax)

# t(j,i): end of the part of node j already gathered when children below i have been processed
t = UF('fw_t', Int, Int, Int)
@definition
def t_def(j, i): return t(j, i) == If(i <= 1, j - lb(j), If(i - 1 + lb(i - 1) == j, i - 1, t(j, i - 1)))
# no child in (j-lb(j) .. i) that is skipped: value is stable over gaps
t_base = Lemma('t_base', [Int, Int], lambda j, i: Implies(And(j >= 1, i <= j - lb(j) + 1), t(j, i) == j - lb(j)),
    proof=lambda ih, u, j, i: [t_def(j, i), ih(j, i - 1), u(nxt, i - 1), u(lb_pos, i - 1), u(lb_pos, j)], measure=lambda j, i: i)
t_gap = Lemma('t_gap', [Int, Int, Int], lambda j, c, i: Implies(And(c >= 0, c < i, forall(1, lambda x: Implies(And(c < x, x < i), x + lb(x) != j), pat=lambda x: lb(x))), t(j, i) == t(j, c + 1)),
    proof=lambda ih, u, j, c, i: [t_def(j, i), ih(j, c, i - 1), lb(i - 1) == lb(i - 1)], measure=lambda j, c, i: i)
def gapinst(u, i): # for x in (i-lb(i), i): x+lb(x) <= i
    return forall(1, lambda x: u(below, x, i), pat=lambda x: lb(x))
t_child = Lemma('t_child', [Int, Int], lambda j, i: Implies(And(i >= 1, i + lb(i) == j), t(j, i) == i - lb(i)),
    proof=lambda ih, u, j, i: [u(prevc, i), u(lb_pos, i), u(t_gap, j, i - lb(i), i), gapinst(u, i), t_def(j, i - lb(i) + 1), u(t_base, j, i), u(t_base, j, i - lb(i) + 1),
                               u(lb_pos, j), Implies(i - lb(i) == 0, And(t_def(j, 1)))], measure=lambda j, i: i)
t_full = Lemma('t_full', [Int], lambda j: Implies(j >= 1, t(j, j) == j - 1),
    proof=lambda ih, u, j: [lbd(j), u(lastc, j), t_def(j, j), u(t_base, j, j)], measure=lambda j: j)

def node(D, off, Ar, j): return D[j - off] == fold(Ar, j - lb(j), j)
def wf(s, o, Ar, dat='data', n='n', off=1):
    D, nn = s.e('%s.%s' % (o, dat)), s('%s.%s' % (o, n))
    return [('size', And(0 <= nn, nn <= N, s.n('%s.%s' % (o, dat)) == nn + 1 - off)),
            ('nodes', forall(1, lambda j: Implies(And(1 <= j, j <= nn), node(D, off, Ar, j)), pat=lambda j: [lb(j), fold(Ar, j - lb(j), j)]))]
def upd_ax(Ar, i, v):
    q = lambda j: fold(z3.Store(Ar, i, op(Ar[i], v)), j - lb(j), j)
    return forall(1, lambda j: Implies(j >= 1, And(lb_pos.stmt(j), q(j) == If(And(j - lb(j) <= i, i < j), op(fold(Ar, j - lb(j), j), v), fold(Ar, j - lb(j), j)))), pat=lambda j: [q(j), fold(Ar, j - lb(j), j)])
updq = Lemma('fw_upd_nodes', [A, Int, T], lambda Ar, i, v: upd_ax(Ar, i, v),
    proof=lambda ih, u, Ar, i, v: [forall(1, lambda j: u(upd, Ar, i, v, j - lb(j), j), pat=lambda j: fold(z3.Store(Ar, i, op(Ar[i], v)), j - lb(j), j)), forall(1, lambda j: u(lb_pos, j), pat=lambda j: lb(j))], theory=M.ax)
innerq = Lemma('fw_inner_q', [Int], lambda k: forall(1, lambda j: And(inner.stmt(k, j), lb_pos.stmt(j)), pat=lambda j: lb(j)), proof=lambda ih, u, k: [forall(1, lambda j: And(u(inner, k, j), u(lb_pos, j)), pat=lambda j: lb(j))])

def add_loop(o, vv, dat='data', n='n', off=1):
    def st(s): Ar = s.old.e('arr_A'); return Ar, s('i'), vv(s)
    def inv(s):
        Ar, i, v = st(s); k = s.v('i'); D, nn = s.e('%s.%s' % (o, dat)), s('%s.%s' % (o, n))
        A2 = z3.Store(Ar, i, op(Ar[i], v))
        return [('range', And(1 <= k, k <= 2 * N, s.n('%s.%s' % (o, dat)) == nn + 1 - off)), ('covers', And(k - lb(k) <= i, i < k)),
                ('done', forall(1, lambda j: Implies(And(1 <= j, j <= nn, j < k), node(D, off, A2, j)), pat=lambda j: lb(j))),
                ('todo', forall(1, lambda j: Implies(And(1 <= j, j <= nn, j >= k), node(D, off, Ar, j)), pat=lambda j: lb(j)))]
    def use(s):
        Ar, i, v = st(s); k = s.v('i')
        s.lemma(updq, Ar, i, v); s.lemma(lb_pos, k)
        if s.prev is not None:
            k0 = s.prev.v('i'); s.lemma(nxt, k0); s.lemma(innerq, k0); s.lemma(lb_pos, k0)
        else:
            # entry: nodes up to i do not contain position i
            s.lemma(innerq, k)
    return LoopSpec(inv, dec=lambda s: 2 * N + 1 - s.v('i'), use=use)
def sum_loop(o, R, dat='data', n='n', off=1, acc='s'):
    def inv(s):
        Ar = s.old.e('arr_A'); r = s.v('r')
        return [('range', And(0 <= r, r <= s('%s.%s' % (o, n)))), ('sum', op(s.v(acc), fold(Ar, 0, r)) == fold(Ar, 0, R(s)))]
    def use(s):
        Ar = s.old.e('arr_A'); s.assume_def(M.defn(Ar, 0, 0)); s.lemma(lb_pos, s.v('r'))
        if s.prev is not None: r0 = s.prev.v('r'); s.lemma(M.split, Ar, 0, r0 - lb(r0), r0); s.lemma(lb_pos, r0); s.assume_def(M.comm(fold(Ar, 0, r0 - lb(r0)), fold(Ar, r0 - lb(r0), r0)))
    return LoopSpec(inv, dec=lambda s: s.v('r'), use=use)
def upd_post(o, vv, dat='data', n='n', off=1):
    def ens(s):
        Ar = s.old.e('arr_A'); i = s('i'); v = vv(s)
        return wf(s, o, z3.Store(Ar, i, op(Ar[i], v)), dat, n, off) + [('n', s('%s.%s' % (o, n)) == s.old('%s.%s' % (o, n)))]
    return ens
def build_loop(o, src, dat, n, off, down=False):
    def inv(s):
        D, nn = s.e('%s.%s' % (o, dat)), s('%s.%s' % (o, n)); i = s.v('i'); a = src(s)
        return [('range', And(1 <= i, i <= nn + 1, nn == s.n('a'), s.n('%s.%s' % (o, dat)) == nn + 1 - off)),
                ('done', forall(1, lambda j: Implies(And(1 <= j, j < i), node(D, off, a, j)), pat=lambda j: lb(j))),
                ('todo', forall(1, lambda j: Implies(And(i <= j, j <= nn), D[j - off] == op(fold(a, j - lb(j), t(j, i)), a[j - 1] if not off == 0 else e)), pat=lambda j: lb(j)))]
    def use(s):
        a = src(s); i = s.v('i')
        s.lemma(tq, a, i); s.lemma(lb_pos, i)
        if s.prev is not None: i0 = s.prev.v('i'); s.lemma(tq, a, i0); p = i0 + lb(i0); s.assume_def(M.comm(a[p - 1], fold(a, i0 - lb(i0), i0)))
    return LoopSpec(inv, dec=lambda s: s('%s.%s' % (o, n)) + 1 - s.v('i'), use=use)
def t_facts(a, i, j):
    return And(lb_pos.stmt(j), t_def(j, i + 1), t_base.stmt(j, i), t_child.stmt(j, i), t_full.stmt(j), M.defn(a, j - lb(j), j), M.defn(a, j - lb(j), j - lb(j)),
               Implies(And(i >= 1, j == i + lb(i)), And(lb_pos.stmt(i), nxt.stmt(i), M.split.stmt(a, j - lb(j), i - lb(i), i))))
tq = Lemma('fw_t_facts', [A, Int], lambda a, i: forall(1, lambda j: Implies(And(j >= i, i >= 1), t_facts(a, i, j)), pat=lambda j: lb(j)),
    proof=lambda ih, u, a, i: [And(u(t_full, i), u(lb_pos, i), u(nxt, i)), forall(1, lambda j: And(u(t_full, j), u(lb_pos, j), u(t_base, j, i), u(t_child, j, i), t_def(j, i + 1),
        M.defn(a, j - lb(j), j), M.defn(a, j - lb(j), j - lb(j)), u(M.split, a, j - lb(j), i - lb(i), i)), pat=lambda j: lb(j))], theory=M.ax)
OLDV = lambda s: s.old('v')
idx = lambda o, n: (lambda s: And(0 <= s('i'), s('i') < s('%s.%s' % (o, n))))
pre = lambda o, dat='data', n='n', off=1: (lambda s: wf(s, o, s.e('arr_A'), dat, n, off))
cur = lambda s: s.old.e('arr_A')[s('i')]
def get_use(s):
    Ar = s.old.e('arr_A'); s.lemma(M.split, Ar, 0, s('i'), s('i') + 1); s.assume_def(M.defn(Ar, s('i'), s('i') + 1)); s.assume_def(M.defn(Ar, s('i'), s('i'))); s.assume_def(M.defn(Ar, 0, 0)); s.assume_def(subinst(fold(Ar, 0, s('i')), Ar[s('i')]))
def proxy(name, vv, cur_first):
    ls = [sum_loop('f', lambda s: s('i') + 1), sum_loop('f', lambda s: s('i'))] if cur_first else []
    al = add_loop('f', vv)
    if cur_first:
        u0 = al.use
        al.use = lambda s: (get_use(s), u0(s))
    return FnSpec(name, requires=lambda s: pre('f')(s) + [idx('f', 'n')(s)], ensures=lambda s: upd_post('f', vv)(s), loops=ls + [al],
                  use=(lambda s: get_use(s)) if cur_first else None)
specs = [
    FnSpec('fw_ctor_n', requires=lambda s: And(0 <= s('n'), s('n') <= N), ensures=lambda s: wf(s, 'out', z3.K(Int, e)) + [s('out.n') == s('n')], use=lambda s: s.lemma(zeroq)),
    FnSpec('fw_ctor_v', requires=lambda s: s.n('a') <= N, ensures=lambda s: wf(s, 'out', s.e('a')) + [s('out.n') == s.n('a')], loops=[build_loop('out', lambda s: s.e('a'), 'data', 'n', 1)]),
    FnSpec('fw_add', requires=lambda s: pre('f')(s) + [idx('f', 'n')(s)], ensures=upd_post('f', OLDV), loops=[add_loop('f', OLDV)]),
    FnSpec('fw_sum', requires=lambda s: pre('f')(s) + [And(0 <= s('l'), s('l') <= s('r'), s('r') <= s('f.n'))], ensures=lambda s: ('sum', s.res == fold(s.e('arr_A'), s('l'), s('r'))),
           loops=[sum_loop('f', lambda s: s('r')), sum_loop('f', lambda s: s('l'))], use=lambda s: (s.lemma(M.split, s.e('arr_A'), 0, s('l'), s('r')), s.assume_def(M.defn(s.e('arr_A'), 0, 0)), s.assume_def(subinst(fold(s.e('arr_A'), 0, s('l')), fold(s.e('arr_A'), s('l'), s('r')))))),
    FnSpec('fw_get', requires=lambda s: pre('f')(s) + [idx('f', 'n')(s)], ensures=lambda s: ('get', s.res == cur(s)),
           loops=[sum_loop('f', lambda s: s('i') + 1), sum_loop('f', lambda s: s('i'))], use=get_use),
    proxy('fw_pluseq', OLDV, False), proxy('fw_minuseq', lambda s: neg(OLDV(s)), False), proxy('fw_inc', lambda s: ofint(1), False),
    proxy('fw_assign', lambda s: sub(OLDV(s), cur(s)), True), proxy('fw_muleq', lambda s: sub(mul(cur(s), OLDV(s)), cur(s)), True),
    FnSpec('fp_ctor_n', requires=lambda s: And(0 <= s('n'), s('n') <= N), ensures=lambda s: wf(s, 'out', z3.K(Int, e), '_dat', '_n', 0) + [s('out._n') == s('n')], use=lambda s: s.lemma(zeroq)),
    FnSpec('fp_apply', requires=lambda s: pre('f', '_dat', '_n', 0)(s) + [idx('f', '_n')(s)], ensures=upd_post('f', OLDV, '_dat', '_n', 0), loops=[add_loop('f', OLDV, '_dat', '_n', 0)]),
    FnSpec('fp_prefix', requires=lambda s: pre('f', '_dat', '_n', 0)(s) + [And(0 <= s('r'), s('r') <= s('f._n'))], ensures=lambda s: ('sum', s.res == fold(s.e('arr_A'), 0, s('r'))),
           loops=[sum_loop('f', lambda s: s('r'), '_dat', '_n', 0, 'res')], use=lambda s: s.assume_def(M.defn(s.e('arr_A'), 0, 0))),
    FnSpec('fp_ctor_v', requires=lambda s: s.n('a') <= N, ensures=lambda s: wf(s, 'out', s.e('a'), '_dat', '_n', 0) + [s('out._n') == s.n('a')],
           loops=[build_loop('out', lambda s: s.e('a'), '_dat', '_n', 0)]),
]
zero = Lemma('fold_zero', [Int, Int], lambda l, r: fold(z3.K(Int, e), l, r) == e, proof=lambda ih, u, l, r: [M.defn(z3.K(Int, e), l, r), ih(l, r - 1)], measure=lambda l, r: If(r > l, r - l, 0), theory=M.ax)
zeroq = Lemma('fw_zero_q', [], lambda: forall(1, lambda j: fold(z3.K(Int, e), j - lb(j), j) == e, pat=lambda j: lb(j)), proof=lambda ih, u: [forall(1, lambda j: u(zero, j - lb(j), j), pat=lambda j: lb(j))], theory=M.ax)
unit = Unit('fenwick', specs, opaque={'T': 'T'}, theory=M.ax)
