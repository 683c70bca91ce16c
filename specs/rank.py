from specs.bits import *
from specs.nt import divu, mul_nn, mul_mono
from irv.unit import Unit
AI = z3.ArraySort(Int, Int); V = z3.IntVal
MAXN = (1 << 30) - 2
B = lambda A, i: If(A[i] != 0, V(1), V(0))
cnt, val, pc = UF('ones', AI, Int, Int, Int), UF('packed', AI, Int, Int, Int), UF('popcnt', Int, Int)
@definition
def cnt_def(A, l, r): return cnt(A, l, r) == If(r <= l, 0, cnt(A, l, r - 1) + B(A, r - 1))
@definition
def val_def(A, b, k): return val(A, b, k) == If(k <= 0, 0, B(A, b) + 2 * val(A, b + 1, k - 1))
@definition
def pc_def(x): return pc(x) == If(x <= 0, 0, x % 2 + pc(x / 2))
def nn(k): return If(k > 0, k, 0)
cnt_split = Lemma('ones_split', [AI, Int, Int, Int], lambda A, l, m, r: Implies(And(l <= m, m <= r), cnt(A, l, r) == cnt(A, l, m) + cnt(A, m, r)), proof=lambda ih, u, A, l, m, r: [cnt_def(A, l, r), cnt_def(A, m, r), ih(A, l, m, r - 1)], measure=lambda A, l, m, r: r - m)
cnt_rng = Lemma('ones_range', [AI, Int, Int], lambda A, l, r: And(0 <= cnt(A, l, r), cnt(A, l, r) <= If(l <= r, r - l, 0)), proof=lambda ih, u, A, l, r: [cnt_def(A, l, r), ih(A, l, r - 1)], measure=lambda A, l, r: nn(r - l))
val_rng = Lemma('packed_range', [AI, Int, Int], lambda A, b, k: And(0 <= val(A, b, k), val(A, b, k) < pow2(k)), proof=lambda ih, u, A, b, k: [val_def(A, b, k), p2_def(k), ih(A, b + 1, k - 1)], measure=lambda A, b, k: nn(k))
val_split = Lemma('packed_split', [AI, Int, Int, Int], lambda A, b, k, m: Implies(And(0 <= k, k <= m), val(A, b, m) == val(A, b, k) + pow2(k) * val(A, b + k, m - k)),
    proof=lambda ih, u, A, b, k, m: [val_def(A, b, m), val_def(A, b, k), p2_def(k), ih(A, b + 1, k - 1, m - 1)], measure=lambda A, b, k, m: nn(k))
val_get = Lemma('packed_get', [AI, Int, Int, Int], lambda A, b, k, m: Implies(And(0 <= k, k < m), (val(A, b, m) / pow2(k)) % 2 == B(A, b + k)),
    proof=lambda ih, u, A, b, k, m: [u(val_split, A, b, k, m), u(val_rng, A, b, k), u(p2_pos, k), u(divu, val(A, b, m), pow2(k), val(A, b + k, m - k), val(A, b, k)), val_def(A, b + k, m - k)])
val_or = Lemma('packed_set_bit', [AI, Int, Int], lambda A, b, k: Implies(k >= 0, bor(val(A, b, k), B(A, b + k) * pow2(k)) == val(A, b, k + 1)),
    proof=lambda ih, u, A, b, k: [u(bits_bv), bor_def(val(A, b, k), B(A, b + k) * pow2(k)), val_def(A, b, k), val_def(A, b, k + 1), val_def(A, b + 1, k), val_def(A, b + 1, V(0)), p2_def(k), u(p2_pos, k), u(p2_pos, k - 1), u(val_rng, A, b + 1, k - 1), u(val_rng, A, b, k), ih(A, b + 1, k - 1), u(val_zero, A, b + 1, k - 1), B(A, b + k) == B(A, b + 1 + (k - 1))], measure=lambda A, b, k: k)
# an all-zero prefix contributes nothing: val(A, b, k + 1) = val(A, b, k) + bit * 2^k
val_zero = Lemma('packed_last_bit', [AI, Int, Int], lambda A, b, k: Implies(k >= 0, val(A, b, k + 1) == val(A, b, k) + If(A[b + k] != 0, pow2(k), 0)), proof=lambda ih, u, A, b, k: [val_def(A, b, k + 1), val_def(A, b, k), val_def(A, b + 1, k), p2_def(k), ih(A, b + 1, k - 1), val_def(A, b + 1, V(0))], measure=lambda A, b, k: k)
band_0 = Lemma('and_zero', [Int], lambda x: Implies(x >= 0, And(band(x, 0) == 0, band(0, x) == 0)), proof=lambda ih, u, x: [u(bits_bv), band_def(x, V(0)), band_def(V(0), x)])
val_and = Lemma('packed_mask', [AI, Int, Int, Int], lambda A, b, k, m: Implies(And(0 <= k, k <= m), band(val(A, b, m), pow2(k) - 1) == val(A, b, k)),
    proof=lambda ih, u, A, b, k, m: [band_def(val(A, b, m), pow2(k) - 1), val_def(A, b, m), val_def(A, b, k), val_def(A, b + 1, k - 1), p2_def(k), u(p2_pos, k), u(p2_pos, k - 1), u(val_rng, A, b + 1, m - 1), u(val_rng, A, b, m), u(val_rng, A, b, k), u(val_rng, A, b + 1, k - 1), ih(A, b + 1, k - 1, m - 1), u(band_0, val(A, b, m)), u(val_split, A, b, k, m), u(val_and0, A, b, k, m)], measure=lambda A, b, k, m: k)
val_and0 = Lemma('packed_zero_prefix', [AI, Int, Int, Int], lambda A, b, k, m: Implies(And(0 <= k, k <= m, val(A, b, m) == 0), val(A, b, k) == 0), proof=lambda ih, u, A, b, k, m: [u(val_split, A, b, k, m), u(val_rng, A, b, k), u(val_rng, A, b + k, m - k), u(p2_pos, k), u(mul_nn, pow2(k), val(A, b + k, m - k))])
pc_val = Lemma('popcount_of_packed', [AI, Int, Int], lambda A, b, k: Implies(k >= 0, pc(val(A, b, k)) == cnt(A, b, b + k)),
    proof=lambda ih, u, A, b, k: [val_def(A, b, k), pc_def(val(A, b, k)), pc_def(V(0)), cnt_def(A, b, b + k), cnt_def(A, b, b), cnt_def(A, b, b + 1), u(cnt_split, A, b, b + 1, b + k), ih(A, b + 1, k - 1), u(val_rng, A, b + 1, k - 1), cnt_def(A, b + 1, b + k)], measure=lambda A, b, k: k)
# ---- popcount8
def pc_use(s):
    x = s('x'); m55, m33 = V(0x55), V(0x33); s.lemma(bits_bv)
    t = x
    for i in range(9): s.assume_def(pc_def(t)); t = t / 2
    q = band(x, m55) + band(x / 2, m55)
    for y, m in ((x, 0x55), (x / 2, 0x55), (q, 0x33), (q / 4, 0x33)):
        for i in range(8): s.assume_def(band_def(y, V(m))); y = y / 2; m //= 2
C_pc = FnSpec('popcount8', match=r'BitVector::popcount8', requires=lambda s: And(0 <= s('x'), s('x') < 256), ensures=lambda s: [('number of one bits', s.res == pc(s('x')))], use=pc_use)
# ---- the structure
A_ = z3.Const('ghost_bits', AI)
mn = lambda a, b: If(a < b, a, b)
def sizes(s, o):
    n, nl, ns = s(o + '.n'), s(o + '.nl'), s(o + '.ns')
    return [('sizes', And(0 <= n, n <= MAXN, nl == n / 256 + 1, ns == n / 8 + 1, s.n(o + '.cum_l') == nl, s.n(o + '.cum_s') == ns, s.n(o + '.bits') == ns))]
def blocks(s, o, A, m):
    n, L, S, W = s(o + '.n'), s.e(o + '.cum_l'), s.e(o + '.cum_s'), s.e(o + '.bits')
    return [('large blocks', forall(1, lambda j: Implies(And(0 <= j, 32 * j < m), L[j] == cnt(A, 0, 256 * j)), pat=lambda j: L[j])), ('small blocks', forall(1, lambda j: Implies(And(0 <= j, j < m), S[j] == cnt(A, 256 * (j / 32), 8 * j)), pat=lambda j: S[j]))]
def words(s, o, A, m): n, W = s(o + '.n'), s.e(o + '.bits'); return ('words', forall(1, lambda j: Implies(And(0 <= j, j < s(o + '.ns')), W[j] == If(j < m, val(A, 8 * j, mn(V(8), n - 8 * j)), 0)), pat=lambda j: W[j]))
def zeros(s, o, m): S = s.e(o + '.cum_s'); return ('not yet filled', forall(1, lambda j: Implies(And(m <= j, j < s(o + '.ns')), S[j] == 0), pat=lambda j: S[j]))
def wf(s, o, A): return sizes(s, o) + blocks(s, o, A, s(o + '.ns')) + [words(s, o, A, s(o + '.ns'))]
def o_inv(s): i, k, A = s.v('i'), s.v('index_s'), s.e('a'); return sizes(s, 'out') + [('position', And(1 <= k, k <= s('out.ns'), i == 8 * (k - 1), s.n('a') >= s('out.n')))] + blocks(s, 'out', A, k) + [words(s, 'out', A, k - 1), zeros(s, 'out', k)]
def i_inv(s):
    i, k, c, A, W = s.v('i'), s.v('index_s'), s.v('count'), s.e('a'), s.e('out.bits'); b = 8 * (k - 1)
    return sizes(s, 'out') + [('position', And(1 <= k, k < s('out.ns'), b <= i, i <= 8 * k, s.n('a') >= s('out.n'))), ('count', c == cnt(A, 256 * ((k - 1) / 32), i))] + blocks(s, 'out', A, k) + [('words', forall(1, lambda j: Implies(And(0 <= j, j < s('out.ns')), W[j] == If(j < k - 1, val(A, 8 * j, V(8)), If(j == k - 1, val(A, b, i - b), 0))), pat=lambda j: W[j])), zeros(s, 'out', k)]
def f_inv(s):
    i, A, W = s.v('i'), s.e('a'), s.e('out.bits'); ns = s('out.ns'); b = 8 * (ns - 1)
    return sizes(s, 'out') + [('position', And(b <= i, i <= s('out.n'), s.n('a') >= s('out.n')))] + blocks(s, 'out', A, ns) + [('words', forall(1, lambda j: Implies(And(0 <= j, j < ns), W[j] == If(j < ns - 1, val(A, 8 * j, V(8)), val(A, b, i - b))), pat=lambda j: W[j]))]
def setbit(s, i):
    A = s.e('a'); b = 8 * (i / 8); k = i % 8; s.lemma(val_or, A, b, k); s.lemma(val_rng, A, b, k + 1); s.lemma(val_rng, A, b, k); s.assume_def(p2_def(k)); s.lemma(p2_pos, k); s.lemma(val_def_zero, A, b)
    for t in range(9): s.assume_def(p2_def(V(t)))
val_def_zero = Lemma('packed_empty', [AI, Int], lambda A, b: val(A, b, 0) == 0, proof=lambda ih, u, A, b: [val_def(A, b, V(0))])
def o_use(s):
    A = s.e('a'); s.assume_def(cnt_def(A, V(0), V(0)))
    if s.prev is None: return
    k = s.prev.v('index_s'); g = 256 * ((k - 1) / 32); s.lemma(cnt_split, A, V(0), g, 8 * k); s.lemma(cnt_rng, A, g, 8 * k); s.assume_def(cnt_def(A, 8 * k, 8 * k)); s.lemma(val_def_zero, A, 8 * k)
def i_use(s):
    A, k = s.e('a'), s.v('index_s'); b = 8 * (k - 1); s.lemma(val_def_zero, A, b)
    if s.prev is None: return
    i = s.prev.v('i'); setbit(s, i); s.assume_def(cnt_def(A, 256 * ((k - 1) / 32), i + 1))
def f_use(s):
    A = s.e('a'); s.lemma(val_def_zero, A, 8 * (s('out.ns') - 1))
    if s.prev is not None: setbit(s, s.prev.v('i'))
def o_head(s): k, A = s.v('index_s'), s.e('a'); g = 256 * ((k - 1) / 32); s.lemma(cnt_rng, A, g, 8 * k); s.lemma(cnt_rng, A, V(0), g)
ctor = FnSpec('bv_ctor', requires=lambda s: And(0 <= s('n'), s('n') <= MAXN, s('n') <= s.n('a')), ensures=lambda s: wf(s, 'out', s.e('a')) + [('length', s('out.n') == s('n'))],
    loops=[LoopSpec(o_inv, dec=lambda s: s('out.ns') - s.v('index_s'), use=o_use, head=o_head), LoopSpec(f_inv, dec=lambda s: s('out.n') - s.v('i'), use=f_use, head=lambda s: setbit(s, s.v('i'))), LoopSpec(i_inv, dec=lambda s: 8 * s.v('index_s') - s.v('i'), use=i_use, head=lambda s: (setbit(s, s.v('i')), s.lemma(cnt_rng, s.e('a'), 256 * ((s.v('index_s') - 1) / 32), s.v('i'))))])
def rk(A, v, i): return If(v, cnt(A, 0, i), i - cnt(A, 0, i))
def get(nm):
    def use(s): i = s('i'); s.lemma(val_get, A_, 8 * (i / 8), i % 8, mn(V(8), s('s.n') - 8 * (i / 8)))
    return FnSpec(nm, requires=lambda s: wf(s, 's', A_) + [And(0 <= s('i'), s('i') < s('s.n'))], ensures=lambda s: [('the bit', s.res == (A_[s('i')] != 0))], use=use, pre=lambda s: [s.assume_def(p2_def(V(t))) for t in range(9)])
def rank_h(s, o, i, pre=False):
    g, b, k = 256 * (i / 256), 8 * (i / 8), i % 8
    s.lemma(val_and, A_, b, k, mn(V(8), s(o + '.n') - b)); s.lemma(pc_val, A_, b, k); s.lemma(cnt_split, A_, V(0), g, i); s.lemma(cnt_split, A_, g, b, i); s.lemma(cnt_rng, A_, V(0), i); s.lemma(cnt_rng, A_, V(0), g); s.lemma(cnt_rng, A_, g, b); s.lemma(cnt_rng, A_, b, i); s.lemma(val_rng, A_, b, k); s.lemma(p2_pos, k)
    for t in range(9): s.assume_def(p2_def(V(t)))
C_rank = FnSpec('BitVector::rank', match=r'BitVector::rank\(bool, int\) const', requires=lambda s: wf(s, 'this', A_) + [And(0 <= s('i'), s('i') <= s('this.n'))], ensures=lambda s: [('number of equal bits before i', s.res == rk(A_, s('val'), s('i')))], use=lambda s: rank_h(s, 'this', s('i')), pre=lambda s: rank_h(s, 'this', s('i')))
w_rank = FnSpec('bv_rank', requires=lambda s: wf(s, 's', A_) + [And(0 <= s('i'), s('i') <= s('s.n'))], ensures=lambda s: [('number of equal bits before i', s.res == rk(A_, s('v'), s('i')))])
w_range = FnSpec('bv_rank_range', requires=lambda s: wf(s, 's', A_) + [And(0 <= s('l'), s('l') <= s('r'), s('r') <= s('s.n'))], ensures=lambda s: [('number of equal bits in the interval', s.res == If(s('v'), cnt(A_, s('l'), s('r')), s('r') - s('l') - cnt(A_, s('l'), s('r'))))], pre=lambda s: (s.lemma(cnt_split, A_, V(0), s('l'), s('r')), s.lemma(cnt_rng, A_, V(0), s('l')), s.lemma(cnt_rng, A_, s('l'), s('r'))))
J = z3.Int('ghost_pos')
def s_inv(s):
    l, r, n = s.v('l'), s.v('r'), s('s.n'); v, k = s('v'), s('k')
    return [('range', And(-1 <= l, l < r, r <= n + 1)), ('too few', Or(l == -1, rk(A_, v, l) < k)), ('enough', Or(r == n + 1, rk(A_, v, r) >= k))]
def s_end(s):
    l = s.v('l'); s.lemma(cnt_split, A_, V(0), J, l); s.lemma(cnt_rng, A_, J, l)
def s_ens(s):
    n, v, k = s('s.n'), s('v'), s('k'); some = rk(A_, v, n) >= k
    return [('found', Implies(some, And(0 <= s.res, s.res <= n, rk(A_, v, s.res) >= k))), ('first', Implies(And(some, 0 <= J, J < s.res), rk(A_, v, J) < k)), ('default', Implies(Not(some), s.res == s('d')))]
select = FnSpec('bv_select', requires=lambda s: wf(s, 's', A_) + [], ensures=s_ens, loops=[LoopSpec(s_inv, dec=lambda s: s.v('r') - s.v('l'), head=lambda s: s.lemma(cnt_rng, A_, V(0), (s.v('l') + s.v('r')) / 2))], use=lambda s: (s_end(s), s.lemma(cnt_split, A_, V(0), s.v('r'), s('s.n')), s.lemma(cnt_rng, A_, s.v('r'), s('s.n'))))
specs = [C_pc, ctor, get('bv_get'), get('bv_access'), C_rank, w_rank, w_range, select]
unit = Unit('rank', specs, contracts=[C_pc, C_rank], keep=[r'BitVector::rank\(bool, int\)', r'popcount8'])
