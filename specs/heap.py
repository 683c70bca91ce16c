from irv.spec import *
from irv.unit import Unit
T = OSort('T'); AT = z3.ArraySort(Int, T); V = z3.IntVal
lt = UF('uf_lt', T, T, Bool); X = z3.Const('ghost_x', T)       # X: an arbitrary value; the postconditions on its multiplicity hold for every value
def _ax():
    x, y, z = z3.Consts('wx wy wz', T); le = lambda a, b: Not(lt(b, a))
    return [z3.ForAll([x, y], Not(And(lt(x, y), lt(y, x))), patterns=[lt(x, y)]),
            z3.ForAll([x, y, z], Implies(And(Not(lt(y, x)), Not(lt(z, y))), Not(lt(z, x))), patterns=[z3.MultiPattern(lt(y, x), lt(z, y))])]
cnt = UF('count', AT, Int, Int)
@definition
def cnt_def(A, n): return cnt(A, n) == If(n <= 0, 0, cnt(A, n - 1) + If(A[n - 1] == X, 1, 0))
cnt_upd = Lemma('count_update', [AT, Int, T, Int], lambda A, i, v, n: cnt(z3.Store(A, i, v), n) == If(And(0 <= i, i < n), cnt(A, n) - If(A[i] == X, 1, 0) + If(v == X, 1, 0), cnt(A, n)),
    proof=lambda ih, u, A, i, v, n: [cnt_def(A, n), cnt_def(z3.Store(A, i, v), n), ih(A, i, v, n - 1)], measure=lambda A, i, v, n: If(n > 0, n, 0))
par = lambda i: (i - 1) / 2
MAXN = 1 << 29
def mk(tag, p, flip):
    le = (lambda a, b: Not(lt(b, a))) if not flip else (lambda a, b: Not(lt(a, b)))
    def heap(A, n, lo=None): return forall(1, lambda i: Implies(And(1 <= i, i < n, *([par(i) >= lo] if lo is not None else [])), le(A[par(i)], A[i])), pat=lambda i: A[i])
    top = Lemma('heap_top_' + tag, [AT, Int, Int], lambda A, n, i: Implies(And(heap(A, n), 0 <= i, i < n), le(A[0], A[i])), proof=lambda ih, u, A, n, i: [ih(A, n, par(i))], measure=lambda A, n, i: i, theory=_ax())
    D = lambda s, o: (s.e(o + '._dat'), s.n(o + '._dat'))
    size = lambda s, o: ('size', And(0 <= D(s, o)[1], D(s, o)[1] <= MAXN))
    def wf(s, o): return [size(s, o), ('heap order', heap(*D(s, o)))]
    def up_state(A, n, cur, val): return [('order elsewhere', forall(1, lambda i: Implies(And(1 <= i, i < n, i != cur, par(i) != cur), le(A[par(i)], A[i])), pat=lambda i: A[i])),
            ('below the hole', forall(1, lambda i: Implies(And(1 <= i, i < n, par(i) == cur), And(le(val, A[i]), Implies(cur > 0, le(A[par(cur)], A[i])))), pat=lambda i: A[i]))]
    same = lambda s, o: ('contents', And(D(s, o)[1] == D(s.old, o)[1], cnt(*D(s, o)) == cnt(*D(s.old, o))))
    def up_inv(s):
        A, n = D(s, 'this'); A0, n0 = D(s.old, 'this'); cur, val = s.v('cur'), s.v('val')
        return [('range', And(0 <= cur, cur <= s('leaf'), n == n0)), ('contents', cnt(z3.Store(A, cur, val), n) == cnt(A0, n))] + up_state(A, n, cur, val)
    def up_use(s):
        A, n = D(s, 'this'); val = s.v('val') if s.prev is not None else None
        if s.prev is None: A0, n0 = D(s.old, 'this'); s.lemma(cnt_upd, A, s.v('cur'), s.v('val'), n)
        else:
            P, _ = D(s.prev, 'this'); c = s.prev.v('cur'); s.lemma(cnt_upd, P, c, val, n); s.lemma(cnt_upd, P, c, P[par(c)], n); s.lemma(cnt_upd, z3.Store(P, c, P[par(c)]), par(c), val, n)
    C_up = FnSpec(tag + ' heapify_up', match=r'BinaryHeap<T, Less, suisen::%s_heap_tag>::heapify_up' % tag, modifies=lambda s: ['this._dat'],
        requires=lambda s: [size(s, 'this'), And(0 <= s('leaf'), s('leaf') < D(s, 'this')[1], s('root') == 0)] + up_state(*D(s, 'this'), s('leaf'), D(s, 'this')[0][s('leaf')]),
        ensures=lambda s: wf(s, 'this') + [same(s, 'this')], loops=[LoopSpec(up_inv, dec=lambda s: s.v('cur'), use=up_use)])
    def down_state(A, n, cur, val, root): return [('order elsewhere', forall(1, lambda i: Implies(And(1 <= i, i < n, par(i) >= root, i != cur, par(i) != cur), le(A[par(i)], A[i])), pat=lambda i: A[i])),
            ('around the hole', And(Implies(cur > root, le(A[par(cur)], val)), forall(1, lambda i: Implies(And(1 <= i, i < n, par(i) == cur, cur > root), le(A[par(cur)], A[i])), pat=lambda i: A[i])))]
    def down_inv(s):
        A, n = D(s, 'this'); A0, n0 = D(s.old, 'this'); cur, val, root = s.v('cur'), s.v('val'), s('root')
        return [('range', And(root <= cur, cur < n, n == n0, Implies(cur > root, par(cur) >= root))), ('contents', cnt(z3.Store(A, cur, val), n) == cnt(A0, n))] + down_state(A, n, cur, val, root)
    def down_use(s):
        A, n = D(s, 'this'); val = s.v('val')
        if s.prev is None: s.lemma(cnt_upd, A, s.v('cur'), val, n)
        else:
            P, _ = D(s.prev, 'this'); c = s.prev.v('cur'); k = s.v('cur'); s.lemma(cnt_upd, P, c, val, n); s.lemma(cnt_upd, P, c, P[k], n); s.lemma(cnt_upd, z3.Store(P, c, P[k]), k, val, n)
    C_dn = FnSpec(tag + ' heapify_down', match=r'BinaryHeap<T, Less, suisen::%s_heap_tag>::heapify_down' % tag, modifies=lambda s: ['this._dat'],
        requires=lambda s: [size(s, 'this'), And(0 <= s('root'), s('root') < D(s, 'this')[1]), ('heap below', heap(*D(s, 'this'), s('root') + 1))],
        ensures=lambda s: [size(s, 'this'), ('heap order', heap(*D(s, 'this'), s('root'))), same(s, 'this')], loops=[LoopSpec(down_inv, dec=lambda s: D(s, 'this')[1] - s.v('cur'), use=down_use)])
    def push_pre(s): A, n = D(s, 's'); B = z3.Store(A, n, s('v')); s.lemma(cnt_upd, A, n, s('v'), n); s.assume_def(cnt_def(B, n + 1))
    def pop_pre(s):
        A, n = D(s, 's'); i = z3.Int('ghost_i'); s.lemma(top, A, n, i); B = z3.Store(z3.Store(A, 0, A[n - 1]), n - 1, A[0])
        s.lemma(cnt_upd, A, V(0), A[n - 1], n); s.lemma(cnt_upd, z3.Store(A, 0, A[n - 1]), n - 1, A[0], n); s.assume_def(cnt_def(B, n)); s.assume_def(cnt_def(A, n)); s.assume_def(cnt_def(B, n - 1))
    best = lambda s, r: (lambda i: ('precedes every element', Implies(And(0 <= i, i < D(s, 's')[1]), le(r, D(s, 's')[0][i]))))(z3.Int('ghost_i'))
    def b_inv(s): A, n = D(s, 's'); i = s.v('i'); return [('range', And(-1 <= i, i < n, n == D(s.old, 's')[1], n <= MAXN)), ('heap below', heap(A, n, i + 1)), same(s, 's')]
    return [C_up, C_dn], [FnSpec(p + '_ctor', ensures=lambda s: wf(s, 's') + [D(s, 's')[1] == 0]),
        FnSpec(p + '_push', requires=lambda s: wf(s, 's') + [D(s, 's')[1] < MAXN], ensures=lambda s: wf(s, 's') + [('one more element', And(D(s, 's')[1] == D(s.old, 's')[1] + 1, cnt(*D(s, 's')) == cnt(*D(s.old, 's')) + If(s.old('v') == X, 1, 0)))], pre=push_pre),
        FnSpec(p + '_top', requires=lambda s: wf(s, 's') + [D(s, 's')[1] > 0], ensures=lambda s: [('first element', s.res == D(s, 's')[0][0]), best(s, s.res)], pre=lambda s: s.lemma(top, *D(s, 's'), z3.Int('ghost_i'))),
        FnSpec(p + '_pop', requires=lambda s: wf(s, 's') + [D(s, 's')[1] > 0], ensures=lambda s: wf(s, 's') + [best(s.old, s.res), ('exactly that element removed', And(D(s, 's')[1] == D(s.old, 's')[1] - 1, cnt(*D(s, 's')) == cnt(*D(s.old, 's')) - If(s.res == X, 1, 0)))], pre=pop_pre),
        FnSpec(p + '_build', requires=lambda s: [size(s, 's')], ensures=lambda s: wf(s, 's') + [same(s, 's')], loops=[LoopSpec(b_inv, dec=lambda s: s.v('i') + 1)]),
        FnSpec(p + '_size', requires=lambda s: size(s, 's'), ensures=lambda s: s.res == D(s, 's')[1]), FnSpec(p + '_empty', requires=lambda s: size(s, 's'), ensures=lambda s: (s.res if z3.is_bool(s.res) else s.res != 0) == (D(s, 's')[1] == 0))]

# ---- interval heap: even positions form a min-heap, odd positions a max-heap, position pairs (2k, 2k+1) are ordered
le = lambda a, b: Not(lt(b, a))
pr = lambda i: ((i - 2) / 4) * 2
odd = lambda i: i % 2 == 1
even = lambda i: i % 2 == 0
kk = UF('kk', Int, Bool)        # instantiation marker for the quantified order conditions: true everywhere
@definition
def kk_def(i): return kk(i)
fa = lambda f: forall(1, lambda i: Implies(kk(i), f(i)), pat=lambda i: kk(i))
def mark(s, *t):
    for x in t: s.assume_def(kk_def(x))
def im(A, n, ex=lambda i: False): return ('minimum order', fa(lambda i: Implies(And(even(i), 2 <= i, i < n, Not(ex(i))), le(A[pr(i)], A[i]))))
def iM(A, n, ex=lambda i: False): return ('maximum order', fa(lambda i: Implies(And(odd(i), 3 <= i, i < n, Not(ex(i))), le(A[i], A[pr(i) + 1]))))
def iP(A, n, ex=lambda i: False): return ('pairs', fa(lambda i: Implies(And(even(i), 0 <= i, i + 1 < n, Not(ex(i))), le(A[i], A[i + 1]))))
def iL(A, n, ex=False): return ('last', Implies(And(odd(n), n >= 3, Not(ex)), le(A[n - 1], A[pr(n - 1) + 1])))
def inv(A, n): return [im(A, n), iM(A, n), iP(A, n), iL(A, n)]
_i = z3.Int('ghost_i')
_all = lambda A, n: And(*[x[1] for x in inv(A, n)])
lo = Lemma('interval_min', [AT, Int, Int], lambda A, n, i: Implies(And(_all(A, n), 0 <= i, i < n), le(A[0], A[i])), proof=lambda ih, u, A, n, i: [kk_def(i), kk_def(i - 1), ih(A, n, If(even(i), pr(i), i - 1))], measure=lambda A, n, i: i, theory=_ax())
him = Lemma('interval_max_odd', [AT, Int, Int], lambda A, n, i: Implies(And(_all(A, n), 0 <= i, i < n, odd(i)), le(A[i], A[1])), proof=lambda ih, u, A, n, i: [kk_def(i), ih(A, n, pr(i) + 1)], measure=lambda A, n, i: i, theory=_ax())
hi = Lemma('interval_max', [AT, Int, Int], lambda A, n, i: Implies(And(_all(A, n), 0 <= i, i < n), le(A[i], A[If(n >= 2, V(1), V(0))])),
    proof=lambda ih, u, A, n, i: [kk_def(i), kk_def(V(0)), u(him, A, n, i), u(him, A, n, i + 1), u(him, A, n, pr(i) + 1)], theory=_ax())
D = lambda s, o='this': (s.e(o + '._dat'), s.n(o + '._dat'))
size = lambda s, o='this': ('size', And(0 <= D(s, o)[1], D(s, o)[1] <= MAXN))
same = lambda s, o='this': ('contents', And(D(s, o)[1] == D(s.old, o)[1], cnt(*D(s, o)) == cnt(*D(s.old, o))))
IM = r'IntervalHeap<.*>::%s\('
def swp(s, A, i, j, n): s.lemma(cnt_upd, A, i, A[j], n); s.lemma(cnt_upd, z3.Store(A, i, A[j]), j, A[i], n)
def marks(s, x, n): mark(s, x, x - 1, x + 1, pr(x), pr(x) + 1, pr(pr(x)), pr(pr(x)) + 1, pr(pr(x) + 1), n - 1, n - 2, pr(n - 1), pr(n - 1) + 1, 2 * x + 2, 2 * x + 4, 2 * x + 3, 2 * x + 5, 2 * x + 1, 2 * x, V(0), V(1))
def step(s):
    marks(s, s.v('idx'), D(s)[1])
    if s.prev is not None: marks(s, s.prev.v('idx'), D(s)[1])
    if s.prev is None: return
    A, n = D(s.prev); swp(s, A, s.prev.v('idx'), s.v('idx'), n); a, b = A[s.prev.v('idx')], A[s.v('idx')]; s.have('strict', Or(And(lt(a, b), Not(lt(b, a))), And(lt(b, a), Not(lt(a, b)))))
def mu_state(A, n, x): return [im(A, n, lambda i: i == x), iP(A, n), ('kids', fa(lambda i: Implies(And(even(i), 2 <= i, i < n, pr(i) == x, x >= 2), le(A[pr(x)], A[i])))), ('pair', Implies(And(x >= 2, x + 1 < n), le(A[pr(x)], A[x + 1])))]
oddsame = lambda s: ('odd positions', (lambda A, B: forall(1, lambda i: Implies(odd(i), A[i] == B[i]), pat=lambda i: A[i]))(D(s)[0], D(s.old)[0]))
def mu_inv(s):
    A, n = D(s); A0, n0 = D(s.old); x, x0 = s.v('idx'), s.old('idx')
    return [('range', And(0 <= x, x <= x0, even(x), Or(x < n, x == 0), n == n0)), same(s), oddsame(s), ('first', Implies(x == x0, A == A0)), ('at leaf', Implies(x0 >= 2, Or(A[x0] == A0[x0], A[x0] == A0[pr(x0)]))), iL(A, n, x == n - 1)] + mu_state(A, n, x)
C_mu = FnSpec('IntervalHeap::fix_min_heap_up', match=IM % 'fix_min_heap_up', modifies=lambda s: ['this._dat'],
    requires=lambda s: (lambda A, n, x: [size(s), And(even(x), 0 <= x, Or(x < n, x == 0)), iL(A, n, x == n - 1)] + mu_state(A, n, x))(*D(s), s('idx')),
    ensures=lambda s: (lambda A, n, x, A0: [size(s), same(s), im(A, n), iP(A, n), ('last', Or(iL(A, n)[1], And(x == n - 1, A == A0))), oddsame(s), ('at leaf', Implies(x >= 2, Or(A[x] == A0[x], A[x] == A0[pr(x)])))])(*D(s), s.old('idx'), D(s.old)[0]),
    loops=[LoopSpec(mu_inv, dec=lambda s: s.v('idx'), use=step)])
def Mu_state(A, n, x): return [im(A, n), iM(A, n, lambda i: i == x), iP(A, n), iL(A, n, x == n - 1),
    ('kids', Implies(And(odd(x), x >= 3), And(fa(lambda i: Implies(And(odd(i), 3 <= i, i < n, pr(i) + 1 == x), le(A[i], A[pr(x) + 1]))), Implies(And(odd(n), n >= 3, pr(n - 1) + 1 == x), le(A[n - 1], A[pr(x) + 1]))))),
    ('pair', Implies(And(odd(x), x >= 3), le(A[x - 1], A[pr(x) + 1])))]
def Mu_inv(s):
    A, n = D(s); A0, n0 = D(s.old); x, x0 = s.v('idx'), s.old('idx')
    return [('range', And(0 <= x, x <= x0, Or(x < n, x < 2), Or(odd(x), x == n - 1, x == 0), n == n0)), same(s)] + Mu_state(A, n, x)
C_Mu = FnSpec('IntervalHeap::fix_max_heap_up', match=IM % 'fix_max_heap_up', modifies=lambda s: ['this._dat'],
    requires=lambda s: (lambda A, n, x: [size(s), And(0 <= x, Or(x < n, x < 2), Or(odd(x), x == n - 1, x == 0))] + Mu_state(A, n, x))(*D(s), s('idx')),
    ensures=lambda s: [size(s), same(s)] + inv(*D(s)), loops=[LoopSpec(Mu_inv, dec=lambda s: s.v('idx'), use=step)])
def fu_state(A, n, idx):
    l = idx - idx % 2; r = l + 1; fits = lambda x: And(le(A[pr(l)], x), le(x, A[pr(l) + 1]))
    return [('leaf', And(0 <= idx, 2 * l + 2 >= n, Or(l < n, l == 0))), im(A, n, lambda i: i == l), iM(A, n, lambda i: i == r), iP(A, n, lambda i: i == l), iL(A, n, l == n - 1), ('one of the pair fits', Implies(And(l >= 2, r < n), Or(fits(A[l]), fits(A[r]))))]
def fu_use(s): A, n = D(s); x = s('idx'); l = x - x % 2; swp(s, A, l, l + 1, n)
C_fu = FnSpec('IntervalHeap::fix_up', match=IM % 'fix_up', modifies=lambda s: ['this._dat'], requires=lambda s: [size(s), s('idx') <= MAXN] + fu_state(*D(s), s('idx')), ensures=lambda s: [size(s), same(s)] + inv(*D(s)), pre=fu_use)
def md_state(A, n, x): return [im(A, n, lambda i: pr(i) == x), iM(A, n), iP(A, n, lambda i: i == x), iL(A, n, x == n - 1), ('kids', fa(lambda i: Implies(And(even(i), 2 <= i, i < n, pr(i) == x, x >= 2), le(A[pr(x)], A[i])))), ('pair', Implies(And(x >= 2, x + 1 < n), le(A[pr(x)], A[x + 1])))]
md_rng = lambda n, x: And(0 <= x, even(x), Or(x < n, x == 0))
C_md = FnSpec('IntervalHeap::fix_min_heap_down', match=IM % 'fix_min_heap_down', modifies=lambda s: ['this._dat'],
    requires=lambda s: [size(s), md_rng(D(s)[1], s('idx'))] + md_state(*D(s), s('idx')), ensures=lambda s: [size(s), same(s)] + inv(*D(s)),
    loops=[LoopSpec(lambda s: [('range', And(md_rng(D(s)[1], s.v('idx')), D(s)[1] == D(s.old)[1])), same(s)] + md_state(*D(s), s.v('idx')), dec=lambda s: D(s)[1] + 1 - s.v('idx'), use=step, head=lambda s: marks(s, s.v('idx'), D(s)[1]))])
def Md_state(A, n, x): return [im(A, n, lambda i: i == x), iM(A, n, lambda i: pr(i) + 1 == x), iP(A, n, lambda i: i + 1 == x), iL(A, n, Or(x == n - 1, pr(n - 1) + 1 == x)),
    ('kids', Implies(And(odd(x), x >= 3), And(fa(lambda i: Implies(And(odd(i), 3 <= i, i < n, pr(i) + 1 == x), le(A[i], A[pr(x) + 1]))), Implies(And(odd(n), n >= 3, pr(n - 1) + 1 == x), le(A[n - 1], A[pr(x) + 1]))))),
    ('pair', Implies(And(odd(x), x >= 3), le(A[x - 1], A[pr(x) + 1])))]
Md_rng = lambda n, x: And(0 <= x, Or(And(odd(x), Or(x < n, x == 1)), And(even(x), x == n - 1), And(x == 0, n == 0)), Implies(n == 0, x == 0), Implies(And(x == 0), n == 0))
C_Md = FnSpec('IntervalHeap::fix_max_heap_down', match=IM % 'fix_max_heap_down', modifies=lambda s: ['this._dat'],
    requires=lambda s: [size(s), Md_rng(D(s)[1], s('idx'))] + Md_state(*D(s), s('idx')), ensures=lambda s: [size(s), same(s)] + inv(*D(s)),
    loops=[LoopSpec(lambda s: [('range', And(Md_rng(D(s)[1], s.v('idx')), D(s)[1] == D(s.old)[1])), same(s)] + Md_state(*D(s), s.v('idx')), dec=lambda s: D(s)[1] + 1 - s.v('idx'), use=step, head=lambda s: marks(s, s.v('idx'), D(s)[1]))])
def wfi(s): return [size(s, 's')] + inv(*D(s, 's'))
def ih_push_pre(s): A, n = D(s, 's'); marks(s, n - n % 2, n); B = z3.Store(A, n, s('v')); s.lemma(cnt_upd, A, n, s('v'), n); s.assume_def(cnt_def(B, n + 1))
def ih_pop_pre(mx):
    def f(s):
        A, n = D(s, 's'); marks(s, n - 2, n); t = If(n >= 2, V(1), V(0)) if mx else V(0); s.lemma(hi if mx else lo, A, n, _i); swp(s, A, t, n - 1, n)
        B = z3.Store(z3.Store(A, t, A[n - 1]), n - 1, A[t]); s.assume_def(cnt_def(B, n)); s.assume_def(cnt_def(A, n)); s.assume_def(cnt_def(B, n - 1))
    return f
ext = lambda s, r, mx: ('extreme', Implies(And(0 <= _i, _i < D(s, 's')[1]), le(D(s, 's')[0][_i], r) if mx else le(r, D(s, 's')[0][_i])))
ihs = [FnSpec('ih_ctor', ensures=lambda s: wfi(s) + [D(s, 's')[1] == 0]),
    FnSpec('ih_push', requires=lambda s: wfi(s) + [D(s, 's')[1] < MAXN], ensures=lambda s: wfi(s) + [('one more element', And(D(s, 's')[1] == D(s.old, 's')[1] + 1, cnt(*D(s, 's')) == cnt(*D(s.old, 's')) + If(s.old('v') == X, 1, 0)))], pre=ih_push_pre),
    FnSpec('ih_size', requires=lambda s: size(s, 's'), ensures=lambda s: s.res == D(s, 's')[1])]
for nm, mx in (('min', False), ('max', True)):
    ihs.append(FnSpec('ih_' + nm, requires=lambda s: wfi(s) + [D(s, 's')[1] > 0], ensures=lambda s, mx=mx: [ext(s, s.res, mx), ('an element', s.res == D(s, 's')[0][If(D(s, 's')[1] >= 2, V(1), V(0)) if mx else V(0)])], pre=lambda s, mx=mx: s.lemma(hi if mx else lo, *D(s, 's'), _i)))
    ihs.append(FnSpec('ih_pop' + nm, requires=lambda s: wfi(s) + [D(s, 's')[1] > 0], ensures=lambda s, mx=mx: wfi(s) + [ext(s.old, s.res, mx), ('exactly that element removed', And(D(s, 's')[1] == D(s.old, 's')[1] - 1, cnt(*D(s, 's')) == cnt(*D(s.old, 's')) - If(s.res == X, 1, 0)))], pre=ih_pop_pre(mx)))
c3 = [C_mu, C_Mu, C_fu, C_md, C_Md]
c1, s1 = mk('min', 'mn', False); c2, s2 = mk('max', 'mx', True)
cs, specs = c1 + c2 + c3, c1 + c2 + c3 + s1 + s2 + ihs
unit = Unit('heap', specs, contracts=cs, keep=['heapify_up', 'heapify_down', r'fix_up', r'fix_min_heap_up', r'fix_max_heap_up', r'fix_min_heap_down', r'fix_max_heap_down'], opaque={'T': 'T'}, theory=_ax())
