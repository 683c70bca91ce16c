from irv.spec import *
from irv.unit import Unit
from specs.nt import *
V = z3.IntVal; LIM = 1 << 61; MX = (1 << 63) - 1
AI = z3.ArraySort(Int, Int)
# ---- find_denominators: x is an arbitrary denominator
x = z3.Int('x_denominator')
ab = lambda t: If(t >= 0, t, -t)
tdiv = lambda a, b: If((a >= 0) == (b >= 0), ab(a) / ab(b), -(ab(a) / ab(b)))
gal = Lemma('div_galois', [Int, Int, Int], lambda a, q, x: Implies(And(a >= 0, q > 0), (x <= a / q) == (x * q <= a)), proof=lambda ih, u, a, q, x: [u(mul_mono, x, a / q, q), u(mul_mono, a / q + 1, x, q)])
def den(nm, inS, neg):
    def ens(s):
        n, q, mx = s('n'), s('q'), s('mx'); l, r = s('l'), s('r')
        inb = And(x <= -1, x >= mx) if neg else And(x >= 1, x <= mx)
        return [('exactly the denominators', Implies(inb, inS(n, q) == And(s.res, l <= x, x <= r))), ('inside the bound', Implies(s.res, And(l <= r, And(r <= -1, l >= mx) if neg else And(l >= 1, r <= mx))))]
    def use(s):
        n, q, X = ab(s('n')), ab(s('q')), ab(x)
        for m in (n, n - 1):
            for Q in (q - 1, q, q + 1): s.lemma(gal, m, Q, X); s.lemma(mshift, m, V(1), Q)
    return FnSpec(nm, requires=lambda s: And(ab(s('n')) <= LIM, ab(s('q')) <= LIM, (And(s('mx') <= -1, s('mx') >= -MX - 1) if neg else And(s('mx') >= 1, s('mx') <= MX))), ensures=ens, use=use)
dens = [den('den_fp', lambda n, q: And(q * x <= n, n < (q + 1) * x), False), den('den_fn', lambda n, q: And(q * x >= n, n > (q + 1) * x), True),
        den('den_cp', lambda n, q: And((q - 1) * x < n, n <= q * x), False), den('den_cn', lambda n, q: And((q - 1) * x > n, n >= q * x), True)]
# ---- factorial number system: value of the first k digits, F(i) = i!
F, val = UF('F', Int, Int), UF('fval', AI, Int, Int)
@definition
def F_def(i): return F(i) == If(i <= 1, 1, i * F(i - 1))
@definition
def val_def(d, k): return val(d, k) == If(k <= 0, 0, val(d, k - 1) + d[k - 1] * F(k))
F_pos = Lemma('factorial_positive', [Int], lambda i: F(i) >= 1, proof=lambda ih, u, i: [F_def(i), ih(i - 1), u(mul_ge, F(i - 1), i)], measure=lambda i: If(i < 1, 0, i))
v_frame = Lemma('value_frame', [AI, Int, Int, Int], lambda d, i, v, k: Implies(And(0 <= k, k <= i), val(z3.Store(d, i, v), k) == val(d, k)), proof=lambda ih, u, d, i, v, k: [val_def(d, k), val_def(z3.Store(d, i, v), k), ih(d, i, v, k - 1)], measure=lambda d, i, v, k: k)
v_store = Lemma('value_store', [AI, Int, Int, Int], lambda d, i, v, k: Implies(And(0 <= i, i < k), val(z3.Store(d, i, v), k) == val(d, k) + (v - d[i]) * F(i + 1)), proof=lambda ih, u, d, i, v, k: [val_def(d, k), val_def(z3.Store(d, i, v), k), ih(d, i, v, k - 1), u(v_frame, d, i, v, k - 1)], measure=lambda d, i, v, k: k)
digits = lambda d, n: forall(1, lambda j: Implies(And(0 <= j, j < n), And(0 <= d[j], d[j] <= j + 1)), pat=lambda j: d[j])
v_range = Lemma('value_range', [AI, Int], lambda d, k: Implies(And(k >= 0, digits(d, k)), And(0 <= val(d, k), val(d, k) < F(k + 1))),
    proof=lambda ih, u, d, k: [val_def(d, k), ih(d, k - 1), F_def(k + 1), u(F_pos, k + 1), u(F_pos, k), u(mul_mono, V(0), d[k - 1], F(k)), u(mul_mono, d[k - 1], k, F(k))], measure=lambda d, k: k)
v_zero = Lemma('value_zero', [AI, Int], lambda d, k: Implies(forall(1, lambda j: Implies(And(0 <= j, j < k), d[j] == 0), pat=lambda j: d[j]), val(d, k) == 0), proof=lambda ih, u, d, k: [val_def(d, k), ih(d, k - 1)], measure=lambda d, k: If(k < 0, 0, k))
MAXN = 1 << 30
congk = Lemma('congruent', [Int, Int, Int], lambda t, k, m: Implies(And(m > 0, t == k * m), t % m == 0), proof=lambda ih, u, t, k, m: [u(mshift, V(0), k, m)])
cneg = Lemma('congruent_neg', [Int, Int, Int, Int], lambda a, b, c, m: Implies(And(m > 0, (a - b) % m == 0, (c - b) % m == 0), (a - c) % m == 0), proof=lambda ih, u, a, b, c, m: [u(congk, a - c, (a - b) / m - (c - b) / m, m)])
csum = Lemma('congruent_sum', [Int, Int, Int], lambda a, b, m: Implies(And(m > 0, (a + b) % m == 0), (a - (-b)) % m == 0), proof=lambda ih, u, a, b, m: [])
def D(s, o): return s.e(o + '._d')
def wf(s, o): n = s(o + '._n'); return [('size', And(1 <= n, n <= MAXN, s.n(o + '._d') == n - 1)), ('digits', digits(D(s, o), n - 1))]
def tot(s, o): return val(D(s, o), s(o + '._n') - 1)
def same(s, o): return [('same size', s(o + '._n') == s.old(o + '._n'))]
def cong(a, b, n): return (a - b) % F(n) == 0
# ++ / --
def step_inv(sgn):
    def inv(s):
        i, n = s.v('i'), s('a._n')
        return same(s, 'a') + [('range', And(0 <= i, i <= n - 1, s.n('a._d') == n - 1)), ('digits', digits(D(s, 'a'), n - 1)), ('pending carry', tot(s, 'a') == tot(s.old, 'a') + sgn * (1 - F(i + 1)))]
    return inv
def step_use(s):
    s.assume_def(F_def(V(1)))
    if s.prev is not None: step_case(s, s.prev)
def step_case(s, p):
    d, i, n = D(p, 'a'), p.v('i'), s('a._n'); s.assume_def(F_def(i + 2)); 
    for v in (V(0), d[i] + 1, d[i] - 1, i + 1): s.lemma(v_store, d, i, v, n - 1)
    s.lemma(v_store, z3.Store(d, i, d[i] + 1), i, V(0), n - 1); s.lemma(v_store, z3.Store(d, i, d[i] - 1), i, i + 1, n - 1)
def step(nm, sgn):
    def ens(s):
        n = s('a._n')
        return wf(s, 'a') + same(s, 'a') + [('value', cong(tot(s, 'a'), tot(s.old, 'a') + sgn, n))]
    def use(s):
        n = s('a._n'); s.lemma(F_pos, n); s.lemma(congk, tot(s, 'a') - (tot(s.old, 'a') + sgn), V(0), F(n)); s.lemma(congk, tot(s, 'a') - (tot(s.old, 'a') + sgn), V(-sgn), F(n))
    return FnSpec(nm, requires=lambda s: wf(s, 'a'), ensures=ens, use=use, loops=[LoopSpec(step_inv(sgn), dec=lambda s: s('a._n') - s.v('i'), use=step_use, head=lambda s: step_case(s, s))])
inc, dec = step('fn_inc', 1), step('fn_dec', -1)
# += and -=
def add_inv(X, Y, c0, old=True):
    def inv(s):
        i, c, n = s.v('i'), s.v('carry'), s(X + '._n'); O = s.old
        return same(s, X) + [('range', And(0 <= i, i <= n - 1, s.n(X + '._d') == n - 1, Or(c == 0, c == 1))), ('digits', digits(D(s, X), n - 1)), ('pending carry', tot(s, X) == tot(O, X) + val(D(s, Y), i) + c0 - c * F(i + 1)), ('untouched', forall(1, lambda j: Implies(And(i <= j, j < n - 1), D(s, X)[j] == D(O, X)[j]), pat=lambda j: D(s, X)[j]))]
    return inv
def add_use(X, Y):
    def use(s):
        s.assume_def(F_def(V(1))); s.assume_def(val_def(D(s, Y), V(0)))
        if s.prev is None: return
        p = s.prev; d, y, i, c, n = D(p, X), D(p, Y), p.v('i'), p.v('carry'), s(X + '._n'); s.assume_def(F_def(i + 2)); s.assume_def(val_def(y, i + 1))
        t = d[i] + y[i] + c
        s.lemma(v_store, d, i, t, n - 1); s.lemma(v_store, z3.Store(d, i, t), i, t - (i + 2), n - 1)
        s.lemma(mul_sub, c, If(c == 0, V(0), V(1)), F(i + 1))
    return use
def add_end(s):
    n = s('a._n'); s.lemma(F_pos, n)
    for k in (0, 1): s.lemma(congk, tot(s, 'a') - (tot(s.old, 'a') + tot(s.old, 'b')), V(-k), F(n))
same_size = lambda s: [('same size', s('a._n') == s('b._n'))]
add = FnSpec('fn_add', requires=lambda s: wf(s, 'a') + wf(s, 'b') + same_size(s), ensures=lambda s: wf(s, 'a') + same(s, 'a') + [('value', cong(tot(s, 'a'), tot(s.old, 'a') + tot(s, 'b'), s('a._n')))], use=add_end,
    loops=[LoopSpec(add_inv('a', 'b', 0), dec=lambda s: s('a._n') - s.v('i'), use=add_use('a', 'b'))])

# -=: the subtrahend is complemented, then added with carry 1
def comp_inv(s):
    i, n = s.v('i'), s('this._n'); x0, x1 = D(s.old, 'x'), D(s, 'x')
    return [('range', And(0 <= i, i <= n - 1, s.n('x._d') == n - 1, s('x._n') == n)), ('digits', digits(x1, n - 1)), ('complement', val(x1, i) == F(i + 1) - 1 - val(x0, i)), ('untouched', forall(1, lambda j: Implies(And(i <= j, j < n - 1), x1[j] == x0[j]), pat=lambda j: x1[j]))]
def comp_use(s):
    x0 = D(s.old, 'x'); s.assume_def(F_def(V(1))); s.assume_def(val_def(x0, V(0))); s.assume_def(val_def(D(s, 'x'), V(0)))
    if s.prev is None: return
    p = s.prev; d, i = D(p, 'x'), p.v('i'); n1 = (i + 1) - d[i]
    s.assume_def(F_def(i + 2)); s.assume_def(val_def(x0, i + 1)); s.assume_def(val_def(D(s, 'x'), i + 1)); s.lemma(v_frame, d, i, n1, i); s.lemma(mul_sub, d[i], x0[i], F(i + 1))
def sub_end(a, b):
    def use(s):
        n = s(a + '._n'); s.lemma(F_pos, n)
        for k in (0, 1, -1): s.lemma(congk, tot(s, a) - (tot(s.old, a) - tot(s.old, b)), V(k), F(n))
    return use
def sub_req(a, b): return lambda s: wf(s, a) + wf(s, b) + [('same size', s(a + '._n') == s(b + '._n'))]
def sub_ens(a, b): return lambda s: wf(s, a) + same(s, a) + [('value', cong(tot(s, a), tot(s.old, a) - tot(s.old, b), s(a + '._n')))]
C_sub = FnSpec('operator-=', match=r'factorial_number::operator-=\(suisen::factorial_number\)', requires=sub_req('this', 'x'), ensures=sub_ens('this', 'x'), modifies=lambda s: ['this._d', 'x._d'], use=sub_end('this', 'x'),
    loops=[LoopSpec(comp_inv, dec=lambda s: s('this._n') - s.v('i'), use=comp_use), LoopSpec(add_inv('this', 'x', 1), dec=lambda s: s('this._n') - s.v('i'), use=add_use('this', 'x'))])
sub = FnSpec('fn_sub', requires=sub_req('a', 'b'), ensures=sub_ens('a', 'b'))
# constructor and negation (mutually recursive)
Z = lambda a: a
def ct_dec(s): return If(s('val') < 0, V(2), V(0))
def ct_ens(o, n, v): return lambda s: wf(s, o) + [('size', s(o + '._n') == s(n)), ('value', cong(tot(s, o), s.old(v), s(n))), ('zero', Implies(s.old(v) == 0, tot(s, o) == 0))]
def ct_inv(s):
    i, n, v, d = s.v('i'), s('n'), s.v('val'), D(s, 'this'); v0 = ab(s.old('val'))
    return [('range', And(0 <= i, i <= n - 1, v >= 0, v <= v0, s('this._n') == n, s.n('this._d') == n - 1)), ('digits', digits(d, n - 1)), ('rest', forall(1, lambda j: Implies(And(i <= j, j < n - 1), d[j] == 0), pat=lambda j: d[j])), ('value', val(d, i) + v * F(i + 1) == v0)]
def ct_use(s):
    s.assume_def(F_def(V(1))); s.assume_def(val_def(D(s, 'this'), V(0)))
    if s.prev is None: return
    p = s.prev; d, i, v = D(p, 'this'), p.v('i'), p.v('val'); s.assume_def(F_def(i + 2)); s.assume_def(val_def(D(s, 'this'), i + 1)); s.lemma(v_frame, d, i, v % (i + 2), i)
    s.have('division', And(s.v('val') == v / (i + 2), D(s, 'this')[i] == v % (i + 2), v == (i + 2) * (v / (i + 2)) + v % (i + 2)))
    s.lemma(mul_subst, v, (i + 2) * (v / (i + 2)) + v % (i + 2), F(i + 1))
v_rest = Lemma('value_rest', [AI, Int, Int], lambda d, i, k: Implies(And(0 <= i, i <= k, forall(1, lambda j: Implies(And(i <= j, j < k), d[j] == 0), pat=lambda j: d[j])), val(d, k) == val(d, i)), proof=lambda ih, u, d, i, k: [val_def(d, k), ih(d, i, k - 1)], measure=lambda d, i, k: k)
cdiff = Lemma('congruent_diff', [Int, Int, Int, Int], lambda a, b, c, m: Implies(And(m > 0, (a - (0 - b)) % m == 0, (b - (0 - c)) % m == 0), (a - c) % m == 0), proof=lambda ih, u, a, b, c, m: [u(congk, a - c, (a + b) / m - (b + c) / m, m)])
hint = {}   # state at the loop head, for lemma instances only
def ct_after(s):   # the value before a possible negation
    d, i, n, v = D(s, 'this'), s.v('i'), s('n'), s.v('val'); v0 = s.old('val'); hint['d'] = d
    s.lemma(F_pos, n); s.lemma(v_rest, d, i, n - 1); s.lemma(congk, val(d, n - 1) - ab(v0), -v, F(n)); s.lemma(congk, val(d, n - 1) - ab(v0), V(0), F(n))
    s.have('magnitude', Implies(Or(v == 0, i == n - 1), cong(val(d, n - 1), ab(v0), n)))
def ct_end(s): n = s('n'); s.lemma(F_pos, n); s.lemma(v_zero, D(s, 'this'), n - 1); s.lemma(cdiff, tot(s, 'this'), val(hint['d'], n - 1), s.old('val'), F(n)) if 'd' in hint else None
C_ctor = FnSpec('ctor', match=r'factorial_number::factorial_number\(int, long long\)', requires=lambda s: And(1 <= s('n'), s('n') <= MAXN, ab(s('val')) <= MX), ensures=ct_ens('this', 'n', 'val'), modifies=lambda s: ['this'], recursive=True, dec=ct_dec,
    loops=[LoopSpec(ct_inv, dec=lambda s: s('n') - s.v('i'), use=ct_use, head=ct_after)], use=ct_end)
def ng_use(s): n = s('this._n'); s.lemma(F_pos, n); pass
C_neg = FnSpec('negate', match=r'factorial_number::operator-\(\)', requires=lambda s: wf(s, 'this'), ensures=lambda s: wf(s, 'sret') + [('size', s('sret._n') == s('this._n')), ('value', cong(tot(s, 'sret'), 0 - tot(s, 'this'), s('this._n')))], modifies=lambda s: ['sret'], recursive=True, dec=lambda s: V(1), use=ng_use)
C_ctor.group = C_neg.group = 'fn'
ctor = FnSpec('fn_ctor', requires=lambda s: And(1 <= s('n'), s('n') <= MAXN, ab(s('k')) <= MX), ensures=ct_ens('out', 'n', 'k'))
neg = FnSpec('fn_neg', requires=lambda s: wf(s, 'a'), ensures=lambda s: wf(s, 'out') + [('size', s('out._n') == s('a._n')), ('value', cong(tot(s, 'out'), 0 - tot(s, 'a'), s('a._n')))])
# multiplication by an integer
def ml_inv(s):
    i, n, c, d, d0 = s.v('i'), s('a._n'), s.v('carry'), D(s, 'a'), D(s.old, 'a'); K = ab(s('k'))
    return same(s, 'a') + [('range', And(0 <= i, i <= n - 1, s.n('a._d') == n - 1, 0 <= c, c <= K)), ('digits', digits(d, n - 1)), ('untouched', forall(1, lambda j: Implies(And(i <= j, j < n - 1), d[j] == d0[j]), pat=lambda j: d[j])), ('value', val(d, i) + c * F(i + 1) == K * val(d0, i))]
def ml_head(s):
    i, c, d, K, n = s.v('i'), s.v('carry'), D(s, 'a'), ab(s('k')), s('a._n'); t = d[i] * K + c; hint['m'] = d
    s.lemma(mul_mono, d[i], i + 1, K); s.lemma(mul_nn, d[i], K); s.have('product', Implies(i < n - 1, And(0 <= t, t <= (i + 2) * K, d[i] * K <= MAXN * MX)))
    s.lemma(gal, t, i + 2, K + 1); s.have('carry', Implies(i < n - 1, And(t / (i + 2) <= K, t / (i + 2) >= 0, t == (i + 2) * (t / (i + 2)) + t % (i + 2), 0 <= t % (i + 2), t % (i + 2) < i + 2)))
    s.lemma(F_pos, n); s.lemma(congk, val(d, n - 1) - K * val(D(s.old, 'a'), n - 1), -c, F(n)); s.have('magnitude', Implies(i == n - 1, cong(val(d, n - 1), K * val(D(s.old, 'a'), n - 1), n)))
def ml_use(s):
    s.assume_def(F_def(V(1))); s.assume_def(val_def(D(s, 'a'), V(0))); s.assume_def(val_def(D(s.old, 'a'), V(0)))
    if s.prev is None: return
    p = s.prev; d, i, c, K = D(p, 'a'), p.v('i'), p.v('carry'), ab(s('k')); d0 = D(s.old, 'a'); t = d[i] * K + c
    s.have('division', And(s.v('carry') == t / (i + 2), D(s, 'a')[i] == t % (i + 2)))
    s.assume_def(F_def(i + 2)); s.assume_def(val_def(D(s, 'a'), i + 1)); s.assume_def(val_def(d0, i + 1)); s.lemma(v_frame, d, i, t % (i + 2), i); s.lemma(mul_subst, t, (i + 2) * (t / (i + 2)) + t % (i + 2), F(i + 1)); s.lemma(mul_subst, val(d0, i + 1), val(d0, i) + d0[i] * F(i + 1), K)
def ml_end(s):
    n = s('a._n'); s.lemma(F_pos, n)
    if 'm' in hint: s.lemma(cdiff, tot(s, 'a'), val(hint['m'], n - 1), -ab(s('k')) * tot(s.old, 'a'), F(n))
mul = FnSpec('fn_mul', requires=lambda s: wf(s, 'a') + [ab(s('k')) <= MX], ensures=lambda s: wf(s, 'a') + same(s, 'a') + [('value', cong(tot(s, 'a'), s('k') * tot(s.old, 'a'), s('a._n')))], use=ml_end, loops=[LoopSpec(ml_inv, dec=lambda s: s('a._n') - s.v('i'), head=ml_head, use=ml_use)])
# to_ull (Horner), comparison
def ull_inv(s):
    i, r, n, d = s.v('i'), s.v('res'), s('a._n'), D(s, 'a')
    return [('range', And(-1 <= i, i <= n - 2, r >= 0)), ('Horner', tot(s, 'a') == val(d, i + 1) + r * F(i + 2))]
def ull_head(s):
    i, r, d = s.v('i'), s.v('res'), D(s, 'a'); s.assume_def(val_def(d, i + 1)); s.assume_def(F_def(i + 2)); s.lemma(F_pos, i + 2); s.lemma(F_pos, i + 1); s.lemma(v_range, d, i); s.lemma(v_range, d, i + 1)
    s.lemma(mul_mono, V(1), F(i + 1), r * (i + 2) + d[i]); s.lemma(mul_nn, r, i + 2); s.have('no wrap', Implies(i >= 0, And(r * (i + 2) + d[i] <= tot(s, 'a'), d[i] >= 0, r * (i + 2) >= 0)))
def ull_use(s):
    if s.prev is None: s.lemma(mul_nn, V(0), F(s('a._n')))
    else: i, r, d = s.prev.v('i'), s.prev.v('res'), D(s, 'a'); s.assume_def(val_def(d, i + 1)); s.assume_def(F_def(i + 2))
def ull_end(s): s.assume_def(val_def(D(s, 'a'), V(0))); s.assume_def(F_def(V(1)))
ull = FnSpec('fn_ull', requires=lambda s: wf(s, 'a') + [tot(s, 'a') < 1 << 64], ensures=lambda s: s.res == tot(s, 'a'), use=ull_end, loops=[LoopSpec(ull_inv, dec=lambda s: s.v('i') + 1, head=ull_head, use=ull_use)])
v_tail = Lemma('value_tail', [AI, AI, Int, Int], lambda d, e, i, k: Implies(And(0 <= i, i <= k, forall(1, lambda j: Implies(And(i <= j, j < k), d[j] == e[j]), pat=lambda j: [d[j], e[j]])), val(d, k) - val(e, k) == val(d, i) - val(e, i)),
    proof=lambda ih, u, d, e, i, k: [val_def(d, k), val_def(e, k), ih(d, e, i, k - 1), u(mul_sub, d[k - 1], e[k - 1], F(k))], measure=lambda d, e, i, k: k)
v_ext = Lemma('value_ext', [AI, AI, Int], lambda d, e, k: Implies(And(0 <= k, forall(1, lambda j: Implies(And(0 <= j, j < k), d[j] == e[j]), pat=lambda j: [d[j], e[j]])), val(d, k) == val(e, k)), proof=lambda ih, u, d, e, k: [u(v_tail, d, e, V(0), k), val_def(d, V(0)), val_def(e, V(0))])
def lt_inv(s): i, n, d, e = s.v('i'), s('a._n'), D(s, 'a'), D(s, 'b'); return [('range', And(-1 <= i, i <= n - 2)), ('equal above', forall(1, lambda j: Implies(And(i < j, j < n - 1), d[j] == e[j]), pat=lambda j: [d[j], e[j]]))]
def lt_head(s):
    i, n, d, e = s.v('i'), s('a._n'), D(s, 'a'), D(s, 'b')
    s.lemma(v_tail, d, e, i + 1, n - 1); s.assume_def(val_def(d, i + 1)); s.assume_def(val_def(e, i + 1)); s.lemma(v_range, d, i); s.lemma(v_range, e, i); s.lemma(F_pos, i + 1); s.lemma(mul_mono, d[i] + 1, e[i], F(i + 1)); s.lemma(mul_mono, e[i] + 1, d[i], F(i + 1))
lt = FnSpec('fn_lt', requires=lambda s: wf(s, 'a') + wf(s, 'b') + same_size(s), ensures=lambda s: s.res == (tot(s, 'a') < tot(s, 'b')), use=lambda s: s.lemma(v_ext, D(s, 'a'), D(s, 'b'), s('a._n') - 1), loops=[LoopSpec(lt_inv, dec=lambda s: s.v('i') + 1, head=lt_head)])
specs = dens + [inc, dec, add, C_sub, sub, C_ctor, C_neg, ctor, neg, mul, ull, lt]
KEEP = [r'factorial_number::operator-=\(suisen::factorial_number\)', r'factorial_number::factorial_number\(int, long long\)', r'factorial_number::operator-\(\)']
unit = Unit('ntenum', specs, keep=KEEP, contracts=[C_sub, C_ctor, C_neg])
