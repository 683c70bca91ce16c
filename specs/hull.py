from irv.spec import *
from irv.unit import Unit
V = z3.IntVal; Q = OSort('Q'); INF = (1 << 62) - 1; A = 1 << 58
push, popx, popn = UF('uf_push', Q, Int, Q), UF('uf_popmax', Q, Q), UF('uf_popmin', Q, Q)
tmax, tmin, none, empty = UF('uf_max', Q, Int), UF('uf_min', Q, Int), UF('uf_none', Q, Bool), UF('uf_empty', Q)
above = UF('sum_above', Q, Int, Int)      # sum over the elements e of max(0, e - x)
below = UF('sum_below', Q, Int, Int)      # sum over the elements e of max(0, x - e)
two = UF('two_or_more', Q, Bool); inside = UF('within_sentinels', Q, Bool)
pos = lambda t: If(t > 0, t, 0)
def theory():                             # assumed meaning of std::priority_queue
    q = z3.Const('tq', Q); a, x, y = z3.Ints('ta tx ty'); F = z3.ForAll
    return [none(empty()), F([x], above(empty(), x) == 0), F([x], below(empty(), x) == 0), inside(empty()),
        F([q, a], And(Not(none(push(q, a))), two(push(q, a)) == Not(none(q)), tmax(push(q, a)) == If(Or(none(q), tmax(q) <= a), a, tmax(q)), tmin(push(q, a)) == If(Or(none(q), tmin(q) >= a), a, tmin(q)), inside(push(q, a)) == And(inside(q), -INF <= a, a <= INF)), patterns=[push(q, a)]),
        F([q, a, x], above(push(q, a), x) == above(q, x) + pos(a - x), patterns=[above(push(q, a), x)]), F([q, a, x], below(push(q, a), x) == below(q, x) + pos(x - a), patterns=[below(push(q, a), x)]),
        F([q, x], Implies(Not(none(q)), above(popx(q), x) == above(q, x) - pos(tmax(q) - x)), patterns=[above(popx(q), x)]), F([q, x], Implies(Not(none(q)), below(popn(q), x) == below(q, x) - pos(x - tmin(q))), patterns=[below(popn(q), x)]),
        F([q], Implies(two(q), And(Not(none(q)), Not(none(popx(q))), tmax(popx(q)) <= tmax(q))), patterns=[popx(q)]), F([q], Implies(two(q), And(Not(none(q)), Not(none(popn(q))), tmin(popn(q)) >= tmin(q))), patterns=[popn(q)]),
        F([q], Implies(inside(q), And(inside(popx(q)))), patterns=[popx(q)]), F([q], Implies(inside(q), And(inside(popn(q)))), patterns=[popn(q)]),
        F([q], Implies(And(inside(q), Not(none(q))), And(-INF <= tmax(q), tmax(q) <= INF)), patterns=[tmax(q)]), F([q], Implies(And(inside(q), Not(none(q))), And(-INF <= tmin(q), tmin(q) <= INF)), patterns=[tmin(q)]),
        F([q, x], And(above(q, x) >= 0, Implies(Not(none(q)), (above(q, x) == 0) == (x >= tmax(q)))), patterns=[above(q, x)]), F([q, x], And(below(q, x) >= 0, Implies(Not(none(q)), (below(q, x) == 0) == (x <= tmin(q)))), patterns=[below(q, x)]),
        F([q, x, y], Implies(x <= y, And(above(q, x) >= above(q, y))), patterns=[z3.MultiPattern(above(q, x), above(q, y))]), F([q, x, y], Implies(x <= y, And(below(q, x) <= below(q, y))), patterns=[z3.MultiPattern(below(q, x), below(q, y))])]
l, r = (lambda s: s('o.l.q')), (lambda s: s('o.r.q'))
base, al, ar = (lambda s: s('o.base')), (lambda s: s('o.add_l')), (lambda s: s('o.add_r'))
f = lambda s, x: base(s) + above(l(s), x - al(s)) + below(r(s), x - ar(s))
L, R_ = (lambda s: tmax(l(s)) + al(s)), (lambda s: tmin(r(s)) + ar(s))
def wf(s, b): return [('sentinels', And(Not(none(l(s))), Not(none(r(s))), inside(l(s)), inside(r(s)))), ('convex order', L(s) <= R_(s)), ('range', And(-b <= base(s), base(s) <= b, -b <= al(s), al(s) <= b, -b <= ar(s), ar(s) <= b))]
X = z3.Int('g_x'); Y = z3.Int('g_y')      # arbitrary points: the postconditions hold for every value
wf0 = lambda s: wf(s, 3 * (1 << 61))[:2]
sm = lambda *v: [And(*[And(-A <= x, x <= A) for x in v])]
def op(nm, new, extra=lambda s: []):      # new(old, x): the function the operation must produce, at x
    return FnSpec(nm, requires=lambda s: wf(s, A) + (sm(s('a')) if nm not in ('sl_cml', 'sl_cmr') else []) + extra(s), ensures=lambda s: wf0(s) + [('function', f(s, X) == new(s, X))], modifies=lambda s: ['o.base', 'o.add_l', 'o.add_r', 'o.l.q', 'o.r.q'])
def fin(s): return [('no value below', f(s, X) >= base(s)), ('minimum exactly on the range', (f(s, X) == base(s)) == And(L(s) <= X, X <= R_(s)))]
specs = [
    FnSpec('sl_new', requires=lambda s: [], ensures=lambda s: wf(s, A) + [('zero', Implies(And(-INF <= X, X <= INF), f(s, X) == 0))]),
    FnSpec('sl_min', requires=lambda s: wf(s, A), ensures=lambda s: fin(s) + [('value', s.res == base(s))]),
    FnSpec('sl_lo', requires=lambda s: wf(s, A), ensures=lambda s: fin(s) + [('value', s.res == L(s))]),
    FnSpec('sl_hi', requires=lambda s: wf(s, A), ensures=lambda s: fin(s) + [('value', s.res == R_(s))]),
    op('sl_const', lambda s, x: f(s.old, x) + s('a')),
    op('sl_right', lambda s, x: f(s.old, x) + pos(x - s('a'))),
    op('sl_left', lambda s, x: f(s.old, x) + pos(s('a') - x)),
    op('sl_abs', lambda s, x: f(s.old, x) + pos(x - s('a')) + pos(s('a') - x)),
    op('sl_shl', lambda s, x: f(s.old, x + s('a'))), op('sl_shr', lambda s, x: f(s.old, x - s('a'))), op('sl_tr', lambda s, x: f(s.old, x - s('a'))),
    FnSpec('sl_cml', requires=lambda s: wf(s, A) + [-2 * A <= X, X <= 2 * A], modifies=lambda s: ['o.r.q'], ensures=lambda s: wf0(s) + [('lower bound', Implies(Y <= X, f(s, X) <= f(s.old, Y))), ('attained', f(s, X) == f(s.old, If(X <= R_(s.old), X, R_(s.old))))]),
    FnSpec('sl_cmr', requires=lambda s: wf(s, A) + [-2 * A <= X, X <= 2 * A], modifies=lambda s: ['o.l.q'], ensures=lambda s: wf0(s) + [('lower bound', Implies(Y >= X, f(s, X) <= f(s.old, Y))), ('attained', f(s, X) == f(s.old, If(X >= L(s.old), X, L(s.old))))]),
    FnSpec('sl_win', requires=lambda s: wf(s, A) + sm(s('a'), s('b')) + [s('a') <= s('b')], modifies=lambda s: ['o.add_l', 'o.add_r'],
        ensures=lambda s: wf0(s) + [('lower bound', Implies(And(X - s('b') <= Y, Y <= X - s('a')), f(s, X) <= f(s.old, Y))),
            ('attained', (lambda y: And(X - s('b') <= y, y <= X - s('a'), f(s, X) == f(s.old, y)))(If(X - s('a') <= L(s.old), X - s('a'), If(X - s('b') >= R_(s.old), X - s('b'), If(L(s.old) >= X - s('b'), L(s.old), X - s('b'))))))])]
# ------------------------------------------------------------------ Lagrangian search; FX: the value f(x) the caller wants, P0: a slope of f at x
g, m = UF('uf_g', Int, Int), UF('uf_m', Int, Int); P0, FX = z3.Ints('g_p0 g_fx'); B = 1 << 29
h = lambda p, x: g(p) + p * x
st = lambda p, x: [(p + 1) * x == p * x + x]                       # polynomial identity
prod = Lemma('product_bound', [Int, Int], lambda p, x: Implies(And(-B <= p, p <= B, 0 <= x, x <= B), And(-B * x <= p * x, p * x <= B * x)), proof=lambda ih, u, p, x: [(p + B) * x == p * x + B * x, (B - p) * x == B * x - p * x, u(nn, p + B, x), u(nn, B - p, x)])
nn = Lemma('nonneg', [Int, Int], lambda a, b: Implies(And(a >= 0, b >= 0), a * b >= 0), proof=lambda ih, u, a, b: [ih(a - 1, b), (a - 1) * b == a * b - b, 0 * b == 0], measure=lambda a, b: If(a > 0, a, 0))
LONG = lambda: forall(1, lambda p: Implies(And(-B <= p, p <= B), And(-(1 << 61) <= g(p), g(p) <= (1 << 61))), pat=lambda p: g(p))
def alien(nm, sg):                                                 # sg = 1: convex, g(p) = inf f(x) - p x;  sg = -1: concave, g(p) = sup f(x) - p x
    d = lambda p: g(p) - g(p + 1); D = lambda s: forall(1, lambda p: Implies(And(s('lo') <= p, p < s('hi')), sg * (g(p) - g(p + 1)) <= sg * (g(p + 1) - g(p + 2))), pat=lambda p: g(p))
    dmono = Lemma('steps_monotone_' + nm, [Int, Int, Int, Int], lambda lo, hi, p, q: Implies(And(forall(1, lambda t: Implies(And(lo <= t, t < hi), sg * (g(t) - g(t + 1)) <= sg * (g(t + 1) - g(t + 2))), pat=lambda t: g(t)), lo <= p, p <= q, q <= hi), sg * d(p) <= sg * d(q)), proof=lambda ih, u, lo, hi, p, q: [ih(lo, hi, p, q - 1), g(q - 1) == g(q - 1)], measure=lambda lo, hi, p, q: q - p)
    up = Lemma('climbs_' + nm, [Int, Int, Int, Int, Int], lambda lo, hi, p, q, x: Implies(And(forall(1, lambda t: Implies(And(lo <= t, t < hi), sg * (g(t) - g(t + 1)) <= sg * (g(t + 1) - g(t + 2))), pat=lambda t: g(t)), lo <= p, p <= q, q <= hi + 1, Implies(p < q, sg * d(q - 1) < sg * x)), sg * h(p, x) <= sg * h(q, x)), proof=lambda ih, u, lo, hi, p, q, x: [ih(lo, hi, p, q - 1, x), u(dmono, lo, hi, q - 2, q - 1), q * x == (q - 1) * x + x], measure=lambda lo, hi, p, q, x: q - p)
    down = Lemma('descends_' + nm, [Int, Int, Int, Int, Int], lambda lo, hi, p, q, x: Implies(And(forall(1, lambda t: Implies(And(lo <= t, t < hi), sg * (g(t) - g(t + 1)) <= sg * (g(t + 1) - g(t + 2))), pat=lambda t: g(t)), lo <= p, p <= q, q <= hi + 1, Implies(p < q, sg * x <= sg * d(p))), sg * h(p, x) >= sg * h(q, x)), proof=lambda ih, u, lo, hi, p, q, x: [ih(lo, hi, p + 1, q, x), u(dmono, lo, hi, p, p + 1), (p + 1) * x == p * x + x], measure=lambda lo, hi, p, q, x: q - p)
    def req(s): return [D(s), And(-B < s('lo'), s('lo') <= P0, P0 <= s('hi'), s('hi') < B - 1, 0 <= s('x'), s('x') <= B), ('value', h(P0, s('x')) == FX), ('bound', forall(1, lambda p: sg * (g(p) + p * s('x')) <= sg * FX, pat=lambda p: g(p))), ('int', forall(1, lambda p: Implies(And(-B <= p, p <= B), And(-B <= g(p) - g(p + 1), g(p) - g(p + 1) <= B)), pat=lambda p: g(p))), ('long', LONG())]
    def inv(s): lp, rp, x = s.v('lp'), s.v('rp'), s('x'); return [('bracket', And(s('lo') - 1 <= lp, lp < rp, rp <= s('hi') + 1)), ('left', Or(lp == s('lo') - 1, sg * d(lp) < sg * x)), ('right', Or(rp == s('hi') + 1, sg * x <= sg * d(rp)))]
    def head(s):
        lp, rp, x, lo, hi = s.v('lp'), s.v('rp'), s('x'), s('lo'), s('hi'); s.lemma(up, lo, hi, P0, rp, x); s.lemma(down, lo, hi, rp, P0, x); s.lemma(prod, rp, x)
    return FnSpec(nm, requires=req, ensures=lambda s: [('value of f at x', s.res == FX)], loops=[LoopSpec(inv, dec=lambda s: s.v('rp') - s.v('lp'), head=head)])
def alien2(nm, sg):                                                # m(p): the least (concave: greatest) optimal point for slope p
    mm = Lemma('optimal_points_' + nm, [Int, Int, Int], lambda p, q, x: Implies(And(q <= p, sg * m(p) <= sg * x, sg * g(q) <= sg * (g(p) - (q - p) * m(p))), sg * h(q, x) <= sg * h(p, x)), proof=lambda ih, u, p, q, x: [(p - q) * (sg * x - sg * m(p)) == sg * p * x - sg * q * x - sg * (p * m(p)) + sg * (q * m(p)), (q - p) * m(p) == q * m(p) - p * m(p), u(nn, p - q, sg * x - sg * m(p))])
    def req(s): return [And(-B < s('lo'), s('lo') <= P0, P0 <= s('hi'), s('hi') < B - 1, 0 <= s('x'), s('x') <= B), ('value', h(P0, s('x')) == FX), ('bound', forall(1, lambda p: sg * (g(p) + p * s('x')) <= sg * FX, pat=lambda p: g(p))), ('x is optimal at P0', sg * m(P0) <= sg * s('x')), ('long', LONG()),
        ('optimal points are monotone', forall(2, lambda p, q: Implies(And(s('lo') <= p, p <= q, q <= s('hi')), sg * m(p) <= sg * m(q)), pat=lambda p, q: [(m(p), m(q))])), ('supporting lines', forall(2, lambda p, q: Implies(And(s('lo') <= p, p <= s('hi')), sg * g(q) <= sg * (g(p) - (q - p) * m(p))), pat=lambda p, q: [(m(p), g(q))]))]
    def inv(s): lp, rp, x = s.v('lp'), s.v('rp'), s('x'); return [('bracket', And(s('lo') - 1 <= lp, lp < rp, rp <= s('hi') + 1)), ('left', Or(lp == s('lo') - 1, sg * m(lp) <= sg * x)), ('right', Or(rp == s('hi') + 1, sg * m(rp) > sg * x))]
    def head(s): lp, x = s.v('lp'), s('x'); s.lemma(mm, lp, P0, x); s.lemma(prod, lp, x); s.assume_def(And(m(lp) == m(lp), m(P0) == m(P0), m(s.v('rp')) == m(s.v('rp'))))
    return FnSpec(nm, requires=req, ensures=lambda s: [('value of f at x', s.res == FX)], loops=[LoopSpec(inv, dec=lambda s: s.v('rp') - s.v('lp'), head=head)])
specs += [alien2('al_convex2', 1), alien2('al_concave2', -1), alien('al_convex', 1), alien('al_concave', -1)]
unit = Unit('hull', specs, opaque={'Q': 'Q'}, theory=theory())
