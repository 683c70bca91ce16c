from irv.spec import *
from irv.unit import Unit
from specs.nt import *
MP = 998244353; MC = 1000000000
rng = lambda t, m: And(0 <= t, t < m)
@definition
def fermat(x): return Implies(And(0 < x, x < MP), (pw(x, MP - 2) * x) % MP == 1)     # Fermat's little theorem for the prime 998244353 (assumed)
def binop(nm, f, m, post=None, **kw):
    return FnSpec(nm, requires=lambda s: [rng(s('a._v'), m(s)), rng(s('b._v'), m(s))] + pre_mod(nm, s), ensures=lambda s: [('value', s('a._v') == f(s.old('a._v'), s.old('b._v')) % m(s)), ('reduced', rng(s('a._v'), m(s)))], **kw)
def pre_mod(nm, s): return bt(s) if nm[0] == 'd' else []
def btw(s, o):
    M = s(o + '.M'); L = If(M == 1, 0, (P128 - 1) / M + 1)
    return [('modulus', And(1 <= M, M < (1 << 31), s(o + '.L') == L, s(o + '.dL') == L % P64, s(o + '.uL') == L / P64))]
bt = lambda s: btw(s, 'bt')
ceilL = lambda K, M: (K - 1) / M + 1
K128 = Lemma('barrett_K128', [Int, Int], lambda c, M: Implies(And(0 <= c, c < P64, 2 <= M, M < (1 << 31)), (lambda L: (lambda cu, cd: And(0 <= cu, cu < P128, 0 <= cd, cd < P64, L < P128,
        c / M == cu / P64 + If(cu % P64 + cd >= P64, 1, 0)))(c * (L / P64), c * (L % P64) / P64))(ceilL(P128, M))),
    proof=lambda ih, u, c, M: (lambda L: [u(barrett_q, c, M, L, M * L - P128, z3.IntVal(P128)), u(lin_bound, c, M * L - P128), u(mul_bound, c, L / P64), u(mul_bound, c, L % P64), u(mul_subst, L, (L / P64) * P64 + L % P64, c), u(divu, c * L, z3.IntVal(P128), c / M, c * L - P128 * (c / M))])(ceilL(P128, M)))
lin_bound = Lemma('lin_bound', [Int, Int], lambda c, e: Implies(And(0 <= c, c < P64, 0 <= e, e < P64), And(0 <= c * e, c * e < P128)), proof=lambda ih, u, c, e: [u(mul_nn, c, e), u(mul_mono, c, P64, e)])
mul_bound = lin_bound
def pow_loop(m, base, n0):
    def inv(s):
        x, r, n = s.v('x'), s.v('r'), s.v('n'); mm = m(s)
        return [('range', And(rng(x, mm), rng(r, mm), n >= 0)), ('power', (r * pw(x, n)) % mm == pw(base(s), n0(s)) % mm)]
    def use(s):
        if s.prev is not None: s.lemma(pw_step, s.prev.v('r'), s.prev.v('x'), s.prev.v('n'), m(s)); s.lemma(mmul, s.prev.v('r'), s.prev.v('x'), m(s))
        else: s.lemma(mmul, 1, pw(base(s), n0(s)), m(s))
    return LoopSpec(inv, dec=lambda s: s.v('n'), use=use)
m_s, m_c, m_d = (lambda s: MP), (lambda s: MC), (lambda s: s('bt.M'))
def inv_loop(m):
    def inv(s):
        S, T_, m0, m1 = s.v('s'), s.v('t'), s.v('m0'), s.v('m1'); b, a = m(s), s('a._v')
        return [('range', And(0 <= T_, T_ < S, S <= b)), ('gcd', gcd(S, T_) == gcd(b, a)),
                ('congruences', And((S - m0 * a) % b == 0, (T_ - m1 * a) % b == 0)),
                ('signs', Or(And(m0 <= 0, m1 >= 0, S * m1 - T_ * m0 == b, -m0 <= m1), And(m0 >= 0, m1 <= 0, T_ * m0 - S * m1 == b, m0 <= -m1))), ('small', And(-b <= m0, m0 <= b, -b <= m1, m1 <= b))]
    def use(s):
        b, a = m(s), s('a._v')
        s.assume_def(gcd_def(s.v('s'), s.v('t'))); s.assume_def(gcd_def(b, a))
        if s.prev is not None:
            S, T_, m0, m1 = [s.prev.v(x) for x in ('s', 't', 'm0', 'm1')]
            s.assume_def(gcd_def(S, T_)); s.lemma(msub0, S - m0 * a, T_ - m1 * a, S / T_, b)
            s.lemma(divu, S, T_, S / T_, S - T_ * (S / T_))
        else: s.lemma(mshift, 0, 1, b)
    return LoopSpec(inv, dec=lambda s: s.v('t'), use=use, head=lambda s: s.assume_def(gcd_def(s.v('s'), s.v('t'))))
def inv_use(m):
    def use(s):
        b, a = m(s), s('a._v')
        if s.has('s'): s.assume_def(gcd_def(s.v('s'), s.v('t')))
        s.assume_def(gcd_def(b, a)); s.assume_def(gcd_def(a, b % a))
        if s.has('m0'): s.lemma(mdiff, s.v('m0') * a, 1, b); s.lemma(mdiff, 1, s.v('m0') * a, b); s.lemma(mshift, s.v('m0') * a, a, b)
    return use
spec_pow = lambda nm, m: FnSpec(nm, requires=lambda s: [rng(s('a._v'), m(s)), s('n') >= 0] + pre_mod(nm, s), ensures=lambda s: [('power', s.res == pw(s('a._v'), s('n')) % m(s))], loops=[pow_loop(m, lambda s: s('a._v'), lambda s: s('n'))],
    use=lambda s: (s.assume_def(pw_def(s.v('x'), 0)) if s.has('x') else None))
specs = [
    FnSpec('s_ctor_l', ensures=lambda s: s.res == s('v') % MP), FnSpec('s_ctor_ul', ensures=lambda s: s.res == s('v') % MP), FnSpec('s_ctor_i', ensures=lambda s: s.res == s('v') % MP), FnSpec('s_ctor_u', ensures=lambda s: s.res == s('v') % MP),
    binop('s_add', lambda a, b: a + b, m_s), binop('s_sub', lambda a, b: a - b, m_s), binop('s_mul', lambda a, b: a * b, m_s),
    FnSpec('s_inc', requires=lambda s: rng(s('a._v'), MP), ensures=lambda s: s('a._v') == (s.old('a._v') + 1) % MP), FnSpec('s_dec', requires=lambda s: rng(s('a._v'), MP), ensures=lambda s: s('a._v') == (s.old('a._v') - 1) % MP),
    FnSpec('s_pinc', requires=lambda s: rng(s('a._v'), MP), ensures=lambda s: [s('a._v') == (s.old('a._v') + 1) % MP, s.res == s.old('a._v')]), FnSpec('s_pdec', requires=lambda s: rng(s('a._v'), MP), ensures=lambda s: [s('a._v') == (s.old('a._v') - 1) % MP, s.res == s.old('a._v')]),
    FnSpec('s_neg', requires=lambda s: rng(s('a._v'), MP), ensures=lambda s: s.res == (-s('a._v')) % MP),
    FnSpec('s_badd', requires=lambda s: [rng(s('a._v'), MP), rng(s('b._v'), MP)], ensures=lambda s: s.res == (s('a._v') + s('b._v')) % MP),
    FnSpec('s_bsub', requires=lambda s: [rng(s('a._v'), MP), rng(s('b._v'), MP)], ensures=lambda s: s.res == (s('a._v') - s('b._v')) % MP),
    FnSpec('s_bmul', requires=lambda s: [rng(s('a._v'), MP), rng(s('b._v'), MP)], ensures=lambda s: s.res == (s('a._v') * s('b._v')) % MP),
    FnSpec('s_eq', ensures=lambda s: (s.res if z3.is_bool(s.res) else s.res != 0) == (s('a._v') == s('b._v'))), FnSpec('s_ne', ensures=lambda s: (s.res if z3.is_bool(s.res) else s.res != 0) == (s('a._v') != s('b._v'))),
    spec_pow('s_pow', m_s),
    FnSpec('s_inv', requires=lambda s: [rng(s('a._v'), MP), s('a._v') > 0], ensures=lambda s: [('inverse', (s.res * s('a._v')) % MP == 1), rng(s.res, MP)], loops=[pow_loop(m_s, lambda s: s('a._v'), lambda s: z3.IntVal(MP - 2))],
           use=lambda s: (s.assume_def(pw_def(s.v('x'), 0)), s.assume_def(fermat(s('a._v'))), s.lemma(mmul, pw(s('a._v'), MP - 2), s('a._v'), MP))),
    FnSpec('s_div', requires=lambda s: [rng(s('a._v'), MP), rng(s('b._v'), MP), s('b._v') > 0], ensures=lambda s: [('quotient', (s('a._v') * s.old('b._v')) % MP == s.old('a._v')), rng(s('a._v'), MP)], loops=[pow_loop(m_s, lambda s: s('b._v'), lambda s: z3.IntVal(MP - 2))],
           use=lambda s: (s.assume_def(pw_def(s.v('x'), 0)), s.assume_def(fermat(s('b._v'))), s.lemma(mmul, s.old('a._v') * s.v('r'), s('b._v'), MP), s.lemma(mmul, pw(s('b._v'), MP - 2), s('b._v'), MP), s.lemma(mcong, s.v('r') * s('b._v'), 1, s.old('a._v'), MP))),
    FnSpec('c_inv', requires=lambda s: [rng(s('a._v'), MC), gcd(MC, s('a._v')) == 1], ensures=lambda s: [('inverse', (s.res * s('a._v')) % MC == 1), rng(s.res, MC)], pre=lambda s: s.assume_def(gcd_def(MC, s('a._v'))), loops=[inv_loop(m_c)], use=inv_use(m_c)),
    binop('c_add', lambda a, b: a + b, m_c), binop('c_sub', lambda a, b: a - b, m_c), binop('c_mul', lambda a, b: a * b, m_c),
    FnSpec('d_setmod', requires=lambda s: s('m') >= 1, ensures=lambda s: bt(s) + [s('bt.M') == s('m')]),
    FnSpec('d_ctor_l', requires=lambda s: bt(s), ensures=lambda s: s.res == s('v') % s('bt.M'), use=lambda s: s.lemma(mneg, s('v'), s('bt.M'))), FnSpec('d_ctor_ul', requires=lambda s: bt(s), ensures=lambda s: s.res == s('v') % s('bt.M'), use=lambda s: s.lemma(mneg, s('v'), s('bt.M'))), FnSpec('d_ctor_i', requires=lambda s: bt(s), ensures=lambda s: s.res == s('v') % s('bt.M'), use=lambda s: s.lemma(mneg, s('v'), s('bt.M'))),
    binop('d_add', lambda a, b: a + b, m_d), binop('d_sub', lambda a, b: a - b, m_d), binop('d_mul', lambda a, b: a * b, m_d),
    FnSpec('d_inc', requires=lambda s: bt(s) + [rng(s('a._v'), s('bt.M'))], ensures=lambda s: s('a._v') == (s.old('a._v') + 1) % s('bt.M')), FnSpec('d_dec', requires=lambda s: bt(s) + [rng(s('a._v'), s('bt.M'))], ensures=lambda s: s('a._v') == (s.old('a._v') - 1) % s('bt.M')),
    spec_pow('d_pow', m_d),
    FnSpec('d_inv', requires=lambda s: bt(s) + [rng(s('a._v'), s('bt.M')), gcd(s('bt.M'), s('a._v')) == 1], ensures=lambda s: [('inverse', (s.res * s('a._v')) % s('bt.M') == 1 % s('bt.M')), rng(s.res, s('bt.M'))], pre=lambda s: s.assume_def(gcd_def(m_d(s), s('a._v'))), loops=[inv_loop(m_d)], use=inv_use(m_d)),
]
def mk_rem(nm, care):
    f = FnSpec(nm, requires=lambda s: btw(s, 'this') + ([] if care else [s('this.M') >= 1]), ensures=lambda s: [('remainder', s.res == s('c') % s('this.M')) if care else ('remainder', Implies(s('this.M') >= 2, s.res == s('c') % s('this.M'))), ('unit modulus', Implies(s('this.M') == 1, s.res == (0 if care else s('c') % (1 << 32))))], modifies=lambda s: [],
        use=lambda s: s.lemma(K128, s('c'), s('this.M')))
    f.match = r'barrett_K128::rem<%s>' % ('true' if care else 'false')
    return f
rems = [mk_rem('barrett_K128::rem<true>', True), mk_rem('barrett_K128::rem<false>', False)]
unit = Unit('modint', rems + specs, contracts=rems, keep=[r'barrett_K128::rem<'])
