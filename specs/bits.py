"""bitwise operations on non-negative integers: recursive definitions, shown to agree with the machine operations"""
from irv.spec import *
from irv.engine import band, bor, bxor
V = z3.IntVal
@definition
def band_def(a, b): return Implies(And(a >= 0, b >= 0), band(a, b) == If(Or(a == 0, b == 0), 0, (a % 2) * (b % 2) + 2 * band(a / 2, b / 2)))
@definition
def bor_def(a, b): return Implies(And(a >= 0, b >= 0), bor(a, b) == If(a == 0, b, If(b == 0, a, If(a % 2 + b % 2 >= 1, 1, 0) + 2 * bor(a / 2, b / 2))))
@definition
def bxor_def(a, b): return Implies(And(a >= 0, b >= 0), bxor(a, b) == If(a == 0, b, If(b == 0, a, (a + b) % 2 + 2 * bxor(a / 2, b / 2))))
def _bv():
    out = []
    for w in (8, 16, 32, 64):
        x, y = z3.BitVecs('bx%d by%d' % (w, w), w); hx, hy = z3.LShR(x, 1), z3.LShR(y, 1); one = z3.BitVecVal(1, w)
        out += [(x & y) == (x & y & one) + 2 * (hx & hy), (x | y) == ((x | y) & one) + 2 * (hx | hy), (x ^ y) == ((x + y) & one) + 2 * (hx ^ hy), x & 0 == 0, x | 0 == x, x ^ 0 == x,
                z3.ULE(hx & hy, z3.BitVecVal((1 << (w - 1)) - 1, w)), z3.ULE(hx | hy, z3.BitVecVal((1 << (w - 1)) - 1, w)), z3.ULE(hx ^ hy, z3.BitVecVal((1 << (w - 1)) - 1, w))]
    return And(*out)
bits_bv = Lemma('and_or_xor_digit_by_digit', [], lambda: z3.BoolVal(True), bv=_bv)
@definition
def p2_def(k): return pow2(k) == If(k <= 0, 1, 2 * pow2(k - 1))
p2_pos = Lemma('pow2_pos_', [Int], lambda k: pow2(k) >= 1, proof=lambda ih, u, k: [u(bits_bv), p2_def(k), ih(k - 1)], measure=lambda k: If(k > 0, k, 0))
