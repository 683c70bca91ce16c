#include <string>
#include "library/number/barrett_reduction.hpp"
#include "library/number/montogomery.hpp"
#include "library/number/modint_2^61m1.hpp"
#include "conf.h"
using namespace cf;
static u64 mulm(u64 a, u64 b, u64 m) { return (u128)a * b % m; }
static u64 pm(u64 a, u64 n, u64 m) { u64 r = 1 % m; a %= m; for (; n; n >>= 1) { if (n & 1) r = mulm(r, a, m); a = mulm(a, a, m); } return r; }
SUITE(barrett) {
    for (int it = 0; it < 400; ++it) {
        uint32_t M = (uint32_t)E(); if (!M) M = 1; u64 x = E(); if (R(0, 2) == 0) x = (E() / M) * M + (u64)R(-2, 2);
        begin("barrett M", M, "x", x); suisen::barrett b(M);
        EXPECT_EQ(b.umod(), M); EXPECT_EQ((u64)b.quo(x), x / M); EXPECT_EQ((u64)b.rem(x), x % M); auto q = b.quorem(x); EXPECT_EQ((u64)q.first, x / M); EXPECT_EQ((u64)q.second, x % M);
        if (M > 1) { EXPECT_EQ((u64)b.quo<false>(x), x / M); EXPECT_EQ((u64)b.rem<false>(x), x % M); }
        uint32_t p = (uint32_t)E(), r = (uint32_t)E(); op("mul", p, r); EXPECT_EQ((u64)b.mul(p, r), (u64)p * r % M);
    }
}
template <class MG, class Int, class D> void mont(int bits) {
    for (int it = 0; it < 60; ++it) {
        Int N = (Int)E() | 1; if (R(0, 3) == 0) N = (Int)(~(Int)0 - 2 * R(0, 6)); begin("montgomery", bits, "N", (u64)N); MG g(N);
        u64 Rm = bits == 32 ? (u64(1) << 32) % N : (u64)(((u128)1 << 64) % N);
        auto val = [&](u64 x) { return (u64)g.reduce((D)x); };          // x / R mod N
        for (int k = 0; k < 10; ++k) {
            Int a = (Int)E(), b = (Int)E(); if (R(0, 2) == 0) a = N - 1; if (R(0, 2) == 0) b = N - 1 - R(0, 1) * (N > 1); a %= N; b %= N; Int t = (Int)E(); i64 e = (i64)(E() >> 1); op("a", (u64)a, "b", (u64)b, "t", (u64)t, "e", e);
            EXPECT_EQ((u64)g.make(t), mulm(t % N, Rm, N)); EXPECT(mulm(val(a), Rm, N) == a && val(a) < N, "reduce");
            D T = (D)a * b; EXPECT_EQ(mulm(g.reduce(T), Rm, N), (u64)(T % N), "reduce product"); if (N > 1) { D T2 = ((D)N << bits) - 1 - (D)(E() % N); EXPECT_EQ(mulm(g.reduce(T2), Rm, N), (u64)(T2 % N), "reduce near RN"); }
            EXPECT_EQ((u64)g.add(a, b), (u64)(((u128)a + b) % N)); EXPECT_EQ((u64)g.sub(a, b), (u64)(((u128)a + N - b) % N));
            EXPECT_EQ(mulm(g.mul(a, b), Rm, N), mulm(a, b, N)); EXPECT_EQ(val(g.pow(a, e)), pm(val(a), e, N)); EXPECT_EQ(val(g.pow(a, k)), pm(val(a), k, N));
        }
    }
}
SUITE(mont32) { mont<suisen::Montgomery32, uint32_t, uint64_t>(32); }
SUITE(mont64) { mont<suisen::Montgomery64, uint64_t, u128>(64); }
SUITE(p61) {
    using P = suisen::modint2p61m1; const u64 m = (u64(1) << 61) - 1;
    for (int it = 0; it < 300; ++it) {
        u64 v = E(), a = E() % m, b = E() % m; if (R(0, 3) == 0) a = m - 1 - R(0, 2); if (R(0, 3) == 0) b = m - 1 - R(0, 2); i64 e = (i64)(E() >> 1); begin("p61 v", v, "a", a, "b", b, "e", e);
        EXPECT_EQ((u64)P::fast_mod(v), v % m); EXPECT_EQ((u64)P(v).val(), v % m); P x(a), y(b);
        EXPECT_EQ((u64)(x + y).val(), (a + b) % m); EXPECT_EQ((u64)(x - y).val(), (a + m - b) % m); EXPECT_EQ((u64)(x * y).val(), mulm(a, b, m)); EXPECT_EQ((u64)x.pow(e).val(), pm(a, e, m)); EXPECT_EQ((u64)x.pow(it).val(), pm(a, it, m));
        EXPECT((x == y) == (a == b)); if (a) EXPECT_EQ(mulm(x.inv().val(), a, m), 1ull, "inv");
    }
}
