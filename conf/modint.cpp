#include <string>
#include "library/number/modint.hpp"
#include "conf.h"
using namespace cf;
static u64 pm(u64 a, u64 n, u64 m) { u64 r = 1 % m; a %= m; for (; n; n >>= 1) { if (n & 1) r = (u128)r * a % m; a = (u128)a * a % m; } return r; }
static i64 smod(i128 v, i64 m) { i64 r = v % m; return r < 0 ? r + m : r; }
static u64 V(u64 m) { switch (R(0, 4)) { case 0: return R(0, std::min<i64>(m - 1, 3)); case 1: return m - 1 - R(0, std::min<i64>(m - 1, 3)); case 2: { u64 v = (u64(1) << R(0, 31)) + (u64)R(-1, 1); return v % m; } default: return rnd() % m; } }
template <class M> void ops(u64 m) {
    for (int it = 0; it < 60; ++it) {
        u64 a = V(m), b = V(m); i64 n = (i64)(E() >> 1); begin("mod", m, "a", a, "b", b, "n", n);
        M x = M::raw(a), y = M::raw(b);
        EXPECT_EQ((u64)(x + y).val(), (a + b) % m); EXPECT_EQ((u64)(x - y).val(), (a + m - b) % m); EXPECT_EQ((u64)(x * y).val(), a * b % m);
        M z = x; z += y; EXPECT_EQ((u64)z.val(), (a + b) % m); z = x; z -= y; EXPECT_EQ((u64)z.val(), (a + m - b) % m); z = x; z *= y; EXPECT_EQ((u64)z.val(), a * b % m);
        z = x; EXPECT_EQ((u64)(++z).val(), (a + 1) % m); EXPECT_EQ((u64)z.val(), (a + 1) % m); z = x; EXPECT_EQ((u64)(--z).val(), (a + m - 1) % m);
        z = x; EXPECT_EQ((u64)(z++).val(), a); EXPECT_EQ((u64)z.val(), (a + 1) % m); z = x; EXPECT_EQ((u64)(z--).val(), a); EXPECT_EQ((u64)z.val(), (a + m - 1) % m);
        EXPECT_EQ((u64)x.pow(n).val(), pm(a, n, m)); EXPECT_EQ((u64)x.pow(it).val(), pm(a, it, m)); EXPECT_EQ((u64)suisen::pow(x, it).val(), pm(a, it, m));
        EXPECT(((x == y) == (a == b)) && ((x != y) == (a != b)));
        if (std::gcd(a, m) == 1) {
            EXPECT_EQ((u64)x.inv().val() * a % m, 1 % m, "inv"); EXPECT((u64)x.inv().val() < m);
            EXPECT_EQ((u64)x.xpow(-(i64)it).val() * pm(a, it, m) % m, 1 % m, "xpow negative"); EXPECT_EQ((u64)(y / x).val() * a % m, b, "div");
            z = y; z /= x; EXPECT_EQ((u64)z.val() * a % m, b, "div=");
        }
        i64 v = (i64)E(); u64 w = E(); int vi = (int)E(); unsigned wi = (unsigned)E(); op("v", v, "w", w, "vi", vi, "wi", wi);
        EXPECT_EQ((u64)M(v).val(), (u64)smod(v, m)); EXPECT_EQ((u64)M(w).val(), w % m); EXPECT_EQ((u64)M(vi).val(), (u64)smod(vi, m)); EXPECT_EQ((u64)M(wi).val(), wi % m);
    }
}
SUITE(static_p) { ops<suisen::modint998244353>(998244353); ops<suisen::modint1000000007>(1000000007); ops<suisen::static_modint<2>>(2); ops<suisen::static_modint<3>>(3); ops<suisen::static_modint<2147483647>>(2147483647); ops<suisen::static_modint<61>>(61);
    for (int a = 0; a < 998244353; a += 998244353 / 3) { suisen::modint998244353 x = suisen::modint998244353::raw(a); EXPECT_EQ((u64)(-x).val(), (u64)(998244353 - a) % 998244353); } }
SUITE(static_c) { ops<suisen::static_modint<1>>(1); ops<suisen::static_modint<1000000000>>(1000000000); ops<suisen::static_modint<12>>(12); ops<suisen::static_modint<1073741824>>(1073741824); ops<suisen::static_modint<2147483646>>(2147483646); ops<suisen::static_modint<341>>(341); }
SUITE(dynamic) {
    for (int k = 0; k < 6; ++k) {
        u64 m = k == 0 ? R(1, 30) : k == 1 ? 2147483647 - R(0, 5) : k == 2 ? (u64(1) << R(0, 30)) + (u64)R(0, 2) : R(1, 2147483647);
        if (m > 2147483647) m = 2147483647;
        begin("set_mod", m); suisen::modint::set_mod(m); EXPECT_EQ((u64)suisen::modint::mod(), m); EXPECT_EQ((u64)suisen::modint::umod(), m);
        ops<suisen::modint>(m);
        i128 v = (i128)(i64)E() * (i64)E(); u128 w = (u128)E() * E(); begin("mod", m, "v", v, "w", w);
        EXPECT_EQ((u64)suisen::modint(v).val(), (u64)smod(v, m)); EXPECT_EQ((u64)suisen::modint(w).val(), (u64)(w % m));
    }
}
