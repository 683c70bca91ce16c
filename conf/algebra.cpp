// affine maps, clamped affine maps, nimbers, object pools, 32-bit pointers, stream wrappers, expression parser, SIMD primality
#include <bits/stdc++.h>
#include "library/number/modint.hpp"
#include "library/algebra/monoid/affine.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
#include "library/algebra/field/nimber.hpp"
#include "library/util/object_pool.hpp"
#include "library/util/pointer_32bit.hpp"
#include "library/util/update_proxy_object.hpp"
#include "library/util/variant_utils.hpp"
#include "library/io/input_stream.hpp"
#include "library/io/output_stream.hpp"
#include "library/icpc/parsing.hpp"
#include "library/number/deterministic_miller_rabin_simd.hpp"
#include "conf.h"
using namespace cf; using namespace suisen;
template <class T> concept Rd = requires(std::istream& i, T& t) { i >> t; };
template <class T> concept Wr = requires(std::ostream& o, const T& t) { o << t; };
SUITE(affine) {
    using A = Affine<i64>; using M = modint998244353;
    for (int it = 0; it < 40; ++it) {
        i64 a = R(-9, 9), b = R(-9, 9), c = R(-9, 9), d = R(-9, 9), x = R(-99, 99); begin("affine", a, b, c, d, x); A f(a, b), g(c, d);
        EXPECT_EQ(f(x), a * x + b, "f(x)"); EXPECT_EQ(f.compose(g)(x), a * (c * x + d) + b, "f.compose(g)(x)"); EXPECT_EQ(A::compose(f, g)(x), a * (c * x + d) + b, "compose"); EXPECT(A::compose(f, A::id()) == f && A::compose(A::id(), f) == f, "id"); EXPECT_EQ(A::id()(x), x, "id(x)"); EXPECT_EQ(A()(x), x, "default");
        EXPECT_EQ((f + g)(x), f(x) + g(x), "sum"); EXPECT_EQ((f - g)(x), f(x) - g(x), "difference"); EXPECT_EQ((-f)(x), -f(x), "negation"); EXPECT_EQ((+f)(x), f(x), "plus"); EXPECT_EQ((f + d)(x), f(x) + d, "f + c"); EXPECT_EQ((f - d)(x), f(x) - d, "f - c");
        A h = f; EXPECT_EQ((h++)(x), f(x), "post ++"); EXPECT_EQ(h(x), f(x) + 1, "++"); EXPECT_EQ((h--)(x), f(x) + 1, "post --"); EXPECT_EQ((--h)(x), f(x) - 1, "--"); EXPECT_EQ((++h)(x), f(x), "pre ++");
        auto p = std::make_pair(a, b), q = std::make_pair(c, d); EXPECT((f == g) == (p == q) && (f != g) == (p != q) && (f < g) == (p < q) && (f <= g) == (p <= q) && (f > g) == (p > q) && (f >= g) == (p >= q), "order");
        EXPECT((std::pair<i64, i64>(f) == p), "pair");
        if constexpr (Rd<A> && Wr<A>) { std::stringstream s; s << f; A r; s >> r; EXPECT(r == f, "stream round trip", s.str()); } else EXPECT(false, "Affine is not streamable");
        Affine<M> u(M(a + 20) / 7, M(b + 20) / 3), v(M(c + 20), M(d + 20)); EXPECT((u.compose(v)(M(x + 100)) == u(v(M(x + 100)))), "modint compose");
    }
}
SUITE(affine_clamp) {
    using A = AffineClamp<i64>; using B = AffineClamp<int>;
    for (int it = 0; it < 40; ++it) {
        int big = R(0, 3); auto e = [&](i64 m) { return R(-m, m); }; i64 m = big ? 20 : 1000000000; auto mk = [&](i64& a, i64& b, i64& l, i64& r) { a = e(3), b = e(m), l = e(m), r = e(m); if (l > r) std::swap(l, r); if (R(0, 3) == 0) l = INT64_MIN; if (R(0, 3) == 0) r = INT64_MAX; return A(a, b, l, r); };
        i64 a, b, l, r, c, d, s, t, x = R(0, 3) ? e(m) : R(0, 1) ? INT64_MAX - R(0, 3) : INT64_MIN + R(0, 3); A f = mk(a, b, l, r), g = mk(c, d, s, t); begin("affine clamp", a, b, l, r, c, d, s, t, x);
        auto cl = [](i128 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : i64(v); }; i64 y = cl(i128(c) * x + d, s, t), z = cl(i128(a) * y + b, l, r);
        EXPECT_EQ(g(x), y, "g(x)"); EXPECT_EQ(f.compose(g)(x), z, "f.compose(g)(x)"); EXPECT_EQ(A::compose(f, g)(x), z, "compose(f, g)(x)"); EXPECT_EQ(A::id()(x), x, "id"); EXPECT_EQ(A::compose(g, A::id())(x), y, "g . id"); EXPECT_EQ(A::compose(A::id(), g)(x), y, "id . g");
        B h(int(e(1000)), int(e(1000)), -1000000, 1000000), k(int(e(1000)), int(e(1000)), -50, 1 << 30); int w = int(e(2147483647)); EXPECT_EQ(B::compose(h, k)(w), h(k(w)), "int compose", w);
        if constexpr (Rd<A> && Wr<A>) { std::stringstream q; q << f; A v; q >> v; EXPECT(v.a == f.a && v.b == f.b && v.l == f.l && v.r == f.r, "stream round trip", q.str()); } else EXPECT(false, "AffineClamp is not streamable");
    }
}
static u64 nmul(u64 x, u64 y, int h = 32) { if (x <= 1 || y <= 1) return x * y; u64 m = (u64(1) << h) - 1, a = x >> h, b = x & m, c = y >> h, d = y & m; if (!a && !c) return nmul(x, y, h / 2); u64 ac = nmul(a, c, h / 2), bd = nmul(b, d, h / 2), o = nmul(a ^ b, c ^ d, h / 2); return ((o ^ bd) << h) ^ bd ^ nmul(ac, u64(1) << (h - 1), h / 2); }
SUITE(nimber) {
    static std::vector<std::vector<int>> t; if (t.empty()) { int N = 24; t.assign(N, std::vector<int>(N)); for (int x = 0; x < N; ++x) for (int y = 0; y < N; ++y) { std::set<int> s; for (int a = 0; a < x; ++a) for (int b = 0; b < y; ++b) s.insert(t[a][y] ^ t[x][b] ^ t[a][b]); int e = 0; while (s.count(e)) ++e; t[x][y] = e; begin("nim table", x, y); EXPECT_EQ(nmul(x, y), u64(e), "oracle"); EXPECT_EQ((nimber8_t(x) * nimber8_t(y)).val(), u64(e), "product"); if (x < 16 && y < 16) EXPECT_EQ((nimber4_t(x) * nimber4_t(y)).val(), u64(e), "nimber4"); if (x < 4 && y < 4) EXPECT_EQ((nimber2_t(x) * nimber2_t(y)).val(), u64(e), "nimber2"); } }
    for (int it = 0; it < 60; ++it) {
        u64 x = E(), y = E(), z = E(); begin("nimber", x, y, z); nimber a(x), b(y), c(z);
        EXPECT_EQ((a * b).val(), nmul(x, y), "product"); EXPECT_EQ((a + b).val(), x ^ y, "sum"); EXPECT_EQ((a - b).val(), x ^ y, "difference"); EXPECT(a * (b + c) == a * b + a * c, "distributivity"); EXPECT((a * b) * c == a * (b * c), "associativity");
        if (x) { EXPECT_EQ((a * a.inv()).val(), u64(1), "inverse"); EXPECT((b / a) * a == b, "division"); }
        int k = R(0, 20); nimber p = 1; for (int i = 0; i < k; ++i) p *= a; EXPECT(a.pow(k) == p, "pow", k); EXPECT(-a == a && +a == a && nimber::one().val() == 1 && nimber::zero().val() == 0, "units");
        EXPECT_EQ((nimber32_t(x & 0xffffffff) * nimber32_t(y & 0xffffffff)).val(), nmul(x & 0xffffffff, y & 0xffffffff), "nimber32"); EXPECT_EQ((nimber16_t(x & 0xffff) * nimber16_t(y & 0xffff)).val(), nmul(x & 0xffff, y & 0xffff), "nimber16"); if (x & 0xffff) EXPECT_EQ((nimber16_t(x & 0xffff) * nimber16_t(x & 0xffff).inv()).val(), u64(1), "inverse 16");
        std::stringstream s; s << a; nimber r; s >> r; EXPECT(r == a, "stream round trip");
    }
}
template <bool ext> static void pool_() {
    int n = R(ext ? 0 : 1, 12); ObjectPool<i64, ext> p(n); std::map<i64*, i64> live; begin("object pool", ext, n);
    for (int k = R(0, 60); k--;) {
        int o = R(0, 9); if (o < 6) { if (!ext && int(live.size()) == n) continue; i64* q = p.alloc(); op("alloc"); EXPECT(!live.count(q), "returned a live object"); *q = live[q] = R(0, 999); }
        else if (o < 9) { if (live.empty()) continue; auto it = std::next(live.begin(), R(0, int(live.size()) - 1)); op("free"); p.free(it->first); live.erase(it); }
        else if (R(0, 3) == 0) { op("clear"); p.clear(); live.clear(); }
        EXPECT_EQ(p.size(), int(live.size()), "size"); EXPECT(p.capacity() >= p.size() && (ext || p.capacity() == n), "capacity"); for (auto [q, v] : live) EXPECT_EQ(*q, v, "object overwritten");
    }
}
struct Obj { int a, b; Obj(int a = 0, int b = 0) : a(a), b(b) {} };
SUITE(pools) {
    for (int i = 0; i < 10; ++i) pool_<false>(), pool_<true>();
    using P = ptr32<Obj>; P::dealloc_all(R(0, 1)); if (R(0, 1)) P::reserve(R(0, 20)); std::map<int, std::pair<int, int>> live; begin("ptr32"); EXPECT(P().is_null() && P(nullptr).is_null() && !P().is_not_null() && !bool(P()) && P() == P(nullptr), "null");
    for (int k = R(0, 60); k--;) {
        if (R(0, 2)) { int a = R(0, 99), b = R(0, 99); P q = P::alloc(a, b); op("alloc", int(q)); EXPECT(q.is_not_null() && !q.is_null() && !live.count(int(q)), "alloc returned a live object"); live[int(q)] = {a, b}; }
        else if (live.size()) { auto it = std::next(live.begin(), R(0, int(live.size()) - 1)); op("dealloc", it->first); P::dealloc(P(it->first)); live.erase(it); }
        for (auto& [i, v] : live) { P q(i); EXPECT(q->a == v.first && (*q).b == v.second && q == P(i) && !(q != P(i)) && q != P(i + 1) && !(q == P(i + 1)) && !(q > P(i + 1)) && !(P(i + 1) <= q) && !(q >= P(i + 1)) && !(P(i + 1) < q) && q <= P(i) && !(q < P(i)) && q < P(i + 1) && P(i + 1) > q && P(i + 1) >= q, "object", i); }
    }
}
SUITE(proxy) {
    for (int it = 0; it < 20; ++it) { int v = R(1, 99), c = R(1, 9), n = 0, w = v; begin("update proxy", v, c); auto P = [&] { return UpdateProxyObject(v, [&] { ++n; }); };
        P() += c; w += c; EXPECT(v == w && n == 1, "+="); P() -= c; w -= c; EXPECT(v == w && n == 2, "-="); P() *= c; w *= c; EXPECT(v == w && n == 3, "*="); P() /= c; w /= c; EXPECT(v == w && n == 4, "/="); ++P(); EXPECT(v == w + 1 && n == 5, "++"); --P(); EXPECT(v == w && n == 6, "--"); P() <<= 2; EXPECT(v == w << 2 && n == 7, "<<="); P() >>= 2; EXPECT(v == w && n == 8, ">>="); P().apply([&](int x) { return x * 3 + c; }); w = w * 3 + c; EXPECT(v == w && n == 9, "apply"); P() %= c; w %= c; EXPECT(v == w && n == 10, "%="); P() = c; EXPECT(v == c && n == 11 && int(P()) == c, "=");
        std::variant<int, std::string> u; if (R(0, 1)) u = c; else u = std::string("s"); int got = 0; Match(u).with<int>([&](int x) { got = x; }).with<std::string>([&](const std::string& s) { got = 100 + int(s.size()); }).otherwise([&] { got = -1; }); EXPECT_EQ(got, u.index() ? 101 : c, "Match"); got = 0; Match(u).with<int>([&](int) { got = 1; }).otherwise([&] { got = 2; }); EXPECT_EQ(got, u.index() ? 2 : 1, "otherwise"); }
}
SUITE(streams) {
    for (int it = 0; it < 20; ++it) {
        i128 a = i128((u128(E()) << 64) | E()); if (R(0, 9) == 0) a = i128(u128(1) << 127); u128 b = (u128(E()) << 64) | E(); std::vector<i128> v; for (int k = R(0, 4); k--;) v.push_back(i128((u128(E()) << 64) | E())); std::pair<int, std::string> p(R(-9, 9), "ab"); std::tuple<int, i64, char> t(R(-9, 9), R(-99, 99), 'x'); begin("streams", a, b, v);
        std::stringstream ss; io::OutputStream<std::stringstream&> o(ss); o.print(a, b); o.print(v); o.print(p, t); o.print_all(v, ",", "$"); o.print();
        std::string ex = note_(a) + " " + note_(b) + "\n"; for (size_t i = 0; i < v.size(); ++i) ex += (i ? " " : "") + note_(v[i]); ex += "\n" + std::to_string(p.first) + " ab " + std::to_string(std::get<0>(t)) + " " + std::to_string(std::get<1>(t)) + " x\n"; for (size_t i = 0; i < v.size(); ++i) ex += (i ? "," : "") + note_(v[i]); ex += "$\n"; EXPECT_EQ(ss.str(), ex, "output");
        std::stringstream is(ss.str()); io::InputStream<std::stringstream&> in(is); i128 a2; u128 b2; std::vector<i128> v2(v.size()); std::pair<int, std::string> p2; std::tuple<int, i64, char> t2; in.read(a2, b2, v2, p2, t2); EXPECT(a2 == a && b2 == b && v2 == v && p2 == p && t2 == t, "input");
    }
}
static std::string ex_(int d, i64& v, int lvl) {   // lvl 0 expr, 1 term, 2 factor
    if (lvl == 0) { std::string s = ex_(d, v, 1); for (int k = R(0, 2); k--;) { i64 w; std::string u = ex_(d, w, 1); if (R(0, 1)) s += "+" + u, v += w; else s += "-" + u, v -= w; } return s; }
    if (lvl == 1) { std::string s = ex_(d, v, 2); for (int k = R(0, 1) ? R(0, 2) : 0; k--;) { i64 w; std::string u = ex_(d, w, 2); if (w == 0 || R(0, 1)) { if (std::abs(v) > 1000000 || std::abs(w) > 1000000) break; s += "*" + u, v *= w; } else s += "/" + u, v /= w; } return s; }
    int ng = R(0, 3) ? 0 : R(1, 2); std::string s(ng, '-'); if (d > 0 && R(0, 1)) s += "(" + ex_(d - 1, v, 0) + ")"; else { v = R(0, 99); s += std::to_string(v); } if (ng & 1) v = -v; return s;
}
SUITE(parsing) {
    for (int it = 0; it < 30; ++it) { i64 v; const std::string s = ex_(R(0, 4), v, 0); begin("parse", s); parsing::State p = s.begin(); EXPECT_EQ(parsing::normal_expression::parse(p), v, "value"); EXPECT(p == s.end(), "stopped early");
        const std::string n = std::to_string(R(0, INT64_MAX)) + ")"; p = n.begin(); EXPECT_EQ(parsing::nonnegative_number(p), i64(std::stoll(n)), "nonnegative_number"); EXPECT(*p == ')' && parsing::is(p, ')') && parsing::in(p, '(', ')'), "rest"); }
}
SUITE(simd_prime) {
    if (!__builtin_cpu_supports("avx2")) return;
    auto naive = [](i64 n) { if (n < 2) return false; for (i64 d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; };
    for (int it = 0; it < 60; ++it) { i64 n = R(0, 2) ? R(0, 3000) : R(0, 1) ? R(0, (1LL << 31) - 1) : (1LL << 31) - 1 - R(0, 200); if (R(0, 5) == 0) { static const i64 c[] = {2047, 3277, 4033, 314821, 25326001, 3215031751 % (1LL << 31), 2152302898747 % (1LL << 31), 561, 1105, 1729, 46657, 2147483647}; n = c[R(0, 11)]; } begin("miller rabin simd", n); EXPECT_EQ(miller_rabin_simd::is_prime(n), naive(n), "is_prime"); }
}
