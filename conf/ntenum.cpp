#include <optional>
#include <cmath>
#include <cassert>
#include <array>
#include <limits>
#include <unordered_map>
#include <string>
namespace suisen { template <class M> auto note_(const M& x) -> decltype(M::mod(), std::to_string(x.val())) { return std::to_string(x.val()); } }
#include "conf.h"
#include "library/number/modint.hpp"
#include "library/number/enumerate_quotient.hpp"
#include "library/number/find_denominators.hpp"
#include "library/number/kth_root_round.hpp"
#include "library/number/count_square_free.hpp"
#include "library/number/discrete_logarithm.hpp"
#include "library/number/sum_of_mobius_function.hpp"
#include "library/number/sum_of_totient_function.hpp"
#include "library/number/tetration_mod.hpp"
#include "library/number/factorial_number.hpp"
#include "library/math/modint_extension.hpp"
using namespace cf; using namespace suisen;
namespace {
template <class T> std::vector<T> ref_q(T n) { std::vector<T> r; for (T l = 1; l <= n && l > 0;) { T q = n / l; r.push_back(q); T e = n / q; if (e == std::numeric_limits<T>::max()) break; l = e + 1; } std::reverse(r.begin(), r.end()); return r; }
template <class T> void quo(const char* nm, T n) {
    begin(nm, n); auto r = ref_q<T>(n);
    EXPECT_EQ((u64)quotient_num(n), (u64)r.size(), "quotient_num");
    std::vector<T> f; foreach_quotients(n, [&](T q) { f.push_back(q); }); EXPECT(f == r, "foreach_quotients");
    EXPECT(enumerate_quotients(n) == r, "enumerate_quotients");
    auto g = quotient_ranges(n); EXPECT_EQ(g.size(), r.size(), "");
    T l = 1; for (size_t i = 0; i < g.size(); ++i) { auto [a, b, q] = g[i]; EXPECT(a == l && q == r[r.size() - 1 - i] && b == n / q && n / a == q, "range", i, a, b, q); if (i + 1 < g.size()) l = b + 1; else EXPECT(b == n, "the last range ends at n"); }
}
i64 fl(i64 a, i64 b) { i64 q = a / b; return q - ((a % b != 0) && ((a < 0) != (b < 0))); }
i64 ce(i64 a, i64 b) { return -fl(-a, b); }
using OP = std::optional<std::pair<i64, i64>>;
}
SUITE(quotients) { int k = R(0, 19); if (k > 5) k = k < 13 ? 0 : 1; if (k == 0) quo<int>("int", R(0, 3000)); else if (k == 1) quo<i64>("long long", R(0, 100000)); else if (k == 2) { i64 s = R(1, 100000); quo<i64>("long long", std::max<i64>(0, s * (s + R(-1, 1)) + R(-1, 1))); } else if (k == 3) quo<int>("int", (int)std::numeric_limits<int>::max() - (int)R(0, 5)); else if (k == 4) quo<unsigned>("unsigned", R(0, 1) ? R(0, 70000) : 4294967295u - R(0, 3)); else quo<i64>("long long", R(0, (i64)1e10)); }
SUITE(quotients_large) { static int c = 0; if (c++ < 1) quo<i64>("long long", (1LL << 38) + R(-1000, 1000)); for (int k = 0; k < 50; ++k) { u64 x = R(0, 1) ? E() : 0; if (!x) { u64 s = rnd() >> R(32, 60); x = s * (s + R(0, 1)) - R(0, 1); } begin("quotient_num", x);
    u64 h = (u64)std::sqrt((double)x); while ((u128)h * h > x) --h; while ((u128)(h + 1) * (h + 1) <= x) ++h; u64 w = 2 * h - ((u128)h * (h + 1) > x); EXPECT_EQ(quotient_num<u64>(x), w, ""); if (x >> 63 == 0) EXPECT_EQ((u64)quotient_num<i64>(x), w, ""); } }
SUITE(multiple_quotients) {
    int n = R(1, 4); std::vector<int> v(n); for (int& x : v) x = R(0, R(0, 1) ? 10 : 300); begin("multiple_quotients_ranges", v); auto r = multiple_quotients_ranges(v); int M = *std::max_element(v.begin(), v.end()), l = 1;
    for (auto& [a, b, q] : r) { EXPECT_EQ(a, l, ""); EXPECT(b >= a, "empty range", a, b); for (int d : {a, b}) for (int i = 0; i < n; ++i) EXPECT_EQ(v[i] / d, q[i], i, d); bool diff = b >= M; if (!diff) for (int i = 0; i < n; ++i) diff |= v[i] / (b + 1) != q[i]; EXPECT(diff, "not maximal", b); l = b + 1; }
    EXPECT(M == 0 ? r.empty() : l - 1 == M, "cover", l, M);
    std::array<i64, 3> w; for (auto& x : w) x = R(0, 2) ? R(0, 40) : R(0, 1000000); begin("array", w[0], w[1], w[2]); auto s = multiple_quotients_ranges(w); i64 L = 1, W = std::max({w[0], w[1], w[2]});
    for (auto& [a, b, q] : s) { EXPECT(a == L && b >= a, "order", a, b); for (int i = 0; i < 3; ++i) EXPECT(w[i] / a == q[i] && w[i] / b == q[i], "quotient", a, b, i); bool diff = b >= W; for (int i = 0; i < 3; ++i) diff |= w[i] / (b + 1) != q[i]; EXPECT(diff, "not maximal", b); L = b + 1; }
    EXPECT(W == 0 ? s.empty() : L - 1 == W, "cover", L, W);
}
template <class T> void den(i64 n, i64 q, i64 lim) {
    auto test = [&](const char* nm, std::optional<std::pair<T, T>> g, bool neg, auto f) { OP w; for (i64 x = 1; x <= lim; ++x) { i64 y = neg ? -x : x; if (f(n, y) == q) { if (!w) w = std::make_pair(y, y); w->first = std::min(w->first, y), w->second = std::max(w->second, y); } } EXPECT_EQ(g.has_value(), w.has_value(), nm); if (w) EXPECT(w->first == g->first && w->second == g->second, nm, (i64)g->first, (i64)g->second, w->first, w->second); };
    begin("denominators", n, q, lim);
    test("fld_denominators_positive", fld_denominators_positive<T>(n, q, lim), false, fl); test("fld_denominators_negative", fld_denominators_negative<T>(n, q, -lim), true, fl);
    test("cld_denominators_positive", cld_denominators_positive<T>(n, q, lim), false, ce); test("cld_denominators_negative", cld_denominators_negative<T>(n, q, -lim), true, ce);
}
SUITE(denominators) {
    for (int k = 0; k < 20; ++k) { i64 n = R(-60, 60), q = R(0, 2) ? R(-8, 8) : R(-65, 65); R(0, 1) ? den<int>(n, q, R(0, 1) ? 70 : R(1, 70)) : den<i64>(n, q, R(0, 1) ? 70 : R(1, 70)); }
    // default bound: the ends are the limits of T when q is the quotient of an infinite set
    i64 n = R(-1000000000000000000, 1000000000000000000), x = R(1, R(0, 1) ? 100 : (i64)1e12); const i64 MX = std::numeric_limits<i64>::max(), MN = std::numeric_limits<i64>::min();
    auto chk = [&](const char* nm, OP g, i64 q, i64 y, auto f) { begin(nm, n, q, y); EXPECT(g.has_value(), "missing"); auto [l, r] = *g; EXPECT(l <= y && y <= r, "not inside", l, r); EXPECT(f(n, l) == q && f(n, r) == q, "ends", l, r); if (l != MN && l != 1) EXPECT(f(n, l - 1) != q, "left end", l); if (r != MX && r != -1) EXPECT(f(n, r + 1) != q, "right end", r); };
    chk("fld+", fld_denominators_positive<i64>(n, fl(n, x)), fl(n, x), x, fl); chk("fld-", fld_denominators_negative<i64>(n, fl(n, -x)), fl(n, -x), -x, fl); chk("cld+", cld_denominators_positive<i64>(n, ce(n, x)), ce(n, x), x, ce); chk("cld-", cld_denominators_negative<i64>(n, ce(n, -x)), ce(n, -x), -x, ce);
}
template <class T> void root(T x, int k) { begin("kth_root", x, k); T f = floor_kth_root(x, k), c = ceil_kth_root(x, k);
    auto pw = [&](u128 b) { u128 r = 1; for (int i = 0; i < k; ++i) { r *= b; if (r > ~(u64)0) return (u128)~(u64)0 + 1; if (b <= 1) break; } return r; };
    EXPECT(pw(f) <= x && pw((u128)f + 1) > x, "floor", f); EXPECT(c == f + (pw(f) != x), "ceil", c, f); }
SUITE(kth_root) { for (int i = 0; i < 100; ++i) { int k = R(0, 1) ? R(1, 6) : R(1, 70); u64 x; if (R(0, 2)) { u64 b = 1 + rnd() % std::max<u64>(1, (u64)std::pow(1.8e19, 1.0 / k)); u128 p = 1; for (int j = 0; j < k && p < (u128)1 << 64; ++j) p *= b; p += R(-2, 2); x = p >> 64 ? ~(u64)0 - R(0, 3) : (u64)p; } else x = E(); root<u64>(x, k); if (x < 1ull << 63) root<i64>(x, k); if (x < 1ull << 31) root<int>(x, k); } }
SUITE(square_free) {
    static std::vector<int> c; if (c.empty()) { std::vector<char> s(300001, 1); for (int i = 2; i * i <= 300000; ++i) for (int j = i * i; j <= 300000; j += i * i) s[j] = 0; c.assign(300001, 0); for (int i = 1; i <= 300000; ++i) c[i] = c[i - 1] + s[i]; for (int i = 0; i <= 5000; ++i) { begin("count_square_free", i); EXPECT_EQ(count_square_free(i), (i64)c[i], ""); } }
    for (int k = 0; k < 20; ++k) { int n = R(0, 300000); begin("count_square_free", n); EXPECT_EQ(count_square_free(n), (i64)c[n], ""); }
    static std::vector<int> mu; const int D = 1000000; if (mu.empty()) { mu.assign(D + 1, 1); std::vector<char> pr(D + 1, 1); for (i64 p = 2; p <= D; ++p) if (pr[p]) { for (i64 q = p; q <= D; q += p) { if (q > p) pr[q] = 0; mu[q] = -mu[q]; } for (i64 q = p * p; q <= D; q += p * p) mu[q] = 0; } }
    i64 d = R(1000, D - 1), n = R(0, 1) ? d * d + R(-1, 1) : R((i64)1e6, (i64)D * D - 1); if (R(0, 3) == 0) { i64 q = R(30, 250); n = q * q * q * q * q + R(-2, 2); } begin("count_square_free", n); i64 w = 0; for (i64 i = 1; i * i <= n; ++i) w += mu[i] * (n / (i * i)); EXPECT_EQ(count_square_free(n), w, "");
}
SUITE(discrete_log) { using M = dynamic_modint<77>; int m = R(0, 3) ? R(1, 60) : R(1, 3000); M::set_mod(m); for (int k = 0; k < 30; ++k) { int x = R(0, m - 1), y = R(0, m - 1); if (R(0, 1)) { i64 z = 1 % m; int t = R(0, 40); while (t--) z = z * x % m; y = z; } begin("discrete_logarithm", x, y, m); int w = -1; i64 p = 1 % m; for (int e = 0; e <= m; ++e, p = p * x % m) if (p == y) { w = e; break; } int g = discrete_logarithm(M(x), M(y)); EXPECT_EQ(g, w, ""); EXPECT_EQ(M::mod(), m, "modulus not restored");
        if (std::gcd(x, m) == 1) EXPECT_EQ(discrete_logarithm_coprime(M(x), M(y)), w, "coprime"); } }
SUITE(discrete_log_large) { using M = dynamic_modint<78>; int m = R(0, 2) ? R(1000000000, 2147483646) : (R(0, 1) ? 998244353 : 1 << R(20, 30)); M::set_mod(m); int x = R(0, m - 1), e = R(0, 1) ? R(0, 100) : R(0, 1000000000); auto pw = [&](int b, i64 t) { i64 r = 1 % m, a = b; for (; t; t >>= 1, a = a * a % m) if (t & 1) r = r * a % m; return (int)r; }; int y = R(0, 4) ? pw(x, e) : R(0, m - 1); begin("discrete_logarithm", x, y, m, e); int g = discrete_logarithm(M(x), M(y)); EXPECT_EQ(M::mod(), m, ""); if (g >= 0) EXPECT_EQ(pw(x, g), y, g); if (pw(x, e) == y) EXPECT(g >= 0 && g <= e, "a solution exists", g, e); }
namespace { const int NT = 20000; struct Tb { std::vector<i64> mu, ph; Tb() : mu(NT + 1, 1), ph(NT + 1) { for (int i = 0; i <= NT; ++i) ph[i] = i; for (int p = 2; p <= NT; ++p) if (ph[p] == p) { for (int q = p; q <= NT; q += p) ph[q] = ph[q] / p * (p - 1), mu[q] = (q / p) % p ? -mu[q] : 0; } mu[0] = ph[0] = 0; for (int i = 1; i <= NT; ++i) mu[i] += mu[i - 1], ph[i] += ph[i - 1]; } }; const Tb& tb() { static Tb t; return t; } }
SUITE(sums) { int n = R(0, 2) ? R(0, 300) : R(0, NT); begin("SumOfMobiusFunction / SumOfTotientFunction", n); SumOfMobiusFunction<i64> a(n); SumOfTotientFunction<i64> b(n); for (int d = 1; d <= std::min(n + 2, 400); ++d) { EXPECT_EQ(a(d), tb().mu[n / d], "mobius", d); EXPECT_EQ(b(d), tb().ph[n / d], "totient", d); } for (int k = 0; k < 20; ++k) { int d = R(1, n + 1); EXPECT_EQ(a(d), tb().mu[n / d], "mobius", d); EXPECT_EQ(b(d), tb().ph[n / d], "totient", d); } EXPECT_EQ(SumOfMobiusFunction<int>()(), 1, ""); }
SUITE(sums_large) { static const std::pair<i64, i64> M[] = {{1000000, 212}, {10000000, 1037}, {100000000, 1928}, {1000000000, -222}}; static const std::pair<i64, u64> P[] = {{1000000, 303963552392ull}, {10000000, 30396356427242ull}, {100000000, 3039635516365908ull}, {1000000000, 303963551173008414ull}}; int k = R(0, 3); begin("sums at a power of ten", M[k].first); EXPECT_EQ(SumOfMobiusFunction<i64>(M[k].first)(), M[k].second, ""); EXPECT_EQ(SumOfTotientFunction<u64>(P[k].first)(), P[k].second, ""); }
namespace { // a^^b mod m from the eventually periodic power sequence; big(a, b, L): min(a^^b, L)
i64 cap(i64 a, int b, i64 L) { if (b == 0) return 1; if (a == 0) return b % 2 ? 0 : 1; if (a == 1) return 1; i64 e = cap(a, b - 1, 64), r = 1; for (i64 i = 0; i < e && r < L; ++i) r = std::min<i128>((i128)r * a, L); return r; }
i64 tet(i64 a, int b, i64 m);
i64 powtow(i64 a, int b, i64 m) { // a^(a^^b) mod m
    std::vector<i64> seq; std::unordered_map<i64, int> at; i64 x = 1 % m; while (!at.count(x)) { at[x] = seq.size(); seq.push_back(x); x = x * (a % m) % m; } i64 mu = at[x], la = (i64)seq.size() - mu; i64 c = cap(a, b, 1000000000); if (c < (i64)seq.size()) return seq[c]; i64 e = tet(a, b, la); i64 k = mu + (((e - mu) % la) + la) % la; return seq[k]; }
i64 tet(i64 a, int b, i64 m) { if (m == 1) return 0; if (b == 0) return 1 % m; return powtow(a, b - 1, m); } }
SUITE(tetration) { for (int i = 0; i < 10; ++i) { int a = R(0, 2) ? R(0, 20) : R(0, 1000000000), b = R(0, 2) ? R(0, 5) : R(0, 1000), m = R(0, 3) ? R(1, 300) : R(1, 20000); if (b > 60) b = R(0, 1) ? b : 60; begin("tetration_mod", a, b, m); EXPECT_EQ((i64)tetration_mod(a, b, m), tet(a, std::min(b, 60), m) * (a ? 1 : 0) + (a ? 0 : (b % 2 ? 0 : 1 % m)), ""); } }
SUITE(tetration_limits) { for (auto [a, b, m] : std::vector<std::array<int, 3>>{{2147483647, 2147483647, 2147483647}, {2147483647, 2, 2147483646}, {2, 1000000000, 1 << 30}, {2147483646, 3, 2147483647}}) { begin("tetration_mod", a, b, m); int r = tetration_mod(a, b, m); EXPECT(0 <= r && r < m, "range", r); if (a % m == 0) EXPECT_EQ(r, 0, ""); if (a % m == 1) EXPECT_EQ(r, 1, ""); if (m == 1 << 30) EXPECT_EQ(r, 0, ""); } }
namespace { i64 fact(int n) { i64 r = 1; while (n > 1) r *= n--; return r; } i64 md(i128 x, i64 m) { i64 r = (i64)(x % m); return r < 0 ? r + m : r; } }
SUITE(factorial_number_ops) { using F = factorial_number; int n = R(0, 9) ? R(1, 8) : R(1, 20); i64 N = fact(n); F x(n, 0); i64 v = 0; begin("factorial_number", n);
    EXPECT_EQ(F().size(), 1, "");
    for (int k = 0; k < 15; ++k) { i64 c = R(0, 1) ? R(-20, 20) : (i64)rnd() >> R(1, 40); switch (R(0, 10)) { case 0: op("++"); ++x; v = md((i128)v + 1, N); break; case 1: op("--"); --x; v = md((i128)v - 1, N); break; case 2: op("+=", c); x += c; v = md((i128)v + c, N); break; case 3: op("-=", c); x -= c; v = md((i128)v - c, N); break; case 4: op("*=", c); x *= c; v = md((i128)v * md(c, N), N); break; case 5: op("neg"); x = -x; v = md(-(i128)v, N); break; case 6: { op("+= number", c); F y(n, c); EXPECT_EQ(y.to_ull(), (u64)md(c, N), "constructor"); x += y; v = md((i128)v + c, N); EXPECT_EQ(x == y, (u64)v == y.to_ull(), ""); EXPECT_EQ(x < y, (u64)v < y.to_ull(), ""); EXPECT_EQ(x <= y, (u64)v <= y.to_ull(), ""); EXPECT_EQ(x > y, (u64)v > y.to_ull(), ""); EXPECT_EQ(x >= y, (u64)v >= y.to_ull(), ""); EXPECT_EQ(x != y, (u64)v != y.to_ull(), ""); break; } case 7: { op("-= number", c); F y(n, c); x = x - y; v = md((i128)v - c, N); break; } case 8: { op("c - x", c); x = c - x; v = md((i128)c - v, N); break; } case 9: { op("x++"); EXPECT_EQ((x++).to_ull(), (u64)v, ""); v = md((i128)v + 1, N); break; } default: { op("c + x * c", c); x = c + x * c; v = md((i128)v * md(c, N) + c, N); } }
        EXPECT_EQ(x.to_ull(), (u64)v, ""); EXPECT_EQ(x.size(), n, ""); }
    if (n <= 8) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); i64 t = v % std::min<i64>(N, 2000); F y(n, t); for (i64 i = 0; i < t; ++i) std::next_permutation(p.begin(), p.end()); op("permutation", t); EXPECT_EQ(y.to_permutation(), p, ""); EXPECT_EQ(F(p).to_ull(), (u64)t, "from permutation"); }
    { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for (int i = 1; i < n; ++i) std::swap(p[i], p[R(0, i)]); op("round trip", p); EXPECT_EQ(F(p).to_permutation(), p, ""); i64 w = 0; for (int i = 0; i < n; ++i) { int c = 0; for (int j = i + 1; j < n; ++j) c += p[j] < p[i]; w = w * (n - i) + c; } EXPECT_EQ(F(p).to_ull(), (u64)w, ""); int g = n + R(0, 3); F z(p); z.resize(g); EXPECT_EQ(z.size(), g, ""); EXPECT_EQ(z.to_ull(), (u64)w, "resize"); } }
template <int P> void sq() { using M = static_modint<P>; for (int i = 0; i < (P < 400 ? P : 200); ++i) { M a = P < 400 ? M(i) : M(R(0, P - 1)); begin("safe_sqrt mod", P, a.val()); auto r = safe_sqrt(a); bool w; if (P < 400) { w = false; for (int x = 0; x < P; ++x) w |= (M(x) * x == a); } else w = a == 0 || a.pow((P - 1) / 2) == 1; EXPECT_EQ(r.has_value(), w, ""); if (r) { EXPECT(*r * *r == a, "not a root", r->val()); EXPECT(::sqrt(a) * ::sqrt(a) == a, ""); } if (a != 0) EXPECT(::inv(a) * a == 1, ""); EXPECT(::pow(a, 3) == a * a * a, ""); } }
SUITE(mod_sqrt_ext) { static int t = 0; switch (t++ % 10) { case 0: sq<2>(); break; case 1: sq<3>(); break; case 2: sq<5>(); break; case 3: sq<7>(); break; case 4: sq<17>(); break; case 5: sq<257>(); break; case 6: sq<97>(); break; case 7: sq<998244353>(); break; case 8: sq<1000000007>(); break; default: sq<193>(); } }
