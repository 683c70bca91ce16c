#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <numeric>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include "library/number/modint.hpp"
#include "library/math/factorial.hpp"
#include "library/math/inv_mods.hpp"
#include "library/math/pow_mods.hpp"
#include "library/math/util.hpp"
#include "library/math/binomial_coefficient_sum.hpp"
#include "library/math/factorial_embeded.hpp"
#include "library/polynomial/fps.hpp"
#include "library/sequence/bell_number.hpp"
#include "library/sequence/bernoulli_number.hpp"
#include "library/sequence/binomial_coefficient_small_prime_mod.hpp"
#include "library/sequence/binomial_coefficitnt_enumeration.hpp"
#include "library/sequence/eulerian_number.hpp"
#include "library/sequence/montmort_number.hpp"
#include "library/sequence/partition_number.hpp"
#include "library/sequence/powers.hpp"
#include "library/sequence/stirling_number1.hpp"
#include "library/sequence/stirling_number1_small_prime_mod.hpp"
#include "library/sequence/stirling_number2.hpp"
#include "library/sequence/stirling_number2_small_prime_mod.hpp"
#include "library/sequence/sum_of_powers.hpp"
#include "conf.h"
using namespace cf;
using mint = suisen::modint998244353; using VM = std::vector<mint>; using FP = suisen::FPS<mint>;
static VM conv(const VM& a, const VM& b) { if (a.empty() || b.empty()) return {}; VM c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
static bool init_ = (FP::set_multiplication(conv), true);
constexpr int MX = 130;
struct Tab { std::vector<VM> c, s1, s2, eu; VM bell, fac, der, part; Tab() : c(MX, VM(MX)), s1(c), s2(c), eu(c), bell(MX), fac(MX), der(MX), part(MX) {
    c[0][0] = s1[0][0] = s2[0][0] = 1; for (int i = 1; i < MX; ++i) for (int j = 0; j <= i; ++j) { c[i][j] = c[i - 1][j] + (j ? c[i - 1][j - 1] : mint(0)); s1[i][j] = s1[i - 1][j] * (i - 1) + (j ? s1[i - 1][j - 1] : mint(0)); s2[i][j] = s2[i - 1][j] * j + (j ? s2[i - 1][j - 1] : mint(0)); }
    fac[0] = 1; for (int i = 1; i < MX; ++i) fac[i] = fac[i - 1] * i; for (int i = 0; i < MX; ++i) for (int j = 0; j <= i; ++j) bell[i] += s2[i][j], der[i] += (j & 1 ? -1 : 1) * c[i][j] * fac[i - j];
    // Eulerian numbers by the explicit alternating sum
    for (int n = 1; n < MX; ++n) for (int k = 0; k < n; ++k) for (int i = 0; i <= k; ++i) eu[n][k] += (i & 1 ? -1 : 1) * (i <= n + 1 ? (n + 1 < MX ? c[n + 1][i] : c[n][i] + (i ? c[n][i - 1] : mint(0))) : mint(0)) * mint(k + 1 - i).pow(n);
    part[0] = 1; for (int k = 1; k < MX; ++k) for (int i = k; i < MX; ++i) part[i] += part[i - k]; } };
static const Tab& tab() { static Tab t; return t; }
template <int p> static void fac_p() {
    using m = suisen::static_modint<p>; begin("factorial modulo", p); suisen::factorial<m> f; auto w = [](int n) { m r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }; auto bin = [](int n, int r) -> m { if (r < 0 || n < r) return 0; std::vector<m> row{ 1 }; for (int i = 0; i < n; ++i) { row.push_back(0); for (int j = row.size() - 1; j > 0; --j) row[j] += row[j - 1]; } return row[r]; };
    for (int t = R(1, 6); t--;) { int n = R(0, std::min(p - 1, 60)); op(n); EXPECT(f.fac(n) == w(n)); EXPECT(f(n) == w(n)); EXPECT(f.fac_inv(n) * w(n) == 1); int r = R(-2, n + 2); EXPECT(f.binom(n, r) == bin(n, r), r); EXPECT(f.perm(n, r) == bin(n, r) * (r < 0 || r > n ? m(0) : w(r)), r); int a = R(-1, n), b = R(-1, n); m e = a < 0 || b < 0 || a + b > n ? m(0) : bin(n, a) * bin(n - a, b); EXPECT(f.polynom(n, a, b) == e, a, b); EXPECT(f.binom(-1 - int(R(0, 3)), r) == 0); }
}
SUITE(factorial) { switch (R(0, 4)) { case 0: fac_p<7>(); break; case 1: fac_p<13>(); break; case 2: fac_p<53>(); break; case 3: fac_p<998244353>(); break; default: { begin("factorial<long long, double>"); suisen::factorial<__int128, long double> f; int n = R(0, 15), r = R(0, 15); op(n, r); EXPECT(i64(f.fac(n)) == i64(std::tgamma((long double)(n) + 1) + 0.5)); } } }
SUITE(inverses) { int n = R(1, 200); begin("inv_mods", n); suisen::inv_mods<mint> iv; EXPECT(iv[n] * n == 1); for (int i = 1; i <= n; ++i) EXPECT(iv[i] * i == 1); suisen::inv_mods<suisen::static_modint<101>> i1; int k = R(1, 100); EXPECT(i1[k] * k == 1, k); VM v(R(0, 10)); for (auto& x : v) do x = R(0, 1) ? mint(R(-5, 5)) : mint(rnd()); while (x == 0); VM r = suisen::get_invs(v); EXPECT_EQ(r.size(), v.size()); for (size_t i = 0; i < v.size(); ++i) EXPECT(r[i] * v[i] == 1, i); }
SUITE(powers) { int n = R(0, 60); mint b = R(0, 1) ? mint(R(-3, 3)) : mint(rnd()); begin("pow_mods", n, b.val()); suisen::pow_mods<mint> pw(b, n); for (int t = 0; t < 5; ++t) { int k = R(0, 2 * n + 1); EXPECT(pw[k] == b.pow(k), k); } suisen::static_pow_mods<3, mint> s3; int k = R(0, 200); EXPECT(s3[k] == mint(3).pow(k), k); u64 e = R(0, 2) ? R(0, 8) : rnd() >> R(2, 63); op("powers", n, e); auto r = suisen::powers<mint>(n, e); EXPECT_EQ(int(r.size()), n + 1); for (int i = 0; i <= n; ++i) EXPECT(r[i] == mint(i).pow(e), i); }
SUITE(stirling) { auto& t = tab(); int n = R(0, 40); begin("Stirling numbers", n); auto a = suisen::stirling_number1<FP>(n), b = suisen::stirling_number1_reversed<FP>(n), c = suisen::stirling_number2<FP>(n); EXPECT_EQ(int(a.size()), n + 1); EXPECT_EQ(int(b.size()), n + 1); EXPECT_EQ(int(c.size()), n + 1); for (int i = 0; i <= n; ++i) { EXPECT(a[i] == t.s1[n][i], i); EXPECT(b[i] == t.s1[n][n - i], i); EXPECT(c[i] == t.s2[n][i], i); }
    auto ta = suisen::stirling_number1_table<mint>(n); auto tb = suisen::stirling_number2_table<mint>(n); for (int i = 0; i <= n; ++i) for (int j = 0; j <= i; ++j) { EXPECT(ta[i][j] == t.s1[i][j]); EXPECT(tb[i][j] == t.s2[i][j]); } int k = R(0, 45), N = R(0, MX - 1); auto q = suisen::stirling_number1_reversed<mint>(i64(N), k); EXPECT_EQ(int(q.size()), k + 1); for (int i = 0; i <= k; ++i) EXPECT(q[i] == (i <= N ? t.s1[N][N - i] : mint(0)), "reversed", N, i); }
template <int p> static void small() { using m = suisen::static_modint<p>; static std::vector<std::vector<m>> c, s1, s2; constexpr int M = 110; if (c.empty()) { c.assign(M, std::vector<m>(M)); s1 = s2 = c; c[0][0] = s1[0][0] = s2[0][0] = 1; for (int i = 1; i < M; ++i) for (int j = 0; j <= i; ++j) { c[i][j] = c[i - 1][j] + (j ? c[i - 1][j - 1] : m(0)); s1[i][j] = s1[i - 1][j] * (i - 1) + (j ? s1[i - 1][j - 1] : m(0)); s2[i][j] = s2[i - 1][j] * j + (j ? s2[i - 1][j - 1] : m(0)); } }
    int n = R(0, M - 1), k = R(-2, n + 2); begin("modulo the small prime", p, n, k); bool in = 0 <= k && k <= n; EXPECT((suisen::BinomialCoefficientSmallPrimeMod<m>()(n, k)) == (in ? c[n][k] : m(0)), "binom"); EXPECT((suisen::StirlingNumber1SmallPrimeMod<m>()(n, k)) == (in ? s1[n][k] : m(0)), "stirling 1"); EXPECT((suisen::StirlingNumber2SmallPrimeMod<m>()(n, k)) == (in ? s2[n][k] : m(0)), "stirling 2"); }
SUITE(small_prime) { switch (R(0, 5)) { case 0: small<2>(); break; case 1: small<3>(); break; case 2: small<5>(); break; case 3: small<7>(); break; case 4: small<11>(); break; default: small<101>(); } }
template <int M> static void anym() { using m = suisen::static_modint<M>; int n = R(0, 60); begin("binomial coefficients modulo", M, n); suisen::ArbitraryModBinomialCoefficients<m> b(n); std::vector<m> row{ 1 }; for (int i = 0; i < n; ++i) { row.push_back(0); for (int j = row.size() - 1; j > 0; --j) row[j] += row[j - 1]; } EXPECT_EQ(int(b.get_coeffs().size()), n + 1); for (int k = 0; k <= n; ++k) EXPECT(b[k] == row[k], k); }
SUITE(any_mod) { switch (R(0, 6)) { case 0: anym<1>(); break; case 1: anym<2>(); break; case 2: anym<12>(); break; case 3: anym<360>(); break; case 4: anym<1000000000>(); break; case 5: anym<97>(); break; default: anym<2147483646>(); } }
SUITE(number_tables) { auto& t = tab(); int n = R(0, 8) ? R(0, 25) : R(50, 80); begin("sequences", n); auto b = suisen::bell_number<FP>(n); EXPECT_EQ(int(b.size()), n + 1); for (int i = 0; i <= n; ++i) EXPECT(b[i] == t.bell[i], "bell", i); auto d = suisen::montmort_number<mint>(n); EXPECT_EQ(int(d.size()), n + 1); for (int i = 0; i <= n; ++i) EXPECT(d[i] == t.der[i], "montmort", i); auto p = suisen::partition_number<FP>(n); EXPECT_EQ(int(p.size()), n + 1); for (int i = 0; i <= n; ++i) EXPECT(p[i] == t.part[i], "partition", i);
    auto e = suisen::eulerian_number<FP>(n); EXPECT_EQ(int(e.size()), n); for (int i = 0; i < n; ++i) EXPECT(e[i] == t.eu[n][i], "eulerian", i); auto et = suisen::eulerian_number_table<mint>(n); for (int i = 1; i <= n; ++i) for (int j = 0; j < i; ++j) EXPECT(et[i][j] == t.eu[i][j], "eulerian table", i, j);
    auto be = suisen::bernoulli_number<FP>(n); EXPECT_EQ(int(be.size()), n + 1); EXPECT(be[0] == 1); for (int m = 1; m <= n; ++m) { mint s = 0; for (int k = 0; k <= m; ++k) s += t.c[m + 1][k] * be[k]; EXPECT(s == 0, "bernoulli", m); } int N = R(0, 30), k = R(0, 12); op("sum of powers", N, k); auto sp = suisen::sum_of_powers<FP>(N, k); EXPECT_EQ(int(sp.size()), k + 1); for (int q = 0; q <= k; ++q) { mint s = 0; for (int i = 1; i <= N; ++i) s += mint(i).pow(q); EXPECT(sp[q] == s, q); } }
SUITE(binomial_sums) { auto& t = tab(); mint r = R(0, 3) == 0 ? mint(-1) : R(0, 1) ? mint(1) : mint(R(-5, 5)); std::vector<std::pair<int, int>> q; std::vector<std::tuple<int, int, int>> q3; begin("binomial sums, ratio", r.val()); for (int i = R(0, 6); i--;) { int m = R(0, 30), n = R(-2, m + 3); q.emplace_back(n, m); op(n, m); int a = R(0, m + 1), b = R(a - 1, m + 2); q3.emplace_back(a, b, m); op(a, b, m); } auto f = [&](int a, int b, int m) { mint s = 0; for (int i = std::max(0, a); i <= std::min(b, m); ++i) s += r.pow(i) * t.c[m][i]; return s; }; auto x = suisen::binom_sum_prefix<mint>(q, r); EXPECT_EQ(x.size(), q.size()); for (size_t i = 0; i < q.size(); ++i) EXPECT(x[i] == f(0, q[i].first, q[i].second), "prefix", i); auto y = suisen::binom_sum<mint>(q3, r); for (size_t i = 0; i < q3.size(); ++i) { auto [a, b, m] = q3[i]; EXPECT(y[i] == f(a, b, m), "range", i); } }
SUITE(random_walk) { int n = R(0, 8), x = R(-10, 10), y = R(-10, 10); begin("random walks", n, x, y); std::map<int, i64> d{ { 0, 1 } }; std::map<std::pair<int, int>, i64> e{ { { 0, 0 }, 1 } }; for (int i = 0; i < n; ++i) { std::map<int, i64> nd; for (auto [p, c] : d) nd[p - 1] += c, nd[p + 1] += c; d = nd; std::map<std::pair<int, int>, i64> ne; for (auto [p, c] : e) { ne[{ p.first - 1, p.second }] += c; ne[{ p.first + 1, p.second }] += c; ne[{ p.first, p.second - 1 }] += c; ne[{ p.first, p.second + 1 }] += c; } e = ne; } EXPECT(suisen::random_walk_1d<mint>(n, x) == mint(d[x])); EXPECT((suisen::random_walk_2d<mint>(n, x, y)) == mint(e[{ x, y }])); auto bin = [&](int k) { return k > n ? mint(0) : tab().c[n][k]; }; EXPECT((suisen::random_walk_1d<mint>(n, x, bin)) == mint(d[x])); EXPECT((suisen::random_walk_2d<mint>(n, x, y, bin)) == mint(e[{ x, y }])); }
