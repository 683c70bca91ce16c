#include <cassert>
#include <optional>
#include "conf.h"
#include "library/number/modint.hpp"
#include "library/transform/subset.hpp"
#include "library/transform/supset.hpp"
#include "library/transform/walsh_hadamard.hpp"
#include "library/transform/divisor.hpp"
#include "library/transform/multiple.hpp"
#include "library/transform/kronecker.hpp"
#include "library/transform/kronecker_power.hpp"
#include "library/convolution/and_convolution.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/xor_convolution.hpp"
#include "library/convolution/gcd_convolution.hpp"
#include "library/convolution/lcm_convolution.hpp"
#include "library/convolution/subset_convolution.hpp"
#include "library/convolution/array_subset_convolution.hpp"
#include "library/convolution/convolution_naive.hpp"
#include "library/convolution/dirichlet_convolution.hpp"
#include "library/convolution/min_plus_convolution.hpp"
#include "library/convolution/polynomial_eval.hpp"
#include "library/convolution/relaxed_convolution.hpp"
#include "library/convolution/semi_relaxed_convolution.hpp"
#include "library/algorithm/monotone_minima.hpp"
using namespace cf; using namespace suisen;
using W = std::vector<u64>; using Z = std::vector<i64>; using mint = suisen::modint998244353;
namespace {
// every u64 vector of a given length; arithmetic is exact modulo 2^64, so any element can be large
W rw(size_t n) { W a(n); int k = R(0, 3); for (auto& x : a) x = k == 0 ? rnd() : k == 1 ? (u64)R(0, 9) : k == 2 ? E() : (R(0, 4) ? 0 : (u64)R(1, 3)); return a; }
Z rz(size_t n, i64 m) { Z a(n); for (auto& x : a) x = R(-m, m); return a; }
template <class F> W brute(const W& a, F in) { W r(a.size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) if (in(i, j)) r[i] += a[j]; return r; }
template <class V, class F> V bconv(const V& a, const V& b, size_t n, F idx) { V r(n); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) { auto k = idx(i, j); if (k < n) r[k] += a[i] * b[j]; } return r; }
std::vector<mint> to_m(const W& a) { std::vector<mint> r; for (u64 x : a) r.push_back(mint((unsigned long long)x)); return r; }
W fm(const std::vector<mint>& a) { W r; for (auto x : a) r.push_back(x.val()); return r; }
size_t bg(size_t i, size_t j) { while (j) { size_t t = i % j; i = j; j = t; } return i; }
}
SUITE(subset) { for (int k = 0; k < 40; ++k) { int lg = R(0, 7); size_t n = (size_t)1 << lg; W a = rw(n), b = a; begin("subset zeta", a);
    subset_transform::zeta(b); EXPECT_EQ(b, brute(a, [](size_t i, size_t j) { return (i & j) == j; }), "zeta"); subset_transform::mobius(b); EXPECT_EQ(b, a, "mobius of zeta"); subset_transform::mobius(b); subset_transform::zeta(b); EXPECT_EQ(b, a, "zeta of mobius"); } }
SUITE(supset) { for (int k = 0; k < 40; ++k) { int lg = R(0, 7); size_t n = (size_t)1 << lg; W a = rw(n), b = a; begin("supset zeta", a);
    supset_transform::zeta(b); EXPECT_EQ(b, brute(a, [](size_t i, size_t j) { return (i & j) == i; }), "zeta"); supset_transform::mobius(b); EXPECT_EQ(b, a, "mobius of zeta"); supset_transform::mobius(b); supset_transform::zeta(b); EXPECT_EQ(b, a, "zeta of mobius"); } }
SUITE(walsh) { for (int k = 0; k < 40; ++k) { int lg = R(0, 7); size_t n = (size_t)1 << lg; W a = rw(n), b = a, r(n); begin("walsh_hadamard", a); walsh_hadamard_transform::walsh_hadamard(b);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) r[i] += __builtin_popcountll(i & j) & 1 ? -a[j] : a[j]; EXPECT_EQ(b, r, "");
    auto m = to_m(a), q = m; walsh_hadamard_transform::walsh_hadamard(q); walsh_hadamard_transform::walsh_hadamard_inv(q); EXPECT_EQ(fm(q), fm(m), "inverse (modular)");
    Z z = rz(n, 1 << 20), y = z; walsh_hadamard_transform::walsh_hadamard(y); walsh_hadamard_transform::walsh_hadamard_inv(y); EXPECT_EQ(y, z, "inverse (integers)"); } }
SUITE(divisor) { for (int k = 0; k < 60; ++k) { size_t n = k < 40 ? k : R(40, 220); W a = rw(n), b = a; begin("divisor zeta", a); auto in = [](size_t i, size_t j) { return i == 0 ? j == 0 : j && i % j == 0; };
    divisor_transform::zeta(b); EXPECT_EQ(b, brute(a, in), "zeta"); divisor_transform::mobius(b); EXPECT_EQ(b, a, "mobius of zeta"); divisor_transform::mobius(b); divisor_transform::zeta(b); EXPECT_EQ(b, a, "zeta of mobius"); } }
SUITE(multiple) { for (int k = 0; k < 60; ++k) { size_t n = k < 40 ? k : R(40, 220); W a = rw(n), b = a; begin("multiple zeta", a); auto in = [](size_t i, size_t j) { return i == 0 ? j == 0 : j && j % i == 0; };
    multiple_transform::zeta(b); EXPECT_EQ(b, brute(a, in), "zeta"); multiple_transform::mobius(b); EXPECT_EQ(b, a, "mobius of zeta"); multiple_transform::mobius(b); multiple_transform::zeta(b); EXPECT_EQ(b, a, "zeta of mobius"); } }
SUITE(kronecker) { for (int k = 0; k < 40; ++k) { std::vector<int> d; size_t n = 1; bool eq = R(0, 1); int dd = R(2, 5), m = R(0, 4); for (int i = 0; i < m; ++i) { int x = eq ? dd : (int)R(1, 5); if (n * x > 260) break; d.push_back(x); n *= x; }
    W a = rw(n), b = a; begin("kronecker", d, a); auto dig = [&](size_t x) { std::vector<int> r; for (int y : d) { r.push_back(x % y); x /= y; } return r; };
    auto le = [&](size_t i, size_t j) { auto x = dig(i), y = dig(j); for (size_t t = 0; t < x.size(); ++t) if (x[t] > y[t]) return false; return true; };
    auto sz = brute(a, [&](size_t i, size_t j) { return le(j, i); }), uz = brute(a, le);
    kronecker_transform::sub_zeta(b, d); EXPECT_EQ(b, sz, "sub_zeta"); kronecker_transform::sub_mobius(b, d); EXPECT_EQ(b, a, "sub_mobius"); kronecker_transform::sub_mobius(b, d); kronecker_transform::sub_zeta(b, d); EXPECT_EQ(b, a, "sub zeta of mobius");
    kronecker_transform::sup_zeta(b, d); EXPECT_EQ(b, uz, "sup_zeta"); kronecker_transform::sup_mobius(b, d); EXPECT_EQ(b, a, "sup_mobius"); kronecker_transform::sup_mobius(b, d); kronecker_transform::sup_zeta(b, d); EXPECT_EQ(b, a, "sup zeta of mobius");
    if (eq) { kronecker_transform::sub_zeta(b, dd); EXPECT_EQ(b, sz, "sub_zeta(d)"); kronecker_transform::sub_mobius(b, dd); EXPECT_EQ(b, a, ""); kronecker_transform::sup_zeta(b, dd); EXPECT_EQ(b, uz, "sup_zeta(d)"); kronecker_transform::sup_mobius(b, dd); EXPECT_EQ(b, a, "");
        // power of a matrix
        std::vector<W> A(dd, W(dd)); for (auto& r : A) for (auto& x : r) x = R(0, 1) ? R(0, 3) : rnd(); W r(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { auto x = dig(i), y = dig(j); u64 p = 1; for (size_t t = 0; t < x.size(); ++t) p *= A[x[t]][y[t]]; r[i] += p * a[j]; }
        kronecker_power_transform::kronecker_power_transform<u64>(b, A); EXPECT_EQ(b, r, "matrix power", A);
        b = a; kronecker_power_transform::kronecker_power_transform<u64>(b, (size_t)dd, [&](W& v) { W w(dd); for (int i = 0; i < dd; ++i) for (int j = 0; j < dd; ++j) w[i] += A[i][j] * v[j]; v = w; }); EXPECT_EQ(b, r, "unit transform", A); }
    b = a; size_t cnt = 0; kronecker_transform::transform(b, d, [&](int i, StepView<W> v) { EXPECT_EQ((int)v.size(), d[i], "line length"); ++cnt; }); size_t e = 0; for (int x : d) e += n / x; EXPECT_EQ(cnt, e, "number of lines"); } }
SUITE(bit_convolutions) { for (int k = 0; k < 30; ++k) { int lg = R(0, 6); size_t n = (size_t)1 << lg; W a = rw(n), b = rw(n); begin("convolution", a, b);
    EXPECT_EQ(or_convolution(a, b), bconv(a, b, n, [](size_t i, size_t j) { return i | j; }), "or"); EXPECT_EQ(and_convolution(a, b), bconv(a, b, n, [](size_t i, size_t j) { return i & j; }), "and");
    auto x = to_m(a), y = to_m(b); EXPECT_EQ(fm(xor_convolution(x, y)), fm(bconv(x, y, n, [](size_t i, size_t j) { return i ^ j; })), "xor");
    Z c = rz(n, 1000), d = rz(n, 1000); EXPECT_EQ(xor_convolution(c, d), bconv(c, d, n, [](size_t i, size_t j) { return i ^ j; }), "xor integers", c, d);
    auto ss = bconv(a, b, n, [&](size_t i, size_t j) { return i & j ? n : (i | j); }); auto sx = bconv(x, y, n, [&](size_t i, size_t j) { return i & j ? n : (i | j); });
    EXPECT_EQ(fm(subset_convolution(x, y)), fm(sx), "subset");
    { constexpr int M = 7; auto p = array_ranked_subset_transform::ranked_zeta<mint, M>(x), q = array_ranked_subset_transform::ranked_zeta<mint, M>(y); for (size_t i = 0; i < n; ++i) p[i] = p[i] * q[i]; EXPECT_EQ(fm(array_ranked_subset_transform::deranked_mobius<mint, M>(p)), fm(sx), "array subset"); }
    // the general form with several factors, and polynomial evaluation
    W e = rw(n); EXPECT_EQ((convolution::transform_convolution<u64, subset_transform::zeta<u64>, subset_transform::mobius<u64>>(std::vector<W>{a, b, e})), bconv(bconv(a, b, n, [](size_t i, size_t j) { return i | j; }), e, n, [](size_t i, size_t j) { return i | j; }), "several factors", e);
    auto f = [](u64 v) -> u64 { return v * v * v + 5 * v; }; W sq = or_convolution(a, a), cu = or_convolution(sq, a); for (size_t i = 0; i < n; ++i) cu[i] += 5 * a[i]; EXPECT_EQ((polynomial_eval<u64, subset_transform::zeta<u64>, subset_transform::mobius<u64>>(a, f)), cu, "polynomial_eval"); } }
SUITE(gcd_lcm) { for (int k = 0; k < 40; ++k) { size_t n = k < 30 ? k + 1 : R(30, 120); W a = rw(n), b = rw(n); a[0] = b[0] = 0; begin("gcd/lcm convolution", a, b);
    EXPECT_EQ(gcd_convolution(a, b), bconv(a, b, n, [](size_t i, size_t j) { return bg(i, j); }), "gcd"); EXPECT_EQ(lcm_convolution(a, b), bconv(a, b, n, [&](size_t i, size_t j) { return i && j ? i / bg(i, j) * j : n; }), "lcm"); } }
SUITE(dirichlet) { for (int k = 0; k < 60; ++k) { size_t n = R(0, 60), p = R(0, 70), q = R(0, 70); W a = rw(p), b = rw(q); begin("dirichlet", (int)n, a, b);
    EXPECT_EQ(dirichlet_convolution(a, b, (int)n), bconv(a, b, n, [&](size_t i, size_t j) { return i && j ? i * j : n; }), ""); EXPECT_EQ(dirichlet_convolution_coprime(a, b, (int)n), bconv(a, b, n, [&](size_t i, size_t j) { return i && j && bg(i, j) == 1 ? i * j : n; }), "coprime"); } }
SUITE(naive) { for (int k = 0; k < 60; ++k) { size_t n = R(1, 30), m = R(1, 30); W a = rw(n), b = rw(m); begin("convolution_naive", a, b); EXPECT_EQ(internal::convolution_naive(a, b), bconv(a, b, n + m - 1, [](size_t i, size_t j) { return i + j; }), "");
    std::vector<int> c(n), d(m); for (auto& x : c) x = R(-2000000000, 2000000000); for (auto& x : d) x = R(-1000000000, 1000000000); Z z(n + m - 1); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) z[i + j] += (i64)(c[i] / 8) * d[j]; for (auto& x : c) x /= 8; EXPECT_EQ((internal::convolution_naive<int, i64>(c, d)), z, "wide result", c, d); } }
static W cnv(const W& a, const W& b) { if (a.empty() || b.empty()) return {}; return bconv(a, b, a.size() + b.size() - 1, [](size_t i, size_t j) { return i + j; }); }
SUITE(relaxed) { for (int k = 0; k < 20; ++k) { size_t n = R(1, 90), m = R(1, 90); W a = rw(n), b = rw(n), f = rw(m); begin("relaxed", a, b, f); RelaxedConvolution<u64> r(cnv); SemiRelaxedConvolution<u64> s(f, cnv); auto e = cnv(a, b), g = cnv(f, b);
    for (size_t i = 0; i < n; ++i) { EXPECT_EQ(r.append(a[i], b[i]), e[i], "relaxed append", (int)i); EXPECT_EQ(s.append(b[i]), g[i], "semi-relaxed append", (int)i); int j = R(0, i); EXPECT_EQ(r[j], e[j], "relaxed []"); EXPECT_EQ(s[j], g[j], "semi []"); } } }
SUITE(min_plus) { for (int k = 0; k < 60; ++k) { size_t n = R(1, 20), m = R(1, 20); i64 w = R(0, 1) ? 3 : 1000; auto convex = [&](size_t n) { Z d(n ? n - 1 : 0); for (auto& x : d) x = R(-w, w); std::sort(d.begin(), d.end()); Z a(n); a[0] = R(-w, w); for (size_t i = 1; i < n; ++i) a[i] = a[i - 1] + d[i - 1]; return a; };
    Z a = convex(n), b = convex(m), c = rz(m, w); begin("min-plus", a, b, c); auto mp = [](const Z& a, const Z& b) { Z r(a.size() + b.size() - 1, (i64)4e18); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] = std::min(r[i + j], a[i] + b[j]); return r; };
    EXPECT_EQ(min_plus_convolution_convex_convex(a, b), mp(a, b), "convex-convex"); EXPECT_EQ(min_plus_convolution_convex_arbitrary(a, c), mp(a, c), "convex-arbitrary"); EXPECT_EQ(min_plus_convolution_convex_arbitrary(a, b), mp(a, b), "convex-arbitrary"); } }
SUITE(monotone) { for (int k = 0; k < 60; ++k) { // totally monotone matrices: A[i][j] = g(j) + h(i-dependent) from a convex distance
    int n = R(0, 20), m = R(1, 20); Z x(n), y(m), g = rz(m, R(0, 1) ? 2 : 50); for (auto& v : x) v = R(-30, 30); for (auto& v : y) v = R(-30, 30); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); begin("monotone_minima", x, y, g); auto A = [&](size_t i, size_t j) -> i64 { return (x[i] - y[j]) * (x[i] - y[j]) + g[j]; };
    auto r = monotone_minima(n, m, A); EXPECT_EQ((int)r.size(), n, ""); for (int i = 0; i < n; ++i) { int e = 0; for (int j = 1; j < m; ++j) if (A(i, j) < A(i, e)) e = j; EXPECT(r[i] >= 0 && r[i] < m && A(i, r[i]) == A(i, e), "row", i, r[i], e); } } }
