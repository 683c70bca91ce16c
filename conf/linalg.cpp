#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <iostream>
#include <limits>
#include <numeric>
#include <optional>
#include <string>
#include <vector>
#include "library/number/modint.hpp"
using P9 = suisen::modint998244353; using P7 = suisen::static_modint<7>; using P2 = suisen::static_modint<2>; using P5 = suisen::static_modint<1000000007>;
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/array_matrix.hpp"
#include "library/linear_algebra/characteristic_polynomial.hpp"
#include "library/linear_algebra/circulant_matrix.hpp"
#include "library/linear_algebra/count_spanning_trees.hpp"
#include "library/linear_algebra/gaussian_elimination.hpp"
#include "library/linear_algebra/gaussian_elimination_f2.hpp"
#include "library/linear_algebra/hafnian.hpp"
#include "library/linear_algebra/hessenberg_reduction.hpp"
#include "library/linear_algebra/matrix_f2.hpp"
#include "library/linear_algebra/xor_base.hpp"
namespace suisen {
template <class M> auto note_(const M& x) -> decltype(M::mod(), std::to_string(x.val())) { return std::to_string(x.val()); }
inline std::string note_(const suisen::DynamicBitSet& b) { std::string s; for (int i = 0; i < (int)b.size(); ++i) s += b[i] ? '1' : '0'; return s; }
}
#include "conf.h"
using namespace cf; using namespace suisen;
template <class T> using VV = std::vector<std::vector<T>>;
template <class T> static T rv() { int k = R(0, 3); return k == 0 ? T(0) : k == 1 ? T(R(-2, 2)) : T(R(0, T::mod() - 1)); }
template <class T> static VV<T> rm(int n, int m) { VV<T> a(n, std::vector<T>(m)); for (auto& r : a) for (auto& x : r) x = rv<T>(); if (n > 1 && m && R(0, 3) == 0) { int i = R(0, n - 1), j = R(0, n - 1); T c = rv<T>(); if (i != j) for (int k = 0; k < m; ++k) a[i][k] = a[j][k] * c; } if (m > 1 && n && R(0, 5) == 0) { int i = R(0, m - 1), j = R(0, m - 1); for (int k = 0; k < n; ++k) a[k][i] = a[k][j]; } return a; }
template <class T> static VV<T> mul(const VV<T>& a, const VV<T>& b, int l) { VV<T> c(a.size(), std::vector<T>(l, T(0))); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) for (int k = 0; k < l; ++k) c[i][k] += a[i][j] * b[j][k]; return c; }
template <class T> static T leib(const VV<T>& a) { int n = a.size(); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); T s(0); do { T t(1); int inv = 0; for (int i = 0; i < n; ++i) { t *= a[i][p[i]]; for (int j = 0; j < i; ++j) inv += p[j] > p[i]; } s += inv & 1 ? T(0) - t : t; } while (std::next_permutation(p.begin(), p.end())); return s; }
template <class T> static VV<T> id(int n) { VV<T> a(n, std::vector<T>(n, T(0))); for (int i = 0; i < n; ++i) a[i][i] = T(1); return a; }
template <class T> static void mt(const char* nm) {
    int n = R(1, 5), m = R(1, 5), l = R(1, 5); auto a = rm<T>(n, m), b = rm<T>(n, m), c = rm<T>(m, l); T k = rv<T>(); begin(nm, a, b, c, k); using M = Matrix<T>; M A(a), B(b), C(c);
    EXPECT_EQ(A.shape(), std::make_pair(n, m)); EXPECT_EQ(A.row_size(), n); EXPECT_EQ(A.col_size(), m); EXPECT(VV<T>(A) == a); EXPECT((A == B) == (a == b)); EXPECT((A != B) == (a != b));
    VV<T> s = a, d = a, e = a; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) s[i][j] += b[i][j], d[i][j] -= b[i][j], e[i][j] *= k; EXPECT((A + B).dat == s, "sum"); EXPECT((A - B).dat == d, "difference"); EXPECT((A * k).dat == e && (k * A).dat == e, "scalar"); { M X = A; X += B; EXPECT(X.dat == s); X -= B; EXPECT(X.dat == a); X *= k; EXPECT(X.dat == e); if (k != T(0)) { X /= k; EXPECT(X.dat == a, "scalar quotient"); EXPECT((M(e) / k).dat == a); } }
    auto p = mul(a, c, l); EXPECT_EQ((A * C).dat, p, "product"); { M X = A; X *= C; EXPECT(X.dat == p); } std::vector<T> x(m), y(n, T(0)); for (auto& v : x) v = rv<T>(); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[i] += a[i][j] * x[j]; EXPECT_EQ(A * x, y, "matrix times vector", x);
    int q = R(1, 5); auto f = rm<T>(q, q), g = rm<T>(q, q); op("square", f, g); M F(f), G(g); T det = leib(f); EXPECT_EQ(F.det(), det, "det"); EXPECT_EQ(F.det_arbitrary_mod(), det, "det_arbitrary_mod"); auto iv = F.safe_inv(); EXPECT_EQ(iv.has_value(), det != T(0), "invertible"); if (iv) { EXPECT(mul(f, iv->dat, q) == id<T>(q), "inverse", iv->dat); EXPECT(F.inv().dat == iv->dat); auto h = (G / F).dat; EXPECT(mul(h, f, q) == g, "quotient"); M X = G; X /= F; EXPECT(X.dat == h); EXPECT(mul((k / F).dat, f, q) == (k * M::e1(q)).dat, "scalar over matrix"); }
    EXPECT(M::e1(q).dat == id<T>(q)); EXPECT(M::e0(q).dat == VV<T>(q, std::vector<T>(q, T(0)))); i64 ex = R(0, 12); auto pw = id<T>(q); for (int i = 0; i < ex; ++i) pw = mul(pw, f, q); EXPECT_EQ(F.pow(ex).dat, pw, "pow", ex);
    auto H = hessenberg_reduction(F); for (int i = 0; i < q; ++i) for (int j = 0; j + 1 < i; ++j) EXPECT_EQ(H[i][j], T(0), "hessenberg form", i, j); auto cp = characteristic_polynomial(F); EXPECT_EQ((int)cp.size(), q + 1); for (int t = 0; t < 5; ++t) { T z = t < 3 ? T(t) : rv<T>(); auto u = f; for (auto& r : u) for (auto& v : r) v = T(0) - v; for (int i = 0; i < q; ++i) u[i][i] += z; T w(0); for (int i = q; i >= 0; --i) w = w * z + cp[i]; EXPECT_EQ(w, leib(u), "characteristic polynomial at", z); }
    { auto sub = A.submatrix(n / 2, n, m / 3, m); for (int i = n / 2; i < n; ++i) for (int j = m / 3; j < m; ++j) EXPECT_EQ(sub[i - n / 2][j - m / 3], a[i][j]); M X = A; if (n - n / 2) { X.assign_submatrix(0, 0, sub); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) EXPECT_EQ(X[i][j], i < n - n / 2 && j < m - m / 3 ? a[i + n / 2][j + m / 3] : a[i][j], "assign_submatrix", i, j); } }
}
SUITE(matrix) { R(0, 1) ? mt<P7>("Matrix<mod 7>") : mt<P9>("Matrix<mod 998244353>"); }
SUITE(strassen) { int n = R(71, 80), m = R(71, 80), l = R(71, 80); if (R(0, 4) == 0) n = R(141, 146), m = R(141, 146), l = R(141, 146); begin("Strassen", n, m, l); auto a = rm<P9>(n, m), b = rm<P9>(m, l); auto c = (Matrix<P9>(a) * Matrix<P9>(b)).dat, d = mul(a, b, l); for (int i = 0; i < n; ++i) for (int j = 0; j < l; ++j) EXPECT_EQ(c[i][j], d[i][j], i, j); }
SUITE(det_any_mod) { using D = suisen::static_modint<12>; using D2 = suisen::static_modint<1000000000>; int n = R(0, 5); { VV<D> a(n, std::vector<D>(n)); for (auto& r : a) for (auto& x : r) x = D(R(0, 11)); begin("mod 12", a); if (n) EXPECT_EQ(Matrix<D>(a).det_arbitrary_mod(), leib(a)); } { VV<D2> a(n, std::vector<D2>(n)); for (auto& r : a) for (auto& x : r) x = D2(R(0, 1) ? R(0, 999999999) : R(-2, 2)); begin("mod 10^9", a); EXPECT_EQ(Matrix<D2>(a).det_arbitrary_mod(), leib(a)); } }
template <class T, int N> static void am() {
    auto a = rm<T>(N, N), b = rm<T>(N, N); T k = rv<T>(); begin("SquareArrayMatrix", N, a, b, k); using M = SquareArrayMatrix<T, N>; auto mk = [](const VV<T>& v) { M x; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) x[i][j] = v[i][j]; return x; }; auto un = [](const M& x) { VV<T> v(N, std::vector<T>(N)); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) v[i][j] = x[i][j]; return v; }; M A = mk(a), B = mk(b);
    VV<T> s = a, d = a, e = a, g = a; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) s[i][j] += b[i][j], d[i][j] -= b[i][j], e[i][j] *= k, g[i][j] = T(0) - a[i][j]; EXPECT(un(A + B) == s); EXPECT(un(A - B) == d); EXPECT(un(A * k) == e && un(k * A) == e); EXPECT(un(-A) == g && un(+A) == a); EXPECT_EQ(un(A * B), mul(a, b, N)); { M X = A; X *= B; EXPECT(un(X) == mul(a, b, N)); }
    std::array<T, N> x; std::vector<T> y(N, T(0)); for (auto& v : x) v = rv<T>(); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) y[i] += a[i][j] * x[j]; auto z = A * x; EXPECT_EQ(std::vector<T>(z.begin(), z.end()), y); T det = leib(a); EXPECT_EQ(A.det(), det); EXPECT_EQ(A.det_arbitrary_mod(), det); auto iv = A.safe_inv(); EXPECT_EQ(iv.has_value(), det != T(0)); if (iv) { EXPECT(mul(a, un(*iv), N) == id<T>(N)); EXPECT(mul(un(B / A), a, N) == b, "quotient"); M X = B; X /= A; EXPECT(mul(un(X), a, N) == b, "quotient="); EXPECT(mul(un(k / A), a, N) == un(M::e1() * k), "scalar over matrix"); } if (k != T(0)) { EXPECT(un(mk(e) / k) == a); M X = mk(e); X /= k; EXPECT(un(X) == a); }
    EXPECT(un(M::e1()) == id<T>(N)); EXPECT(un(M::e0()) == VV<T>(N, std::vector<T>(N, T(0)))); int ex = R(0, 12); auto pw = id<T>(N); for (int i = 0; i < ex; ++i) pw = mul(pw, a, N); EXPECT_EQ(un(A.pow(ex)), pw, ex);
    auto c = rm<T>(N, 3); ArrayMatrix<T, N, 3> C; for (int i = 0; i < N; ++i) for (int j = 0; j < 3; ++j) C[i][j] = c[i][j]; auto D = A * C; auto dd = mul(a, c, 3); for (int i = 0; i < N; ++i) for (int j = 0; j < 3; ++j) EXPECT_EQ(D[i][j], dd[i][j]); EXPECT_EQ(C.shape(), std::make_pair(N, 3));
}
SUITE(array_matrix) { switch (R(0, 3)) { case 0: am<P7, 1>(); break; case 1: am<P7, 2>(); break; case 2: am<P7, 4>(); break; default: am<P9, 3>(); } }
// ---- linear systems
template <class T, class G> static void ge(const char* nm, int q) {
    int n = R(1, 5), m = R(1, 4); auto val = [&]() { return R(0, 2) ? T(R(0, q - 1)) : T(0); }; VV<T> a(n, std::vector<T>(m)); for (auto& r : a) for (auto& x : r) x = val(); if (n > 1 && R(0, 2) == 0) a[R(0, n - 1)] = a[R(0, n - 1)]; std::vector<T> b(n); for (auto& x : b) x = val(); begin(nm, a, b); G g(a, b);
    auto md = [&](i64 v) { return (int)(v % q); }; auto iv = [&](const T& x) -> i64 { if constexpr (std::is_integral_v<T>) return x; else return x.val(); }; std::vector<std::vector<int>> sol; std::vector<int> x(m); while (1) { bool ok = true; for (int i = 0; i < n && ok; ++i) { i64 s = 0; for (int j = 0; j < m; ++j) s += iv(a[i][j]) * x[j]; ok = md(s) == iv(b[i]); } if (ok) sol.push_back(x); int k = 0; while (k < m && ++x[k] == q) x[k++] = 0; if (k == m) break; }
    EXPECT_EQ(g.has_solution(), !sol.empty(), "has_solution"); EXPECT_EQ(g.has_unique_solution(), sol.size() == 1); EXPECT_EQ(g.has_multiple_solutions(), sol.size() > 1); if (sol.empty()) { EXPECT_EQ(g.dimension(), -1); EXPECT(!g.get_solution()); return; }
    int d = 0; for (size_t t = 1; t < sol.size(); t *= q) ++d; EXPECT_EQ(g.dimension(), d, "dimension"); auto s0 = g.get_solution(); auto bs = g.get_basis(); EXPECT_EQ((int)bs.size(), d); std::set<std::vector<int>> got; std::vector<int> c(d); while (1) { std::vector<int> v(m); for (int j = 0; j < m; ++j) { i64 t = iv((*s0)[j]); for (int i = 0; i < d; ++i) t += c[i] * iv(bs[i][j]); v[j] = md(t); } got.insert(v); int k = 0; while (k < d && ++c[k] == q) c[k++] = 0; if (k == d) break; } EXPECT(got == std::set<std::vector<int>>(sol.begin(), sol.end()), "solution set", *s0, bs);
}
SUITE(gaussian) { switch (R(0, 2)) { case 0: ge<P7, GaussianEliminationArithmetic<P7>>("mod 7", 7); break; case 1: ge<int, GaussianEliminationF2<int>>("F2 int", 2); break; default: ge<P2, GaussianEliminationArithmetic<P2>>("mod 2", 2); } }
SUITE(gaussian_f2) {
    int n = R(0, 6), m = R(0, 6); MatrixF2 A(n, m); DynamicBitSet b(n); std::vector<int> a(n), bb(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) if (R(0, 2) == 0) A[i][j] = true, a[i] |= 1 << j; if (R(0, 1)) b[i] = true, bb[i] = 1; } begin("gaussian_elimination_f2", n, m, a, bb); auto g = gaussian_elimination_f2(A, b); auto toi = [&](const DynamicBitSet& v) { int x = 0; for (int j = 0; j < m; ++j) x |= int(v[j]) << j; return x; };
    std::set<int> sol; for (int x = 0; x < 1 << m; ++x) { bool ok = true; for (int i = 0; i < n; ++i) ok &= (__builtin_popcount(a[i] & x) & 1) == bb[i]; if (ok) sol.insert(x); } EXPECT_EQ(g.has_solution(), !sol.empty()); if (sol.empty()) return; int d = g.dim(); EXPECT_EQ((size_t)1 << d, sol.size(), "dimension"); EXPECT_EQ(g.rank(), m - d); std::set<int> got; for (int c = 0; c < 1 << d; ++c) { int x = toi(g.solution()); for (int i = 0; i < d; ++i) if (c >> i & 1) x ^= toi(g.basis()[i]); got.insert(x); } EXPECT(got == sol, "solution set");
    auto span = [&](const std::vector<DynamicBitSet>& v) { std::set<int> r{0}; for (auto& e : v) { auto t = r; for (int x : t) r.insert(x ^ toi(e)); } return r; };
    auto h = g.normalized(); EXPECT(span(h.basis()) == span(g.basis()), "normalized"); EXPECT_EQ(h.dim(), d); DynamicBitSet v(m); for (int j = 0; j < m; ++j) if (R(0, 1)) v[j] = true; auto sp = span(h.basis()); bool in = sp.count(toi(v)); EXPECT_EQ(h.add_base(v), !in, "add_base"); auto sp2 = sp; for (int x : sp) sp2.insert(x ^ toi(v)); EXPECT(span(h.basis()) == sp2); EXPECT_EQ((size_t)1 << h.dim(), sp2.size());
    MatrixF2 A2(R(0, 4), m); for (int i = 0; i < A2.row_size(); ++i) for (int j = 0; j < m; ++j) if (R(0, 1)) A2[i][j] = true; auto g2 = gaussian_elimination_f2(A2, DynamicBitSet(A2.row_size())).normalized(); auto s2 = span(g2.basis()); std::set<int> isx, sum; for (int x : sp2) { if (s2.count(x)) isx.insert(x); for (int y : s2) sum.insert(x ^ y); } EXPECT(span((h & g2).basis()) == isx, "intersection"); EXPECT(span((h + g2).basis()) == sum, "sum");
}
SUITE(matrix_f2) {
    int n = R(0, 5), m = R(0, 5), l = R(0, 5); if (R(0, 9) == 0) n = R(60, 70), m = R(60, 70), l = R(1, 70); auto mk = [](int r, int c, int z) { MatrixF2 A(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (R(0, z) == 0) A[i][j] = true; return A; }; MatrixF2 A = mk(n, m, 1), B = mk(n, m, 1), C = mk(m, l, 1); auto un = [](const MatrixF2& x) { VV<int> v(x.row_size(), std::vector<int>(x.col_size())); for (int i = 0; i < x.row_size(); ++i) for (int j = 0; j < x.col_size(); ++j) v[i][j] = x[i][j]; return v; }; auto a = un(A), b = un(B), c = un(C); begin("MatrixF2", n, m, l, a, b, c);
    VV<int> s = a; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) s[i][j] ^= b[i][j]; EXPECT(un(A + B) == s && un(A - B) == s); auto t = un(A.transposed()); EXPECT_EQ((int)t.size(), m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) EXPECT_EQ(t[j][i], a[i][j]); auto prod = [](const VV<int>& x, const VV<int>& y, int l) { VV<int> z(x.size(), std::vector<int>(l)); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) for (int k = 0; k < l; ++k) z[i][k] ^= x[i][j] & y[j][k]; return z; }; auto p = A * C; EXPECT(un(p) == prod(a, c, l), "product"); EXPECT_EQ(p.shape(), std::make_pair(n, l)); EXPECT((A == B) == (a == b)); EXPECT((A != B) == (a != b)); EXPECT(un(A * true) == a && un(true * A) == a && un(A / true) == a); EXPECT(un(A * false) == VV<int>(n, std::vector<int>(m)));
    DynamicBitSet x(m); std::vector<int> y(n); for (int j = 0; j < m; ++j) if (R(0, 1)) x[j] = true; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[i] ^= a[i][j] & int(x[j]); auto z = A * x; EXPECT_EQ((int)z.size(), n); for (int i = 0; i < n; ++i) EXPECT_EQ((int)z[i], y[i]);
    auto rk = [](VV<int> v) { int r = 0, n = v.size(), m = n ? v[0].size() : 0; for (int j = 0; j < m; ++j) { int k = r; while (k < n && !v[k][j]) ++k; if (k == n) continue; std::swap(v[k], v[r]); for (int i = 0; i < n; ++i) if (i != r && v[i][j]) for (int h = 0; h < m; ++h) v[i][h] ^= v[r][h]; ++r; } return r; }; EXPECT_EQ((int)A.rank(), rk(a), "rank");
    int q = R(0, 6); MatrixF2 F = mk(q, q, R(1, 2)), G = mk(q, q, 1); auto f = un(F), g = un(G); op("square", f, g); bool reg = rk(f) == q; EXPECT_EQ(F.det(), reg, "det"); EXPECT_EQ((int)F.rank(), rk(f)); auto iv = F.inv(); EXPECT_EQ(iv.has_value(), reg, "invertible"); VV<int> e(q, std::vector<int>(q)); for (int i = 0; i < q; ++i) e[i][i] = 1; if (iv) { EXPECT(prod(f, un(*iv), q) == e, "inverse"); EXPECT(prod(un(G / F), f, q) == g, "quotient"); MatrixF2 H = G; H /= F; EXPECT(prod(un(H), f, q) == g); } EXPECT(un(MatrixF2::e1(q)) == e); int ex = R(0, 9); auto pw = e; for (int i = 0; i < ex; ++i) pw = prod(pw, f, q); EXPECT(un(F.pow(ex)) == pw, "pow", ex);
}
template <class T> static void xb(const char* nm) {
    std::vector<T> a(R(0, 7)), b(R(0, 7)); int w = R(0, 2); auto val = [&]() { return w == 0 ? T(R(0, 15)) : w == 1 ? T(rnd() & std::numeric_limits<T>::max()) : T(T(1) << R(0, std::numeric_limits<T>::digits - 1)) ^ T(R(0, 3)); }; for (auto& x : a) x = val(); for (auto& x : b) x = R(0, 2) || a.empty() ? val() : T(a[R(0, a.size() - 1)] ^ a[0]); begin(nm, a, b); auto span = [](const std::vector<T>& v) { std::set<T> r{0}; for (T e : v) { if (r.count(e)) continue; auto t = r; for (T x : t) r.insert(x ^ e); } return r; };
    XorBase<T> A; std::set<T> cur{0}; for (T x : a) { bool in = cur.count(x); EXPECT_EQ(A.add(x), !in, "add", x); auto t = cur; for (T y : t) cur.insert(x ^ y); EXPECT(span(A.get_basis()) == cur, "span after add", x, A.get_basis()); EXPECT_EQ((size_t)1 << A.dim(), cur.size(), "dim"); EXPECT_EQ((size_t)A.dim(), A.get_basis().size()); } XorBase<T> B(b); auto sb = span(b); EXPECT(span(B.get_basis()) == sb); std::set<T> isx, sum; for (T x : cur) { if (sb.count(x)) isx.insert(x); for (T y : sb) sum.insert(x ^ y); }
    EXPECT(span((A & B).get_basis()) == isx, "intersection", A.get_basis(), B.get_basis()); EXPECT_EQ((size_t)1 << (A & B).dim(), isx.size()); EXPECT(span(A.intersection(B).get_basis()) == isx); EXPECT(span((A + B).get_basis()) == sum, "sum"); T v = val(); auto C = A + v; auto sc = cur; for (T x : cur) sc.insert(x ^ v); EXPECT(span(C.get_basis()) == sc); C = A; C += v; EXPECT(span(C.get_basis()) == sc); C = A; C += B; EXPECT(span(C.get_basis()) == sum); C = A; C &= B; EXPECT(span(C.get_basis()) == isx);
}
SUITE(xor_base) { switch (R(0, 2)) { case 0: xb<int>("XorBase<int>"); break; case 1: xb<u64>("XorBase<ull>"); break; default: xb<unsigned>("XorBase<unsigned>"); } }
template <class T> static std::vector<T> cnv(const std::vector<T>& a, const std::vector<T>& b) { if (a.empty()) return {}; std::vector<T> c(a.size() + b.size() - 1, T(0)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
SUITE(circulant) {
    using T = P7; using M = CirculantMatrix<T>; M::set_multiplication(cnv<T>); int n = R(1, 6); std::vector<T> a(n), b(n), x(n); for (auto& v : a) v = rv<T>(); for (auto& v : b) v = rv<T>(); for (auto& v : x) v = rv<T>(); T k = rv<T>(); begin("CirculantMatrix", a, b, x, k); M A(a), B(b); auto un = [&](const M& m) { VV<T> v(n, std::vector<T>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { v[i][j] = m.get(i, j); EXPECT_EQ(m[std::make_pair(i, j)], v[i][j]); } return v; }; VV<T> f(n, std::vector<T>(n)), g = f, s = f, d = f, e = f, ng = f; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) f[i][j] = a[(i - j + n) % n], g[i][j] = b[(i - j + n) % n], s[i][j] = f[i][j] + g[i][j], d[i][j] = f[i][j] - g[i][j], e[i][j] = f[i][j] * k, ng[i][j] = T(0) - f[i][j];
    EXPECT_EQ(un(A), f); EXPECT(un(A + B) == s && un(A - B) == d && un(A * k) == e && un(k * A) == e && un(-A) == ng && un(+A) == f); EXPECT_EQ(un(A * B), mul(f, g, n)); std::vector<T> y(n, T(0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) y[i] += f[i][j] * x[j]; EXPECT_EQ(A * x, y); int ex = R(0, 9); auto pw = id<T>(n); for (int i = 0; i < ex; ++i) pw = mul(pw, f, n); EXPECT_EQ(un(A.pow(ex)), pw); M C = A; C += B; EXPECT(un(C) == s); C = A; C -= B; EXPECT(un(C) == d); C = A; C *= B; EXPECT(un(C) == mul(f, g, n)); C = A; C *= k; EXPECT(un(C) == e); EXPECT(un(M::e1(n)) == id<T>(n)); EXPECT_EQ(A.size(), n);
}
SUITE(spanning_trees) {
    int n = R(1, 6), m = R(0, 9); std::vector<std::pair<int, int>> e; for (int i = 0; i < m; ++i) e.push_back({(int)R(0, n - 1), (int)R(0, n - 1)}); begin("count_spanning_trees", n, e); i64 c = 0; for (int s = 0; s < 1 << m; ++s) if (__builtin_popcount(s) == n - 1) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); std::function<int(int)> f = [&](int v) { return p[v] == v ? v : p[v] = f(p[v]); }; bool ok = true; for (int i = 0; i < m; ++i) if (s >> i & 1) { int u = f(e[i].first), v = f(e[i].second); if (u == v) ok = false; p[u] = v; } c += ok; } EXPECT_EQ((count_spanning_trees<P9>(n, e)), P9(c));
}
SUITE(hafnian) {
    int n = 2 * R(1, 4); VV<P9> a(n, std::vector<P9>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a[i][j] = a[j][i] = rv<P9>(); begin("hafnian", a); std::function<P9(int)> f = [&](int used) -> P9 { int i = 0; while (i < n && (used >> i & 1)) ++i; if (i == n) return P9(1); P9 s(0); for (int j = i + 1; j < n; ++j) if (!(used >> j & 1)) s += a[i][j] * f(used | 1 << i | 1 << j); return s; }; EXPECT_EQ(hafnian<P9>(a), f(0));
}
