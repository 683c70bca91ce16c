#include <algorithm>
#include <bitset>
#include <cassert>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <numeric>
#include <optional>
#include <string>
#include <tuple>
#include <vector>
#include "library/number/modint.hpp"
namespace suisen { template <int m> std::string note_(static_modint<m> x) { return std::to_string(x.val()); } }
#include "library/math/modint_extension.hpp"
#include "library/polynomial/fps_naive.hpp"
#include "library/polynomial/array_fps_naive.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/berlekamp_massey.hpp"
#include "library/polynomial/bostan_mori.hpp"
#include "library/polynomial/convert_to_newton_basis.hpp"
#include "library/polynomial/lagrange_interpolation.hpp"
#include "library/polynomial/multi_point_eval.hpp"
#include "library/polynomial/polynomial_gcd.hpp"
#include "library/polynomial/polynomial_interpolation.hpp"
#include "library/polynomial/polynomial_taylor_shift.hpp"
#include "library/polynomial/prod_f(r^k_x).hpp"
#include "library/polynomial/rational_fps.hpp"
#include "library/polynomial/rook_polynomial.hpp"
#include "library/polynomial/subset_sum.hpp"
#include "library/polynomial/vec_sparse_fps.hpp"
#include "library/math/set_power_series.hpp"
#include "library/math/array_set_power_series.hpp"
#include "conf.h"
using namespace cf;
using mint = suisen::modint998244353;
using VM = std::vector<mint>; using VI = std::vector<int>;
using FN = suisen::FPSNaive<mint>; using FP = suisen::FPS<mint>; using SF = suisen::VecSparseFPS<int, mint>;
static VM conv(const VM& a, const VM& b) { if (a.empty() || b.empty()) return {}; VM c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
static bool init_ = (FP::set_multiplication(conv), SF::set_multiplication(conv), true);
static mint rm() { int k = R(0, 5); return k < 3 ? mint(R(-3, 3)) : mint(rnd()); }
static VM rv(int n) { VM a(n); int z = R(0, 3); for (auto& x : a) x = z ? rm() : R(0, 3) ? mint(0) : rm(); return a; }
static VM up(VM a, int n) { a.resize(n); return a; }
static VM V_(const VM& a) { return a; }
static VM trunc(VM a) { while (a.size() && a.back() == 0) a.pop_back(); return a; }
static VM mulm(const VM& a, const VM& b, int n) { return up(conv(a, b), n); }
static VM powm(const VM& a, i64 k, int n) { VM r = up(VM{ 1 }, n), x = up(a, n); for (; k; k >>= 1) { if (k & 1) r = mulm(r, x, n); x = mulm(x, x, n); } return r; }
static VM dif(const VM& a) { VM r; for (size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * int(i)); return r; }
// exp from the definition sum f^k / k!
static VM exps(const VM& a, int n) { VM r(n), p = up(VM{ 1 }, n); mint f = 1; for (int k = 0; k < n; ++k) { if (k) f *= k, p = mulm(p, a, n); for (int i = 0; i < n; ++i) r[i] += p[i] / f; } return r; }
static mint ev(const VM& a, mint x) { mint y = 0, p = 1; for (auto& c : a) y += c * p, p *= x; return y; }
template <class F> static void ring_ops(int maxn) {
    VM a = rv(R(0, maxn)), b = rv(R(0, maxn)); mint c = rm(); begin("power series", a, b, c.val());
    F f(a), g(b); int n = std::max(a.size(), b.size()); VM s(n), d(n); for (int i = 0; i < n; ++i) { mint x = i < int(a.size()) ? a[i] : 0, y = i < int(b.size()) ? b[i] : 0; s[i] = x + y; d[i] = x - y; }
    EXPECT(V_(f + g) == s); EXPECT(V_(f - g) == d); EXPECT(V_(f * g) == conv(a, b)); VM ca = a, na = a; for (auto& x : ca) x *= c; for (auto& x : na) x = -x;
    EXPECT(V_(f * c) == ca); EXPECT(V_(c * f) == ca); EXPECT(V_(-f) == na); EXPECT(V_(+f) == a);
    F h = f; h += c; VM e = a; if (e.empty()) e.resize(1); e[0] += c; EXPECT(V_(h) == e); h -= c; h -= c; e[0] -= c + c; EXPECT(V_(h) == e); ++h; ++e[0]; EXPECT(V_(h) == e); --h; --e[0]; EXPECT(V_(h) == e);
    int k = R(0, maxn + 3); VM l = a, r; l.insert(l.begin(), k, mint(0)); for (int i = k; i < int(a.size()); ++i) r.push_back(a[i]); EXPECT(V_(f << k) == l); EXPECT(V_(f >> k) == r);
    EXPECT((f == g) == (trunc(a) == trunc(b))); EXPECT((f != g) == (trunc(a) != trunc(b))); VM a0 = a; a0.resize(a.size() + R(0, 3)); EXPECT(F(a0) == f);
    EXPECT(f.eval(c) == ev(a, c));
    if (trunc(b).size()) { auto [q, rr] = f.div_mod(g); EXPECT(trunc(rr).size() < trunc(b).size()); VM t = conv(q, b); t.resize(std::max(t.size(), std::max<size_t>(a.size(), rr.size()))); for (int i = 0; i < int(rr.size()); ++i) t[i] += rr[i]; EXPECT(trunc(t) == trunc(a), "quotient", q, "remainder", rr); EXPECT(f / g == q); EXPECT(f % g == rr); }
    if (a.size()) { EXPECT(trunc(f.diff()) == trunc(dif(a))); } VM in = f.intg(); EXPECT_EQ(in.size(), a.size() + 1); EXPECT(in[0] == 0); EXPECT(dif(in) == a);
}
SUITE(naive_ring) { ring_ops<FN>(8); VM a = rv(R(0, 7)); FN f(a); int k = R(0, 9), z = R(0, 9); op("cut", k); EXPECT(V_(f.cut(k)) == VM(a.begin(), a.begin() + std::min<int>(k, a.size()))); const FN& cf_ = f; EXPECT(cf_[z] == (z < int(a.size()) ? a[z] : mint(0))); VM b = rv(R(0, 7)); if (a.size() && b.size()) { VM w = conv(a, b); if (int(w.size()) > k) w.resize(k); EXPECT(V_(f.mul(FN(b), k)) == w); } FN t = f; EXPECT_EQ(t.normalize(), int(trunc(a).size()) - 1); EXPECT(V_(t) == trunc(a)); }
SUITE(fps_ring) { ring_ops<FP>(R(0, 20) ? 10 : 90); }
template <class F> static void analytic(int n, VM a, bool sp) {
    begin("power series, n =", n, a);
    auto full = [&](VM x, const char* w) { EXPECT_EQ(int(x.size()), n, w); return x; };
    if (n && a[0] != 0) { VM g = full(F(a).inv(n), "inv"); EXPECT(mulm(a, g, n) == up(VM{ 1 }, n), "inverse", g); }
    if (n) { VM b = a; b[0] = 0; VM g = full(F(b).exp(n), "exp"); if (n <= 12) EXPECT(g == exps(b, n), "exp", g); EXPECT(g[0] == 1); EXPECT(up(dif(g), n - 1) == mulm(dif(b), g, n - 1), "exp", g); }
    if (n) { VM b = a; b[0] = 1; VM g = full(F(b).log(n), "log"); EXPECT(g[0] == 0); EXPECT(mulm(dif(g), b, n - 1) == up(dif(b), n - 1), "log", g); }
    if (n) { i64 k = R(0, 3) ? R(0, 6) : R(0, i64(1) << R(1, 60)); int z = R(0, 2) ? 0 : R(0, 3); VM b = a; b.insert(b.begin(), z, mint(0)); op("pow", k, "shift", z); VM g = full(F(b).pow(k, n), "pow"); EXPECT(g == powm(b, k, n), "pow", g); }
    if (n) { mint lead = rm(); VM h = a; h[0] = lead; int z = R(0, 2) ? 0 : R(0, 3); VM b = h; b.insert(b.begin(), z, mint(0)); op("sqrt", b); VM t = trunc(up(b, n)); auto g = F(b).safe_sqrt(n); int lz = 0; while (lz < int(b.size()) && b[lz] == 0) ++lz; bool ex = lz == int(b.size()) || (lz % 2 == 0 && b[lz].pow((998244353 - 1) / 2) == 1);
        if (ex || lz < n) EXPECT(g.has_value() == ex); if (g) { VM w = full(*g, "sqrt"); EXPECT(mulm(w, w, n) == up(b, n), "sqrt", w); } }
}
SUITE(naive_analytic) { int n = R(0, 10); analytic<FN>(n, up(rv(R(0, 12)), std::max<int>(n, 1)), false); }
SUITE(fps_analytic) { int n = R(0, 12) ? R(0, 12) : R(55, 80); VM a = rv(n + 3); if (R(0, 1) && n) { a = VM(n + 3); for (int i = R(0, 6); i--;) a[R(0, n - 1)] = rm(); } if (a.size() < 1) a.resize(1); analytic<FP>(n, a, true); }
SUITE(fps_large) { static int c = 0; int n = R(60, 130); VM a = rv(n + 3); if (c++ % 2) for (auto& x : a) if (x == 0) x = 1; analytic<FP>(n, a, true); }
SUITE(array_fps) {
    constexpr int N = 6; using F = suisen::ArrayFPSNaive<mint, N>; auto mk = [](const VM& a) { F f; for (int i = 0; i < N; ++i) f[i] = a[i]; return f; }; auto vc = [](const F& f) { return VM(f.begin(), f.end()); };
    VM a = rv(N), b = rv(N); mint c = rm(); begin("ArrayFPSNaive", a, b, c.val()); F f = mk(a), g = mk(b); VM s(N), d(N), ca(N), na(N); for (int i = 0; i < N; ++i) s[i] = a[i] + b[i], d[i] = a[i] - b[i], ca[i] = a[i] * c, na[i] = -a[i];
    EXPECT(vc(f + g) == s); EXPECT(vc(f - g) == d); EXPECT(vc(f * g) == mulm(a, b, N)); EXPECT(vc(f.mul(g)) == mulm(a, b, N)); EXPECT(vc(f * c) == ca); EXPECT(vc(-f) == na);
    int k = R(0, N + 2); VM l = a; l.insert(l.begin(), k, mint(0)); l.resize(N); VM r(N); for (int i = 0; i + k < N; ++i) r[i] = a[i + k]; EXPECT(vc(f << k) == l); EXPECT(vc(f >> k) == r); EXPECT(f.eval(c) == ev(a, c)); EXPECT(vc(f.diff()) == up(dif(a), N)); EXPECT(up(dif(vc(f.intg())), N - 1) == up(a, N - 1)); EXPECT(vc(f.intg())[0] == 0);
    if (a[0] != 0) EXPECT(mulm(vc(f.inv()), a, N) == up(VM{ 1 }, N)); F e = f; e[0] = 0; EXPECT(vc(e.exp()) == exps(vc(e), N)); e[0] = 1; VM lg = vc(e.log()); EXPECT(lg[0] == 0); EXPECT(exps(lg, N) == vc(e));
    i64 p = R(0, 3) ? R(0, 6) : R(0, i64(1) << R(1, 60)); op("pow", p); EXPECT(vc(f.pow(p)) == powm(a, p, N)); F q = f * f; int lz = 0; while (lz < N && a[lz] == 0) ++lz; op("sqrt", vc(q)); VM w = vc(q.sqrt()); EXPECT(mulm(w, w, N) == vc(q));
    if (trunc(b).size()) { auto [x, y] = div_mod(f, g); VM t = conv(vc(x), b); t.resize(2 * N); for (int i = 0; i < N; ++i) t[i] += y[i]; EXPECT(trunc(t) == trunc(a)); EXPECT(trunc(vc(y)).size() < trunc(b).size()); EXPECT(vc(f / g) == vc(x)); EXPECT(vc(f % g) == vc(y)); }
}
SUITE(products) {
    int k = R(1, 5); std::vector<FP> fs; VM w{ 1 }; for (int i = 0; i < k; ++i) { VM a = rv(R(1, 4)); fs.push_back(a); w = conv(w, a); } begin("product of", k, "series", w); EXPECT(V_(FP::prod(fs)) == w);
    VM f = rv(R(1, 6)); mint r = R(0, 2) ? rm() : mint(3).pow((998244353 - 1) / (i64(1) << R(0, 3))); int m = R(0, 5), N = R(1, 10); op("prod f(r^k x)", f, r.val(), m, N); VM e = up(VM{ 1 }, N); mint p = 1; for (int i = 0; i < m; ++i, p *= r) { VM g = f; mint q = 1; for (auto& x : g) x *= q, q *= p; e = mulm(e, g, N); } if (r != 0 || 1) EXPECT(up(V_(suisen::prod_f_rk_x(FP(f), r, m, N)), N) == e);
}
SUITE(linear_recurrence) {
    int L = R(1, 4); VM c = rv(L), a = rv(L); int n = 2 * L + R(0, 6); VM s = a; while (int(s.size()) < n + 8) { mint x = 0; int i = s.size(); for (int j = 1; j <= L; ++j) x += c[j - 1] * s[i - j]; s.push_back(x); } begin("linear recurrence", c, a);
    VM p(s.begin(), s.begin() + n), r = suisen::find_linear_recuurence(p); EXPECT(int(r.size()) - 1 <= L, r); EXPECT(r[0] == 1); int M = r.size() - 1; for (int i = M; i < n + 8; ++i) { mint x = 0; for (int j = 1; j <= M; ++j) x += r[j] * s[i - j]; EXPECT(x == s[i], i, r); }
    int t = R(0, n + 7); EXPECT(suisen::nth_term_of_linearly_recurrent_sequence(FP(a), FP(c), t) == s[t], t); VM q = rv(R(1, 5)), d = rv(R(1, 5)); if (d[0] == 0) d[0] = R(1, 5); int u = R(0, 20); op("coefficient", u, "of", q, "/", d); VM inv(u + 1); for (int i = 0; i <= u; ++i) { mint x = i == 0 ? 1 : 0; for (int j = 1; j < int(d.size()) && j <= i; ++j) x -= d[j] * inv[i - j]; inv[i] = x / d[0]; } EXPECT(suisen::bostan_mori(FP(q), FP(d), u) == up(conv(q, inv), u + 1)[u]);
    VM any = rv(R(0, 8)); op("shortest recurrence of", any); VM y = suisen::find_linear_recuurence(any); int Y = y.size() - 1; for (int i = Y; i < int(any.size()); ++i) { mint x = 0; for (int j = 1; j <= Y; ++j) x += y[j] * any[i - j]; EXPECT(x == any[i], y); }
}
SUITE(interpolation) {
    int n = R(1, 9); std::set<unsigned> ss; VM xs, ys; while (int(xs.size()) < n) { mint x = R(0, 2) ? mint(R(-6, 6)) : rm(); if (ss.insert(x.val()).second) xs.push_back(x); } VM f = rv(n); for (auto x : xs) ys.push_back(ev(f, x)); mint t = R(0, 1) ? xs[R(0, n - 1)] : rm(); begin("interpolation", xs, ys, t.val());
    EXPECT(suisen::lagrange_interpolation_naive(xs, ys, t) == ev(f, t)); EXPECT((suisen::lagrange_interpolation<FP, mint>(xs, ys, t)) == ev(f, t)); EXPECT(trunc(suisen::polynomial_interpolation<FP>(xs, ys)) == trunc(f));
    VM ws; for (int i = R(0, 9); i--;) ws.push_back(rm()); VM gf = rv(R(0, 9)); op("evaluate", gf, "at", ws); VM es; for (auto x : ws) es.push_back(ev(gf, x)); EXPECT(suisen::multi_point_eval(FP(gf), ws) == es);
    VM pd; for (int i = 0; i < n; ++i) { mint p = 1; for (int j = 0; j < n; ++j) if (j != i) p *= xs[i] - xs[j]; pd.push_back(p); } EXPECT(suisen::product_of_differences<FP>(xs) == pd);
    mint a = R(1, 5), b = rm(); VM ap; for (int i = 0; i < n; ++i) ap.push_back(ev(f, a * i + b)); EXPECT(suisen::lagrange_interpolation_arithmetic_progression(a, b, ap, t) == ev(f, t)); VM a0; for (int i = 0; i < n; ++i) a0.push_back(ev(f, i)); EXPECT(suisen::lagrange_interpolation_arithmetic_progression(a0, t) == ev(f, t));
    VM p = rv(n), nb = suisen::convert_to_newton_basis(FP(f), p), back{}; VM basis{ 1 }; back.resize(n); for (int i = 0; i < n; ++i) { for (size_t j = 0; j < basis.size(); ++j) back[j] += nb[i] * basis[j]; basis = conv(basis, VM{ -p[i], 1 }); } EXPECT(back == f, "newton basis", p, nb);
    VM ts = suisen::translate(FP(f), t); for (int i = 0; i <= n; ++i) EXPECT(ev(ts, i) == ev(f, t + i), "translate");
}
SUITE(polynomial_gcd) {
    VM c = rv(R(1, 3)), a = conv(rv(R(0, 4)), c), b = conv(rv(R(0, 4)), c); begin("polynomial gcd", a, b); auto g0 = [](auto g0, VM x, VM y) -> VM { x = trunc(x); y = trunc(y); if (y.empty()) { if (x.size()) { mint i = x.back().inv(); for (auto& e : x) e *= i; } return x; } return g0(g0, y, FN(x).div_mod(FN(y)).second); };
    VM g = g0(g0, a, b); auto [x, y, h] = suisen::polynomial_ext_gcd(FP(a), FP(b)); EXPECT(trunc(h) == g, h); VM l = conv(a, x), m = conv(b, y); l.resize(std::max(l.size(), m.size())); for (size_t i = 0; i < m.size(); ++i) l[i] += m[i]; EXPECT(trunc(l) == g, "bezout", x, y); EXPECT(trunc(suisen::polynomial_gcd(FP(a), FP(b))) == g); auto [u, v] = suisen::polynomial_gcd_inv(FP(a), FP(b)); EXPECT(trunc(v) == g);
    if (g == VM{ 1 } && trunc(b).size() > 1) { VM iv = suisen::polynomial_inv(FP(a), FP(b)); EXPECT(trunc(FN(conv(iv, a)).div_mod(FN(b)).second) == VM{ 1 }); }
}
SUITE(large_gcd) { static int cnt = 0; if (cnt++ % 40) { begin("skip"); return; } auto dense = [](int n) { VM a(n); for (auto& x : a) x = mint(rnd()); return a; }; VM c = dense(R(1, 20)), a = conv(dense(R(300, 340)), c), b = conv(dense(R(280, 340)), c); begin("large polynomial gcd", a.size(), b.size()); auto [x, y, h] = suisen::polynomial_ext_gcd(FP(a), FP(b)); EXPECT_EQ(trunc(h).size(), trunc(c).size()); VM l = conv(a, x), m = conv(b, y); l.resize(std::max(l.size(), m.size())); for (size_t i = 0; i < m.size(); ++i) l[i] += m[i]; EXPECT(trunc(l) == trunc(h)); EXPECT(FN(c).div_mod(FN(h)).second == FN{}); }
SUITE(rational) {
    using RF = suisen::RationalFPS<FP>; auto fr = [] { VM n = rv(R(1, 4)), d = rv(R(1, 4)); if (d[0] == 0) d[0] = R(1, 5); return RF(FP(n), FP(d)); }; RF f = fr(), g = fr(); int n = R(1, 9); mint c = R(1, 9); begin("RationalFPS", V_(f.num), V_(f.den), V_(g.num), V_(g.den), n); auto ser = [&](const RF& r) { VM h = r.to_fps(n); return up(h, n); }; VM a = ser(f), b = ser(g); EXPECT(mulm(a, f.den, n) == up(f.num, n)); VM s(n), d(n), ca(n), ac(n); for (int i = 0; i < n; ++i) s[i] = a[i] + b[i], d[i] = a[i] - b[i], ca[i] = a[i] * c, ac[i] = a[i] / c;
    EXPECT(ser(f + g) == s); EXPECT(ser(f - g) == d); EXPECT(ser(f * g) == mulm(a, b, n)); EXPECT(ser(f * c) == ca); EXPECT(ser(c * f) == ca); EXPECT(ser(f / c) == ac); RF h = f; h += g; EXPECT(ser(h) == s); h = f; h *= c; EXPECT(ser(h) == ca); h = f; h /= c; EXPECT(ser(h) == ac); if (f.num[0] != 0) { EXPECT(mulm(ser(f.inv()), a, n) == up(VM{ 1 }, n)); VM q = ser(c / f); EXPECT(mulm(q, a, n) == up(VM{ c }, n)); }
    std::vector<RF> fs; VM sm(n), pr = up(VM{ 1 }, n); for (int i = R(1, 4); i--;) { fs.push_back(fr()); VM x = ser(fs.back()); for (int j = 0; j < n; ++j) sm[j] += x[j]; pr = mulm(pr, x, n); } EXPECT(ser(RF::sum(fs)) == sm); EXPECT(ser(RF::prod(fs)) == pr); h = f; VM q = h.normalize(); VM z = conv(q, f.den); z.resize(std::max<size_t>(z.size(), std::max(f.num.size(), h.num.size()))); for (int i = 0; i < int(h.num.size()); ++i) z[i] += h.num[i]; EXPECT(trunc(z) == trunc(f.num));
}
SUITE(rook) {
    int n = R(1, 5); VI h(n); for (auto& x : h) x = R(0, 5); VI sh = h; std::sort(sh.begin(), sh.end()); begin("rook polynomial", h);
    auto bf = [&](const VI& q) { VM r(n + 1); VI used(8, -1); auto rec = [&](auto rec, int i, int k) -> void { if (i == n) { ++r[k]; return; } rec(rec, i + 1, k); for (int y = 0; y < q[i]; ++y) { bool att = used[y] >= 0; for (int j = std::max(0, used[y]); j < i; ++j) if (q[j] <= y) att = false; /* a gap in the row separates the rooks */ if (!att) { int o = used[y]; used[y] = i; rec(rec, i + 1, k + 1); used[y] = o; } } }; rec(rec, 0, 0); return r; };
    EXPECT(V_(suisen::rook_polynomial_ferrers_board<FP>(sh)) == bf(sh)); EXPECT(V_(suisen::rook_polynomial_skyline_board<FP>(h)) == bf(h));
    int m = R(0, 15); VI it; for (int i = R(0, 8); i--;) it.push_back(R(0, m + 3)); op("subset sum", m, it); VM w(m + 1); for (int k = 0; k < (1 << it.size()); ++k) { int s = 0; for (size_t i = 0; i < it.size(); ++i) if (k >> i & 1) s += it[i]; if (s <= m) ++w[s]; } EXPECT(suisen::subset_sum<FP>(m, it) == w);
}
SUITE(sparse_fps) {
    auto g = [&](int hi) { std::vector<std::pair<int, mint>> d; for (int i = R(0, 5); i--;) d.emplace_back(R(0, hi), rm()); return d; }; auto a = g(R(3, 40)), b = g(R(3, 40)); begin("VecSparseFPS"); for (auto& p : a) op(p.first, p.second.val()); op("/"); for (auto& p : b) op(p.first, p.second.val());
    auto vec = [](const auto& d) { VM v(50); for (auto& [i, x] : d) v[i] += x; return v; }; VM va = vec(a), vb = vec(b); auto eq = [](SF f, const VM& v) { for (int i = 0; i < int(v.size()); ++i) EXPECT(f[i] == v[i], i); }; SF f(a), h(b); eq(f, va); VM s(50), d(50), n(50); for (int i = 0; i < 50; ++i) s[i] = va[i] + vb[i], d[i] = va[i] - vb[i], n[i] = -va[i];
    eq(f + h, s); eq(f - h, d); eq(-f, n); eq(f * h, conv(va, vb)); VM q = rv(R(1, 4)); eq(f * q, conv(va, q)); eq(q * f, conv(va, q)); if (q[0] == 0) q[0] = R(1, 4); int u = R(0, 45); op("coefficient", u, "over", q); VM inv(u + 1); for (int i = 0; i <= u; ++i) { mint x = i == 0 ? 1 : 0; for (int j = 1; j < int(q.size()) && j <= i; ++j) x -= q[j] * inv[i - j]; inv[i] = x / q[0]; } EXPECT(SF::bostan_mori(f, q, u) == up(conv(va, inv), u + 1)[u]);
}
template <class S> static void sps(int n) {
    int N = 1 << n; VM a = rv(N), b = rv(N); mint c = R(1, 9); begin("SetPowerSeries", a, b, c.val()); auto sc = [&](const VM& x, const VM& y) { VM r(N); for (int s = 0; s < N; ++s) for (int t = s;; t = (t - 1) & s) { r[s] += x[t] * y[s ^ t]; if (!t) break; } return r; };
    S f(a), g(b); VM s(N), d(N), ca(N), ac(N), na(N); for (int i = 0; i < N; ++i) s[i] = a[i] + b[i], d[i] = a[i] - b[i], ca[i] = a[i] * c, ac[i] = a[i] / c, na[i] = -a[i];
    EXPECT(V_(f + g) == s); EXPECT(V_(f - g) == d); EXPECT(V_(f * g) == sc(a, b)); EXPECT(V_(f * c) == ca); EXPECT(V_(f / c) == ac); EXPECT(V_(-f) == na); EXPECT_EQ(f.cardinality(), n); EXPECT(V_(S::one(n)) == up(VM{ 1 }, N));
    auto pw = [&](const VM& x, i64 k) { VM r = up(VM{ 1 }, N), y = x; for (; k; k >>= 1) { if (k & 1) r = sc(r, y); y = sc(y, y); } return r; };
    if (a[0] != 0) EXPECT(sc(a, S(a).inv()) == up(VM{ 1 }, N), "inv"); VM e = a; e[0] = 0; VM ex(N), p = up(VM{ 1 }, N); mint fa = 1; for (int k = 0; k <= n; ++k) { if (k) p = sc(p, e), fa *= k; for (int i = 0; i < N; ++i) ex[i] += p[i] / fa; } EXPECT(V_(S(e).exp()) == ex, "exp"); EXPECT(V_(S(ex).log()) == e, "log"); i64 k = R(0, 2) ? R(0, 5) : R(0, i64(1) << 50); EXPECT(V_(S(a).pow(k)) == pw(a, k), "pow", k); VM q = a; q[0] = R(1, 4) * R(1, 4); q[0] = mint(R(1, 9)); q[0] *= q[0]; VM rt = S(q).sqrt(); EXPECT(sc(rt, rt) == q, "sqrt");
    if (N > 1) { int h = N / 2; EXPECT(V_(f.cut_lower(h)) == VM(a.begin(), a.begin() + h)); EXPECT(V_(f.cut_upper(h)) == VM(a.begin() + h, a.end())); S l = f.cut_lower(h); l.concat(f.cut_upper(h)); EXPECT(V_(l) == a); }
    EXPECT(V_((f.zeta() + g.zeta()).mobius()) == s); EXPECT(V_((f.zeta() - g.zeta()).mobius()) == d); EXPECT(V_((f.zeta() * c).mobius()) == ca);
    if constexpr (std::is_same_v<S, suisen::SetPowerSeries<mint>>) { VM co = rv(R(0, 7)), w(N); for (size_t i = 0; i < co.size(); ++i) { VM t = pw(a, i); for (int j = 0; j < N; ++j) w[j] += co[i] * t[j]; } EXPECT(V_(S::polynomial_composite(co, f)) == w, "composite", co); }
}
SUITE(set_power_series) { sps<suisen::SetPowerSeries<mint>>(R(0, 5)); }
SUITE(array_set_power_series) { sps<suisen::ArraySetPowerSeries<mint, 6>>(R(0, 5)); }
template <int p> static void roots() { using m = suisen::static_modint<p>; for (int i = 0; i < 4; ++i) { m a = m(rnd()); op(p, a.val()); auto r = ::safe_sqrt(a); bool ex = a == 0 || p == 2 || a.pow((p - 1) / 2) == 1; EXPECT(r.has_value() == ex); if (ex) EXPECT(*r * *r == a, r->val()); } }
SUITE(modular_sqrt) { begin("modular square root"); roots<2>(); roots<3>(); roots<5>(); roots<7>(); roots<17>(); roots<97>(); roots<998244353>(); roots<1000000007>(); roots<193>(); roots<257>(); roots<2147483647>(); roots<65537>(); }
