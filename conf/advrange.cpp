#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <optional>
#include <iostream>
#include <limits>
#include <climits>
#include <cassert>
#include <cstdint>
#include <functional>
#include <iterator>
#include <numeric>
#include "library/datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/static_rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/undo_union_find_component_sum.hpp"
#include "library/datastructure/union_find/union_find_lazy.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
namespace suisen { struct Aff { long long a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } }; inline std::string note_(const Aff& x) { return "(" + std::to_string(x.a) + "x+" + std::to_string(x.b) + ")"; } }
#include "conf.h"
using namespace cf; using namespace suisen;
static const i64 P = 1009; using V = std::vector<i64>; using VV = std::vector<V>;
static Aff aop(Aff f, Aff g) { return { f.a * g.a % P, (f.b * g.a + g.b) % P }; } static Aff ae() { return {}; } static Aff ra() { return { R(0, P - 1), R(0, P - 1) }; }
static i64 add_(i64 x, i64 y) { return x + y; } static i64 zero_() { return 0; } static i64 neg_(i64 x) { return -x; } static i64 mx_(i64 x, i64 y) { return std::max(x, y); } static i64 mxe_() { return -(1ll << 40); }
static i64 xor_(i64 x, i64 y) { return x ^ y; }
static int dim() { return R(0, 3) ? R(1, 9) : R(1, 20); }

template <class F> static i64 rect(const VV& a, int u, int d, int l, int r, i64 e, F f) { i64 s = e; for (int i = u; i < d; ++i) for (int j = l; j < r; ++j) s = f(s, a[i][j]); return s; }
template <i64(*O)(i64, i64), i64(*Z)()> static void st2(const char* nm) {
    int n = dim(), m = dim(); begin(nm, n, m); VV a(n, V(m, Z())); bool z = R(0, 2) == 0; if (!z) for (auto& v : a) for (auto& x : v) x = R(0, 50); op(a);
    SegmentTree2D<i64, O, Z> t; if (z) t = SegmentTree2D<i64, O, Z>(n, m); else t = SegmentTree2D<i64, O, Z>(a);
    for (int q = 0; q < 20; ++q) { int i = R(0, n - 1), j = R(0, m - 1); if (R(0, 1)) { i64 v = R(0, 50); op("set", i, j, v); t.set(i, j, v); a[i][j] = v; } EXPECT_EQ(t.get(i, j), a[i][j], i, j); int u = R(0, n), d = R(u, n), l = R(0, m), r = R(l, m); op("query", u, d, l, r); EXPECT_EQ(t(u, d, l, r), rect(a, u, d, l, r, Z(), O)); }
    EXPECT_EQ(t(0, n, 0, m), rect(a, 0, n, 0, m, Z(), O), "whole"); if (n < 6 && m < 6) for (int u = 0; u <= n; ++u) for (int d = u; d <= n; ++d) for (int l = 0; l <= m; ++l) for (int r = l; r <= m; ++r) EXPECT_EQ(t(u, d, l, r), rect(a, u, d, l, r, Z(), O), u, d, l, r);
}
SUITE(segment_tree_2d) { if (R(0, 1)) st2<add_, zero_>("SegmentTree2D sum"); else st2<mx_, mxe_>("SegmentTree2D max"); }
SUITE(fenwick_2d) {
    int n = dim(), m = dim(); begin("FenwickTree2D", n, m); FenwickTree2D<i64> t(n, m); VV a(n, V(m));
    for (int q = 0; q < 30; ++q) { int i = R(0, n - 1), j = R(0, m - 1); i64 v = R(-20, 20); auto p = t[{i, j}]; switch (int k = R(0, 9); k) {
        case 0: op("+=", i, j, v); p += v; a[i][j] += v; break; case 1: op("-=", i, j, v); p -= v; a[i][j] -= v; break; case 2: op("=", i, j, v); p = v; a[i][j] = v; break; case 3: op("*=", i, j, v); p *= v % 3; a[i][j] *= v % 3; break; case 4: op("++", i, j); ++p; ++a[i][j]; break; case 5: op("--", i, j); --p; --a[i][j]; break; case 6: if (v) { op("/=", i, j, v); p /= v; a[i][j] /= v; } break; case 7: if (v) { op("%=", i, j, v); p %= v; a[i][j] %= v; } break; default: op("add", i, j, v); t.add(i, j, v); a[i][j] += v; }
        EXPECT_EQ(i64(p), a[i][j]); int u = R(0, n), d = R(u, n), l = R(0, m), r = R(l, m); op("sum", u, d, l, r); EXPECT_EQ(t.sum(u, d, l, r), rect(a, u, d, l, r, 0, add_)); EXPECT_EQ(t(0, d, 0, r), rect(a, 0, d, 0, r, 0, add_)); }
    if (n < 6 && m < 6) for (int u = 0; u <= n; ++u) for (int d = u; d <= n; ++d) for (int l = 0; l <= m; ++l) for (int r = l; r <= m; ++r) EXPECT_EQ(t(u, d, l, r), rect(a, u, d, l, r, 0, add_), u, d, l, r);
}
using Pt = std::pair<int, int>;
static int crd() { int k = R(0, 9); return k == 0 ? (R(0, 1) ? 1000000000 : -1000000000) : k < 3 ? R(-100, 100) : R(-4, 4); }
static std::vector<Pt> pts() { std::vector<Pt> p(R(0, 12)); for (auto& q : p) q = { crd(), crd() }; if (p.size() && R(0, 1)) p.push_back(p[0]); return p; }
template <class F> static i64 psum(const std::map<Pt, i64>& a, int l, int r, int d, int u, i64 e, F f) { i64 s = e; for (auto& [p, v] : a) if (l <= p.first && p.first < r && d <= p.second && p.second < u) s = f(s, v); return s; }
static int qc(const std::vector<Pt>& p) { return p.size() && R(0, 2) ? (R(0, 1) ? p[R(0, p.size() - 1)].first : p[R(0, p.size() - 1)].second) + R(-1, 1) : crd(); }
template <i64(*O)(i64, i64), i64(*Z)()> static void st2s(const char* nm, bool mxq) {
    auto p = pts(); std::set<int> xs; for (auto& q : p) xs.insert(q.first); begin(nm, p); SegmentTree2DSparse<i64, O, Z> t(R(0, 1) ? (int)p.size() : (int)xs.size()); for (auto& [x, y] : p) t.add_point(x, y); t.build(); std::map<Pt, i64> a; for (auto& q : p) a[q] = Z();
    for (int q = 0; q < 20; ++q) {
        if (p.size()) { auto [x, y] = p[R(0, p.size() - 1)]; i64 v = R(0, 60); op("set", x, y, v); if (R(0, 1)) t.set(x, y, v); else t[{x, y}] = v; a[{x, y}] = v; EXPECT_EQ(t.get(x, y), v); if (R(0, 2) == 0) { op("+=", x, y); t[{x, y}] += 7; a[{x, y}] += 7; } EXPECT_EQ(t.get(x, y), (a[{x, y}])); }
        int l = qc(p), r = qc(p), d = qc(p), u = qc(p); if (l > r) std::swap(l, r); if (d > u) std::swap(d, u); op("query", l, r, d, u); EXPECT_EQ(t(l, r, d, u), psum(a, l, r, d, u, Z(), O)); EXPECT_EQ(t.prod(l, r, d, u), psum(a, l, r, d, u, Z(), O)); EXPECT_EQ(t.all_prod(), psum(a, INT_MIN, INT_MAX, INT_MIN, INT_MAX, Z(), O));
        if (mxq) { i64 c = R(0, 60); op("max_up", c); auto f = [&](i64 v) { return v <= c; }; int w = INT_MAX; for (auto& [pt, v] : a) if (l <= pt.first && pt.first < r && pt.second >= d && v > c) w = std::min(w, pt.second); EXPECT_EQ(t.max_up(l, r, d, f), w); int z = INT_MIN; for (auto& [pt, v] : a) if (l <= pt.first && pt.first < r && pt.second < u && v > c) z = std::max(z, pt.second + 1); EXPECT_EQ(t.min_down(l, r, u, f), z); }
    }
}
SUITE(segment_tree_2d_sparse) { if (R(0, 1)) st2s<add_, zero_>("SegmentTree2DSparse sum", false); else st2s<mx_, mxe_>("SegmentTree2DSparse max", true); }
SUITE(fenwick_2d_sparse) {
    auto p = pts(); begin("FenwickTree2DSparse", p); FenwickTree2DSparse<i64> t((int)p.size()); for (auto& [x, y] : p) t.add_point(x, y); t.build(); std::map<Pt, i64> a; for (auto& q : p) a[q] = 0;
    for (int q = 0; q < 20; ++q) { if (p.size()) { auto [x, y] = p[R(0, p.size() - 1)]; i64 v = R(-60, 60); switch (R(0, 2)) { case 0: op("add", x, y, v); t.add(x, y, v); a[{x, y}] += v; break; case 1: op("set", x, y, v); t.set(x, y, v); a[{x, y}] = v; break; default: op("apply", x, y); t.apply(x, y, [](i64 z) { return 3 * z % 101 + 1; }); a[{x, y}] = 3 * a[{x, y}] % 101 + 1; } EXPECT_EQ(t.get(x, y), (a[{x, y}])); }
        int l = qc(p), r = qc(p), d = qc(p), u = qc(p); if (l > r) std::swap(l, r); if (d > u) std::swap(d, u); op("query", l, r, d, u); EXPECT_EQ(t(l, r, d, u), psum(a, l, r, d, u, 0, add_)); EXPECT_EQ(t.sum(l, r, d, u), psum(a, l, r, d, u, 0, add_)); }
}
SUITE(compressed_1d) {
    std::vector<int> p(R(0, 12)); for (auto& x : p) x = crd(); begin("CompressedSegmentTree<1> / CompressedFenwickTree<1>", p); CompressedSegmentTree<Aff, aop, ae> t; CompressedSegmentTree<i64, xor_, zero_> tx; CompressedFenwickTree<i64, add_, zero_, neg_> f; CompressedFenwickTreePrefix<i64, mx_, mxe_> g; for (int x : p) { t.add_point(x); tx.add_point(x); f.add_point(x); g.add_point(x); } t.build(); tx.build(); f.build(); g.build();
    std::map<int, Aff> a; std::map<int, i64> b, c, h; for (int x : p) a[x] = {}, b[x] = 0, c[x] = mxe_(), h[x] = 0;
    for (int q = 0; q < 25; ++q) { if (p.size()) { int x = p[R(0, p.size() - 1)]; Aff v = ra(); i64 w = R(-50, 50); op("update", x, v, w); t.set(x, v); a[x] = v; f.apply(x, w); b[x] += w; g.apply(x, w); c[x] = std::max(c[x], w); if (R(0, 1)) { tx.set(x, w); h[x] = w; } else { tx.apply(x, w); h[x] ^= w; } EXPECT_EQ(t.get(x), v); EXPECT_EQ(tx.get(x), h[x]); }
        auto c1 = [&]() { return p.size() && R(0, 2) ? p[R(0, p.size() - 1)] + (int)R(-1, 1) : crd(); }; int l = c1(), r = c1(); if (l > r) std::swap(l, r); op("query", l, r); Aff e; i64 s = 0, mm = mxe_(), xx = 0; for (auto& [x, v] : a) if (l <= x && x < r) e = aop(e, v); for (auto& [x, v] : b) if (l <= x && x < r) s += v; for (auto& [x, v] : c) if (x < r) mm = std::max(mm, v); for (auto& [x, v] : h) if (l <= x && x < r) xx ^= v; EXPECT_EQ(t.query(l, r), e); EXPECT_EQ(tx.query(l, r), xx); EXPECT_EQ(f.query(l, r), s); EXPECT_EQ(g.prefix_query(r), mm); }
}
template <std::size_t K> static void ck(const char* nm) {
    using A = std::array<int, K>; using C = std::array<std::pair<int, int>, K>; std::vector<A> p(R(0, 9)); for (auto& x : p) for (auto& y : x) y = R(0, 2) ? R(0, 3) : crd(); std::vector<std::vector<int>> pr; for (auto& x : p) pr.emplace_back(x.begin(), x.end()); begin(nm, pr);
    CompressedSegmentTree<i64, add_, zero_, K> t; CompressedFenwickTree<i64, add_, zero_, neg_, K> f; CompressedFenwickTreePrefix<i64, mx_, mxe_, K> g; for (auto& x : p) { t.add_point(x); f.add_point(x); g.add_point(x); } t.build(); f.build(); g.build(); std::map<A, i64> a, b, c; for (auto& x : p) a[x] = 0, b[x] = 0, c[x] = mxe_();
    for (int q = 0; q < 20; ++q) { if (p.size()) { int k = R(0, p.size() - 1); auto x = p[k]; i64 w = R(-50, 50); if (R(0, 1)) { op("set", k, w); t.set(x, w); a[x] = w; } else { op("apply", k, w); t.apply(x, w); a[x] += w; } f.apply(x, w); b[x] += w; g.apply(x, w); c[x] = std::max(c[x], w); EXPECT_EQ(t.get(x), a[x], k); }
        C z; A hi; for (std::size_t i = 0; i < K; ++i) { int l = p.size() && R(0, 1) ? p[R(0, p.size() - 1)][i] + (int)R(0, 1) : (int)R(-1, 5), r = p.size() && R(0, 1) ? p[R(0, p.size() - 1)][i] + (int)R(0, 1) : (int)R(-1, 5); if (l > r) std::swap(l, r); z[i] = { l, r }; hi[i] = r; op(l, r); }
        i64 s = 0, s2 = 0, m = mxe_(); for (auto& [x, v] : a) { bool in = true, pre = true; for (std::size_t i = 0; i < K; ++i) { in &= z[i].first <= x[i] && x[i] < z[i].second; pre &= x[i] < hi[i]; } if (in) s += v, s2 += b[x]; if (pre) m = std::max(m, c[x]); } EXPECT_EQ(t.query(z), s, "segment tree"); EXPECT_EQ(f.query(z), s2, "fenwick"); EXPECT_EQ(g.prefix_query(hi), m, "prefix"); }
}
SUITE(compressed_kd) { if (R(0, 1)) ck<2>("Compressed*<K=2>"); else ck<3>("Compressed*<K=3>"); }
template <class T, bool mn> static void lichao(const char* nm) {
    std::vector<T> xs(R(0, 14)); for (auto& x : xs) x = R(0, 5) ? T(R(-12, 12)) : T(R(-1000000000, 1000000000)); begin(nm); { V d; for (T x : xs) d.push_back((i64)x); op(d); } LiChaoSegmentTree<T, mn> t(xs); struct L { T lo, hi, a, b; }; std::vector<L> ls;
    for (int q = 0; q < 25; ++q) { int k = R(0, 4); if (k < 3) { T a = T(R(0, 3) ? R(-9, 9) : R(-1000000, 1000000)), b = T(R(0, 3) ? R(-30, 30) : R(-1000000000, 1000000000)); if (k == 0) { op("add_line", (i64)a, (i64)b); t.add_line(a, b); ls.push_back({ std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), a, b }); } else { T l = xs.size() && R(0, 1) ? xs[R(0, xs.size() - 1)] : T(R(-15, 15)), r = xs.size() && R(0, 1) ? xs[R(0, xs.size() - 1)] : T(R(-15, 15)); if (l > r) std::swap(l, r); op("add_segment", (i64)l, (i64)r, (i64)a, (i64)b); t.add_segment(l, r, a, b); ls.push_back({ l, r, a, b }); } }
        for (T x : xs) { std::optional<T> w; for (auto& z : ls) if (z.lo <= x && x <= z.hi) { T v = z.a * x + z.b; if (!w || (mn ? v < *w : v > *w)) w = v; } auto got = R(0, 1) ? t(x) : t.query(x); EXPECT_EQ(got.has_value(), w.has_value(), "at", (i64)x); if (w) EXPECT(*got == *w, "at", (i64)x, "got", (i64)*got, "want", (i64)*w); } }
}
SUITE(li_chao) { switch (R(0, 2)) { case 0: lichao<i64, true>("LiChao min"); break; case 1: lichao<i64, false>("LiChao max"); break; default: lichao<double, true>("LiChao double"); } }
static i64 linit(i64 l, i64 r) { return (r * (r - 1) - l * (l - 1)) / 2; }
SUITE(sparse_segment_tree) {
    i64 n = R(0, 2) ? R(0, 20) : R(0, 1) ? 1000000000000ll : (1ll << 40) + R(-2, 2); begin("SparseSegmentTree", n); SparseSegmentTree<i64, Aff, aop, ae> t(n); SparseSegmentTree<i64, i64, add_, zero_, linit> s(std::min<i64>(n, 1000000000)), other(50); other.set(7, 99); std::map<i64, Aff> a; std::map<i64, i64> b; i64 ns = std::min<i64>(n, 1000000000);
    for (int q = 0; q < 25; ++q) { if (n) { i64 i = R(0, 2) || a.empty() ? R(0, n - 1) : a.begin()->first; Aff v = ra(); op("set", i, v); if (R(0, 1)) { t.set(i, v); a[i] = v; } else { t.apply_fun(i, [&](Aff o) { return aop(o, v); }); a[i] = aop(a[i], v); } EXPECT_EQ(t.get(i), a[i]); i64 j = i % ns; s.set(j, v.a); b[j] = v.a; i64 k = R(0, ns - 1); EXPECT_EQ(s.get(k), b.count(k) ? b[k] : k, k); k = R(0, n - 1); EXPECT_EQ(t.get(k), a.count(k) ? a[k] : Aff{}, k); }
        auto c = [&](i64 m) { return a.size() && R(0, 1) ? std::min(m, a.lower_bound(R(0, m)) == a.end() ? m : a.lower_bound(R(0, m)) == a.end() ? m : a.begin()->first + R(0, 1)) : R(0, m); }; i64 l = c(n), r = c(n); if (l > r) std::swap(l, r); op("prod", l, r); Aff e; for (auto& [i, v] : a) if (l <= i && i < r) e = aop(e, v); EXPECT_EQ(t(l, r), e); EXPECT_EQ(t.prod(l, r), e); e = {}; for (auto& [i, v] : a) e = aop(e, v); EXPECT_EQ(t.prod_all(), e);
        l = R(0, ns), r = R(l, ns); i64 w = linit(l, r); for (auto& [i, v] : b) if (l <= i && i < r) w += v - i; EXPECT_EQ(s(l, r), w, "sum", l, r); }
    EXPECT_EQ(other.get(7), 99); EXPECT_EQ(other(0, 50), 1225 + 92);
}
struct Act { i64 a = 1, b = 0; bool operator==(const Act& o) const { return a == o.a && b == o.b; } }; static i64 amod(i64 x) { return ((x % P) + P) % P; }
static i64 smap(Act f, i64 s, i64 l, i64 r) { return amod(f.a * s + f.b * ((r - l) % P)); } static Act acomp(Act f, Act g) { return { f.a * g.a % P, amod(f.a * g.b + f.b) }; } static Act aid() { return {}; } static i64 addm(i64 x, i64 y) { return (x + y) % P; } static i64 minit(i64 l, i64 r) { return (r - l) % P * 3 % P; }
SUITE(sparse_lazy_segment_tree) {
    bool big = R(0, 3) == 0; i64 n = big ? 1000000000000ll : R(0, 16); begin("SparseLazySegmentTree", n); using T = SparseLazySegmentTree<i64, i64, addm, zero_, Act, smap, acomp, aid, minit>; T t(n); struct U { i64 l, r; Act f; bool set; }; std::vector<U> us; auto val = [&](i64 i) { i64 v = 3; for (auto& u : us) if (u.l <= i && i < u.r) v = u.set ? u.f.b : amod(u.f.a * v + u.f.b); return v; };
    for (int q = 0; q < 18; ++q) { i64 l = R(0, n), r = R(l, n); Act f{ R(0, P - 1), R(0, P - 1) }; switch (R(0, 4)) { case 0: op("apply", l, r, f.a, f.b); t.apply(l, r, f); us.push_back({ l, r, f, false }); break; case 1: if (n) { l = R(0, n - 1); op("set", l, f.b); t.set(l, f.b); us.push_back({ l, l + 1, f, true }); } break; case 2: if (n) { l = R(0, n - 1); op("apply1", l, f.a, f.b); t.apply(l, f); us.push_back({ l, l + 1, f, false }); } break; case 3: op("all", f.a, f.b); t.apply_all(f); us.push_back({ 0, n, f, false }); break; default: ; }
        if (n) { i64 i = R(0, n - 1); EXPECT_EQ(t.get(i), val(i), "get", i); }
        std::set<i64> cut{ 0, n }; l = R(0, n), r = R(l, n); cut.insert(l); cut.insert(r); for (auto& u : us) cut.insert(u.l), cut.insert(u.r); i64 s = 0, all = 0; for (auto it = cut.begin(); std::next(it) != cut.end(); ++it) { i64 x = *it, y = *std::next(it), w = val(x) * ((y - x) % P) % P; all = addm(all, w); if (l <= x && y <= r) s = addm(s, w); } op("prod", l, r); EXPECT_EQ(t(l, r), s); EXPECT_EQ(t.prod(l, r), s); EXPECT_EQ(t.prod_all(), all); }
}
static bool lowa(Aff f) { return f.b % 7 != 3; }
SUITE(persistent_segment_tree) {
    using T = PersistentSegmentTree<i64, mx_, mxe_>; using U = PersistentSegmentTree<Aff, aop, ae>; int n = R(0, 12); T::init_pool(2000); U::init_pool(2000); begin("PersistentSegmentTree", n); std::vector<Aff> a(n); V b(n); for (auto& x : a) x = ra(); for (auto& x : b) x = R(0, 40); op(b); std::vector<U> us{ U(a) }; std::vector<T> ts{ T(b) }; std::vector<std::vector<Aff>> ua{ a }; VV tb{ b }; if (R(0, 1)) { us.push_back(U(n)); ua.push_back(std::vector<Aff>(n)); ts.push_back(T(n)); tb.push_back(V(n, mxe_())); }
    for (int q = 0; q < 20; ++q) { int k = R(0, us.size() - 1); if (n) { int i = R(0, n - 1); Aff v = ra(); i64 w = R(0, 40); op("version", k, "update", i, v, w); auto na = ua[k]; auto nb = tb[k]; if (R(0, 1)) { us.push_back(us[k].set(i, v)); na[i] = v; ts.push_back(ts[k].set(i, w)); nb[i] = w; } else { us.push_back(us[k].apply(i, [&](Aff o) { return aop(o, v); })); na[i] = aop(na[i], v); ts.push_back(ts[k].apply(i, [&](i64 o) { return o / 2 + w; })); nb[i] = nb[i] / 2 + w; } ua.push_back(na); tb.push_back(nb); }
        k = R(0, us.size() - 1); int l = R(0, n), r = R(l, n); op("version", k, "query", l, r); Aff e; for (int i = l; i < r; ++i) e = aop(e, ua[k][i]); EXPECT_EQ(us[k](l, r), e); EXPECT_EQ(us[k].prod(l, r), e); e = {}; for (auto& x : ua[k]) e = aop(e, x); EXPECT_EQ(us[k].prod_all(), e); EXPECT_EQ(us[k].dump(), ua[k], "dump"); EXPECT_EQ(ts[k].dump(), tb[k], "dump"); for (int i = 0; i < n; ++i) { EXPECT_EQ(us[k][i], ua[k][i]); EXPECT_EQ(ts[k].get(i), tb[k][i]); }
        i64 c = R(0, 50); auto f = [&](i64 v) { return v <= c; }; int w = l; while (w < n && tb[k][w] <= c) ++w; EXPECT_EQ(ts[k].max_right(l, f), w, "max_right", l, c); w = r; while (w > 0 && tb[k][w - 1] <= c) --w; EXPECT_EQ(ts[k].min_left(r, f), w, "min_left", r, c); }
}
static bool le20(i64 v) { return v <= 20; }
SUITE(persistent_pred) {
    using T = PersistentSegmentTree<i64, mx_, mxe_>; int n = R(1, 10); T::init_pool(200); V b(n); for (auto& x : b) x = R(0, 40); begin("PersistentSegmentTree::max_right<pred>", b); T t(b); int l = R(0, n), w = l; while (w < n && b[w] <= 20) ++w; EXPECT_EQ(t.max_right<le20>(l), w, l); w = l; while (w > 0 && b[w - 1] <= 20) --w; EXPECT_EQ(t.min_left<le20>(l), w, l);
}
struct Sm { i64 s = 0, n = 0; bool operator==(const Sm& o) const { return s == o.s && n == o.n; } }; static Sm sop(Sm x, Sm y) { return { (x.s + y.s) % P, x.n + y.n }; } static Sm se() { return {}; } static Sm sma(Act f, Sm x) { return { amod(f.a * x.s + f.b * x.n), x.n }; } static bool n3(Sm x) { return x.n <= 3; }
SUITE(persistent_lazy_segment_tree) {
    using T = PersistentLazySegmentTree<Sm, sop, se, Act, sma, acomp, aid>; int n = R(0, 10); T::init_pool(6000); begin("PersistentLazySegmentTree", n); V a(n); for (auto& x : a) x = R(0, P - 1); op(a); std::vector<Sm> d; for (i64 x : a) d.push_back({ x, 1 }); std::vector<T> ts{ T(d) }; VV as{ a };
    for (int q = 0; q < 18; ++q) { int k = R(0, ts.size() - 1), l = R(0, n), r = R(l, n); Act f{ R(0, P - 1), R(0, P - 1) }; auto b = as[k]; switch (R(0, 3)) { case 0: op("version", k, "apply", l, r, f.a, f.b); ts.push_back(ts[k].apply(l, r, f)); for (int i = l; i < r; ++i) b[i] = amod(f.a * b[i] + f.b); as.push_back(b); break; case 1: op("version", k, "apply_all", f.a, f.b); ts.push_back(ts[k].apply_all(f)); for (auto& x : b) x = amod(f.a * x + f.b); as.push_back(b); break; case 2: if (n) { int i = R(0, n - 1); op("version", k, "set", i, f.b); ts.push_back(ts[k].set(i, { f.b, 1 })); b[i] = f.b; as.push_back(b); } break; default: if (n) { int i = R(0, n - 1); op("version", k, "apply1", i); ts.push_back(ts[k].apply(i, [](Sm x) { return Sm{ (x.s * 2 + 1) % P, 1 }; })); b[i] = (b[i] * 2 + 1) % P; as.push_back(b); } }
        k = R(0, ts.size() - 1); l = R(0, n), r = R(l, n); op("version", k, "query", l, r); i64 s = 0; for (int i = l; i < r; ++i) s += as[k][i]; EXPECT_EQ(i64(ts[k](l, r).s), s % P); EXPECT_EQ(i64(ts[k].prod(l, r).n), (i64)(r - l)); s = 0; for (i64 x : as[k]) s += x; EXPECT_EQ(i64(ts[k].prod_all().s), s % P); for (int i = 0; i < n; ++i) { EXPECT_EQ(i64(ts[k][i].s), as[k][i], "get", i); } auto dd = ts[k].dump(); EXPECT_EQ((int)dd.size(), n, "dump size"); for (int i = 0; i < n; ++i) EXPECT_EQ(dd[i].s, as[k][i], "dump", i);
        // monotone predicate on the running sum of non-negative residues kept below P
        i64 c = R(0, 6); auto pr = [&](Sm x) { return x.n <= c; }; EXPECT_EQ(ts[k].max_right(l, pr), (int)std::min<i64>(n, l + c), "max_right", l, c); EXPECT_EQ(ts[k].min_left(r, pr), (int)std::max<i64>(0, r - c), "min_left", r, c); EXPECT_EQ(ts[k].template max_right<n3>(l), int(std::min(n, l + 3))); EXPECT_EQ(ts[k].template min_left<n3>(r), int(std::max(0, r - 3))); }
}
struct Mx { i64 v = mxe_(); bool operator==(const Mx& o) const { return v == o.v; } }; static Mx mop(Mx x, Mx y) { return { std::max(x.v, y.v) }; } static Mx mee() { return {}; } static Mx mma(i64 f, Mx x) { return { x.v + f }; }
SUITE(persistent_lazy_search) {
    using T = PersistentLazySegmentTree<Mx, mop, mee, i64, mma, add_, zero_>; int n = R(1, 12); T::init_pool(6000); V a(n); for (auto& x : a) x = R(0, 30); begin("PersistentLazySegmentTree max", a); std::vector<Mx> d; for (i64 x : a) d.push_back({ x }); T t(d); for (int q = 0; q < 10; ++q) { int l = R(0, n), r = R(l, n); i64 f = R(-15, 15); op("add", l, r, f); t = t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] += f; l = R(0, n); i64 c = R(-10, 40); auto pr = [&](Mx x) { return x.v <= c; }; int w = l; while (w < n && a[w] <= c) ++w; op("search", l, c); EXPECT_EQ(t.max_right(l, pr), w); w = l; while (w > 0 && a[w - 1] <= c) --w; EXPECT_EQ(t.min_left(l, pr), w); }
}
SUITE(persistent_dual) {
    int n = R(0, 12); begin("PersistentDualSegmentTree", n); using T = PersistentDualSegmentTree<Aff, aop, ae>; using C = PersistentCommutativeDualSegmentTree<i64, add_, zero_>; T::init_pool(6000); C::init_pool(6000); std::vector<T> ts{ T(n) }; std::vector<C> cs{ C(n) }; std::vector<std::vector<Aff>> ta{ std::vector<Aff>(n) }; VV ca{ V(n) };
    for (int q = 0; q < 20; ++q) { int k = R(0, ts.size() - 1), l = R(0, n), r = R(l, n); Aff f = ra(); i64 w = R(-50, 50); auto b = ta[k]; auto c = ca[k]; if (R(0, 4)) { op("version", k, "apply", l, r, f, w); ts.push_back(ts[k].apply(l, r, f)); cs.push_back(cs[k].apply(l, r, w)); } else { l = 0, r = n; op("version", k, "apply_all", f, w); ts.push_back(ts[k].apply_all(f)); cs.push_back(cs[k].apply_all(w)); } for (int i = l; i < r; ++i) b[i] = aop(f, b[i]), c[i] += w; ta.push_back(b); ca.push_back(c);
        k = R(0, ts.size() - 1); for (int i = 0; i < n; ++i) { EXPECT_EQ(ts[k].get(i), ta[k][i], "version", k, i); EXPECT_EQ(ts[k][i], ta[k][i]); EXPECT_EQ(cs[k].get(i), ca[k][i], "version", k, i); EXPECT_EQ(cs[k][i], ca[k][i]); } }
}
SUITE(persistent_fenwick) {
    int n = R(0, 3) ? R(1, 20) : R(0, 3); begin("PersistentFenwickTree", n); using T = PersistentFenwickTree<i64>; T::init_pool(4000); V a(n); bool init = R(0, 1); if (init) for (auto& x : a) x = R(-30, 30); op(a); std::vector<T> ts{ init ? T(a) : T(n) }; VV as{ a };
    for (int q = 0; q < 30; ++q) { int k = R(0, ts.size() - 1); if (n) { int i = R(0, n - 1); i64 v = R(-30, 30); op("version", k, "add", i, v); ts.push_back(ts[k].add(i, v)); auto b = as[k]; b[i] += v; as.push_back(b); } k = R(0, ts.size() - 1); int l = R(0, n), r = R(l, n); op("version", k, "sum", l, r); i64 s = 0; for (int i = l; i < r; ++i) s += as[k][i]; EXPECT_EQ(ts[k].sum(l, r), s); }
}
SUITE(rectangle_add_rectangle_sum) {
    struct A { int l, r, d, u; i64 w; }; std::vector<A> as(R(0, 6)); auto rg = [](int& l, int& r) { int b = R(0, 9) ? 12 : 100000; l = R(-b, b), r = R(-b, b); if (l > r) std::swap(l, r); }; begin("RectangleAddRectangleSum"); for (auto& a : as) { rg(a.l, a.r); rg(a.d, a.u); a.w = R(-9, 9); op("rect", a.l, a.r, a.d, a.u, a.w); } RectangleAddRectangleSum<i64> t(2 * as.size()); for (auto& a : as) t.register_add_query_rectangle(a.l, a.r, a.d, a.u); t.build(); std::vector<AddQuery<i64>> aq; std::vector<SumQuery> sq; V want; std::vector<A> done; auto brute = [&](const std::vector<A>& v, int l, int r, int d, int u) { i64 s = 0; for (auto& a : v) { i64 x = std::max(0, std::min(r, a.r) - std::max(l, a.l)), y = std::max(0, std::min(u, a.u) - std::max(d, a.d)); s += x * y * a.w; } return s; };
    for (auto& a : as) { t.add(a.l, a.r, a.d, a.u, a.w); done.push_back(a); aq.emplace_back(a.l, a.r, a.d, a.u, a.w); for (int q = 0; q < 3; ++q) { int l, r, d, u; rg(l, r); rg(d, u); op("sum", l, r, d, u); EXPECT_EQ(t.sum(l, r, d, u), brute(done, l, r, d, u)); sq.emplace_back(l, r, d, u); } } if (as.empty()) { sq.emplace_back(0, 5, 0, 5); } for (auto& s : sq) want.push_back(brute(as, s.l, s.r, s.d, s.u)); EXPECT_EQ(static_rectangle_add_rectangle_sum(aq, sq), want, "offline");
}
static void vmerge(V& a, V b) { for (i64 x : b) a.push_back(x); } static void smerge(i64& a, const i64& b) { a += b * 1000; } static i64 umod = 0;
struct St { V h{ 0 }; }; static void smg(St& a, const St& b) { a.h.push_back(a.h.back() + b.h.back()); } static void sun(St& a) { a.h.pop_back(); }
SUITE(uf_component_sum) {
    int n = R(1, 12); begin("UnionFindComponentSum", n); V init(n); std::iota(init.begin(), init.end(), 0); VV iv; for (i64 x : init) iv.push_back({ x }); UnionFindComponentSum<V, vmerge> u(iv); std::vector<int> id(n); std::iota(id.begin(), id.end(), 0); std::vector<St> s0(n); for (int i = 0; i < n; ++i) s0[i].h = { 1 + i * i }; UndoUnionFindComponentSum<St, smg, sun> z(s0); std::vector<std::vector<int>> zs{ id };
    for (int q = 0; q < 25; ++q) { int x = R(0, n - 1), y = R(0, n - 1); if (R(0, 2)) { op("merge", x, y); bool df = id[x] != id[y]; EXPECT_EQ(u.merge(x, y), df); int p = id[x], o = id[y]; for (auto& i : id) if (i == o) i = p; } V w; for (int i = 0; i < n; ++i) if (id[i] == id[x]) w.push_back(i); auto g = u.sum(x); std::sort(g.begin(), g.end()); EXPECT_EQ(g, w, "component of", x);
        auto c = zs.back(); int k = R(0, 9); if (k < 6) { op("z.merge", x, y); bool df = c[x] != c[y]; EXPECT_EQ(z.merge(x, y), df); if (df) { int p = c[x], o = c[y]; for (auto& i : c) if (i == o) i = p; zs.push_back(c); } } else if (k < 8) { if (zs.size() > 1) { op("undo"); z.undo(); zs.pop_back(); } } else if (k == 8) { op("rollback"); z.rollback(); zs.resize(1); } else { op("snapshot"); z.snapshot(); zs = { zs.back() }; } auto& cc = zs.back(); i64 sm = 0; int cnt = 0; for (int i = 0; i < n; ++i) if (cc[i] == cc[x]) sm += 1 + i * i, ++cnt; EXPECT_EQ(z.sum(x).h.back(), sm, "undo sum", x); EXPECT_EQ(z.size(x), cnt); EXPECT_EQ(z.same(x, y), cc[x] == cc[y]); }
}
static void lm(Aff& a, Aff b) { a.a = addm(a.a, b.a); } static i64 inv_(i64 a) { i64 r = 1, e = P - 2; a = amod(a); for (; e; e >>= 1, a = a * a % P) if (e & 1) r = r * a % P; return r; } static void lmg(i64& s, i64 t) { s = addm(s, t); } static i64 lneg(i64 x) { return amod(-x); } static void lmap(Act f, i64& s, int n) { s = amod(f.a * s + f.b * n); } static Act linv(Act f) { i64 i = inv_(f.a); return { i, amod(-i * f.b) }; }
SUITE(uf_lazy) {
    using T = UnionFindLazy<i64, lmg, lneg, Act, lmap, acomp, aid, linv>; int n = R(1, 12); V a(n); for (auto& x : a) x = R(0, P - 1); begin("UnionFindLazy", a); T t(a); std::vector<int> id(n); std::iota(id.begin(), id.end(), 0);
    for (int q = 0; q < 25; ++q) { int x = R(0, n - 1), y = R(0, n - 1); Act f{ R(1, P - 1), R(0, P - 1) }; switch (R(0, 4)) { case 0: { op("merge", x, y); bool df = id[x] != id[y]; EXPECT_EQ(t.merge(x, y), df); int p = id[x], o = id[y]; for (auto& i : id) if (i == o) i = p; break; } case 1: op("apply_component", x, f.a, f.b); t.apply_component(x, f); for (int i = 0; i < n; ++i) if (id[i] == id[x]) a[i] = amod(f.a * a[i] + f.b); break; case 2: op("apply_point", x, f.a, f.b); t.apply_point(x, f); a[x] = amod(f.a * a[x] + f.b); break; case 3: op("set_point", x, f.b); t.set_point(x, f.b); a[x] = f.b; break; default: op("propagate", x); t.propagate(x); for (int i = 0; i < n; ++i) if (id[i] == id[x]) EXPECT_EQ(t.raw_value(i), a[i], "raw", i); }
        for (int i = 0; i < n; ++i) EXPECT_EQ(t.get_point(i), a[i], "point", i); i64 s = 0; for (int i = 0; i < n; ++i) if (id[i] == id[y]) s += a[i]; EXPECT_EQ(t.get_component(y), s % P, "component", y); }
}
SUITE(persistent_uf) {
    int n = R(1, 40); PersistentUnionFind::init_pool(3000); begin("PersistentUnionFind", n); std::vector<PersistentUnionFind> us{ PersistentUnionFind(n) }; std::vector<int> id0(n); std::iota(id0.begin(), id0.end(), 0); std::vector<std::vector<int>> ids{ id0 };
    for (int q = 0; q < 60; ++q) { int k = R(0, 2) ? us.size() - 1 : R(0, us.size() - 1); int x = R(0, n - 1), y = R(0, n - 1); op("version", k, "merge", x, y); auto [nu, df] = us[k].merge(x, y); auto c = ids[k]; EXPECT_EQ(df, c[x] != c[y]); int p = c[x], o = c[y]; for (auto& i : c) if (i == o) i = p; us.push_back(nu); ids.push_back(c);
        k = R(0, us.size() - 1); auto& z = ids[k]; x = R(0, n - 1); op("version", k, "query", x); int cnt = 0; for (int i = 0; i < n; ++i) { cnt += z[i] == z[x]; EXPECT_EQ(us[k].same(i, x), z[i] == z[x], "same", i, x); } EXPECT_EQ(us[k].size(x), cnt); EXPECT_EQ(us[k].root(x), us[k][x]); EXPECT(z[us[k].root(x)] == z[x]); if (R(0, 9) == 0) { std::map<int, std::vector<int>> m; for (int i = 0; i < n; ++i) m[z[i]].push_back(i); std::set<std::vector<int>> w, g; for (auto& [_, v] : m) w.insert(v); for (auto& v : us[k].groups()) g.insert(v); EXPECT(w == g, "groups"); } }
}
SUITE(beats) {
    int n = R(0, 3) ? R(1, 10) : R(1, 40); V a(n); i64 M = R(0, 1) ? 6 : 1000000; for (auto& x : a) x = R(-M, M); begin("RangeChMinMaxAddRangeSum", a); RangeChMinMaxAddRangeSum<i64> t(a);
    for (int q = 0; q < 40; ++q) { int l = R(0, n), r = R(l, n); i64 v = R(-M, M); switch (R(0, 3)) { case 0: op("chmin", l, r, v); t.chmin(l, r, v); for (int i = l; i < r; ++i) a[i] = std::min(a[i], v); break; case 1: op("chmax", l, r, v); t.chmax(l, r, v); for (int i = l; i < r; ++i) a[i] = std::max(a[i], v); break; case 2: op("add", l, r, v); t.add(l, r, v); for (int i = l; i < r; ++i) a[i] += v; break; default: if (R(0, 3) == 0) { op("update", l, r, v); t.update(l, r, v); for (int i = l; i < r; ++i) a[i] = v; } }
        l = R(0, n), r = R(l, n); op("query", l, r); i64 s = 0; for (int i = l; i < r; ++i) s += a[i]; EXPECT_EQ(t.sum(l, r), s); if (l < r) { auto b = a.begin(); i64 mn = *std::min_element(b + l, b + r), mx = *std::max_element(b + l, b + r); EXPECT_EQ(t.min(l, r), mn); EXPECT_EQ(t.max(l, r), mx); auto d = t.prod(l, r); EXPECT_EQ(d.get_min_num(), (i64)std::count(b + l, b + r, mn)); EXPECT_EQ(d.get_max_num(), (i64)std::count(b + l, b + r, mx)); std::set<i64> z(b + l, b + r); if (z.size() > 1) { EXPECT_EQ(d.get_second_min(), *std::next(z.begin()), "second min"); EXPECT_EQ(d.get_second_max(), *std::prev(std::prev(z.end())), "second max"); } }
        i64 c = R(-M, 2 * M); auto pr = [&](auto x) { return x.get_max() <= c; }; int w = l; while (w < n && a[w] <= c) ++w; EXPECT_EQ(t.max_right(l, pr), w, "max_right", l, c); w = r; while (w > 0 && a[w - 1] <= c) --w; EXPECT_EQ(t.min_left(r, pr), w, "min_left", r, c); }
}
