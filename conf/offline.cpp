// offline algorithms, Horn formulas, set families and static range queries against brute force
#include <bits/stdc++.h>
#include "library/algorithm/mo.hpp"
#include "library/algorithm/horn_sat.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/maximum_square.hpp"
#include "library/algorithm/offline_dynamic_connectivity.hpp"
#include "library/algorithm/offline_dynamic_connectivity_component_sum.hpp"
#include "library/algorithm/dynamic_convex_hull_offline.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_mode_query.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
#include "library/datastructure/ZDD.hpp"
#include "conf.h"
using namespace cf; using namespace suisen;
using V = std::vector<int>; using PI = std::pair<int, int>;
SUITE(mo) {
    for (int it = 0; it < 30; ++it) {
        int n = R(0, R(0, 4) ? 8 : 40), q = R(0, 3) ? R(0, 30) : 1; V a(n); for (auto& x : a) x = R(0, 5);
        std::vector<PI> qs; for (int i = 0; i < q; ++i) { int l = R(0, n), r = R(l, n); qs.emplace_back(l, r); }
        begin("mo", n, qs, "a =", a);
        Mo mo(n, qs); std::deque<int> d; int wl = 0, wr = 0;
        for (int rep = 0; rep < 2; ++rep) {
            d.clear(); wl = wr = 0;
            auto res = mo.solve([&] { u64 h = 17; for (int x : d) h = h * 31 + a[x]; return std::make_pair(PI(wl, wr), h); },
                [&](int i) { EXPECT(wl - 1 == i && i >= 0 && wl <= wr && i < n && mo.get_left() == i, "add_l", i, wl, wr); wl = i; d.push_front(i); },
                [&](int i) { EXPECT(wl == i && wl < wr && d.front() == i && mo.get_left() == i, "del_l", i, wl, wr); ++wl; d.pop_front(); },
                [&](int i) { EXPECT(wr == i && i < n && wl <= wr && mo.get_right() == i, "add_r", i, wl, wr); ++wr; d.push_back(i); },
                [&](int i) { EXPECT(wr - 1 == i && wl < wr && d.back() == i && mo.get_right() == i, "del_r", i, wl, wr); --wr; d.pop_back(); });
            EXPECT_EQ(int(res.size()), q, "one answer per query");
            for (int i = 0; i < q; ++i) { u64 h = 17; for (int k = qs[i].first; k < qs[i].second; ++k) h = h * 31 + a[k]; EXPECT(res[i].first == qs[i] && res[i].second == h, "answer", i); }
            V cnt(6); int distinct = 0;
            auto r2 = mo.solve([&] { return distinct; }, [&](int i) { distinct += cnt[a[i]]++ == 0; }, [&](int i) { distinct -= --cnt[a[i]] == 0; });
            for (int i = 0; i < q; ++i) EXPECT_EQ(r2[i], int(std::set<int>(a.begin() + qs[i].first, a.begin() + qs[i].second).size()), "distinct values, query", i);
        }
    }
}
SUITE(horn) {
    for (int it = 0; it < 60; ++it) {
        int n = R(1, 6), m = R(0, 10); HornSAT s(n); struct C { V l; int r; bool v; }; std::vector<C> cs;
        begin("horn sat n =", n);
        for (int j = 0; j < m; ++j) {
            C c; int k = R(0, 3); for (int i = 0; i < k; ++i) c.l.push_back(R(0, n - 1)); c.r = R(0, n - 1); c.v = R(0, 2) > 0;
            cs.push_back(c); op("clause", c.l, "->", c.r, "=", c.v); if (c.l.empty() && R(0, 1)) s.add_clause(c.r, c.v); else s.add_clause(c.l, c.r, c.v);
            if (R(0, 2) && j + 1 < m) continue;
            auto sat = [&](unsigned x) { for (auto& d : cs) { bool p = true; for (int i : d.l) p = p && (x >> i & 1); if (p && bool(x >> d.r & 1) != d.v) return false; } return true; };
            bool any = false; unsigned least = (1u << n) - 1; for (unsigned x = 0; x < 1u << n; ++x) if (sat(x)) any = true, least &= x;
            bool got = s.satisfiable(); EXPECT_EQ(got, any, "satisfiable");
            if (got) { auto a = s.answer(); unsigned x = 0; for (int i = 0; i < n; ++i) x |= unsigned(a[i]) << i; EXPECT(sat(x), "answer does not satisfy the clauses", x); EXPECT_EQ(x, least, "the least model"); }
        }
    }
}
SUITE(rect) {
    for (int it = 0; it < 20; ++it) {
        int n = R(0, 6), m = R(1, 6), dens = R(1, 5); std::vector<V> g(n, V(m)); for (auto& r : g) for (auto& x : r) x = R(0, 5) < dens; begin("grid", g);
        auto full = [&](int u, int d, int l, int r) { if (u < 0 || l < 0 || d > n || r > m) return false; for (int i = u; i < d; ++i) for (int j = l; j < r; ++j) if (!g[i][j]) return false; return true; };
        std::set<std::array<int, 4>> rep;
        maximal_rectangles(g, [&](int u, int d, int l, int r) { EXPECT(0 <= u && u <= d && d <= n && 0 <= l && l < r && r <= m && full(u, d, l, r), "reported rectangle", u, d, l, r); rep.insert({u, d, l, r}); });
        int best = 0, sq = 0;
        for (int u = 0; u < n; ++u) for (int d = u + 1; d <= n; ++d) for (int l = 0; l < m; ++l) for (int r = l + 1; r <= m; ++r) if (full(u, d, l, r)) {
            best = std::max(best, (d - u) * (r - l)); if (d - u == r - l) sq = std::max(sq, d - u);
            if (!full(u - 1, d, l, r) && !full(u, d + 1, l, r) && !full(u, d, l - 1, r) && !full(u, d, l, r + 1)) EXPECT(rep.count({u, d, l, r}), "maximal rectangle not reported", u, d, l, r);
        }
        auto [ar, t] = maximum_rectngle(g); EXPECT_EQ(ar, best, "maximum_rectngle"); if (ar) { auto [u, d, l, r] = t; EXPECT(full(u, d, l, r) && (d - u) * (r - l) == ar, "the rectangle", u, d, l, r); }
        auto [as, ts] = maximum_square(g); EXPECT_EQ(as, sq * sq, "maximum_square"); if (as) { auto [u, d, l, r] = ts; EXPECT(full(u, d, l, r) && d - u == sq && r - l == sq, "the square", u, d, l, r); }
        int k = R(0, 8); std::vector<i64> h(k); for (auto& x : h) x = R(0, 5); begin("hist", h); std::set<std::array<i64, 3>> rs;
        maximal_rectangles_hist(h, [&](int l, int r, i64 x) { EXPECT(0 <= l && l < r && r <= k, "hist range", l, r); for (int i = l; i < r; ++i) EXPECT(h[i] >= x, "hist rectangle", l, r, x); rs.insert({l, r, x}); });
        for (int l = 0; l < k; ++l) for (int r = l + 1; r <= k; ++r) { i64 x = *std::min_element(h.begin() + l, h.begin() + r); if (x && (l == 0 || h[l - 1] < x) && (r == k || h[r] < x)) EXPECT(rs.count({l, r, x}), "maximal rectangle of the histogram not reported", l, r, x); }
    }
}
struct Sum { i64 v = 0; std::vector<i64> st; };
static void md(Sum& a, const Sum& b) { a.st.push_back(b.v); a.v += b.v; }
static void ud(Sum& a) { a.v -= a.st.back(); a.st.pop_back(); }
static i64 gv(const Sum& a) { return a.v; }
SUITE(connectivity) {
    for (int it = 0; it < 15; ++it) {
        int n = R(1, 7), k = R(0, 40); OfflineDynamicConnectivity o(n); OfflineDynamicConnectivityComponentSum c; std::vector<Sum> init(n); for (auto& x : init) x.v = R(-9, 9);
        std::multiset<PI> es; std::vector<bool> ex; std::vector<std::variant<bool, i64>> ex2; begin("connectivity", n);
        auto comp = [&](int u) { V seen(n); V s{u}; seen[u] = 1; while (s.size()) { int x = s.back(); s.pop_back(); for (auto [p, q] : es) for (int t = 0; t < 2; ++t, std::swap(p, q)) if (p == x && !seen[q]) seen[q] = 1, s.push_back(q); } return seen; };
        for (int i = 0; i < k; ++i) {
            int t = R(0, 3), u = R(0, n - 1), v = R(0, n - 1);
            if (t == 0) { op("add", u, v); o.add_query(u, v); c.add_query(u, v); es.insert(std::minmax(u, v)); }
            else if (t == 1) { if (es.empty()) continue; auto p = std::next(es.begin(), R(0, int(es.size()) - 1)); std::tie(u, v) = *p; es.erase(p); if (R(0, 1)) std::swap(u, v); op("del", u, v); o.del_query(u, v); c.del_query(u, v); }
            else if (t == 2) { op("same", u, v); o.connectivity_query(u, v); c.connectivity_query(u, v); bool b = comp(u)[v]; ex.push_back(b); ex2.emplace_back(std::in_place_index<0>, b); }
            else { op("sum", u); c.component_sum_query(u); i64 s = 0; auto w = comp(u); for (int j = 0; j < n; ++j) if (w[j]) s += init[j].v; ex2.emplace_back(std::in_place_index<1>, s); }
        }
        auto got = o.answer(); EXPECT(got == ex, "connectivity answers"); auto got2 = c.answer<Sum, md, ud, i64, gv>(init);
        EXPECT_EQ(got2.size(), ex2.size(), "number of answers"); for (size_t i = 0; i < ex2.size(); ++i) EXPECT(got2[i] == ex2[i], "answer", i);
    }
}
SUITE(dynamic_hull) {
    for (int it = 0; it < 12; ++it) {
        int W = R(0, 4) ? R(0, 6) : 1000000000; V xs; for (int i = R(1, 8); i--;) xs.push_back(R(-W, W)); DynamicConvexHullOffline h(xs); std::set<PI> s; begin("dynamic hull xs =", xs);
        for (int k = R(1, 25); k--;) {
            if (s.size() && R(0, 3) == 0) { auto p = std::next(s.begin(), R(0, int(s.size()) - 1)); op("erase", *p); h.erase(p->first, p->second); s.erase(p); }
            else { int x = xs[R(0, int(xs.size()) - 1)], y = R(-W, W); op("insert", x, y); h.insert(x, y); s.insert({x, y}); }
            if (s.empty()) { EXPECT(h.get_hull().empty() && h.get_upper_hull().empty() && h.get_lower_hull().empty(), "empty"); continue; }
            for (int t = 0; t < 4; ++t) {
                int A = R(0, 3) ? R(-5, 5) : R(-1000000000, 1000000000), B = R(0, 3) ? R(-5, 5) : R(-1000000000, 1000000000); i64 mx = INT64_MIN, mn = INT64_MAX; for (auto [x, y] : s) { i64 v = i64(A) * x + i64(B) * y; mx = std::max(mx, v); mn = std::min(mn, v); }
                EXPECT_EQ(h.linear_max(A, B), mx, "linear_max", A, B); EXPECT_EQ(h.linear_min(A, B), mn, "linear_min", A, B);
            }
            auto chk = [&](const std::vector<PI>& v, int sg, const char* nm) {   // sg 1: upper, -1: lower
                std::map<int, i64> top; for (auto [x, y] : s) { i64 w = i64(y) * sg; auto f = top.find(x); if (f == top.end() || f->second < w) top[x] = w; }
                std::vector<std::pair<i64, i64>> st2; for (auto [x, y] : top) { while (st2.size() >= 2) { auto [ax, ay] = st2[st2.size() - 2]; auto [bx, by] = st2.back(); if (i128(bx - ax) * (y - ay) - i128(by - ay) * (x - ax) >= 0) st2.pop_back(); else break; } st2.emplace_back(x, y); }
                for (size_t i = 0; i < v.size(); ++i) { EXPECT(s.count(v[i]) && top[v[i].first] == i64(v[i].second) * sg, nm, v); if (i) EXPECT(v[i - 1].first < v[i].first, nm, v);
                    if (i && i + 1 < v.size()) { i128 d = i128(i64(v[i].first) - v[i - 1].first) * (i64(v[i + 1].second) - v[i - 1].second) - i128(i64(v[i].second) - v[i - 1].second) * (i64(v[i + 1].first) - v[i - 1].first); EXPECT(d * sg <= 0, nm, "not convex", v); } }
                for (auto [x, y] : st2) EXPECT(std::count(v.begin(), v.end(), PI(x, int(y * sg))), nm, "misses", x, y, v);
            };
            auto up = h.get_upper_hull(), lo = h.get_lower_hull(), al = h.get_hull(); chk(up, 1, "upper"); chk(lo, -1, "lower");
            std::set<PI> al_s(al.begin(), al.end()); EXPECT_EQ(al_s.size(), al.size(), "hull lists a point twice", al);
            for (auto& p : up) EXPECT(al_s.count(p), "hull misses", p); for (auto& p : lo) EXPECT(al_s.count(p), "hull misses", p);
            for (auto& p : al) EXPECT(s.count(p), "hull point not in the set", p);
        }
    }
}
SUITE(range_inversions) {
    for (int it = 0; it < 20; ++it) {
        int n = R(0, R(0, 3) ? 10 : 40); V a(n); int m = R(0, 2) ? R(0, 6) : 1000000; for (auto& x : a) x = R(0, 9) ? R(-m, m) : INT_MAX; begin("inversions", a); StaticRangeInversionNumberQuery<int> q(a);
        for (int l = 0; l <= n; ++l) { i64 c = 0; for (int r = l; r <= n; ++r) { if (r > l) for (int i = l; i < r - 1; ++i) c += a[i] > a[r - 1]; EXPECT_EQ(q(l, r), c, "inversions of", l, r); } }
    }
}
SUITE(range_mode) {
    for (int it = 0; it < 20; ++it) {
        int n = R(0, R(0, 3) ? 10 : 40); V a(n); int m = R(0, 2) ? R(0, 6) : 1000000; for (auto& x : a) x = R(-m, m); begin("mode", a); StaticRangeModeQuery<int> q(a);
        for (int l = 0; l < n; ++l) { std::map<int, int> f; int b = 0; for (int r = l + 1; r <= n; ++r) { b = std::max(b, ++f[a[r - 1]]); auto [v, c] = q(l, r); EXPECT_EQ(c, b, "frequency", l, r); EXPECT_EQ(f[v], b, "mode", l, r, v); } }
    }
}
template <class T, int B> static void mexq() {
    int n = R(0, R(0, 3) ? 10 : 40); std::vector<T> a(n); u64 lim = B >= 31 ? 0x7fffffff : (1u << B) - 1; int k = R(0, 2); for (auto& x : a) x = T(k ? R(0, std::min<u64>(lim, 9)) : R(0, lim)); begin("xored mex", B, a); RangeXoredMexQuery<T, B> q(a);
    for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { T x = T(R(0, 1) ? R(0, std::min<u64>(lim, 9)) : R(0, lim)); std::set<T> s; for (int i = l; i < r; ++i) s.insert(a[i] ^ x); T e = 0; while (s.count(e)) ++e; EXPECT_EQ(q.minimum_excluded(l, r, x), e, "mex of", l, r, x); }
}
SUITE(range_xored_mex) { for (int it = 0; it < 4; ++it) { mexq<int, 3>(); mexq<int, 5>(); mexq<unsigned, 20>(); mexq<int, 30>(); mexq<int, std::numeric_limits<unsigned>::digits>(); mexq<unsigned, 32>(); mexq<i64, 40>(); mexq<u64, 64>(); } }
using Fam = std::set<unsigned>;
SUITE(zdd) {
    static unsigned L0 = [] { unsigned f = ZDD::new_level(); for (int i = 1; i < 5; ++i) EXPECT_EQ(ZDD::new_level(), f + i, "levels"); return f; }();
    auto build = [&](const Fam& f) { ZDD z = ZDD::terminal0(); for (unsigned m : f) { ZDD t = ZDD::terminal1(); for (int b = 0; b < 5; ++b) if (m >> b & 1) t = ZDD::change(t, L0 + b); z = z + t; } return z; };
    std::function<void(ZDD, unsigned, Fam&)> walk = [&](ZDD z, unsigned m, Fam& o) { if (z.is_terminal0()) return; if (z.is_terminal1()) { o.insert(m); return; } walk(z[0], m, o); walk(z[1], m | 1u << (z.top() - L0), o); };
    auto fam = [&](ZDD z) { Fam o; walk(z, 0, o); return o; };
    auto str = [](const Fam& f) { return std::vector<unsigned>(f.begin(), f.end()); };
    auto rf = [&] { Fam f; int k = R(0, 3) ? R(0, 6) : R(0, 1); while (k--) f.insert(rnd() & 31); return f; };
    for (int it = 0; it < 40; ++it) {
        Fam a = rf(), b = R(0, 3) ? rf() : a; if (R(0, 3) == 0) for (unsigned x : a) if (R(0, 1)) b.insert(x & unsigned(rnd())); begin("zdd", str(a), str(b)); ZDD x = build(a), y = build(b); int v = R(0, 4); Fam e;
        EXPECT(fam(x) == a && fam(y) == b, "construction");
        auto eq = [&](const char* n, ZDD z, const Fam& f) { EXPECT(fam(z) == f, n, str(fam(z)), "expected", str(f)); ZDD w = z ^ build(f); EXPECT(w.is_terminal0(), n, "not canonical"); };
        e = a; e.insert(b.begin(), b.end()); eq("union", x + y, e);
        e.clear(); for (unsigned m : a) if (b.count(m)) e.insert(m); eq("intersection", x & y, e);
        e.clear(); for (unsigned m : a) if (!b.count(m)) e.insert(m); eq("difference", x - y, e);
        for (unsigned m : b) if (!a.count(m)) e.insert(m); eq("symmetric difference", x ^ y, e);
        e.clear(); for (unsigned m : a) e.insert(m ^ 1u << v); eq("change", ZDD::change(x, L0 + v), e);
        e.clear(); for (unsigned m : a) if (m >> v & 1) e.insert(m ^ 1u << v); eq("onset0", ZDD::onset0(x, L0 + v), e);
        e.clear(); for (unsigned m : a) if (m >> v & 1) e.insert(m); eq("onset1", ZDD::onset1(x, L0 + v), e);
        e.clear(); for (unsigned m : a) if (!(m >> v & 1)) e.insert(m); eq("offset", ZDD::offset(x, L0 + v), e);
        e.clear(); for (unsigned m : a) for (unsigned w : b) if ((w & m) == w) e.insert(m); eq("restrict", ZDD::restrict(x, y), e);
        e.clear(); for (unsigned m : a) for (unsigned w : b) if ((w & m) == m) e.insert(m); eq("permit", ZDD::permit(x, y), e);
        EXPECT_EQ(ZDD::card<i64>(x), i64(a.size()), "card"); int ml = -1; for (unsigned m : a) ml = std::max(ml, __builtin_popcount(m));
        if (a.size()) EXPECT_EQ(ZDD::len(x), ml, "len"); else EXPECT(ZDD::len(x) < 0, "len of the empty family");
        auto it2 = ZDD::max_len_item(x); EXPECT_EQ(it2.has_value(), !a.empty(), "max_len_item"); if (it2) { unsigned m = 0; for (int l : *it2) m |= 1u << (unsigned(l) - L0); EXPECT(int(it2->size()) == ml && a.count(m), "max_len_item", *it2); }
        std::set<Fam> subs; std::function<void(ZDD)> cnt = [&](ZDD z) { if (z.is_terminal0() || z.is_terminal1()) return; subs.insert(fam(z)); cnt(z[0]); cnt(z[1]); }; cnt(x); EXPECT_EQ(ZDD::size(x), int(subs.size()), "size");
    }
}
