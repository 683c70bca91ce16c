// C19: tree algorithms, against brute-force oracles on random trees.
#include <cassert>
#include <iostream>
#include <iterator>
#include <numeric>
#include <utility>
#include <functional>
#include <optional>
#include <variant>
#include <deque>
#include <queue>
#include <array>
#include <map>
#include <random>
#include <string>
#include "conf.h"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/auxiliary_tree.hpp"
#include "library/tree/centroid_decomposition.hpp"
#include "library/tree/contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum_invertible.hpp"
#include "library/tree/point_get_range_contour_add_invertible.hpp"
#include "library/tree/point_get_range_contour_operate.hpp"
#include "library/tree/range_contour_sum_invertible.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/tree/get_path.hpp"
#include "library/tree/link_cut_tree.hpp"
#include "library/tree/link_cut_tree_path_foldable.hpp"
#include "library/tree/link_cut_tree_path_foldable_lazy.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/rerooting_invertible.hpp"
#include "library/tree/static_top_tree.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
#include "library/algorithm/rmq_pm1.hpp"
#include "library/algorithm/rmq_pm1_with_index.hpp"
using namespace suisen;
using cf::R; using cf::rnd; using i64 = long long;
using VI = std::vector<int>; using VVI = std::vector<VI>; using EL = std::vector<std::pair<int, int>>;
static void shuffle_(auto& v) { for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[R(0, i)]); }
static EL tree(int n) {   // random labelled tree of varied shape
    EL e; VI id(n); std::iota(id.begin(), id.end(), 0); shuffle_(id); int k = R(0, 4);
    for (int i = 1; i < n; ++i) { int p = k == 0 ? R(0, i - 1) : k == 1 ? i - 1 : k == 2 ? R(std::max(0, i - 3), i - 1) : k == 3 ? R(0, std::min(i - 1, 1)) : (i - 1) / 2; if (R(0, 1)) e.emplace_back(id[p], id[i]); else e.emplace_back(id[i], id[p]); }
    shuffle_(e); return e;
}
static VVI adj(int n, const EL& e) { VVI g(n); for (auto [u, v] : e) g[u].push_back(v), g[v].push_back(u); return g; }
struct T0 { int n; VI par, dep, siz; VVI dist; std::vector<std::vector<VI>> path;   // rooted oracle
    T0(const VVI& g, const VI& roots) : n(g.size()), par(n, -2), dep(n), siz(n, 1), dist(n, VI(n, -1)), path(n, std::vector<VI>(n)) {
        std::function<void(int, int)> f = [&](int u, int p) { par[u] = p; for (int v : g[u]) if (v != p) { dep[v] = dep[u] + 1; f(v, u); siz[u] += siz[v]; } };
        for (int r : roots) f(r, -1);
        for (int s = 0; s < n; ++s) { std::function<void(int, int, VI)> h = [&](int u, int p, VI c) { c.push_back(u); dist[s][u] = (int)c.size() - 1; path[s][u] = c; for (int v : g[u]) if (v != p) h(v, u, c); }; h(s, -1, {}); }
    }
    int up(int u, int k) const { while (k-- > 0 && u >= 0) u = par[u]; return u; }
    int lca(int u, int v) const { while (u != v) { if (dep[u] < dep[v]) std::swap(u, v); u = par[u]; } return u; }
    bool anc(int a, int u) const { return dep[a] <= dep[u] && up(u, dep[u] - dep[a]) == a; }
};
using Str = std::string;
SUITE(hld) {
    int n = R(1, 14); EL e = tree(n); bool forest = R(0, 2) == 0; if (forest) { EL k; for (auto& x : e) if (R(0, 3)) k.push_back(x); e = k; }
    VVI g = adj(n, e), g0 = g; cf::begin("hld n", n, "edges", e); VI roots; { std::vector<char> vis(n); VI ord(n); std::iota(ord.begin(), ord.end(), 0); bool own = R(0, 1); if (own) shuffle_(ord);
        for (int r : ord) if (!vis[r]) { roots.push_back(r); VI st_{r}; vis[r] = 1; while (st_.size()) { int u = st_.back(); st_.pop_back(); for (int v : g[u]) if (!vis[v]) vis[v] = 1, st_.push_back(v); } }
        cf::op("roots", roots); T0 o(g, roots); HeavyLightDecomposition h = own ? HeavyLightDecomposition(g, roots) : HeavyLightDecomposition(g);
        for (int i = 0; i < n; ++i) { VI a = g[i], b = g0[i]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); EXPECT_EQ(a, b, "adjacency of", i); }
        EXPECT_EQ(h.size(), n); { VI r2 = h.get_roots(), r1 = roots; std::sort(r1.begin(), r1.end()); EXPECT_EQ(r2, r1); }
        VI seen(n), inv = h.inv_ids();
        for (int u = 0; u < n; ++u) { int t = h.get_visit_time(u); EXPECT(t >= 0 && t < n && !seen[t], u, t); seen[t] = 1; EXPECT_EQ(inv[t], u); EXPECT_EQ(h.get_kth_visited(t), u); EXPECT_EQ(h.get_parent(u), o.par[u], u); EXPECT_EQ(h.get_depth(u), o.dep[u], u); EXPECT_EQ(h.get_subtree_size(u), o.siz[u], u); EXPECT_EQ(h.get_leave_time(u) - t, o.siz[u], u);
            EXPECT(o.anc(h.get_head(u), u), u); }
        for (int u = 0; u < n; ++u) { for (int v = 0; v < n; ++v) if (o.anc(u, v)) EXPECT(h.get_visit_time(u) <= h.get_visit_time(v) && h.get_visit_time(v) < h.get_leave_time(u), u, v);
            for (int k = -2; k <= n + 1; ++k) EXPECT_EQ(h.la(u, k, -7), k < 0 || k > o.dep[u] ? -7 : o.up(u, k), "la", u, k);
            int ch = 0; for (int v = 0; v < n; ++v) if (o.par[v] == u && h.get_head(v) == h.get_head(u)) ++ch; EXPECT_EQ(ch, o.siz[u] > 1 ? 1 : 0, "heavy children of", u);
            for (int v = 0; v < n; ++v) if (o.par[v] == u && h.get_head(v) == h.get_head(u)) for (int w = 0; w < n; ++w) if (o.par[w] == u) EXPECT(o.siz[w] <= o.siz[v], u, v, w);
            Str lab; auto q = [&](int l, int r) { Str s; for (int t = l; t < r; ++t) s += char('a' + h.get_kth_visited(t)); return s; }; auto qr = [&](int l, int r) { Str s = q(l, r); std::reverse(s.begin(), s.end()); return s; };
            { Str s = h.fold_subtree<Str>(u, q); std::sort(s.begin(), s.end()); Str w; for (int v = 0; v < n; ++v) if (o.anc(u, v)) w += char('a' + v); EXPECT_EQ(s, w, "subtree", u); Str s2 = h.fold_subtree<Str>(u, q, true); EXPECT_EQ(s2.size() + 1, s.size()); EXPECT(s2.find(char('a' + u)) == Str::npos, u); VI c(n); h.update_subtree(u, [&](int l, int r) { for (int t = l; t < r; ++t) ++c[t]; }); for (int v = 0; v < n; ++v) EXPECT_EQ(c[h.get_visit_time(v)], (int)o.anc(u, v), u, v); }
            EXPECT_EQ((h.get_point<int>(u, [&](int t) { return t; })), h.get_visit_time(u)); { int z = -1; h.update_point(u, [&](int t) { z = t; }); EXPECT_EQ(z, h.get_visit_time(u)); }
            for (int v = 0; v < n; ++v) if (o.dist[u][v] >= 0) {
                const VI& p = o.path[u][v]; int w = o.lca(u, v); EXPECT_EQ(h.lca(u, v), w, "lca", u, v); EXPECT_EQ(h.dist(u, v), o.dist[u][v], u, v);
                for (int d = -1; d <= (int)p.size() + 1; ++d) EXPECT_EQ(h.jump(u, v, d, -9), d < 0 || d >= (int)p.size() ? -9 : p[d], "jump", u, v, d);
                Str all, ed; for (int x : p) { all += char('a' + x); if (x != w) ed += char('a' + x); } auto cat = [](Str a, Str b) { return a + b; };
                EXPECT_EQ((h.fold_path_noncommutative<Str>(u, v, Str(), cat, q, qr)), all, u, v); EXPECT_EQ((h.fold_path_noncommutative<Str>(u, v, Str(), cat, q, qr, true)), ed, u, v);
                Str a = h.fold_path<Str>(u, v, Str(), cat, q), a2 = all; std::sort(a.begin(), a.end()); std::sort(a2.begin(), a2.end()); EXPECT_EQ(a, a2, u, v); a = h.fold_path<Str>(u, v, Str(), cat, q, true), a2 = ed; std::sort(a.begin(), a.end()); std::sort(a2.begin(), a2.end()); EXPECT_EQ(a, a2, "edge fold", u, v);
                for (int ee = 0; ee < 2; ++ee) { VI c(n), want(n); h.update_path(u, v, [&](int l, int r) { for (int t = l; t < r; ++t) ++c[t]; }, ee); for (int x : p) want[h.get_visit_time(x)] = !(ee && x == w); EXPECT_EQ(c, want, "update_path", u, v, ee); }
            }
        } }
}
SUITE(lca) {
    int n = R(1, R(0, 3) ? 14 : 60); EL e = tree(n); VVI g = adj(n, e); int r = R(0, n - 1); cf::begin("lca n", n, "edges", e, "root", r); T0 o(g, {r});
    LowestCommonAncestor l(g, r); LevelAncestor la(g, r); EulerTour et(g, r); struct Ed { int to; }; std::vector<std::vector<Ed>> ge(n); for (int u = 0; u < n; ++u) for (int v : g[u]) ge[u].push_back({v}); EulerTour et2(ge, [](const Ed& x) { return x.to; }, r);
    for (int u = 0; u < n; ++u) { EXPECT_EQ(la.get_depth(u), o.dep[u]); EXPECT_EQ(et.depth(u), o.dep[u]); EXPECT_EQ(et.parent(u), o.par[u]); EXPECT_EQ(et.leave_time(u) - et.visit_time(u), 2 * o.siz[u] - 1); int t = la.get_visit_time(u); EXPECT_EQ(la.get_visit_time_inv(t), u); EXPECT_EQ(la.get_kth_visited(t), u);
        for (int k = -2; k <= n + 1; ++k) { int w = k < 0 || k > o.dep[u] ? -1 : o.up(u, k); EXPECT_EQ(la(u, k), w, "level ancestor", u, k); EXPECT_EQ(la.query(u, k), w); }
        for (int v = 0; v < n; ++v) { int w = o.lca(u, v), d = o.dist[u][v]; EXPECT_EQ(l.lca(u, v), w, u, v); EXPECT_EQ(l(u, v), w); EXPECT_EQ(l.dist(u, v), d, u, v); EXPECT_EQ(et.lca(u, v), w, u, v); EXPECT_EQ(et.dist(u, v), d, u, v); EXPECT_EQ(et2.lca(u, v), w, u, v); if (o.anc(u, v)) EXPECT(et.visit_time(u) <= et.visit_time(v) && et.leave_time(v) <= et.leave_time(u), u, v); } }
}
template <bool mn> static void rmq1(const VI& a) {
    int n = a.size(); RMQpm1<mn> r(a); RMQpm1WithIndex<mn> ri(a); bool big = n > 40;
    for (int l = 0; l <= n; ++l) for (int q = l; q <= n; ++q) { if (big && R(0, 7)) continue; int w = mn ? INT32_MAX : INT32_MIN; for (int i = l; i < q; ++i) w = mn ? std::min(w, a[i]) : std::max(w, a[i]); EXPECT_EQ(r(l, q), w, l, q); auto [x, i] = ri(l, q); EXPECT_EQ(x, w, l, q); if (l < q) { EXPECT(l <= i && i < q, l, q, i); EXPECT_EQ(a[i], w, l, q, i); } }
}
SUITE(rmq_pm1) {
    int n = R(0, R(0, 3) ? 20 : 90); VI a; int c = R(-5, 5), bias = R(1, 4); for (int i = 0; i < n; ++i) { a.push_back(c); c += R(0, bias) ? 1 : -1; if (R(0, 1)) c = a.back() - (c - a.back()); } cf::begin("rmq_pm1", a); rmq1<true>(a); rmq1<false>(a);
}
SUITE(auxiliary) {
    int n = R(1, 16); EL e = tree(n); VVI g = adj(n, e); cf::begin("auxiliary tree n", n, "edges", e); int r = R(0, n - 1); VVI g2 = g; HeavyLightDecomposition h(g2, VI{r}); AuxiliaryTree at(h); T0 o(g, {r});
    for (int it = R(1, 4); it--;) {
        std::set<int> s; for (int k = R(1, n); k--;) s.insert(R(0, n - 1)); VI vs(s.begin(), s.end()); shuffle_(vs); cf::op("build", vs); at.build(vs);
        std::set<int> cl = s; for (int a : vs) for (int b : vs) cl.insert(o.lca(a, b));
        std::set<std::pair<int, int>> want, got; for (int a : cl) { int p = o.par[a]; while (p >= 0 && !cl.count(p)) p = o.par[p]; if (p >= 0) want.insert({a, p}), want.insert({p, a}); }
        size_t cnt = 0; for (int a = 0; a < n; ++a) for (int b : at[a]) got.insert({a, b}), ++cnt; EXPECT_EQ(cnt, got.size(), "duplicate edges"); EXPECT(got == want, "edges of the auxiliary tree differ");
    }
}
SUITE(centroid) {
    int n = R(1, 18); EL e = tree(n); cf::begin("centroid n", n, "edges", e); VVI g = adj(n, e); T0 o(g, {0});
    VI c = find_centroids(g); VI wc; for (int x = 0; x < n; ++x) { bool ok = true; for (int v : g[x]) { int k = 0; for (int y = 0; y < n; ++y) if (y != x && o.path[x][y][1] == v) ++k; ok &= 2 * k <= n; } if (ok) wc.push_back(x); } std::sort(c.begin(), c.end()); EXPECT_EQ(c, wc);
    std::vector<std::tuple<int, int, i64>> we; for (auto [u, v] : e) we.emplace_back(u, v, R(1, 9)); GraphBuilder<undirected_graph_tag> gb(n); for (auto [u, v] : e) gb.emplace_edge(u, v); CentroidDecompositionUnweighted cd(gb.build());
    GraphBuilder<undirected_graph_tag, i64> gw(n); for (auto [u, v, w] : we) gw.emplace_edge(u, v, w); CentroidDecompositionWeighted<i64> cw(gw.build()); std::map<std::pair<int, int>, i64> W; for (auto [u, v, w] : we) W[{u, v}] = W[{v, u}] = w;
    auto chk = [&](auto& d) { int roots = 0; VVI comp(n); 
        for (int v = 0; v < n; ++v) { int p = d.dct_parent(v); if (p < 0) { ++roots; EXPECT_EQ(d.dct_depth(v), 0); } else EXPECT_EQ(d.dct_depth(v), d.dct_depth(p) + 1, v); EXPECT((1 << d.dct_depth(v)) <= n, v); }
        EXPECT_EQ(roots, 1);
        for (int x = 0; x < n; ++x) { for (int y = 0; y < n; ++y) { bool in = true; for (int z : o.path[x][y]) if (z != x && d.dct_depth(z) <= d.dct_depth(x)) in = false; bool desc = false; for (int z = y; z >= 0; z = d.dct_parent(z)) desc |= z == x; EXPECT_EQ(desc, in, "component of", x, "contains", y); if (in) comp[x].push_back(y); } EXPECT_EQ(d.dct_size(x), (int)comp[x].size(), x); }
        for (int x = 0; x < n; ++x) if (d.dct_parent(x) >= 0) EXPECT(2 * comp[x].size() <= comp[d.dct_parent(x)].size(), "size of", x);
        return comp; };
    auto comp = chk(cd); chk(cw);
    for (int x = 0; x < n; ++x) { int rv = R(-3, 3); auto r = cd.collect(x, rv); std::map<int, std::set<std::pair<int, i64>>> by; std::set<std::pair<int, i64>> all; for (int y : comp[x]) { all.insert({y, rv + o.dist[x][y]}); if (y != x) by[o.path[x][y][1]].insert({y, rv + o.dist[x][y]}); }
        EXPECT_EQ(r.size(), by.size() + 1, x); EXPECT_EQ(r[0].size(), all.size()); EXPECT((std::set<std::pair<int, i64>>(r[0].begin(), r[0].end()) == all), x); std::set<int> used; for (size_t k = 1; k < r.size(); ++k) { EXPECT(!r[k].empty(), x); int c0 = o.path[x][r[k][0].first][1]; EXPECT(used.insert(c0).second, x); EXPECT_EQ(r[k].size(), by[c0].size()); EXPECT((std::set<std::pair<int, i64>>(r[k].begin(), r[k].end()) == by[c0]), x); } }
    for (int x = 0; x < n; ++x) { auto r = cw.collect(x, [](i64 a, i64 b) { return a + b; }, 0); for (auto [y, d] : r[0]) { i64 w = 0; for (size_t k = 1; k < o.path[x][y].size(); ++k) w += W[{o.path[x][y][k - 1], o.path[x][y][k]}]; EXPECT_EQ(d, w, x, y); } size_t k = 0; for (size_t i = 1; i < r.size(); ++i) k += r[i].size(); EXPECT_EQ(k + 1, r[0].size()); }
    for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v) EXPECT_EQ(get_tree_path(g, u, v), o.path[u][v], u, v);
}
static i64 c_add(i64 a, i64 b) { return a + b; } static i64 c_zero() { return 0; } static i64 c_neg(i64 a) { return -a; } static i64 c_max(i64 a, i64 b) { return std::max(a, b); } static i64 c_ninf() { return -1000000; } static i64 c_map(i64 f, i64 x) { return f + x; } static i64 c_cmax(i64 f, i64 x) { return std::max(f, x); }
static i64 c_inv(i64 a) { return -a; }
SUITE(contour) {
    int n = R(1, 16); EL e = tree(n); cf::begin("contour n", n, "edges", e); VVI g = adj(n, e); T0 o(g, {0}); std::vector<i64> a(n); for (auto& x : a) x = R(-50, 50); cf::op("values", a);
    ContourSumOnTree<i64> cs(a); PointAddRangeContourSum<i64, c_add, c_zero> pa(a); PointAddRangeContourSum<i64, c_max, c_ninf> pm(a); PointAddRangeContourSumOnTree<i64> pi(a); RangeContourSumOnTree<i64> rs(a); PointGetRangeContourAddOnTree<i64, i64, c_map, c_add, c_zero, c_inv> pg(n); PointGetRangeContourOperate<i64, i64, c_cmax, c_max, c_ninf> po(n);
    for (auto [u, v] : e) cs.add_edge(u, v), pa.add_edge(u, v), pm.add_edge(u, v), pi.add_edge(u, v), rs.add_edge(u, v), pg.add_edge(u, v), po.add_edge(u, v);
    cs.build(), pa.build(), pm.build(), pi.build(), rs.build(), pg.build(a), po.build(a);
    for (int u = 0; u < n; ++u) for (int d = -1; d <= n + 1; ++d) { i64 w = 0; for (int v = 0; v < n; ++v) if (o.dist[u][v] == d) w += a[v]; EXPECT_EQ(cs.sum(u, d), w, "contour sum", u, d); }
    for (int q = 0; q < 12; ++q) { int u = R(0, n - 1), l = R(-2, n + 1), r = R(-2, n + 2); i64 w = 0; for (int v = 0; v < n; ++v) if (l <= o.dist[u][v] && o.dist[u][v] < r) w += a[v]; EXPECT_EQ(rs.sum(u, l, r), w, "range contour", u, l, r); }
    std::vector<i64> s = a, m = a, ga = a, go = a;
    for (int q = R(1, 12); q--;) { int u = R(0, n - 1), l = R(-2, n + 1), r = R(-2, n + 2); i64 x = R(-60, 60); cf::op("u", u, "l", l, "r", r, "x", x);
        if (R(0, 1)) { if (R(0, 3)) { pa.add(u, x), pi.add(u, x); s[u] += x; } else { pi.set(u, x); pa.add(u, x - s[u]); s[u] = x; } pm.add(u, x); m[u] = std::max(m[u], x); EXPECT_EQ(pa.get(u), s[u]); EXPECT_EQ(pi.get(u), s[u]); EXPECT_EQ(pm.get(u), m[u]);
            if (R(0, 3) == 0) { pg.add(u, x), ga[u] += x; po.apply(u, x), go[u] = std::max(go[u], x); } else { pg.apply(u, l, r, x), po.apply(u, l, r, x); for (int v = 0; v < n; ++v) if (l <= o.dist[u][v] && o.dist[u][v] < r) ga[v] += x, go[v] = std::max(go[v], x); } }
        i64 w = 0, wm = c_ninf(); u = R(0, n - 1); for (int v = 0; v < n; ++v) if (l <= o.dist[u][v] && o.dist[u][v] < r) w += s[v], wm = std::max(wm, m[v]);
        EXPECT_EQ(pa.sum(u, l, r), w, u, l, r); EXPECT_EQ(pi.sum(u, l, r), w, u, l, r); EXPECT_EQ(pm.sum(u, l, r), wm, u, l, r); for (int v = 0; v < n; ++v) { EXPECT_EQ(pg.get(v), ga[v], v); EXPECT_EQ(po.get(v), go[v], v); } }
}
static Str s_op(Str a, Str b) { return a + b; } static Str s_e() { return ""; } static Str s_tog(Str a) { std::reverse(a.begin(), a.end()); return a; } static Str s_map(int f, Str x, int len) { for (auto& c : x) c = char('a' + (c - 'a' + f) % 26); return x; } static int f_co(int f, int g) { return (f + g) % 26; } static int f_id() { return 0; }
SUITE(link_cut) {
    using A = LinkCutTree<int>; using B = LinkCutTreePathFoldable<Str, s_op, s_e, s_tog>; using C = LinkCutTreePathFoldableLazy<Str, s_op, s_e, int, s_map, f_co, f_id, s_tog>;
    int n = R(1, 12); A::init_pool(n), B::init_pool(n), C::init_pool(n); VI va(n); std::vector<Str> vb(n), vc; for (int i = 0; i < n; ++i) va[i] = i, vb[i] = Str(1, char('a' + R(0, 25))); vc = vb;
    cf::begin("link_cut n", n, "values", vb); auto a = A::make_nodes(va); auto b = B::make_nodes(vb); auto c = C::make_nodes(vc); std::set<std::pair<int, int>> E; VI root(n); // root[] of each component's current representation
    std::iota(root.begin(), root.end(), 0);
    auto g = [&] { VVI h(n); for (auto [u, v] : E) h[u].push_back(v), h[v].push_back(u); return h; };
    auto path = [&](int u, int v) { VI res; VVI h = g(); std::function<bool(int, int)> f = [&](int x, int p) { res.push_back(x); if (x == v) return true; for (int y : h[x]) if (y != p && f(y, x)) return true; res.pop_back(); return false; }; f(u, -1); return res; };
    auto setroot = [&](int u) { for (int v = 0; v < n; ++v) if (path(u, v).size()) root[v] = u; };
    for (int q = R(1, 40); q--;) { int k = R(0, 11), u = R(0, n - 1), v = R(0, n - 1); VI p = path(u, v); Str s, t; for (int x : p) s += vb[x], t += vc[x]; cf::op("op", k, u, v);
        if (k <= 2 && p.empty()) { A::link(a[u], a[v]), B::link(b[u], b[v]), C::link(c[u], c[v]); int r = root[v]; E.insert({u, v}); setroot(r); }
        else if (k == 3 && p.size() == 2) { A::cut(a[u], a[v]), B::cut(b[u], b[v]), C::cut(c[u], c[v]); E.erase({u, v}), E.erase({v, u}); setroot(u), setroot(v); }
        else if (k == 4 && root[u] != u) { VI w = path(root[u], u); int pr = w[w.size() - 2], rt = root[u]; A::cut(a[u]), B::cut(b[u]), C::cut(c[u]); E.erase({u, pr}), E.erase({pr, u}); setroot(rt), setroot(u); }
        else if (k == 5) { A::evert(a[u]), B::evert(b[u]), C::evert(c[u]); setroot(u); }
        else if (k == 6) { int x = R(0, 100); Str y(1, char('a' + R(0, 25))); A::set(a[u], x), B::set(b[u], y), C::set(c[u], y); va[u] = x, vb[u] = vc[u] = y; }
        else if (k == 7) { if (p.size()) { int f = R(0, 25); C::apply(c[u], c[v], f); for (int x : p) vc[x] = s_map(f, vc[x], 1); setroot(u); A::evert(a[u]), B::evert(b[u]); } else { int f = R(0, 25); C::apply_from_root(c[u], f); for (int x : path(root[u], u)) vc[x] = s_map(f, vc[x], 1); } }
        else if (k == 8) { Str w, z; for (int x : path(root[u], u)) w += vb[x], z += vc[x]; EXPECT_EQ(B::prod_from_root(b[u]), w, u); EXPECT_EQ(C::prod_from_root(c[u]), z, u); VI w2; for (auto x : A::path_from_root(a[u])) w2.push_back(x - a[0]); VI w3 = path(root[u], u); EXPECT_EQ(w2, w3, "path_from_root", u); }
        else if (k == 9) { bool con = p.size(); EXPECT_EQ(A::is_connected(a[u], a[v]), con, u, v); EXPECT_EQ(B::is_connected(b[u], b[v]), con, u, v); EXPECT_EQ(C::is_connected(c[u], c[v]), con, u, v); }
        else if (k == 10) { auto l = A::lca(a[u], a[v]); auto l2 = C::lca(c[u], c[v]); if (p.empty()) { EXPECT(!l && !l2, u, v); } else { VI x = path(root[u], u), y = path(root[u], v); int w = -1; for (size_t i = 0; i < std::min(x.size(), y.size()) && x[i] == y[i]; ++i) w = x[i]; EXPECT(l == a[w] && l2 == c[w], "lca", u, v, w); } }
        else if (k == 11) { auto w = A::path(a[u], a[v]); if (p.empty()) { EXPECT(!w, u, v); setroot(u); B::evert(b[u]), C::evert(c[u]); } else { VI x; for (auto y : *w) x.push_back(y - a[0]); EXPECT_EQ(x, p, u, v); EXPECT_EQ(B::prod(b[u], b[v]), s, u, v); EXPECT_EQ(C::prod(c[u], c[v]), t, u, v); setroot(u); } }
        int x = R(0, n - 1); EXPECT_EQ(A::get(a[x]), va[x]); EXPECT_EQ(B::get(b[x]), vb[x]); EXPECT_EQ(C::get(c[x]), vc[x], x); }
}
SUITE(rerooting) {
    int n = R(1, 14); EL e = tree(n); cf::begin("rerooting n", n, "edges", e); VVI g = adj(n, e); std::vector<i64> vw(n); for (auto& x : vw) x = R(-9, 9); std::map<std::pair<int, int>, i64> W; cf::op("weights", vw);
    Rerooting r0(n); RerootingVertexWeighted<i64> rv(vw); RerootingEdgeWeighted<i64> re(n); RerootingWeighted<i64, i64> rw(n); RerootingInvertible q0(n); RerootingInvertibleVertexWeighted<i64> qv(vw); RerootingInvertibleEdgeWeighted<i64> qe(n); RerootingInvertibleWeighted<i64, i64> qw; for (auto x : vw) qw.add_vertex(x); rw.set_vertex_weights(vw);
    for (auto [u, v] : e) { i64 w = R(1, 9); W[{u, v}] = W[{v, u}] = w; r0.add_edge(u, v), rv.add_edge(u, v), re.add_edge(u, v, w), rw.add_edge(u, v, w), q0.add_edge(u, v), qv.add_edge(u, v), qe.add_edge(u, v, w), qw.add_edge(u, v, w); }
    auto mx = [](i64 a, i64 b) { return std::max(a, b); }; auto ni = [] { return i64(-1000); }; auto ad = [](i64 a, i64 b) { return a + b; }; auto ze = [] { return i64(0); }; auto ng = [](i64 a) { return -a; };
    // oracles by direct recursion from every root; the combining steps depend on vertex, edge and value
    auto S1 = [](i64 x, i64 v, i64 w) { return (x * 3 + v * 7 + w * 11) % 1009; }; auto R1 = [](i64 x, i64 v) { return (x * 5 + v) % 1013; };
    auto dp = [&](int rt, auto op, auto id, auto sub, auto root) { std::function<i64(int, int)> f = [&](int u, int p) { i64 s = id(); for (int v : g[u]) if (v != p) s = op(s, sub(f(v, u), vw[v], W[{u, v}])); return s; }; return root(f(rt, -1), vw[rt]); };
    auto d1 = rw.run_dp(mx, ni, S1, R1); auto d2 = rv.run_dp(mx, ni, [&](i64 x, i64 v) { return S1(x, v, 0); }, R1); auto d3 = re.run_dp(mx, ni, [&](i64 x, i64 w) { return S1(x, 0, w); }, [&](i64 x) { return R1(x, 0); }); auto d4 = r0.run_dp(mx, ni, [&](i64 x) { return S1(x, 1, 0); }, [&](i64 x) { return R1(x, 2); });
    auto c1 = qw.run_dp(ad, ze, ng, S1, R1); auto c2 = qv.run_dp(ad, ze, ng, [&](i64 x, i64 v) { return S1(x, v, 0); }, R1); auto c3 = qe.run_dp(ad, ze, ng, [&](i64 x, i64 w) { return S1(x, 0, w); }, [&](i64 x) { return R1(x, 0); }); auto c4 = q0.run_dp(ad, ze, ng, [&](i64 x) { return S1(x, 1, 0); }, [&](i64 x) { return R1(x, 2); });
    auto s2 = [&](i64 x, i64 v, i64) { return S1(x, v, 0); }; auto s3 = [&](i64 x, i64, i64 w) { return S1(x, 0, w); }; auto s4 = [&](i64 x, i64, i64) { return S1(x, 1, 0); }; auto r3 = [&](i64 x, i64) { return R1(x, 0); }; auto r4 = [&](i64 x, i64) { return R1(x, 2); };
    for (int u = 0; u < n; ++u) { EXPECT_EQ(d1[u], dp(u, mx, ni, S1, R1), u); EXPECT_EQ(d2[u], dp(u, mx, ni, s2, R1), u); EXPECT_EQ(d3[u], dp(u, mx, ni, s3, r3), u); EXPECT_EQ(d4[u], dp(u, mx, ni, s4, r4), u); EXPECT_EQ(c1[u], dp(u, ad, ze, S1, R1), u); EXPECT_EQ(c2[u], dp(u, ad, ze, s2, R1), u); EXPECT_EQ(c3[u], dp(u, ad, ze, s3, r3), u); EXPECT_EQ(c4[u], dp(u, ad, ze, s4, r4), u); }
}
static std::vector<i64> tp_val;
struct TP { i64 sum, all; int top, bot; }; struct TS_ { i64 sum, all; };   // path: sum over the heavy path, over the whole cluster, top and bottom vertex
static TP t_vertex(int v) { return {tp_val[v], tp_val[v], v, v}; } static TS_ t_add_edge(TP& p, int v, int par) { if (p.top != v) cf::failed("add_edge: the path does not start at the given root"); return {p.sum, p.all * 3 + par}; } static TS_ t_merge(TS_& a, TS_& b) { return {std::max(a.sum, b.sum), a.all + b.all}; } static TP t_add_root(TS_& s, int v) { return {tp_val[v] + 0 * s.sum, tp_val[v] + s.all, v, v}; } static TP t_paths(TP& h, TP& l) { return {h.sum + l.sum, h.all + l.all, h.top, l.bot}; }
SUITE(static_toptree) {
    int n = R(1, 16); EL e = tree(n); int r = R(0, n - 1); cf::begin("static_toptree n", n, "edges", e, "root", r); VVI g = adj(n, e); T0 o(g, {r}); tp_val.assign(n, 0); for (auto& x : tp_val) x = R(-9, 9);
    const static_toptree t(g, r); auto d = t.tree_dp<TS_, TP, t_vertex, t_add_edge, t_merge, t_add_root, t_paths>();
    // heavy child: any child of maximal size; the value of the answer must agree with the decomposition the tree reports through its bottoms, so recompute with sizes
    auto ch = [&](int u) { VI c; for (int v : g[u]) if (v != o.par[u]) c.push_back(v); return c; };
    for (int u = 0; u < n; ++u) { EXPECT_EQ(t.parent(u), o.par[u]); EXPECT_EQ(t.subtree_size(u), o.siz[u]); }
    bool uniq = true; for (int u = 0; u < n; ++u) { int b = 0, k = 0; for (int v : ch(u)) { if (o.siz[v] > b) b = o.siz[v], k = 1; else if (o.siz[v] == b) ++k; } uniq &= k <= 1; }
    auto want = [&] { std::function<std::pair<i64, i64>(int)> f = [&](int u) -> std::pair<i64, i64> { i64 s = 0, a = 0; for (int x = u;;) { s += tp_val[x], a += tp_val[x]; int h = -1; for (int v : ch(x)) if (h < 0 || o.siz[v] > o.siz[h]) h = v; for (int v : ch(x)) if (v != h) a += f(v).second * 3 + x; if (h < 0) break; x = h; } return {s, a}; }; return f(r); };
    for (int q = R(1, 8); q--;) { auto w = want(); if (uniq) { EXPECT_EQ(d().sum, w.first); EXPECT_EQ(d.answer().all, w.second); } EXPECT_EQ(d().top, r); EXPECT(ch(d().bot).empty(), d().bot); int v = R(0, n - 1); tp_val[v] = R(-9, 9); cf::op("set", v, tp_val[v]); const TP& x = d.update(v); auto w2 = want(); if (uniq) { EXPECT_EQ(x.sum, w2.first); EXPECT_EQ(x.all, w2.second); } i64 s = 0; for (int y = d().bot; y >= 0; y = o.par[y]) s += tp_val[y]; EXPECT_EQ(d().sum, s, "sum along the main path"); }
}
static Str canon(const VVI& g, int u, int p) { std::vector<Str> c; for (int v : g[u]) if (v != p) c.push_back(canon(g, v, u)); std::sort(c.begin(), c.end()); Str s = "("; for (auto& x : c) s += x; return s + ")"; }
template <class H> static void iso() {
    RootedTreeClassifier<H> c; std::map<Str, int> by; std::map<int, Str> rev; auto same = [&](const Str& s, int id) { auto [i, f] = by.try_emplace(s, id); EXPECT_EQ(i->second, id, "class of", s); auto [j, g] = rev.try_emplace(id, s); EXPECT_EQ(j->second, s, "class", id); };
    VVI last; for (int it = R(1, 4); it--;) { int n = R(1, 9); VVI g; if (last.size() && R(0, 1)) { n = last.size(); VI p(n); std::iota(p.begin(), p.end(), 0); shuffle_(p); g = VVI(n); for (int u = 0; u < n; ++u) for (int v : last[u]) g[p[u]].push_back(p[v]); for (auto& x : g) shuffle_(x); } else g = adj(n, tree(n)); EL e; for (int u = 0; u < n; ++u) for (int v : g[u]) if (u < v) e.emplace_back(u, v); cf::op("tree n", n, e);
        int r = R(0, n - 1); VI id = c.classify_subtrees(g, r); T0 o(g, {r}); for (int u = 0; u < n; ++u) same(canon(g, u, o.par[u]), id[u]); same(canon(g, r, -1), c.classify(g, r)); VI rr = c.classify_rerooting(g); for (int u = 0; u < n; ++u) same(canon(g, u, -1), rr[u]);
        if (last.size()) { int m = last.size(); bool w = false; for (int u = 0; u < m; ++u) w |= canon(last, u, -1) == canon(g, 0, -1); auto a = c.is_isomorphic(last, g); EXPECT_EQ(a.has_value(), w, "is_isomorphic"); if (a) EXPECT_EQ(canon(last, a->first, -1), canon(g, a->second, -1), *a); int r1 = R(0, m - 1); EXPECT_EQ(c.is_isomorphic_rooted(last, r1, g, r), canon(last, r1, -1) == canon(g, r, -1)); }
        last = g; }
}
SUITE(isomorphism) { cf::begin("isomorphism"); iso<IDHandlerNaive>(); cf::begin("isomorphism zobrist"); iso<IDHandlerZobrist<>>(); }
