// C18: combinatorial optimisation on graphs, against exhaustive search.
#include <cassert>
#include <iostream>
#include <numeric>
#include <deque>
#include <queue>
#include "conf.h"
#include "library/graph/min_cost_flow.hpp"
#include "library/graph/assignment_problem.hpp"
#include "library/graph/bipartite_matching.hpp"
#include "library/graph/enumerate_cliques.hpp"
#include "library/graph/enumerate_triangles.hpp"
#include "library/graph/maximum_clique.hpp"
#include "library/graph/maximum_independent_set.hpp"
#include "library/graph/minimum_vertex_cover.hpp"
#include "library/graph/manhattan_minimum_distances.hpp"
using namespace suisen;
using cf::R; using cf::rnd; using i64 = long long;
using VI = std::vector<int>; using VVI = std::vector<VI>; using EL = std::vector<std::pair<int, int>>;
static int best_matching(int n, const std::set<std::pair<int, int>>& E, int m) { std::function<int(int, int)> go = [&](int u, int mask) -> int { if (u == n) return 0; int b = go(u + 1, mask); for (int v = 0; v < m; ++v) if (!(mask >> v & 1) && E.count({u, v})) b = std::max(b, 1 + go(u + 1, mask | 1 << v)); return b; }; return go(0, 0); }
SUITE(bipartite_matching) {
    int n = R(0, 6), m = R(0, 6); cf::begin("BipartiteMatching", n, m); BipartiteMatching b(n, m); std::set<std::pair<int, int>> E; EXPECT_EQ(b.left_size(), n); EXPECT_EQ(b.right_size(), m);
    for (int round = R(1, 3); round--;) { // edges may be added between queries
        for (int k = n && m ? R(0, 12) : 0; k--;) { int u = R(0, n - 1), v = R(0, m - 1); cf::op("add_edge", u, v); b.add_edge(u, v); E.insert({u, v}); }
        int f = best_matching(n, E, m); int which = R(0, 4); if (which == 0) { cf::op("solve"); EXPECT_EQ(b.solve(), f); }
        if (which <= 1) { cf::op("max_matching"); auto M = b.max_matching(); EXPECT_EQ((int)M.size(), f); std::set<int> L, Rr; for (auto [u, v] : M) { EXPECT(E.count(std::make_pair(u, v)) && L.insert(u).second && Rr.insert(v).second, M); } EXPECT_EQ(b.solve(), f, "solve"); for (int u = 0; u < n; ++u) { int v = b.right(u); if (v == BipartiteMatching::ABSENT) EXPECT(!L.count(u)); else EXPECT_EQ(b.left(v), u); } for (int v = 0; v < m; ++v) if (b.left(v) != BipartiteMatching::ABSENT) EXPECT_EQ(b.right(b.left(v)), v); }
        if (which == 2) { cf::op("min_vertex_cover"); auto C = b.min_vertex_cover(); EXPECT_EQ((int)C.size(), f); std::set<int> S(C.begin(), C.end()); EXPECT_EQ(S.size(), C.size()); for (auto [u, v] : E) EXPECT(S.count(u) || S.count(n + v), "edge not covered", u, v, C); }
        if (which == 3) { cf::op("max_independent_set"); auto C = b.max_independent_set(); EXPECT_EQ((int)C.size(), n + m - f); std::set<int> S(C.begin(), C.end()); EXPECT_EQ(S.size(), C.size()); for (auto [u, v] : E) EXPECT(!S.count(u) || !S.count(n + v), "edge inside", u, v, C); }
        if (which == 4) { cf::op("min_edge_cover"); auto C = b.min_edge_cover(); std::set<int> S, T; for (auto [u, v] : C) { EXPECT(E.count(std::make_pair(u, v)), C); S.insert(u), T.insert(n + v); } std::set<int> need; for (auto [u, v] : E) need.insert(u), need.insert(n + v); for (int x : need) EXPECT(S.count(x) || T.count(x), "vertex not covered", x, C); EXPECT_EQ(C.size(), need.size() - f, "size of the edge cover"); }
        auto h = b.reversed_graph(); EXPECT_EQ((int)h.size(), m); for (int v = 0; v < m; ++v) for (int u : h[v]) EXPECT(E.count(std::make_pair(u, v)));
    }
}
// brute force: all integral flows by enumerating flow on every edge
template <class Cap, class Cost, MCFPotentialInitializer I> static void mcf(bool neg, bool dag, const char* nm) {
    int n = R(2, 5), m = R(0, 6); std::vector<std::tuple<int, int, int, int>> e; cf::begin(nm, n); MinCostFlow<Cap, Cost, I> g(n); int s = 0, t = n - 1;
    for (int k = 0; k < m; ++k) { int u = R(0, n - 1), v = R(0, n - 1); if (u == v) continue; if (dag && u > v) std::swap(u, v); int cap = R(0, 2), cost = neg ? R(-3, 6) : R(0, 6); cf::op("edge", u, v, cap, cost); EXPECT_EQ(g.add_edge(u, v, cap, cost), (int)e.size()); e.emplace_back(u, v, cap, cost); }
    std::map<int, i64> best; VI bal(n); std::function<void(size_t, i64)> go = [&](size_t k, i64 c) { if (k == e.size()) { for (int v = 0; v < n; ++v) if (v != s && v != t && bal[v]) return; int f = bal[t]; if (f < 0 || bal[s] != -f) return; auto it = best.find(f); if (it == best.end() || it->second > c) best[f] = c; return; } auto [u, v, cap, cost] = e[k]; for (int x = 0; x <= cap; ++x) { bal[u] -= x, bal[v] += x; go(k + 1, c + (i64)x * cost); bal[u] += x, bal[v] -= x; } }; go(0, 0);
    if (best.count(0) && best[0] < 0) return; // a negative cycle: outside the preconditions
    int mode = R(0, 3), mx = best.rbegin()->first; int lim = R(0, mx + 1); std::vector<std::pair<Cap, Cost>> slope; std::pair<Cap, Cost> r; int wantf; 
    if (mode == 0) { cf::op("min_cost_max_flow"); r = g.min_cost_max_flow(s, t); wantf = mx; } else if (mode == 1) { cf::op("min_cost_max_flow", lim); r = g.min_cost_max_flow(s, t, lim); wantf = std::min(mx, lim); } else if (mode == 2) { cf::op("slope", lim); slope = g.min_cost_max_flow_slope(s, t, lim); r = slope.back(); wantf = std::min(mx, lim); } else { cf::op("arbitrary"); r = g.min_cost_arbitrary_flow(s, t); i64 b = 0; for (auto& [f, c] : best) b = std::min(b, c); EXPECT_EQ((i64)r.second, b); wantf = r.first; }
    EXPECT_EQ((i64)r.first, (i64)wantf, "flow"); EXPECT_EQ((i64)r.second, best[wantf], "cost");
    if (mode == 2) { EXPECT(slope[0].first == 0 && slope[0].second == 0); for (size_t i = 0; i + 1 < slope.size(); ++i) { auto [f0, c0] = slope[i]; auto [f1, c1] = slope[i + 1]; EXPECT(f0 < f1); for (int f = f0; f <= f1; ++f) EXPECT_EQ(best[f] * (i64)(f1 - f0), (i64)c0 * (f1 - f0) + (i64)(c1 - c0) * (f - f0), "slope at", f); if (i + 2 < slope.size()) { auto [f2, c2] = slope[i + 2]; EXPECT((i64)(c1 - c0) * (f2 - f1) < (i64)(c2 - c1) * (f1 - f0), "breakpoints are not strictly convex"); } } }
    auto es = g.get_edges(); EXPECT_EQ(es.size(), e.size()); VI b2(n); i64 tot = 0; for (size_t k = 0; k < e.size(); ++k) { auto [u, v, cap, cost] = e[k]; EXPECT(es[k].from == u && es[k].to == v && es[k].cap == cap && es[k].cost == cost && es[k].flow >= 0 && es[k].flow <= cap, "edge", k); b2[u] -= es[k].flow, b2[v] += es[k].flow; tot += (i64)es[k].flow * cost; } for (int v = 0; v < n; ++v) EXPECT_EQ(b2[v], v == s ? -wantf : v == t ? wantf : 0, "conservation at", v); EXPECT_EQ(tot, (i64)r.second);
}
SUITE(min_cost_flow) { switch (R(0, 4)) { case 0: mcf<int, int, BELLMAN_FORD>(true, false, "MinCostFlow<int,int,BELLMAN_FORD>"); break; case 1: mcf<int, i64, DIJKSTRA>(false, false, "MinCostFlow<int,ll,DIJKSTRA>"); break; case 2: mcf<int, int, DAG>(true, true, "MinCostFlow<int,int,DAG>"); break; case 3: mcf<i64, i64, BELLMAN_FORD>(true, true, "MinCostFlow<ll,ll,BELLMAN_FORD>"); break; default: mcf<i64, int, BELLMAN_FORD>(true, true, "MinCostFlow<ll,int,BELLMAN_FORD>"); } }
// larger graphs: a plain successive-shortest-path oracle (Bellman-Ford on the residual graph for every augmentation)
template <class Cap, class Cost, MCFPotentialInitializer I> static void mcf_big(bool neg, bool dag, const char* nm) {
    int n = R(2, 12), m = R(0, 30); cf::begin(nm, n); VI name(n); std::iota(name.begin(), name.end(), 0); for (int i = n - 1; i > 0; --i) std::swap(name[i], name[R(0, i)]); if (I == DAG && R(0, 1)) std::iota(name.begin(), name.end(), 0);
    struct A { int u, v; i64 cap, cost; }; std::vector<A> a, in; MinCostFlow<Cap, Cost, I> g(n); int s = name[0], t = name[n - 1]; VI pot(n); for (auto& x : pot) x = neg ? R(-20, 20) : 0;
    auto add = [&](int u, int v, int cap, int cost) { u = name[u], v = name[v]; cf::op("edge", u, v, cap, cost); g.add_edge(u, v, cap, cost); a.push_back({u, v, cap, cost}); a.push_back({v, u, 0, -cost}); in.push_back({u, v, cap, cost}); };
    if (R(0, 1)) for (int i = 0; i + 1 < n; ++i) add(i, i + 1, R(1, 3), R(0, 3) + pot[i + 1] - pot[i]);
    for (int k = 0; k < m; ++k) { int u = R(0, n - 1), v = R(0, n - 1); if (u == v) continue; if (dag && u > v) std::swap(u, v); add(u, v, R(0, 4), R(0, 9) + pot[v] - pot[u]); }
    std::vector<i64> cost{0}; while (true) { std::vector<i64> d(n, INT64_MAX / 4); VI pe(n, -1); d[s] = 0; for (int r = 0; r < n; ++r) for (int i = 0; i < (int)a.size(); ++i) if (a[i].cap && d[a[i].u] < INT64_MAX / 4 && d[a[i].u] + a[i].cost < d[a[i].v]) d[a[i].v] = d[a[i].u] + a[i].cost, pe[a[i].v] = i; if (d[t] == INT64_MAX / 4) break; for (int v = t; v != s; v = a[pe[v]].u) --a[pe[v]].cap, ++a[pe[v] ^ 1].cap; cost.push_back(cost.back() + d[t]); }
    int mx = cost.size() - 1; cf::op("slope"); auto sl = g.min_cost_max_flow_slope(s, t); EXPECT_EQ((i64)sl.back().first, (i64)mx, "flow"); EXPECT_EQ((i64)sl.back().second, cost[mx], "cost");
    EXPECT(sl[0].first == 0 && sl[0].second == 0); for (size_t i = 0; i + 1 < sl.size(); ++i) { auto [f0, c0] = sl[i]; auto [f1, c1] = sl[i + 1]; EXPECT(f0 < f1); for (i64 f = f0; f <= f1; ++f) EXPECT_EQ(cost[f] * (i64)(f1 - f0), (i64)c0 * (f1 - f0) + (i64)(c1 - c0) * (f - f0), "slope at", f); }
    std::vector<i64> bal(n); i64 tot = 0; auto es = g.get_edges(); for (size_t k = 0; k < in.size(); ++k) { EXPECT(es[k].flow >= 0 && es[k].flow <= in[k].cap, "edge", k); bal[in[k].u] -= es[k].flow, bal[in[k].v] += es[k].flow; tot += es[k].flow * in[k].cost; } EXPECT_EQ(tot, cost[mx], "cost of the flow"); for (int v = 0; v < n; ++v) EXPECT_EQ(bal[v], (i64)(v == s ? -mx : v == t ? mx : 0), "conservation at", v);
}
SUITE(min_cost_flow_large) { switch (R(0, 3)) { case 0: mcf_big<int, int, BELLMAN_FORD>(true, false, "MinCostFlow<int,int,BELLMAN_FORD>"); break; case 1: mcf_big<int, i64, DIJKSTRA>(false, false, "MinCostFlow<int,ll,DIJKSTRA>"); break; case 2: mcf_big<int, int, DAG>(true, true, "MinCostFlow<int,int,DAG>"); break; default: mcf_big<i64, i64, BELLMAN_FORD>(true, false, "MinCostFlow<ll,ll,BELLMAN_FORD>"); } }
SUITE(assignment) {
    int n = R(0, 6); std::vector<std::vector<i64>> a(n, std::vector<i64>(n)); int lo = R(0, 1) ? -5 : -1000000; for (auto& r : a) for (auto& x : r) x = R(lo, -lo); cf::begin("assignment_problem", a); auto [c, as] = assignment_problem(a); VI p(n); std::iota(p.begin(), p.end(), 0); i64 best = INT64_MAX; do { i64 s = 0; for (int i = 0; i < n; ++i) s += a[i][p[i]]; best = std::min(best, s); } while (std::next_permutation(p.begin(), p.end()));
    EXPECT_EQ(c, best); EXPECT_EQ((int)as.size(), n); i64 s = 0; std::set<int> u; for (int i = 0; i < n; ++i) { EXPECT(as[i] >= 0 && as[i] < n && u.insert(as[i]).second, as); s += a[i][as[i]]; } EXPECT_EQ(s, best);
    std::vector<VI> b(n, VI(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) b[i][j] = a[i][j]; EXPECT_EQ((i64)assignment_problem(b).first, best, "int");
}
static VVI simple(int n, int pct, std::vector<unsigned>& adj) { VVI g(n); adj.assign(n, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (R(0, 99) < pct) { g[i].push_back(j), g[j].push_back(i); adj[i] |= 1u << j, adj[j] |= 1u << i; } for (auto& a : g) for (int i = (int)a.size() - 1; i > 0; --i) std::swap(a[i], a[R(0, i)]); return g; }
SUITE(cliques) {
    int n = R(0, 9); std::vector<unsigned> A; VVI g = simple(n, R(10, 100), A); cf::begin("cliques and triangles", g); auto clique = [&](unsigned m) { for (int i = 0; i < n; ++i) if (m >> i & 1) if ((A[i] | 1u << i) & m ^ m) return false; return true; };
    std::multiset<unsigned> got, want; enumerate_cliques(g, [&](const VI& c) { unsigned m = 0; for (int v : c) { EXPECT(v >= 0 && v < n && !(m >> v & 1), c); m |= 1u << v; } got.insert(m); }); int mc = 0; for (unsigned m = 1; m < 1u << n; ++m) if (clique(m)) want.insert(m), mc = std::max(mc, __builtin_popcount(m)); EXPECT_EQ(got.size(), want.size(), "number of cliques"); EXPECT(got == want, "cliques");
    got.clear(), want.clear(); enumerate_triangles(g, [&](int a, int b, int c) { EXPECT(a != b && b != c && a != c); got.insert(1u << a | 1u << b | 1u << c); }); for (unsigned m = 1; m < 1u << n; ++m) if (__builtin_popcount(m) == 3 && clique(m)) want.insert(m); EXPECT(got == want, "triangles", got.size(), want.size());
    auto C = maximum_clique(g); unsigned m = 0; for (int v : C) { EXPECT(v >= 0 && v < n && !(m >> v & 1), C); m |= 1u << v; } EXPECT(clique(m), "maximum_clique", C); EXPECT_EQ((int)C.size(), mc, "maximum_clique", C);
}
SUITE(independent_set) {
    int n = R(0, 11); std::vector<unsigned> A; VVI g = simple(n, R(5, 60), A); if (R(0, 3) == 0) { // unions of paths and cycles
        g.assign(n, {}); A.assign(n, 0); for (int i = 0; i < n;) { int l = R(1, n - i); auto add = [&](int a, int b) { g[a].push_back(b), g[b].push_back(a); A[a] |= 1u << b, A[b] |= 1u << a; }; for (int k = i; k + 1 < i + l; ++k) add(k, k + 1); if (l >= 3 && R(0, 1)) add(i, i + l - 1); i += l; } }
    cf::begin("maximum_independent_set", g); auto ind = [&](unsigned m) { for (int i = 0; i < n; ++i) if ((m >> i & 1) && (A[i] & m)) return false; return true; }; int best = 0; for (unsigned m = 0; m < 1u << n; ++m) if (__builtin_popcount(m) > best && ind(m)) best = __builtin_popcount(m);
    auto S = maximum_independent_set(g); unsigned m = 0; for (int v : S) { EXPECT(v >= 0 && v < n && !(m >> v & 1), S); m |= 1u << v; } EXPECT(ind(m), S); EXPECT_EQ((int)S.size(), best, S);
    auto C = minimum_vertex_cover(g); unsigned k = 0; for (int v : C) { EXPECT(!(k >> v & 1)); k |= 1u << v; } EXPECT(ind(((1u << n) - 1) & ~k), "minimum_vertex_cover", C); EXPECT_EQ((int)C.size(), n - best, "minimum_vertex_cover");
}
SUITE(manhattan) {
    int n = R(0, 9); int w = R(0, 1) ? 3 : 1000000; std::vector<std::pair<i64, i64>> p; for (int i = 0; i < n; ++i) p.emplace_back(R(-w, w), R(-w, w)); if (n >= 2 && R(0, 3) == 0) p[n - 1] = p[R(0, n - 2)]; cf::begin("manhattan_minimum_distances", p); std::vector<i64> want(n, INT64_MAX); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) want[i] = std::min(want[i], std::abs(p[i].first - p[j].first) + std::abs(p[i].second - p[j].second)); EXPECT_EQ(manhattan_minimum_distances(p), want);
}
