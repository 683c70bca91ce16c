// C17: graph traversal and connectivity, against brute-force oracles.
#include <cassert>
#include <iostream>
#include <iterator>
#include <numeric>
#include <utility>
#include <functional>
#include <deque>
#include "conf.h"
#include "library/graph/topological_sort.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/dijkstra.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/cycle_detection.hpp"
#include "library/graph/minmax_floyd_warshall.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/low_link.hpp"
#include "library/graph/two_edge_connected_components.hpp"
#include "library/graph/biconnected_components.hpp"
#include "library/graph/block_cut_forest.hpp"
#include "library/graph/scc_tournament.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
#include "library/graph/remove_multiedges.hpp"
#include "library/graph/directed_eulerian_graph.hpp"
#include "library/graph/undirected_eulerian_graph.hpp"
#include "library/graph/segment_tree_graph.hpp"
using namespace suisen;
using cf::R; using cf::rnd; using i64 = long long;
using VI = std::vector<int>; using VVI = std::vector<VI>; using EL = std::vector<std::pair<int, int>>;
static EL edges(int n, int m, bool loops, bool multi) {
    EL e; std::set<std::pair<int, int>> seen;
    for (int k = 0; k < m && n; ++k) { int u = R(0, n - 1), v = R(0, n - 1); if (!loops && u == v) continue; if (!multi && (!seen.insert({std::min(u, v), std::max(u, v)}).second)) continue; e.emplace_back(u, v); }
    return e;
}
static VVI dirg(int n, const EL& e) { VVI g(n); for (auto [u, v] : e) g[u].push_back(v); return g; }
static VVI undg(int n, const EL& e) { VVI g(n); for (auto [u, v] : e) g[u].push_back(v), g[v].push_back(u); return g; }
static const int INF = 1 << 29;
static std::vector<VI> fw(int n, const EL& e, const VI& w, bool und) {
    std::vector<VI> d(n, VI(n, INF)); for (int i = 0; i < n; ++i) d[i][i] = 0;
    for (size_t k = 0; k < e.size(); ++k) { auto [u, v] = e[k]; int c = w.empty() ? 1 : w[k]; d[u][v] = std::min(d[u][v], c); if (und) d[v][u] = std::min(d[v][u], c); }
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (d[i][k] < INF && d[k][j] < INF) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    return d;
}
static int compnum(int n, const EL& e, VI* id = nullptr, int skip_e = -1, int skip_v = -1) {
    VI p(n); std::iota(p.begin(), p.end(), 0); std::function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); };
    for (size_t k = 0; k < e.size(); ++k) if ((int)k != skip_e && e[k].first != skip_v && e[k].second != skip_v) p[f(e[k].first)] = f(e[k].second);
    int c = 0; for (int i = 0; i < n; ++i) c += f(i) == i && i != skip_v; if (id) { id->resize(n); for (int i = 0; i < n; ++i) (*id)[i] = f(i); } return c;
}
SUITE(topological) {
    int n = R(0, 8); EL e; bool dag = R(0, 1); VI perm(n); std::iota(perm.begin(), perm.end(), 0); for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[R(0, i)]);
    for (int k = R(0, 2 * n); k-- > 0 && n;) { int u = R(0, n - 1), v = R(0, n - 1); if (dag) { if (u == v) continue; if (u > v) std::swap(u, v); e.emplace_back(perm[u], perm[v]); } else e.emplace_back(u, v); }
    cf::begin("topological_sort n", n, "edges", e); auto d = fw(n, e, {}, false); bool cyc = false; for (auto [u, v] : e) cyc |= d[v][u] < INF;
    topological_sort t(dirg(n, e)); EXPECT_EQ(t.is_dag(), !cyc);
    if (!cyc) { VI pos(n, -1); EXPECT_EQ((int)t.sorted().size(), n); for (int i = 0; i < n; ++i) { EXPECT_EQ(t[i], t.sorted()[i]); EXPECT(t[i] >= 0 && t[i] < n && pos[t[i]] < 0, t.sorted()); pos[t[i]] = i; } for (auto [u, v] : e) EXPECT(pos[u] < pos[v], t.sorted()); }
}
template <class B> static void bfs_common(int n, const EL& e, B& b, const EL& oracle) {
    auto d = fw(n, oracle, {}, true); VI src; for (int k = n ? R(0, 3) : 0; k--;) src.push_back(R(0, n - 1));
    cf::op("sources", src); VI got = b.distance(src), want(n, INF); for (int v = 0; v < n; ++v) { for (int s : src) want[v] = std::min(want[v], d[s][v]); if (want[v] == INF) want[v] = -1; } EXPECT_EQ(got, want);
    if (n) { int s = R(0, n - 1); VI w = d[s]; for (int& x : w) if (x == INF) x = -1; EXPECT_EQ(b.distance(s), w, "single source", s); }
    auto cc = b.connected_components(); VI id; int c = compnum(n, oracle, &id); EXPECT_EQ((int)cc.size(), c); VI seen(n); for (auto& g : cc) { EXPECT(!g.empty(), cc); for (int v : g) { EXPECT(v >= 0 && v < n && !seen[v], cc); seen[v] = 1; EXPECT_EQ(id[v], id[g[0]], cc); } } for (int v = 0; v < n; ++v) EXPECT(seen[v], cc);
}
SUITE(bfs) { int n = R(0, 8); EL e = edges(n, R(0, 10), true, true); cf::begin("BFS n", n, "edges", e); if (R(0, 1)) { BFS b(n, e); bfs_common(n, e, b, e); } else { BFS b(undg(n, e)); bfs_common(n, e, b, e); } }
SUITE(bfs_complement) {
    int n = R(0, 8); EL e = edges(n, R(0, 25), true, true), o; cf::begin("ComplementBFS n", n, "edges", e); std::set<std::pair<int, int>> S; for (auto [u, v] : e) S.insert({u, v}), S.insert({v, u}); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (!S.count({i, j})) o.emplace_back(i, j);
    if (R(0, 1)) { ComplementBFS b(n, e); bfs_common(n, e, b, o); } else { ComplementBFS b(undg(n, e)); bfs_common(n, e, b, o); }
}
SUITE(bfs01) {
    int n = R(1, 8); EL e = edges(n, R(0, 16), true, true); VI w; for (auto& x : e) (void)x, w.push_back(R(0, 1)); VI src; for (int k = R(1, 3); k--;) src.push_back(R(0, n - 1)); cf::begin("BFS01 n", n, "edges", e, "costs", w, "sources", src);
    auto d = fw(n, e, w, false); auto g = [&](int u, auto f) { for (size_t k = 0; k < e.size(); ++k) if (e[k].first == u) f(e[k].second, (bool)w[k]); };
    BFS01 b(n, src, g); MapBFS01<int> mb(src, g); BFS01 b1(n, src[0], g); MapBFS01<int> mb1(src[0], g);
    for (int v = 0; v < n; ++v) { int want = INF; for (int s : src) want = std::min(want, d[s][v]); auto chk = [&](auto& x, int wv) { EXPECT_EQ(x.is_reachable(v), wv < INF, v); EXPECT_EQ(x.is_unreachable(v), wv == INF, v); if (wv < INF) EXPECT_EQ(x[v], wv, "distance of", v); }; chk(b, want); chk(mb, want); chk(b1, d[src[0]][v]); chk(mb1, d[src[0]][v]); }
}
SUITE(dijkstra) {
    int n = R(1, 9); EL e = edges(n, R(0, 25), true, true); VI w; for (auto& x : e) (void)x, w.push_back(R(0, 3) ? R(0, 20) : R(0, 100000)); int s = R(0, n - 1); cf::begin("dijkstra n", n, "edges", e, "costs", w, "source", s); auto d = fw(n, e, w, false);
    std::vector<std::vector<std::pair<int, i64>>> g(n); for (size_t k = 0; k < e.size(); ++k) g[e[k].first].emplace_back(e[k].second, w[k]); dijkstra<i64> D(g, s);
    for (int v = 0; v < n; ++v) { EXPECT_EQ(D.is_unreachable(v), d[s][v] == INF, v); EXPECT_EQ(D.is_reachale(v), d[s][v] < INF, v); if (d[s][v] == INF) continue; EXPECT_EQ(D[v], (i64)d[s][v], "distance to", v);
        auto p = D.path_to(v); EXPECT(!p.empty() && (int)p[0] == s && (int)p.back() == v); i64 tot = 0; for (size_t i = 0; i + 1 < p.size(); ++i) { int best = INF; for (size_t k = 0; k < e.size(); ++k) if (e[k] == std::pair<int, int>(p[i], p[i + 1])) best = std::min(best, w[k]); EXPECT(best < INF, "not an edge"); tot += best; } EXPECT_EQ(tot, D[v], "path length to", v); }
}
SUITE(shortest_path_dag) {
    int n = R(1, 8); EL e; VI perm(n); std::iota(perm.begin(), perm.end(), 0); for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[R(0, i)]); VI w; int s = perm[0]; std::vector<std::tuple<int, int, i64>> te;
    for (int k = R(0, 20); k--;) { int u = R(0, n - 1), v = R(0, n - 1); if (u == v) continue; if (u > v) std::swap(u, v); e.emplace_back(perm[u], perm[v]); w.push_back(R(-10, 10)); te.emplace_back(perm[u], perm[v], w.back()); }
    cf::begin("single_source_shortest_path_dag n", n, "edges", e, "costs", w, "source", s); auto d = fw(n, e, w, false); Graph<i64> g(n, te, directed_graph_tag{}); auto r = single_source_shortest_path_dag(g, s);
    for (int v = 0; v < n; ++v) EXPECT_EQ(r[v], d[s][v] == INF ? std::numeric_limits<i64>::max() : (i64)d[s][v], v);
    Graph<void> h(n, e, directed_graph_tag{}); auto d1 = fw(n, e, {}, false); auto r1 = single_source_shortest_path_dag(h, s); for (int v = 0; v < n; ++v) EXPECT_EQ(r1[v], d1[s][v] == INF ? std::numeric_limits<int>::max() : d1[s][v], v);
}
SUITE(csr_graph) {
    int n = R(1, 6); EL e = edges(n, R(0, 12), true, true); bool und = R(0, 1); cf::begin("Graph n", n, und ? "undirected" : "directed", "edges", e); VVI want = und ? undg(n, e) : dirg(n, e);
    auto contents = [&](const auto& g) { VVI r(n); for (int i = 0; i < n; ++i) { for (int v : g[i]) r[i].push_back(v); EXPECT_EQ(g[i].size(), (int)r[i].size()); } return r; };
    std::optional<Graph<void>> src; if (und) src = Graph<void>::create_undirected_graph(n, e); else src = Graph<void>::create_directed_graph(n, e);
    Graph<void> g = *src; src.reset(); // a copy must not refer to the original
    if (R(0, 1)) { EXPECT_EQ(contents(g), want); }
    if (!und && R(0, 1)) { VVI rw(n); for (auto [u, v] : e) rw[v].push_back(u); auto x = contents(g.reversed()); for (auto& a : x) std::sort(a.begin(), a.end()); for (auto& a : rw) std::sort(a.begin(), a.end()); EXPECT_EQ(x, rw, "reversed"); }
    if (R(0, 1)) { int s = R(0, n - 1); auto t = g.dfs_tree(s); EXPECT_EQ((int)t.par.size(), n); VI pre(n, -1), pst(n, -1); EXPECT_EQ((int)t.pre_ord.size(), n); EXPECT_EQ((int)t.pst_ord.size(), n); for (int i = 0; i < n; ++i) pre[t.pre_ord[i]] = i, pst[t.pst_ord[i]] = i; for (int i = 0; i < n; ++i) EXPECT(pre[i] >= 0 && pst[i] >= 0, i); EXPECT_EQ(t.pre_ord[0], s);
        for (int v = 0; v < n; ++v) { int p = t.par[v]; if (p >= 0) EXPECT(std::count(want[p].begin(), want[p].end(), v) && pre[p] < pre[v] && pst[v] < pst[p], "parent of", v, p); else EXPECT_EQ(p, -1); for (int u : want[v]) EXPECT(!(pst[v] < pre[u] && false) && !(pre[v] < pre[u] && pst[v] < pst[u]), "an edge leads from a finished vertex to a later one", v, u); }
        VVI tw(n); for (int v = 0; v < n; ++v) if (t.par[v] >= 0) tw[t.par[v]].push_back(v); auto x = contents(t.tree); for (auto& a : x) std::sort(a.begin(), a.end()); EXPECT_EQ(x, tw, "tree"); }
    for (int q = R(0, 6); q--;) { // editing within capacity
        int u = R(0, n - 1); auto& A = g[u]; auto& W = want[u]; int k = R(0, 6); int sz = W.size();
        if (k == 0 && sz) { cf::op("pop_back", u); A.pop_back(); W.pop_back(); }
        else if (k == 1 && sz) { int i = R(0, sz - 1), j = R(i, sz); cf::op("erase", u, i, j); A.erase(A.cbegin() + i, A.cbegin() + j); W.erase(W.begin() + i, W.begin() + j); }
        else if (k == 2 && sz < A.capacity()) { int v = R(0, n - 1); cf::op("push_back", u, v); A.push_back(v); W.push_back(v); }
        else if (k == 3 && sz < A.capacity()) { int v = R(0, n - 1), i = R(0, sz); cf::op("emplace", u, i, v); A.emplace(A.cbegin() + i, v); W.insert(W.begin() + i, v); }
        else if (k == 4 && sz < A.capacity()) { int v = R(0, n - 1), i = R(0, sz), c = R(0, A.capacity() - sz); cf::op("insert", u, i, c, v); A.insert(A.cbegin() + i, c, v); W.insert(W.begin() + i, c, v); }
        else if (k == 5) { VI x; for (int c = R(0, A.capacity() - sz); c--;) x.push_back(R(0, n - 1)); int i = R(0, sz); cf::op("insert range", u, i, x); A.insert(A.cbegin() + i, x.begin(), x.end()); W.insert(W.begin() + i, x.begin(), x.end()); }
        else { cf::op("shrink_to_fit"); if (R(0, 1)) { auto h = std::make_unique<Graph<void>>(g); Graph<void> c = *h; h.reset(); c.shrink_to_fit(); g = c; } else g.shrink_to_fit(); }
        auto x = contents(g); EXPECT_EQ(x, want); for (int i = 0; i < n; ++i) { VI rv; for (auto it = g[i].rbegin(); it != g[i].rend(); ++it) rv.push_back(*it); std::reverse(rv.begin(), rv.end()); EXPECT_EQ(rv, want[i]); if (want[i].size()) { EXPECT_EQ(g[i].front(), want[i].front()); EXPECT_EQ(g[i].back(), want[i].back()); int k2 = R(0, want[i].size() - 1); EXPECT_EQ(g[i][k2], want[i][k2]); EXPECT_EQ(g[i].at(k2), want[i][k2]); } }
    }
}
SUITE(csr_weighted) {
    int n = R(1, 6); std::vector<std::tuple<int, int, i64>> te; std::vector<std::vector<std::pair<int, i64>>> want(n); bool und = R(0, 1); EL e = edges(n, R(0, 10), true, true); cf::begin("weighted Graph n", n, und ? "undirected" : "directed", "edges", e);
    for (auto [u, v] : e) { i64 w = R(-5, 5); te.emplace_back(u, v, w); want[u].emplace_back(v, w); if (und) want[v].emplace_back(u, w); }
    auto chk = [&](const auto& g) { for (int i = 0; i < n; ++i) { std::vector<std::pair<int, i64>> r; for (auto& ed : g[i]) r.emplace_back((int)ed, Graph<i64>::get_weight(ed)); EXPECT_EQ(r, want[i], "adjacency of", i); } EXPECT_EQ(g.size(), n); };
    if (und) { UndirectedGraphBuilder<i64> b(n); for (auto& t : te) b.add_edge(t); chk(b.build_without_move()); chk(b.build()); } else { DirectedGraphBuilder<i64> b(n); b.add_edges(te); chk(b.build_without_move()); chk((DirectedGraphBuilder<i64>::build(n, te))); }
}
SUITE(cycle_detection) {
    int n = R(0, 7); EL e = edges(n, R(0, n + 1), true, true); std::vector<std::tuple<int, int, int>> te; VI w; for (auto [u, v] : e) w.push_back(R(1, 2)), te.emplace_back(u, v, w.back());
    { cf::begin("get_cycle_directed n", n, "edges", e); Graph<int> g(n, te, directed_graph_tag{}); auto d = fw(n, e, {}, false); bool cyc = false; for (auto [u, v] : e) cyc |= d[v][u] < INF; auto c = get_cycle_directed(g); EXPECT_EQ(c.has_value(), cyc);
      if (c) { auto& C = *c; EXPECT(C.size() >= 1); std::set<int> vs; for (size_t i = 0; i < C.size(); ++i) { int from = (int)C[(i + C.size() - 1) % C.size()], to = (int)C[i]; EXPECT(vs.insert(to).second, "vertex repeated", to); EXPECT(std::count(te.begin(), te.end(), std::make_tuple(from, to, Graph<int>::get_weight(C[i]))), "not an edge", from, to); } } }
}
SUITE(cycle_detection_undirected) {
    int n = R(0, 7); EL e = edges(n, R(0, n + 1), true, true); std::vector<std::tuple<int, int, int>> te; VI w; for (auto [u, v] : e) w.push_back(R(1, 2)), te.emplace_back(u, v, w.back());
    cf::begin("get_cycle_undirected n", n, "edges", e, "weights", w); Graph<int> g(n, te, undirected_graph_tag{}); bool cyc = (int)e.size() > n - compnum(n, e); auto c = get_cycle_undirected(g); EXPECT_EQ(c.has_value(), cyc);
    if (c) { auto& C = *c; EXPECT(C.size() >= 1); std::set<int> vs; std::map<std::tuple<int, int, int>, int> avail; for (auto [u, v, x] : te) avail[{std::min(u, v), std::max(u, v), x}]++; for (size_t i = 0; i < C.size(); ++i) { int from = (int)C[(i + C.size() - 1) % C.size()], to = (int)C[i]; EXPECT(vs.insert(to).second, "vertex repeated", to); int left = avail[{std::min(from, to), std::max(from, to), Graph<int>::get_weight(C[i])}]--; EXPECT(left > 0, "not a (further) edge", from, to); } }
    Graph<void> h(n, e, undirected_graph_tag{}); EXPECT_EQ(get_cycle_undirected(h).has_value(), cyc, "unweighted");
}
SUITE(minmax_floyd_warshall) {
    int n = R(0, 9); if (R(0, 40) == 0) n = R(60, 70); std::vector<std::vector<i64>> a(n, std::vector<i64>(n)); for (auto& r : a) for (auto& x : r) x = R(0, 1) ? R(0, 5) : R(-1000, 1000); cf::begin("minmax_floyd_warshall", n < 10 ? a : std::vector<std::vector<i64>>{}, n); bool mx = R(0, 1);
    auto d = a; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d[i][j] = mx ? std::max(d[i][j], std::min(d[i][k], d[k][j])) : std::min(d[i][j], std::max(d[i][k], d[k][j]));
    auto g = mx ? minmax_floyd_warshall(a, std::greater<i64>()) : minmax_floyd_warshall(a); EXPECT(g == d, mx ? "greater" : "less");
}
SUITE(bipartite) {
    int n = R(0, 8); EL e = edges(n, R(0, 9), R(0, 5) == 0, true); int c0 = R(0, 4), c1 = R(0, 4); if (c0 == c1) c1 = c0 + 1; if (R(0, 1)) c0 = 0, c1 = 1; cf::begin("bipartite_coloring n", n, "edges", e, "colours", c0, c1); bool odd = true; { bool any = false; for (int m = 0; m < 1 << n && !any; ++m) { bool ok = true; for (auto [u, v] : e) ok &= ((m >> u) & 1) != ((m >> v) & 1); any = ok; } odd = !any; }
    auto r = bipartite_coloring(undg(n, e), c0, c1); EXPECT_EQ(r.has_value(), !odd); if (r) { EXPECT_EQ((int)r->size(), n); for (int x : *r) EXPECT(x == c0 || x == c1, *r); for (auto [u, v] : e) EXPECT((*r)[u] != (*r)[v], *r); }
}
using MS = std::string; static MS cat(MS a, MS b) { return a + b; } static MS emp() { return ""; }
SUITE(functional_graph) {
    int n = R(1, 9); VI f(n); for (int& x : f) x = R(0, n - 1); i64 k = R(0, 2) ? R(0, 40) : (i64)(rnd() >> R(1, 63)); cf::begin("FunctionalGraph", f, "k", k); FunctionalGraph g(f); for (int i = 0; i < n; ++i) EXPECT_EQ(g[i], f[i]);
    auto iter = [&](int u, i64 d) { if (d > 1000) { i64 L = 2520; d = 40 + (d - 40) % L; } while (d--) u = f[u]; return u; };
    VI want(n); for (int i = 0; i < n; ++i) want[i] = iter(i, k); EXPECT_EQ(g.kth_iterate(k), want, "kth_iterate");
    auto D = g.doubling(k); for (int i = 0; i < n; ++i) { i64 d = R(0, 1) ? k : R(0, k); EXPECT_EQ(D.query(i, d), iter(i, d), "doubling query", i, d); }
    auto P = g.infinite_paths(); for (int i = 0; i < n; ++i) { VI pos(n, -1); int u = i, s = 0; while (pos[u] < 0) pos[u] = s++, u = f[u]; EXPECT_EQ(P[i].head_v, i); EXPECT_EQ(P[i].head_len, pos[u], i); EXPECT_EQ(P[i].loop_v, u, i); EXPECT_EQ(P[i].loop_len, s - pos[u], i); }
    { // binary search on a monotone predicate: vertices reached from u in fewer than b steps
      i64 m = R(1, 30); auto M = g.doubling(m); int u = R(0, n - 1); VI first(n, -1); { int x = u, s = 0; while (first[x] < 0) first[x] = s++, x = f[x]; } int b = R(1, n); auto pr = [&](int v) { return first[v] >= 0 && first[v] < b; }; 
      i64 lim = 1; while (lim <= m) lim *= 2; i64 st2 = 0; bool mono = true; { int x = u; bool dead = false; for (i64 q = 0; q < lim; ++q) { if (!pr(x)) dead = true; else if (dead) mono = false; x = f[x]; } } int x = u; while (st2 + 1 < lim && pr(f[x])) x = f[x], ++st2;
      if (mono) { auto r = M.max_step(u, pr); EXPECT_EQ(r.step, st2, "max_step", m, u, b); EXPECT_EQ(r.v, x, "max_step vertex"); auto q = M.step_until(u, [&](int v) { return !pr(v); }); bool ok = !pr(f[x]); EXPECT_EQ(q.has_value(), ok, "step_until"); if (ok) { EXPECT_EQ(q->step, st2 + 1); EXPECT_EQ(q->v, f[x]); } } }
    { i64 m = R(1, 20); std::vector<MS> dat(n); for (int i = 0; i < n; ++i) dat[i] = std::string(1, 'a' + i); auto S = g.doubling<MS, cat, emp>(m, dat); int u = R(0, n - 1); i64 d = R(0, m); MS ws; int x = u; for (i64 q = 0; q < d; ++q) ws += dat[x], x = f[x]; auto r = S.query(u, d); EXPECT_EQ(r.v, x, "sum query", u, d); EXPECT_EQ(r.sum, ws, "sum query", u, d);
      i64 lim = 1; while (lim <= m) lim *= 2; int L = R(0, 25); auto t = S.max_step(u, [&](const MS& s) { return (int)s.size() <= L; }); i64 want2 = std::min<i64>(L, lim - 1); MS wt; x = u; for (i64 q = 0; q < want2; ++q) wt += dat[x], x = f[x]; EXPECT_EQ(t.step, want2, "sum max_step"); EXPECT_EQ(t.v, x); EXPECT_EQ(t.sum, wt);
      auto q = S.step_until(u, [&](const MS& s) { return (int)s.size() >= L; }); EXPECT_EQ(q.has_value(), L <= lim, "sum step_until", L); if (q) { EXPECT_EQ(q->step, (i64)L); EXPECT_EQ((int)q->sum.size(), L); } }
}
static void chk_low(int n, const EL& e, LowLink& g) {
    int c = compnum(n, e); EXPECT_EQ(g.connected_component_num(), c); std::vector<int> br; std::set<int> art;
    for (size_t k = 0; k < e.size(); ++k) { bool b = compnum(n, e, nullptr, k) > c; if (b) br.push_back(k); EXPECT_EQ(g.is_bridge(e[k].first, e[k].second), b, "is_bridge", e[k]); EXPECT_EQ(g.connected_component_num_if_removed(e[k].second, e[k].first), c + b, "edge", e[k]); }
    for (int v = 0; v < n; ++v) { int r = compnum(n, e, nullptr, -1, v); if (r > c) art.insert(v); EXPECT_EQ(g.connected_component_num_if_removed(v), r, "vertex", v); EXPECT_EQ(g.is_articulation_point(v), r > c, v); }
    auto b = g.bridge_ids(); std::sort(b.begin(), b.end()); EXPECT_EQ(b, br); auto a = g.articulation_points(); std::sort(a.begin(), a.end()); EXPECT_EQ(a, VI(art.begin(), art.end()));
    EXPECT_EQ(g.vertex_num(), n); EXPECT_EQ(g.edge_num(), (int)e.size());
}
// drive add_edge/build in several rounds
template <class G, class F> static void rounds(int n, const EL& e, F chk) { if (R(0, 2)) { G g(n, e); chk(e, g); return; } G g(n); EL cur; size_t k = 0; do { size_t to = R(k, e.size()); for (; k < to; ++k) EXPECT_EQ(g.add_edge(e[k].first, e[k].second), (int)k); cur.assign(e.begin(), e.begin() + k); g.build(); cf::op("built with", k, "edges"); chk(cur, g); } while (k < e.size()); }
SUITE(low_link) { int n = R(0, 8); EL e = edges(n, R(0, 11), R(0, 3) == 0, true); cf::begin("LowLink n", n, "edges", e); rounds<LowLink>(n, e, [&](const EL& x, LowLink& g) { chk_low(n, x, g); }); }
SUITE(two_edge_connected) {
    int n = R(0, 8); EL e = edges(n, R(0, 11), R(0, 3) == 0, true); cf::begin("TwoEdgeConnectedComponents n", n, "edges", e);
    rounds<TwoEdgeConnectedComponents>(n, e, [&](const EL& x, TwoEdgeConnectedComponents& g) { int c = compnum(n, x); EL keep; std::vector<size_t> br; for (size_t k = 0; k < x.size(); ++k) if (compnum(n, x, nullptr, k) > c) br.push_back(k); else keep.push_back(x[k]); VI id; int m = compnum(n, keep, &id); EXPECT_EQ(g.component_num(), m);
        for (int i = 0; i < n; ++i) { EXPECT(g[i] >= 0 && g[i] < m, i); for (int j = 0; j < n; ++j) EXPECT_EQ(g[i] == g[j], id[i] == id[j], i, j); } auto G = g.groups(); EXPECT_EQ((int)G.size(), m); int tot = 0; for (int q = 0; q < m; ++q) for (int v : G[q]) { EXPECT_EQ(g[v], q); ++tot; } EXPECT_EQ(tot, n);
        auto F = g.reduced_forest(); EXPECT_EQ((int)F.size(), m); size_t cnt = 0; for (int q = 0; q < m; ++q) for (auto [to, id2] : F[q]) { ++cnt; EXPECT(std::count(br.begin(), br.end(), (size_t)id2), "not a bridge", id2); int a = g[x[id2].first], b = g[x[id2].second]; EXPECT((a == q && b == to) || (b == q && a == to), q, to); } EXPECT_EQ(cnt, 2 * br.size()); });
}
SUITE(biconnected) {
    int n = R(0, 7); EL e = edges(n, R(0, 10), false, true); cf::begin("BiconnectedComponents n", n, "edges", e);
    rounds<BiconnectedComponents>(n, e, [&](const EL& x, BiconnectedComponents& g) {
        int m = x.size(); // two edges are in one component iff equal or on a common simple cycle: no vertex separates them
        auto same = [&](int a, int b) { if (a == b) return true; for (int v = 0; v < n; ++v) { // remove v: are the edges a and b still joined by the remaining vertices
                VI id; compnum(n, x, &id, -1, v); auto rest = [&](int k) { VI r; if (x[k].first != v) r.push_back(id[x[k].first]); if (x[k].second != v) r.push_back(id[x[k].second]); return r; }; bool j = false; for (int p : rest(a)) for (int q : rest(b)) j |= p == q; if (!j) return false; } return true; };
        VI iso; { VI deg(n); for (auto [u, v] : x) deg[u]++, deg[v]++; for (int v = 0; v < n; ++v) if (!deg[v]) iso.push_back(v); }
        EXPECT_EQ(g.isolated_vertices(), iso); EXPECT_EQ(g.isolated_vertex_num(), (int)iso.size()); int ec = g.edge_component_num(); EXPECT_EQ(g.component_num(), ec + (int)iso.size()); VI used(ec);
        for (int a = 0; a < m; ++a) { EXPECT(g[a] >= 0 && g[a] < ec, a); used[g[a]] = 1; for (int b = 0; b < a; ++b) EXPECT_EQ(g[a] == g[b], same(a, b), "edges", a, b); } for (int u : used) EXPECT(u);
        auto C = g.components(); EXPECT_EQ((int)C.size(), g.component_num()); for (int q = 0; q < (int)C.size(); ++q) { EXPECT_EQ(g.is_isolated_component(q), q >= ec); VI es; std::set<int> vs; for (int a = 0; a < m; ++a) if (g[a] == q) es.push_back(a), vs.insert(x[a].first), vs.insert(x[a].second); if (q >= ec) vs.insert(iso[q - ec]); auto E2 = C[q].edge_set(); std::sort(E2.begin(), E2.end()); EXPECT_EQ(E2, es); auto V2 = C[q].vertex_set(); std::sort(V2.begin(), V2.end()); EXPECT_EQ(V2, VI(vs.begin(), vs.end()), "component", q); }
        // block-cut forest
        BlockCutForest B(g); auto art = g.articulation_points(); EXPECT_EQ(B.size(), (int)(C.size() + art.size())); int base = C.size(); VI aid(n, -1); int cnt = 0;
        for (int id = 0; id < B.size(); ++id) { EXPECT_EQ(B.is_articulation_point(id), id >= base); EXPECT_EQ(B.is_biconnected_component(id), id < base); EXPECT_EQ(B.is_isolated_vertex(id), id >= ec && id < base); }
        for (size_t k = 0; k < art.size(); ++k) { int id = base + k, v = art[k]; std::set<int> cs; for (int q = 0; q < ec; ++q) { auto& V = C[q].vids; if (std::count(V.begin(), V.end(), v)) cs.insert(q); } VI nb = B[id]; std::sort(nb.begin(), nb.end()); EXPECT_EQ(nb, VI(cs.begin(), cs.end()), "articulation point", v); EXPECT_EQ(B.vertex_num(id), 1); aid[v] = id; cnt += nb.size(); }
        int cnt2 = 0; for (int q = 0; q < base; ++q) { cnt2 += B[q].size(); EXPECT_EQ(B.vertex_num(q), C[q].vertex_num(), "size of component", q); for (int t : B[q]) EXPECT(t >= base && std::count(B[t].begin(), B[t].end(), q) == 1, q, t); } EXPECT_EQ(cnt, cnt2);
        for (int v = 0; v < n; ++v) { int q = B.component_id(v); EXPECT(q >= 0 && q < base, v); EXPECT(std::count(C[q].vids.begin(), C[q].vids.end(), v), "component_id", v); } });
}
SUITE(scc_tournament) {
    int n = R(0, 8); VVI adj(n, VI(n)); VI in(n); EL e; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { bool b = R(0, 1); if (R(0, 2) == 0) b = true; int u = b ? i : j, v = b ? j : i; adj[u][v] = 1; in[v]++; e.emplace_back(u, v); } cf::begin("scc_tournament in-degrees", in); auto d = fw(n, e, {}, false);
    auto s = scc_tournament(in); VI pos(n, -1); for (size_t k = 0; k < s.size(); ++k) { EXPECT(!s[k].empty()); for (int v : s[k]) { EXPECT(pos[v] < 0); pos[v] = k; } } for (int i = 0; i < n; ++i) { EXPECT(pos[i] >= 0, i); for (int j = 0; j < n; ++j) { EXPECT_EQ(pos[i] == pos[j], d[i][j] < INF && d[j][i] < INF, i, j); if (d[i][j] < INF) EXPECT(pos[i] <= pos[j], "topological order", i, j); } }
}
SUITE(remove_multiedges) { int n = R(0, 6); EL e = edges(n, R(0, 20), true, true); cf::begin("remove_multiedges n", n, "edges", e); VVI g = dirg(n, e), w = g; for (auto& a : w) { VI b; for (int v : a) if (!std::count(b.begin(), b.end(), v)) b.push_back(v); a = b; } remove_multiedges(g); EXPECT_EQ(g, w); }
// ---------------------------------------------------------------- eulerian trails
static bool has_trail(int n, EL e, bool und, bool closed, int start, bool diff) { // exhaustive search over edge subsets
    int m = e.size(); if (m == 0) return !diff && n > 0; std::set<std::pair<int, int>> seen; // (mask, vertex)
    for (int s = 0; s < n; ++s) { if (start >= 0 && s != start) continue; std::vector<std::pair<int, int>> stk{{0, s}}; std::set<std::pair<int, int>> vis; while (!stk.empty()) { auto [mk, u] = stk.back(); stk.pop_back(); if (!vis.insert({mk, u}).second) continue; if (mk == (1 << m) - 1 && (!closed || u == s) && (!diff || u != s)) return true; for (int k = 0; k < m; ++k) if (!(mk >> k & 1)) { if (e[k].first == u) stk.push_back({mk | 1 << k, e[k].second}); if (und && e[k].second == u) stk.push_back({mk | 1 << k, e[k].first}); } } }
    return false;
}
static void chk_trail(const VI& t, EL e, bool und) { EXPECT_EQ(t.size(), e.size() + 1, t); for (size_t i = 0; i + 1 < t.size(); ++i) { bool ok = false; for (size_t k = 0; k < e.size(); ++k) if ((e[k].first == t[i] && e[k].second == t[i + 1]) || (und && e[k].second == t[i] && e[k].first == t[i + 1])) { e.erase(e.begin() + k); ok = true; break; } EXPECT(ok, "edge not available", t[i], t[i + 1], t); } }
template <class G> static void euler(bool und, const char* nm) {
    int n = R(1, 5); EL e; if (R(0, 2) && n) { int u = R(0, n - 1); for (int k = R(0, 8); k--;) { int v = R(0, n - 1); if (und && R(0, 1)) e.emplace_back(v, u); else e.emplace_back(u, v); u = v; } } else e = edges(n, R(0, 6), true, true);
    for (int i = (int)e.size() - 1; i > 0; --i) std::swap(e[i], e[R(0, i)]); cf::begin(nm, "n", n, "edges", e); G g(n); for (auto [u, v] : e) g.add_edge(u, v);
    for (int q = R(1, 6); q--;) { int k = R(0, 4); // several queries on one object, with edges added in between
        if (k == 4) { if (e.size() < 9) { int u = R(0, n - 1), v = R(0, n - 1); cf::op("add_edge", u, v); e.emplace_back(u, v); g.add_edge(u, v); } continue; }
        if (k <= 1) { int s = k && n ? R(0, n - 1) : -1; cf::op("eulerian_circuit", s); auto r = g.eulerian_circuit(s); EXPECT_EQ(r.has_value(), has_trail(n, e, und, true, s, false)); if (r) { chk_trail(*r, e, und); EXPECT_EQ(r->front(), r->back()); if (s >= 0) EXPECT_EQ(r->front(), s); } }
        else { bool diff = k == 3; cf::op("eulerian_trail", diff); auto r = g.eulerian_trail(diff); EXPECT_EQ(r.has_value(), has_trail(n, e, und, false, -1, diff)); if (r) { chk_trail(*r, e, und); if (diff) EXPECT(r->front() != r->back(), *r); } }
    }
}
SUITE(euler_directed) { euler<DirectedEulerianGraph>(false, "DirectedEulerianGraph"); }
SUITE(euler_undirected) { euler<UndirectedEulerianGraph>(true, "UndirectedEulerianGraph"); }
SUITE(segment_tree_graph) {
    int n = R(1, 20); cf::begin("SegmentTreeGraph n", n); SegmentTreeGraph g(n); int k = R(1, 3); VVI ps; for (int q = 0; q < k; ++q) { VI p(n); std::iota(p.begin(), p.end(), 0); if (q) for (int i = n - 1; i > 0; --i) std::swap(p[i], p[R(0, i)]); ps.push_back(p); int id = q ? g.add_order(p) : g.add_order_identity(); EXPECT_EQ(id, q); } EXPECT_EQ(g.size(), n + k * (n - 1));
    VVI ch(g.size()); if (R(0, 1)) g.add_edges_to_children([&](int u, int v) { ch[u].push_back(v); }); else g.add_edges_to_children([&](int u, int l, int r) { ch[u].push_back(l); ch[u].push_back(r); });
    std::function<void(int, std::multiset<int>&)> leaves = [&](int v, std::multiset<int>& s) { if (v < n) { s.insert(v); return; } for (int c : ch[v]) leaves(c, s); };
    for (int v = 0; v < g.size(); ++v) { EXPECT_EQ(g.is_segment_node(v), v >= n); if (v >= n && ch[v].size()) { auto nd = g[v]; std::multiset<int> s, w; leaves(v, s); for (int i = nd.l; i < nd.r; ++i) w.insert(ps[nd.order_id][i]); EXPECT(s == w, "node", v, "claims", nd.order_id, nd.l, nd.r); } }
    for (int q = 0; q < 5; ++q) { int o = R(0, k - 1), l = R(0, n), r = R(l, n); std::multiset<int> s, w; g.add_edge(0, SegmentTreeGraph::SegmentNode{o, l, r}, [&](int u, int v) { EXPECT_EQ(u, 0); leaves(v, s); }); for (int i = l; i < r; ++i) w.insert(ps[o][i]); EXPECT(s == w, "range", o, l, r); }
}
