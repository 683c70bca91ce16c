#include <vc.h>
#include <vector>
#include <deque>
#include <queue>
#include <optional>
#include <tuple>
#include <utility>
#include <numeric>
#include <algorithm>
#include "library/graph/functional_graph.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
using VI = std::vector<int>;
using VVI = std::vector<VI>;
using FG = suisen::FunctionalGraph;
using DB = suisen::FunctionalGraph::Doubling;
using BF = suisen::BFS;
using TS = suisen::topological_sort;
VC_TYPE(VI, VI) VC_TYPE(FG, FG) VC_TYPE(DB, DB) VC_TYPE(BF, BF) VC_TYPE(TS, TS)
extern "C" {
void fg_doubling(DB* out, const FG* g, long long k) { ::new (out) DB(g->doubling(k)); }
int fg_query(const DB* d, int u, long long k) { return d->query(u, k); }
void bfs_dist(VI* out, const BF* b, const VI* src) { ::new (out) VI(b->distance(*src)); }
}
