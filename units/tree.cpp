#include <vc.h>
#include <vector>
#include <utility>
#include <algorithm>
#include "library/tree/heavy_light_decomposition.hpp"
using VI = std::vector<int>;
using HLD = suisen::HeavyLightDecomposition;
VC_TYPE(VI, VI) VC_TYPE(HLD, HLD)
extern "C" {
// stands for the user's update callback: counts a visit of each of the positions l..r-1
void cover_range(VI* c, int l, int r) { for (int i = l; i < r; ++i) ++(*c)[i]; }
int hld_lca(const HLD* h, int u, int v) { return h->lca(u, v); }
int hld_la(const HLD* h, int u, int k, int d) { return h->la(u, k, d); }
int hld_dist(const HLD* h, int u, int v) { return h->dist(u, v); }
int hld_jump(const HLD* h, int u, int v, int d, int dv) { return h->jump(u, v, d, dv); }
void hld_update_path(const HLD* h, VI* c, int u, int v, bool edge) { h->update_path(u, v, [c](int l, int r) { cover_range(c, l, r); }, edge); }
}
