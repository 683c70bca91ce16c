#include <vc.h>
#include <stdint.h>
#include <vector>
#include <array>
#include <deque>
#include <algorithm>
#include <numeric>
#include <utility>
#include "library/graph/maximum_clique.hpp"
#include "library/graph/minimum_vertex_cover.hpp"
#include "library/graph/remove_multiedges.hpp"
using VI = std::vector<int>;
using VVI = std::vector<VI>;
VC_TYPE(VI, VI) VC_TYPE(VVI, VVI)
extern "C" {
void min_cover(VI* out, const VVI* g) { ::new (out) VI(suisen::minimum_vertex_cover(*g)); }
void max_clique(VI* out, const VVI* g) { ::new (out) VI(suisen::maximum_clique(*g)); }
}
