#include <vc.h>
#include <algorithm>
#include <cmath>
#include <numeric>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
struct S;                                  // state kept by the callbacks of Mo's algorithm; their meaning is the theory of specs/offline.py
extern "C" { S uf_S_addl(S, int); S uf_S_addr(S, int); S uf_S_dell(S, int); S uf_S_delr(S, int); long long uf_l_eval(S); }
struct S { long v; };
#include "library/algorithm/mo.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/maximum_square.hpp"
using Mo = suisen::Mo; using VL = std::vector<long long>; using VI = std::vector<int>;
using VV = std::vector<VI>; struct Sq { int area, u, d, l, r; };
struct Flag { int v; };
VC_TYPE(Flag, Flag) VC_TYPE(Mo, Mo) VC_TYPE(VL, VL) VC_TYPE(S, S) VC_TYPE(VI, VI) VC_TYPE(VV, VV) VC_TYPE(Sq, Sq)
extern "C" {
void mo_solve(VL* out, Mo& m, S* w) {
    new (out) VL(m.solve([w] { return uf_l_eval(*w); }, [w](int i) { *w = uf_S_addl(*w, i); }, [w](int i) { *w = uf_S_dell(*w, i); }, [w](int i) { *w = uf_S_addr(*w, i); }, [w](int i) { *w = uf_S_delr(*w, i); }));
}
void hist(const VI& h, int L, int R, int H, Flag* hit) { hit->v = 0; suisen::maximal_rectangles_hist(h, [hit, L, R, H](int l, int r, int x) { if (l == L && r == R && x == H) hit->v = 1; }); }
void msq(Sq* o, const VV& g) { auto p = suisen::maximum_square(g); o->area = p.first; o->u = std::get<0>(p.second); o->d = std::get<1>(p.second); o->l = std::get<2>(p.second); o->r = std::get<3>(p.second); }
}
