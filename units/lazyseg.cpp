#include <vc.h>
#include <vector>
struct T { unsigned long v; };
struct F { unsigned long v; };
extern "C" { T uf_T_op(T, T); T uf_T_e(); T uf_T_map(F, T); F uf_F_comp(F, F); F uf_F_id(); T uf_T_cmap(F, T); }
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
using CD = suisen::CommutativeDualSegmentTree<T, F, uf_T_cmap, uf_F_comp, uf_F_id>;
using DU = suisen::DualSegmentTree<T, F, uf_T_map, uf_F_comp, uf_F_id>;
using VT = std::vector<T>;
VC_TYPE(T, T) VC_TYPE(F, F) VC_TYPE(CD, CD) VC_TYPE(DU, DU) VC_TYPE(VT, VT)
extern "C" {
void cd_ctor(CD* out, const VT* a) { ::new (out) CD(*a); }
T cd_get(const CD* s, int i) { return s->get(i); }
void cd_apply(CD* s, int l, int r, const F* f) { s->apply(l, r, *f); }
void du_ctor(DU* out, const VT* a) { ::new (out) DU(*a); }
T du_get(const DU* s, int i) { return s->get(i); }
void du_apply(DU* s, int l, int r, const F* f) { s->apply(l, r, *f); }
}
