#include <vc.h>
#include <vector>
struct T { unsigned long v; };
struct F { unsigned long v; };
extern "C" { T uf_T_op(T, T); T uf_T_e(); T uf_T_map(F, T); F uf_F_comp(F, F); F uf_F_id(); bool uf_b_pred(T); }
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
using LZ = suisen::LazySegmentTree<T, uf_T_op, uf_T_e, F, uf_T_map, uf_F_comp, uf_F_id>;
using VT = std::vector<T>;
VC_TYPE(T, T) VC_TYPE(F, F) VC_TYPE(LZ, LZ) VC_TYPE(VT, VT)
extern "C" {
void lz_ctor(LZ* out, const VT* a) { ::new (out) LZ(*a); }
void lz_ctor_n(LZ* out, int n) { ::new (out) LZ(n); }
T lz_prod(LZ* s, int l, int r) { return s->prod(l, r); }
T lz_all(const LZ* s) { return s->all_prod(); }
T lz_get(LZ* s, int p) { return s->get(p); }
void lz_set(LZ* s, int p, const T* v) { s->set(p, *v); }
void lz_apply1(LZ* s, int p, const F* f) { s->apply(p, *f); }
void lz_apply(LZ* s, int l, int r, const F* f) { s->apply(l, r, *f); }
int lz_maxright(LZ* s, int l) { return s->max_right(l, [](T x) { return uf_b_pred(x); }); }
int lz_minleft(LZ* s, int r) { return s->min_left(r, [](T x) { return uf_b_pred(x); }); }
}
