#include <vc.h>
#include <utility>
struct T { unsigned long v; };
extern "C" T uf_T_op(T, T); extern "C" T uf_T_e();
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
using S2 = suisen::SegmentTree2D<T, uf_T_op, uf_T_e>;
using VV = std::vector<std::vector<T>>;
VC_TYPE(T, T) VC_TYPE(S2, S2) VC_TYPE(VV, VV)
extern "C" {
void s2_ctor(S2* out, const VV* a) { ::new (out) S2(*a); }
void s2_ctor_n(S2* out, int h, int w) { ::new (out) S2(h, w); }
T s2_prod(const S2* f, int u, int d, int l, int r) { return (*f)(u, d, l, r); }
T s2_get(const S2* f, int i, int j) { return f->get(i, j); }
void s2_set(S2* f, int i, int j, const T* val) { f->set(i, j, *val); }
}
