#include <vc.h>
struct T { unsigned long v; };
extern "C" T uf_T_op(T, T);
extern "C" T uf_T_e();
extern "C" bool uf_b_pred(T);
#include "library/datastructure/segment_tree/segment_tree.hpp"
using Seg = suisen::SegmentTree<T, uf_T_op, uf_T_e>;
using VT = std::vector<T>;
VC_TYPE(T, T)
VC_TYPE(Seg, Seg)
VC_TYPE(VT, VT)
extern "C" {
void seg_ctor_n(Seg* out, int n) { ::new (out) Seg(n); }
void seg_ctor_v(Seg* out, const VT* a) { ::new (out) Seg(*a); }
T seg_get(const Seg* s, int i) { return s->get(i); }
T seg_prod(const Seg* s, int l, int r) { return s->prod(l, r); }
T seg_prefix(const Seg* s, int r) { return s->prefix_prod(r); }
T seg_suffix(const Seg* s, int l) { return s->suffix_prod(l); }
T seg_all(const Seg* s) { return s->all_prod(); }
struct Pred { bool operator()(T x) const { return uf_b_pred(x); } };
int seg_maxright(const Seg* s, int l) { return s->max_right(l, Pred{}); }
int seg_minleft(const Seg* s, int r) { return s->min_left(r, Pred{}); }
void seg_set(Seg* s, int i, const T* v) { s->set(i, *v); }
}
