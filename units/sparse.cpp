#include <vc.h>
#include <vector>
#include "library/datastructure/sparse_table.hpp"
struct T { long v; };
extern "C" { T uf_T_op(T, T); T uf_T_e(); }
inline T op(T a, T b) { return uf_T_op(a, b); }
inline T e() { return uf_T_e(); }
using ST = suisen::SparseTable<T, op, e>;
using VT = std::vector<T>;
VC_TYPE(T, T) VC_TYPE(ST, ST) VC_TYPE(VT, VT)
extern "C" {
void st_ctor(ST* out, const VT* a) { new (out) ST(*a); }
T st_prod(const ST* s, int l, int r) { return s->prod(l, r); }
T st_call(const ST* s, int l, int r) { return (*s)(l, r); }
}
