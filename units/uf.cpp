#include <vc.h>
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
struct T { unsigned long v; };
extern "C" T uf_T_op(T, T); extern "C" T uf_T_neg(T); extern "C" T uf_T_e();
using UF = suisen::UnionFind;
using UU = suisen::UndoUnionFind;
using WU = suisen::WeightedUnionFind<T, uf_T_op, uf_T_e, uf_T_neg>;
using LU = suisen::LinkedUnionFind;
using VI = std::vector<int>;
VC_TYPE(T, T)
VC_TYPE(UF, UF)
VC_TYPE(UU, UU)
VC_TYPE(WU, WU)
VC_TYPE(LU, LU)
VC_TYPE(VI, VI)
extern "C" {
void uf_ctor(UF* out, int n) { ::new (out) UF(n); }
int uf_root(UF* f, int x) { return f->root(x); }
int uf_index(UF* f, int x) { return (*f)[x]; }
bool uf_merge(UF* f, int x, int y) { return f->merge(x, y); }
bool uf_same(UF* f, int x, int y) { return f->same(x, y); }
int uf_size(UF* f, int x) { return f->size(x); }
void uu_ctor(UU* out, int n) { ::new (out) UU(n); }
int uu_root(const UU* f, int x) { return f->root(x); }
bool uu_merge(UU* f, int x, int y) { return f->merge(x, y); }
bool uu_same(const UU* f, int x, int y) { return f->same(x, y); }
int uu_size(const UU* f, int x) { return f->size(x); }
void uu_undo(UU* f) { f->undo(); }
void uu_snapshot(UU* f) { f->snapshot(); }
void uu_rollback(UU* f) { f->rollback(); }
void uu_merge_undo(UU* f, int x, int y) { if (f->merge(x, y)) f->undo(); }
void wu_ctor(WU* out, int n) { ::new (out) WU(n); }
int wu_root(WU* f, int x) { return f->root(x); }
T wu_weight(WU* f, int x) { return f->weight(x); }
bool wu_merge(WU* f, int x, int y, const T* d) { return f->merge(x, y, *d); }
T wu_diff(WU* f, int x, int y) { return f->diff(x, y); }
bool wu_same(WU* f, int x, int y) { return f->same(x, y); }
int wu_size(WU* f, int x) { return f->size(x); }
void lu_ctor(LU* out, int n) { ::new (out) LU(n); }
bool lu_merge(LU* f, int x, int y) { return f->merge(x, y); }
void lu_comp(const LU* f, VI* out, int x) { ::new (out) VI(f->connected_component(x)); }
}
