#include <vc.h>
#include <vector>
#include <algorithm>
#include <functional>
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
struct T { long v; };
extern "C" { bool uf_b_lt(T, T); }
struct Less { bool operator()(const T& a, const T& b) const { return uf_b_lt(a, b); } };
using MN = suisen::MinBinaryHeap<T, Less>;
using MX = suisen::MaxBinaryHeap<T, Less>;
using IH = suisen::IntervalHeap<T, Less>;
VC_TYPE(T, T) VC_TYPE(MN, MN) VC_TYPE(MX, MX) VC_TYPE(IH, IH)
#define HEAP(p, H) \
    void p##_ctor(H* s) { new (s) H(); } \
    void p##_push(H* s, const T* v) { s->push(*v); } \
    T p##_top(const H* s) { return s->top(); } \
    T p##_pop(H* s) { return s->pop(); } \
    void p##_build(H* s) { s->construct_heap(); } \
    int p##_size(const H* s) { return s->size(); } \
    bool p##_empty(const H* s) { return s->empty(); }
extern "C" {
HEAP(mn, MN) HEAP(mx, MX)
void ih_ctor(IH* s) { new (s) IH(); }
void ih_push(IH* s, const T* v) { s->push(*v); }
T ih_min(const IH* s) { return s->min(); }
T ih_max(const IH* s) { return s->max(); }
T ih_popmin(IH* s) { return s->pop_min(); }
T ih_popmax(IH* s) { return s->pop_max(); }
int ih_size(const IH* s) { return s->size(); }
}
