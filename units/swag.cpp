#include <vc.h>
#include <vector>
#include <deque>
#include <functional>
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/sliding_window_minimum.hpp"
struct T { long v; };
struct S { long v; };
extern "C" { T uf_T_op(T, T); T uf_T_e(); S uf_S_unit(); S uf_S_app(S, T); T uf_T_mrg(S, S); }
inline T op(T a, T b) { return uf_T_op(a, b); }
inline T e() { return uf_T_e(); }
inline S unit() { return uf_S_unit(); }
inline S app(S a, T b) { return uf_S_app(a, b); }
inline T mrg(S a, S b) { return uf_T_mrg(a, b); }
using DQ = suisen::DequeAggregation<T, op, e>;
using QA = suisen::QueueAggregation<T, S, unit, app, T, mrg>;
namespace pm = suisen::prioritizing_mode;
using W1 = suisen::sliding_window_minimum<long long>;
using W2 = suisen::sliding_window_minimum<long long, pm::right_most_min<long long>>;
using W3 = suisen::sliding_window_minimum<long long, pm::left_most_max<long long>>;
using W4 = suisen::sliding_window_minimum<long long, pm::right_most_max<long long>>;
VC_TYPE(T, T) VC_TYPE(S, S) VC_TYPE(DQ, DQ) VC_TYPE(QA, QA) VC_TYPE(W1, W1) VC_TYPE(W2, W2) VC_TYPE(W3, W3) VC_TYPE(W4, W4)
#define WIN(k) \
    void w##k##_right(W##k* s) { s->proc_right(); } \
    void w##k##_left(W##k* s) { s->proc_left(); } \
    int w##k##_arg(const W##k* s) { return s->arg_query(); } \
    long long w##k##_query(const W##k* s) { return s->query(); }
extern "C" {
void dq_ctor(DQ* s) { new (s) DQ(); }
T dq_prod(const DQ* s) { return s->prod(); }
void dq_push_back(DQ* s, const T* v) { s->push_back(*v); }
void dq_push_front(DQ* s, const T* v) { s->push_front(*v); }
void dq_pop_back(DQ* s) { s->pop_back(); }
void dq_pop_front(DQ* s) { s->pop_front(); }
T dq_front(const DQ* s) { return s->front(); }
T dq_back(const DQ* s) { return s->back(); }
T dq_at(const DQ* s, int i) { return (*s)[i]; }
int dq_size(const DQ* s) { return s->size(); }
void dq_clear(DQ* s) { s->clear(); }
void qa_ctor(QA* s) { new (s) QA(); }
T qa_prod(const QA* s) { return s->prod(); }
void qa_push(QA* s, const T* v) { s->push_back(*v); }
void qa_pop(QA* s) { s->pop_front(); }
T qa_front(const QA* s) { return s->front(); }
T qa_back(const QA* s) { return s->back(); }
T qa_at(const QA* s, int i) { return (*s)[i]; }
int qa_size(const QA* s) { return s->size(); }
WIN(1) WIN(2) WIN(3) WIN(4)
}
