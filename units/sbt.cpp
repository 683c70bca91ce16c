#include <vc.h>
#include <vector>
#include <algorithm>
#include <utility>
#include "library/number/stern_brocot_tree.hpp"
using N = suisen::sbt_node<long long>;
using Q = std::pair<long long, long long>;
using PB = std::pair<bool, long long>;
VC_TYPE(PB, PB) VC_TYPE(N, N) VC_TYPE(Q, Q)
extern "C" {
void n_root(N* o) { new (o) N(); }
void n_make(N* o, long long a, long long b) { new (o) N(a, b); }
void n_down(N* t, bool dir, long long k) { t->move_down(dir, k); }
void n_left(N* t, long long k) { t->move_down_left(k); }
void n_right(N* t, long long k) { t->move_down_right(k); }
void n_get(Q* o, const N* t) { new (o) Q(t->get()); }
long long n_depth(const N* t) { return t->depth(); }
bool n_lt(const N* a, const N* b) { return *a < *b; }
bool n_le(const N* a, const N* b) { return *a <= *b; }
bool n_gt(const N* a, const N* b) { return *a > *b; }
bool n_ge(const N* a, const N* b) { return *a >= *b; }
bool n_eq(const N* a, const N* b) { return *a == *b; }
bool n_anc(const N* a, const N* b) { return a->is_ancestor_of(*b); }
}
