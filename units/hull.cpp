#include <vc.h>
#include <algorithm>
#include <cassert>
#include <functional>
#include <limits>
#include <queue>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
// std::priority_queue as an abstract multiset of integers; its meaning is the theory of specs/hull.py
struct Q;
extern "C" { Q uf_Q_empty(); Q uf_Q_push(Q, long long); Q uf_Q_popmax(Q); Q uf_Q_popmin(Q); long long uf_l_max(Q); long long uf_l_min(Q); bool uf_b_none(Q); long long uf_l_g(long long); int uf_i_m(long long); }
struct Q { long v; };
namespace std {
template <> class priority_queue<long long, vector<long long>, less<long long>> { public: Q q; priority_queue() { q = uf_Q_empty(); } void push(long long x) { q = uf_Q_push(q, x); } long long top() const { __vc_assert(!uf_b_none(q)); return uf_l_max(q); } void pop() { __vc_assert(!uf_b_none(q)); q = uf_Q_popmax(q); } };
template <> class priority_queue<long long, vector<long long>, greater<long long>> { public: Q q; priority_queue() { q = uf_Q_empty(); } void push(long long x) { q = uf_Q_push(q, x); } long long top() const { __vc_assert(!uf_b_none(q)); return uf_l_min(q); } void pop() { __vc_assert(!uf_b_none(q)); q = uf_Q_popmin(q); } };
}
#include "library/datastructure/slope_trick.hpp"
#include "library/optimization/alien_dp.hpp"
using S = suisen::SlopeTrick<long long>;
struct G1 { long long operator()(long long p) const { return uf_l_g(p); } };
struct G2 { std::pair<long long, int> operator()(long long p) const { return {uf_l_g(p), uf_i_m(p)}; } };
VC_TYPE(S, S) VC_TYPE(Q, Q)
extern "C" {
void sl_new(S* o) { new (o) S(); }
long long sl_min(const S& o) { return o.min(); }
long long sl_lo(const S& o) { return o.argmin_range().first; }
long long sl_hi(const S& o) { return o.argmin_range().second; }
void sl_const(S& o, long long a) { o.add_const(a); }
void sl_right(S& o, long long a) { o.add_right(a); }
void sl_left(S& o, long long a) { o.add_left(a); }
void sl_abs(S& o, long long a) { o.add_abs(a); }
void sl_cml(S& o) { o.cumulative_min_left(); }
void sl_cmr(S& o) { o.cumulative_min_right(); }
void sl_shl(S& o, long long a) { o <<= a; }
void sl_shr(S& o, long long a) { o >>= a; }
void sl_tr(S& o, long long a) { o.translate(a); }
void sl_win(S& o, long long a, long long b) { o.sliding_window_minimum(a, b); }
long long al_convex(int x, long long lo, long long hi) { return suisen::alien_convex<long long>(x, lo, hi, G1{}); }
long long al_concave(int x, long long lo, long long hi) { return suisen::alien_concave<long long>(x, lo, hi, G1{}); }
long long al_convex2(int x, long long lo, long long hi) { return suisen::alien_convex<long long>(x, lo, hi, G2{}); }
long long al_concave2(int x, long long lo, long long hi) { return suisen::alien_concave<long long>(x, lo, hi, G2{}); }
}
