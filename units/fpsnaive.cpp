#include <vc.h>
#include <vector>
#include <utility>
#include <algorithm>
#include <optional>
#include <initializer_list>
struct T;
extern "C" { T uf_T_add(T, T); T uf_T_sub(T, T); T uf_T_mul(T, T); T uf_T_neg(T); T uf_T_inv(T); T uf_T_of(int); bool uf_b_same(T, T); }
struct T { long v; T(); T(int k); T inv() const; static constexpr int mod() { return 998244353; } };
inline T::T() { *this = uf_T_of(0); }
inline T::T(int k) { *this = uf_T_of(k); }
inline T T::inv() const { return uf_T_inv(*this); }
inline T& operator+=(T& a, T b) { return a = uf_T_add(a, b); }
inline T& operator-=(T& a, T b) { return a = uf_T_sub(a, b); }
inline T& operator*=(T& a, T b) { return a = uf_T_mul(a, b); }
inline T operator*(T a, T b) { return uf_T_mul(a, b); }
inline T operator+(T a, T b) { return uf_T_add(a, b); }
inline T operator-(T a, T b) { return uf_T_sub(a, b); }
inline T operator-(T a) { return uf_T_neg(a); }
inline bool operator==(T a, T b) { return uf_b_same(a, b); }
inline bool operator!=(T a, T b) { return !uf_b_same(a, b); }
#include "library/polynomial/fps_naive.hpp"
using F = suisen::FPSNaive<T>;
VC_TYPE(T, T) VC_TYPE(F, F)
extern "C" {
void fn_add(F* f, const F* g) { *f += *g; }
void fn_sub(F* f, const F* g) { *f -= *g; }
void fn_scale(F* f, const T* c) { *f *= *c; }
void fn_neg(F* out, const F* f) { ::new (out) F(-*f); }
void fn_mul(F* out, const F* f, const F* g) { ::new (out) F(*f * *g); }
void fn_muln(F* out, const F* f, const F* g, int len) { ::new (out) F(f->mul(*g, len)); }
void fn_diff(F* out, const F* f) { ::new (out) F(f->diff()); }
void fn_inv(F* out, const F* f, int len) { ::new (out) F(f->inv(len)); }
void fn_eval(T* out, const F* f, const T* c) { *out = f->eval(*c); }
void fn_get(T* out, const F* f, int k) { *out = (*f)[k]; }
}
