#include <vc.h>
#include <vector>
#include <utility>
#include <algorithm>
#include <optional>
struct T;
extern "C" { T uf_T_add(T, T); T uf_T_sub(T, T); T uf_T_mul(T, T); T uf_T_of(int); }
struct T { long v; T() = default; T(int k); };
inline T::T(int k) { *this = uf_T_of(k); }
inline T& operator+=(T& a, T b) { return a = uf_T_add(a, b); }
inline T& operator-=(T& a, T b) { return a = uf_T_sub(a, b); }
inline T& operator*=(T& a, T b) { return a = uf_T_mul(a, b); }
inline T operator*(T a, T b) { return uf_T_mul(a, b); }
#include "library/linear_algebra/matrix.hpp"
using M = suisen::Matrix<T>;
using VT = std::vector<T>;
VC_TYPE(T, T) VC_TYPE(M, M) VC_TYPE(VT, VT)
extern "C" {
void mx_add(M* a, const M* b) { *a += *b; }
void mx_sub(M* a, const M* b) { *a -= *b; }
void mx_scale(M* a, const T* k) { *a *= *k; }
void mx_mul(M* out, const M* a, const M* b) { ::new (out) M(*a * *b); }
void mx_vec(VT* out, const M* a, const VT* x) { ::new (out) VT(*a * *x); }
void mx_sub_(M* out, const M* a, int rb, int re, int cb, int ce) { ::new (out) M(a->submatrix(rb, re, cb, ce)); }
void mx_assign(M* a, int r, int c, const M* b) { a->assign_submatrix(r, c, *b); }
void mx_e1(M* out, int n) { ::new (out) M(M::e1(n)); }
}
