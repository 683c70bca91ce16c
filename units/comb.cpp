#include <vc.h>
#include <vector>
#include <utility>
#include <algorithm>
#include <optional>
#include <initializer_list>
#include <cassert>
#include <type_traits>
struct T;
extern "C" { T uf_T_add(T, T); T uf_T_sub(T, T); T uf_T_mul(T, T); T uf_T_neg(T); T uf_T_inv(T); T uf_T_div(T, T); T uf_T_of(int); bool uf_b_same(T, T); }
struct T { long v; T(); T(int k); T inv() const; static constexpr int mod() { return 998244353; } };
inline T::T() { *this = uf_T_of(0); }
inline T::T(int k) { *this = uf_T_of(k); }
inline T T::inv() const { return uf_T_inv(*this); }
inline T& operator+=(T& a, T b) { return a = uf_T_add(a, b); }
inline T& operator-=(T& a, T b) { return a = uf_T_sub(a, b); }
inline T& operator*=(T& a, T b) { return a = uf_T_mul(a, b); }
inline T operator*(T a, T b) { return uf_T_mul(a, b); }
inline T operator+(T a, T b) { return uf_T_add(a, b); }
inline T operator-(T a, T b) { return uf_T_sub(a, b); }
inline T operator-(T a) { return uf_T_neg(a); }
inline bool operator==(T a, T b) { return uf_b_same(a, b); }
inline bool operator!=(T a, T b) { return !uf_b_same(a, b); }
inline T operator/(T a, T b) { return uf_T_div(a, b); }
#include "library/math/factorial.hpp"
#include "library/math/inv_mods.hpp"
#include "library/math/pow_mods.hpp"
#include "library/sequence/montmort_number.hpp"
#include "library/sequence/stirling_number1.hpp"
#define SUISEN_POWERS
namespace suisen { template <typename mint> std::vector<mint> powers(unsigned n, unsigned long k); }
#include "library/sequence/stirling_number2.hpp"
using VT = std::vector<T>; using VVT = std::vector<VT>; using PM = suisen::pow_mods<T>; using FA = suisen::factorial<T>;
VC_TYPE(T, T) VC_TYPE(VT, VT) VC_TYPE(VVT, VVT) VC_TYPE(PM, PM) VC_TYPE(FA, FA)
extern "C" {
void fa_ensure(int n) { FA::ensure(n); }
void fa_fac(T* out, FA* f, int n) { *out = f->fac(n); }
void fa_finv(T* out, FA* f, int n) { *out = f->fac_inv(n); }
void fa_binom(T* out, FA* f, int n, int r) { *out = f->binom(n, r); }
void fa_perm(T* out, FA* f, int n, int r) { *out = f->perm(n, r); }
void iv_ensure(int n) { suisen::inv_mods<T>::ensure(n); }
void iv_batch(VT* out, const VT* a) { ::new (out) VT(suisen::get_invs(*a)); }
void pw_ensure(const PM* p, int n) { p->ensure(n); }
void pw_get(T* out, const PM* p, int n) { *out = (*p)[n]; }
void sq_montmort(VT* out, int n) { ::new (out) VT(suisen::montmort_number<T>(n)); }
void sq_stir1(VVT* out, int n) { ::new (out) VVT(suisen::stirling_number1_table<T>(n)); }
void sq_stir2(VVT* out, int n) { ::new (out) VVT(suisen::stirling_number2_table<T>(n)); }
}
