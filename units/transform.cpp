#include <vc.h>
#include <vector>
#include <utility>
struct T;
extern "C" { T uf_T_add(T, T); T uf_T_sub(T, T); T uf_T_mul(T, T); T uf_T_e(); }
struct T { unsigned long v; T() { *this = uf_T_e(); } T(const T&) = default; T& operator=(const T&) = default; T& operator+=(const T& o); };
inline T operator+(const T& a, const T& b) { return uf_T_add(a, b); }
inline T operator-(const T& a, const T& b) { return uf_T_sub(a, b); }
inline T operator*(const T& a, const T& b) { return uf_T_mul(a, b); }
inline T& T::operator+=(const T& o) { return *this = *this + o; }
#include "library/transform/subset.hpp"
#include "library/transform/supset.hpp"
#include "library/transform/walsh_hadamard.hpp"
#include "library/transform/divisor.hpp"
#include "library/transform/multiple.hpp"
#include "library/convolution/convolution_naive.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/and_convolution.hpp"
using VT = std::vector<T>;
VC_TYPE(T, T) VC_TYPE(VT, VT)
extern "C" {
void sub_zeta(VT* a) { suisen::subset_transform::zeta<T>(*a); }
void sub_mobius(VT* a) { suisen::subset_transform::mobius<T>(*a); }
void sup_zeta(VT* a) { suisen::supset_transform::zeta<T>(*a); }
void sup_mobius(VT* a) { suisen::supset_transform::mobius<T>(*a); }
void wht(VT* a) { suisen::walsh_hadamard_transform::walsh_hadamard<T>(*a); }
void sub_round2(VT* a) { suisen::subset_transform::mobius<T>(*a); suisen::subset_transform::zeta<T>(*a); }
void sub_round(VT* a) { suisen::subset_transform::zeta<T>(*a); suisen::subset_transform::mobius<T>(*a); }
void sup_round2(VT* a) { suisen::supset_transform::mobius<T>(*a); suisen::supset_transform::zeta<T>(*a); }
void sup_round(VT* a) { suisen::supset_transform::zeta<T>(*a); suisen::supset_transform::mobius<T>(*a); }
void or_conv(VT* out, const VT* a, const VT* b) { ::new (out) VT(suisen::or_convolution<T>(*a, *b)); }
void and_conv(VT* out, const VT* a, const VT* b) { ::new (out) VT(suisen::and_convolution<T>(*a, *b)); }
void div_zeta(VT* a) { suisen::divisor_transform::zeta<T>(*a); }
void div_mobius(VT* a) { suisen::divisor_transform::mobius<T>(*a); }
void mul_zeta(VT* a) { suisen::multiple_transform::zeta<T>(*a); }
void mul_mobius(VT* a) { suisen::multiple_transform::mobius<T>(*a); }
void conv_naive(VT* out, const VT* a, const VT* b) { ::new (out) VT(suisen::internal::convolution_naive<T>(*a, *b)); }
}
