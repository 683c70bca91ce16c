#include <vc.h>
#include <vector>
#include <utility>
#include <algorithm>
#include <string>
#include <cassert>
#include <type_traits>
#define SUISEN_ARBITRARY_MOD_CONVOLUTION
namespace suisen { std::vector<unsigned __int128> convolution_int(const std::vector<int>& a, const std::vector<int>& b); }
#include "library/convolution/convolution_naive.hpp"
#include "library/math/unsigned_bigint.hpp"
#include "library/math/bigint.hpp"
using UB = suisen::unsigned_bigint; using BI = suisen::bigint; using PU = std::pair<UB, UB>; using VL = std::vector<__int128>;
VC_TYPE(UB, UB) VC_TYPE(BI, BI) VC_TYPE(PU, PU) VC_TYPE(VL, VL) VC_TYPE(VI, std::vector<int>)
extern "C" {
bool ub_lt(const UB* a, const UB* b) { return *a < *b; }
bool ub_eq(const UB* a, const UB* b) { return *a == *b; }
bool ub_bool(const UB* a) { return bool(*a); }
void ub_inc(UB* a) { ++*a; }
void ub_dec(UB* a) { --*a; }
void ub_add(UB* a, const UB* b) { *a += *b; }
void ub_sub(UB* a, const UB* b) { *a -= *b; }
void ub_ofull(UB* out, unsigned long long v) { ::new (out) UB(v); }
void ub_ofint(UB* out, int v) { ::new (out) UB(v); }
unsigned long long ub_toull(const UB* a) { return (unsigned long long)(*a); }
int ub_cmppow(const UB* a, int k) { return UB::_compare_powD(*a, k); }
void ub_shl(UB* a, int k) { *a <<= k; }
void ub_shr(UB* a, int k) { *a >>= k; }
void ub_divint(PU* out, const UB* a, const UB* b) { ::new (out) PU(UB::_divmod_int(*a, *b)); }
void ub_build(UB* out, const VL* a) { ::new (out) UB(UB::_build(*a)); }
void ub_conv(VL* out, const UB* a, const UB* b) { ::new (out) VL(suisen::internal::convolution_naive<int, __int128_t>(*a, *b)); }
void ub_mul(UB* out, const UB* a, const UB* b) { ::new (out) UB(UB::_mul_naive(*a, *b)); }
bool bi_lt(const BI* a, const BI* b) { return *a < *b; }
bool bi_eq(const BI* a, const BI* b) { return *a == *b; }
void bi_neg(BI* out, const BI* a) { ::new (out) BI(-*a); }
void bi_inc(BI* a) { ++*a; }
void bi_dec(BI* a) { --*a; }
void bi_add(BI* a, const BI* b) { *a += *b; }
void bi_sub(BI* a, const BI* b) { *a -= *b; }
}
