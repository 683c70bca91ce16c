#include <vc.h>
#include <vector>
#include <optional>
#include <utility>
#include <algorithm>
#include <cmath>
#include "library/number/find_denominators.hpp"
#define SUISEN_FENWICK_TREE_SET // only the permutation conversions use it; they are not extracted
namespace suisen { struct fenwick_tree_set { fenwick_tree_set(int, bool); int count_lt(int) const; int kth_element(int) const; bool erase(int); }; }
#include "library/number/factorial_number.hpp"
using i64 = long long; using FN = suisen::factorial_number; using OP = std::optional<std::pair<i64, i64>>;
VC_TYPE(FN, FN)
extern "C" {
bool den_fp(i64 n, i64 q, i64 mx, i64* l, i64* r) { OP o = suisen::fld_denominators_positive<i64>(n, q, mx); if (o) *l = o->first, *r = o->second; return o.has_value(); }
bool den_fn(i64 n, i64 q, i64 mx, i64* l, i64* r) { OP o = suisen::fld_denominators_negative<i64>(n, q, mx); if (o) *l = o->first, *r = o->second; return o.has_value(); }
bool den_cp(i64 n, i64 q, i64 mx, i64* l, i64* r) { OP o = suisen::cld_denominators_positive<i64>(n, q, mx); if (o) *l = o->first, *r = o->second; return o.has_value(); }
bool den_cn(i64 n, i64 q, i64 mx, i64* l, i64* r) { OP o = suisen::cld_denominators_negative<i64>(n, q, mx); if (o) *l = o->first, *r = o->second; return o.has_value(); }
void fn_ctor(FN* out, int n, i64 k) { ::new (out) FN(n, k); }
void fn_inc(FN* a) { ++*a; }
void fn_dec(FN* a) { --*a; }
void fn_add(FN* a, const FN* b) { *a += *b; }
void fn_sub(FN* a, const FN* b) { *a -= *b; }
void fn_neg(FN* out, const FN* a) { ::new (out) FN(-*a); }
void fn_mul(FN* a, i64 k) { *a *= k; }
unsigned long long fn_ull(const FN* a) { return a->to_ull(); }
bool fn_lt(const FN* a, const FN* b) { return *a < *b; }
}
