#include <vc.h>
#include <vector>
#include <numeric>
#include <cmath>
#include <cassert>
#include "library/number/rational.hpp"
using Q = suisen::Rational<long long>;
VC_TYPE(Q, Q)
extern "C" {
void q_int(Q* o, long long n) { new (o) Q(n); }
void q_def(Q* o) { new (o) Q(); }
void q_make(Q* o, long long n, long long d) { new (o) Q(n, d); }
int q_sig(const Q* a) { return a->signum(); }
int q_cmp(const Q* a, const Q* b) { return Q::compare(*a, *b); }
bool q_lt(const Q* a, const Q* b) { return *a < *b; }
bool q_gt(const Q* a, const Q* b) { return *a > *b; }
bool q_le(const Q* a, const Q* b) { return *a <= *b; }
bool q_ge(const Q* a, const Q* b) { return *a >= *b; }
bool q_eq(const Q* a, const Q* b) { return *a == *b; }
bool q_ne(const Q* a, const Q* b) { return *a != *b; }
void q_add(Q* o, const Q* a, const Q* b) { new (o) Q(*a + *b); }
void q_sub(Q* o, const Q* a, const Q* b) { new (o) Q(*a - *b); }
void q_mul(Q* o, const Q* a, const Q* b) { new (o) Q(*a * *b); }
void q_div(Q* o, const Q* a, const Q* b) { new (o) Q(*a / *b); }
void q_neg(Q* o, const Q* a) { new (o) Q(-*a); }
void q_inv(Q* o, const Q* a) { new (o) Q(a->inv()); }
void q_abs(Q* o, const Q* a) { new (o) Q(a->abs()); }
void q_adda(Q* a, const Q* b) { *a += *b; }
void q_suba(Q* a, const Q* b) { *a -= *b; }
void q_mula(Q* a, const Q* b) { *a *= *b; }
void q_diva(Q* a, const Q* b) { *a /= *b; }
long long q_floor(const Q* a) { return a->floor(); }
long long q_ceil(const Q* a) { return a->ceil(); }
}
