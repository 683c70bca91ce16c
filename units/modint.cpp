#include <vc.h>
#include <cstdint>
#include "library/number/modint.hpp"
using S = suisen::modint998244353;
using S7 = suisen::modint1000000007;
using C = suisen::static_modint<1000000000>;   // composite modulus: extended-gcd inverse
using D = suisen::modint;
VC_TYPE(S, S)
VC_TYPE(C, C)
VC_TYPE(D, D)
VC_TYPE(BK, suisen::internal::modint::barrett_K128)
using i64 = long long; using u64 = unsigned long long;
extern "C" {
unsigned s_ctor_l(i64 v) { return S(v).val(); }
unsigned s_ctor_ul(u64 v) { return S(v).val(); }
unsigned s_ctor_i(int v) { return S(v).val(); }
unsigned s_ctor_u(unsigned v) { return S(v).val(); }
void s_add(S* a, const S* b) { *a += *b; }
void s_sub(S* a, const S* b) { *a -= *b; }
void s_mul(S* a, const S* b) { *a *= *b; }
void s_div(S* a, const S* b) { *a /= *b; }
void s_inc(S* a) { ++*a; }
void s_dec(S* a) { --*a; }
unsigned s_neg(const S* a) { return (-*a).val(); }
unsigned s_pinc(S* a) { return ((*a)++).val(); }
unsigned s_pdec(S* a) { return ((*a)--).val(); }
unsigned s_pow(const S* a, i64 n) { return a->pow(n).val(); }
unsigned s_inv(const S* a) { return a->inv().val(); }
unsigned s_badd(const S* a, const S* b) { return (*a + *b).val(); }
unsigned s_bsub(const S* a, const S* b) { return (*a - *b).val(); }
unsigned s_bmul(const S* a, const S* b) { return (*a * *b).val(); }
bool s_eq(const S* a, const S* b) { return *a == *b; }
bool s_ne(const S* a, const S* b) { return *a != *b; }
unsigned c_inv(const C* a) { return a->inv().val(); }
void c_add(C* a, const C* b) { *a += *b; }
void c_sub(C* a, const C* b) { *a -= *b; }
void c_mul(C* a, const C* b) { *a *= *b; }
void d_setmod(int m) { D::set_mod(m); }
unsigned d_ctor_l(i64 v) { return D(v).val(); }
unsigned d_ctor_ul(u64 v) { return D(v).val(); }
unsigned d_ctor_i(int v) { return D(v).val(); }
void d_add(D* a, const D* b) { *a += *b; }
void d_sub(D* a, const D* b) { *a -= *b; }
void d_mul(D* a, const D* b) { *a *= *b; }
void d_inc(D* a) { ++*a; }
void d_dec(D* a) { --*a; }
unsigned d_pow(const D* a, i64 n) { return a->pow(n).val(); }
unsigned d_inv(const D* a) { return a->inv().val(); }
}
