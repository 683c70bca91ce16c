#include <vc.h>
struct T;
extern "C" T uf_T_op(T, T); extern "C" T uf_T_sub(T, T); extern "C" T uf_T_neg(T); extern "C" T uf_T_e(); extern "C" T uf_T_ofint(int); extern "C" T uf_T_mul(T, T); extern "C" T uf_T_div(T, T); extern "C" T uf_T_mod(T, T);
struct T {
    unsigned long v;
    T(); T(int); T(const T&) = default; T& operator=(const T&) = default;
    T& operator+=(const T& o); T& operator-=(const T& o);
    friend T operator-(const T& a, const T& b) { return uf_T_sub(a, b); }
    friend T operator*(const T& a, const T& b) { return uf_T_mul(a, b); }
    friend T operator/(const T& a, const T& b) { return uf_T_div(a, b); }
    friend T operator%(const T& a, const T& b) { return uf_T_mod(a, b); }
    friend T operator+(const T& a, const T& b) { return uf_T_op(a, b); }
    T operator-() const { return uf_T_neg(*this); }
};
inline T::T() { *this = uf_T_e(); }
inline T::T(int x) { *this = uf_T_ofint(x); }
inline T& T::operator+=(const T& o) { *this = uf_T_op(*this, o); return *this; }
inline T& T::operator-=(const T& o) { *this = uf_T_sub(*this, o); return *this; }
#include <utility>
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
using F2 = suisen::FenwickTree2D<T>;
VC_TYPE(T, T) VC_TYPE(F2, F2)
extern "C" {
void f2_ctor(F2* out, int h, int w) { ::new (out) F2(h, w); }
void f2_add(F2* f, int pi, int pj, const T* pv) { f->add(pi, pj, *pv); }
T f2_sum(const F2* f, int a, int b, int c, int d) { return f->sum(a, b, c, d); }
T f2_call(const F2* f, int a, int b, int c, int d) { return (*f)(a, b, c, d); }
T f2_get(F2* f, int pi, int pj) { return (*f)[{ pi, pj }]; }
void f2_pluseq(F2* f, int pi, int pj, const T* pv) { (*f)[{ pi, pj }] += *pv; }
void f2_minuseq(F2* f, int pi, int pj, const T* pv) { (*f)[{ pi, pj }] -= *pv; }
void f2_assign(F2* f, int pi, int pj, const T* pv) { (*f)[{ pi, pj }] = *pv; }
void f2_muleq(F2* f, int pi, int pj, const T* pv) { (*f)[{ pi, pj }] *= *pv; }
}
