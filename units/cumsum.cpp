#include <vc.h>
#include <vector>
struct T;
extern "C" { T uf_T_op(T, T); T uf_T_neg(T); T uf_T_e(); }
struct T {
    unsigned long v;
    T() { *this = uf_T_e(); } T(int); T(const T&) = default; T& operator=(const T&) = default;
    T& operator+=(const T& o); T& operator-=(const T& o);
};
inline T::T(int) { *this = uf_T_e(); }            // only ever called with 0
inline T operator+(const T& a, const T& b) { return uf_T_op(a, b); }
inline T operator-(const T& a, const T& b) { return uf_T_op(a, uf_T_neg(b)); }
inline T& T::operator+=(const T& o) { return *this = *this + o; }
inline T& T::operator-=(const T& o) { return *this = *this - o; }
#include "library/util/cumulative_sum.hpp"
#include "library/util/cumulative_sum_2d.hpp"
#include "library/util/step_sum.hpp"
using VT = std::vector<T>; using VVT = std::vector<VT>;
using CS = suisen::CumulativeSum<T>; using C2 = suisen::CumulativeSum2D<T>; using SS = suisen::StepSum<T>;
VC_TYPE(T, T) VC_TYPE(VT, VT) VC_TYPE(VVT, VVT) VC_TYPE(CS, CS) VC_TYPE(C2, C2) VC_TYPE(SS, SS)
extern "C" {
void cs_ctor(CS* out, const VT* a) { new (out) CS(*a); }
void cs_dflt(CS* out) { new (out) CS(); }
T cs_call(const CS* c, const T* arr_A, unsigned long l, unsigned long r) { return (*c)(l, r); }
T cs_sum(const CS* c, const T* arr_A, unsigned long l, unsigned long r) { return c->sum(l, r); }
void cs_push(CS* c, const T* arr_A, const T* v) { c->push_back(*v); }
void c2_ctor(C2* out, const VVT* a) { new (out) C2(*a); }
void c2_dflt(C2* out) { new (out) C2(); }
T c2_call(const C2* c, const VVT* a, unsigned long u, unsigned long d, unsigned long l, unsigned long r) { return (*c)(u, d, l, r); }
void ss_ctor(SS* out, const VT* a, int step) { new (out) SS(*a, step); }
T ss_sum(const SS* c, const T* arr_A, int k, int l, int r) { return (*c)(k, l, r); }
}
