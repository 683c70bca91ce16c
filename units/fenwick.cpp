#include <vc.h>
struct T;
extern "C" T uf_T_op(T, T); extern "C" T uf_T_sub(T, T); extern "C" T uf_T_neg(T); extern "C" T uf_T_e(); extern "C" T uf_T_ofint(int); extern "C" T uf_T_mul(T, T); extern "C" T uf_T_div(T, T); extern "C" T uf_T_mod(T, T);
struct T {
    unsigned long v;
    T(); T(int); T(const T&) = default; T& operator=(const T&) = default;
    T& operator+=(const T& o); T& operator-=(const T& o);
    friend T operator-(const T& a, const T& b) { return uf_T_sub(a, b); }
    friend T operator*(const T& a, const T& b) { return uf_T_mul(a, b); }
    friend T operator/(const T& a, const T& b) { return uf_T_div(a, b); }
    friend T operator%(const T& a, const T& b) { return uf_T_mod(a, b); }
    T operator-() const { return uf_T_neg(*this); }
};
inline T::T() { *this = uf_T_e(); }
inline T::T(int x) { *this = uf_T_ofint(x); }
inline T& T::operator+=(const T& o) { *this = uf_T_op(*this, o); return *this; }
inline T& T::operator-=(const T& o) { *this = uf_T_sub(*this, o); return *this; }
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
using FW = suisen::FenwickTree<T>;
using FP = suisen::FenwickTreePrefix<T, uf_T_op, uf_T_e>;
using VT = std::vector<T>;
VC_TYPE(T, T)
VC_TYPE(FW, FW)
VC_TYPE(FP, FP)
VC_TYPE(VT, VT)
extern "C" {
void fw_ctor_n(FW* out, int n) { ::new (out) FW(n); }
void fw_ctor_v(FW* out, const VT* a) { ::new (out) FW(*a); }
void fw_add(FW* f, const T* arr_A, int i, const T* v) { f->add(i, *v); }
T fw_sum(const FW* f, const T* arr_A, int l, int r) { return f->sum(l, r); }
T fw_get(FW* f, const T* arr_A, int i) { return (*f)[i]; }
void fw_pluseq(FW* f, const T* arr_A, int i, const T* v) { (*f)[i] += *v; }
void fw_minuseq(FW* f, const T* arr_A, int i, const T* v) { (*f)[i] -= *v; }
void fw_assign(FW* f, const T* arr_A, int i, const T* v) { (*f)[i] = *v; }
void fw_inc(FW* f, const T* arr_A, int i) { ++(*f)[i]; }
void fw_muleq(FW* f, const T* arr_A, int i, const T* v) { (*f)[i] *= *v; }
void fp_ctor_n(FP* out, int n) { ::new (out) FP(n); }
void fp_ctor_v(FP* out, const VT* a) { ::new (out) FP(*a); }
void fp_apply(FP* f, const T* arr_A, int i, const T* v) { f->apply(i, *v); }
T fp_prefix(const FP* f, const T* arr_A, int r) { return f->prefix_query(r); }
}
