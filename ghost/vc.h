#pragma once
// Primitives of the ghost standard library; their meaning is given in irv/builtins.py
#include <cstddef>
extern "C" {
void __vc_assert(bool);
void __vc_assume(bool);
void __vc_fill(void* dst, size_t from, size_t to, const void* val);   // dst[from..to) = *val
void __vc_fillall(void* dst, const void* val);                        // all (logical) elements = *val
void __vc_copy(void* dst, const void* src, size_t n);                 // dst[0..n) = src[0..n) (memmove semantics)
void __vc_rcopy(void* dst, const void* src, size_t n);                // dst[i] = src[n-1-i]
void __vc_obj(void* dst, const void* src);                            // whole object, elements included
void __vc_iota(void* dst, size_t n, long v0);
void __vc_havoc(void* dst);
void __vc_sort(void* first, void* last);
void __vc_rsort(void* first, void* last);
void* __vc_lower_bound(const void* first, const void* last, const void* val);
void* __vc_upper_bound(const void* first, const void* last, const void* val);
}
#define VC_TYPE(name, ...) extern "C" void vcty_##name(__VA_ARGS__* p, __VA_ARGS__** out) { *out = p + 1; }
