#include <vc.h>
#include <cstdint>
#include "library/number/barrett_reduction.hpp"
#include "library/number/montogomery.hpp"
#include "library/number/modint_2^61m1.hpp"
using Ba = suisen::barrett; using M32 = suisen::Montgomery32; using M64 = suisen::Montgomery64; using P61 = suisen::modint2p61m1;
VC_TYPE(Ba, Ba) VC_TYPE(M32, M32) VC_TYPE(M64, M64) VC_TYPE(P61, P61)
using u32 = uint32_t; using u64 = unsigned long long; using i64 = long long; using u128 = __uint128_t;
extern "C" {
void ba_ctor(Ba* b, u32 M) { Ba t(M); b->M = t.M; b->L = t.L; }
u64 ba_quo(const Ba* b, u64 x) { return b->quo(x); }
u32 ba_rem(const Ba* b, u64 x) { return b->rem(x); }
u32 ba_mul(const Ba* b, u32 x, u32 y) { return b->mul(x, y); }
u32 ba_rem_raw(const Ba* b, u64 x) { return b->rem<false>(x); }
void m32_ctor(M32* m, u32 n) { *m = M32(n); }
u32 m32_reduce(const M32* m, u64 T) { return m->reduce(T); }
u32 m32_make(const M32* m, u32 t) { return m->make(t); }
u32 m32_mul(const M32* m, u32 a, u32 b) { return m->mul(a, b); }
u32 m32_add(const M32* m, u32 a, u32 b) { return m->add(a, b); }
u32 m32_sub(const M32* m, u32 a, u32 b) { return m->sub(a, b); }
u32 m32_pow(const M32* m, u32 a, i64 b) { return m->pow(a, b); }
void m64_ctor(M64* m, u64 n) { *m = M64(n); }
u64 m64_reduce(const M64* m, u128 T) { return m->reduce(T); }
u64 m64_make(const M64* m, u64 t) { return m->make(t); }
u64 m64_mul(const M64* m, u64 a, u64 b) { return m->mul(a, b); }
u64 m64_add(const M64* m, u64 a, u64 b) { return m->add(a, b); }
u64 m64_sub(const M64* m, u64 a, u64 b) { return m->sub(a, b); }
u64 m64_pow(const M64* m, u64 a, i64 b) { return m->pow(a, b); }
u64 p_fast(u64 v) { return P61::fast_mod(v); }
u64 p_ctor(u64 v) { return P61(v).val(); }
void p_add(P61* a, const P61* b) { *a += *b; }
void p_sub(P61* a, const P61* b) { *a -= *b; }
void p_mul(P61* a, const P61* b) { *a *= *b; }
u64 p_pow(const P61* a, i64 b) { return a->pow(b).val(); }
u64 p_inv(const P61* a) { return a->inv().val(); }
}
