#include <vc.h>
#include <algorithm>
#include <cstdint>
#include <iostream>
#include <limits>
#include <type_traits>
#include <tuple>
#include <utility>
#include "library/algebra/monoid/affine.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
using LL = long long; using A = suisen::Affine<LL>; using C = suisen::AffineClamp<LL>;
VC_TYPE(A, A) VC_TYPE(C, C)
extern "C" {
LL af_at(LL a, LL b, LL x) { return A(a, b)(x); }
LL af_compose(LL a, LL b, LL c, LL d, LL x) { return A(a, b).compose(A(c, d))(x); }
LL af_compose2(LL a, LL b, LL c, LL d, LL x) { return A::compose(A(a, b), A(c, d))(x); }
LL af_id(LL x) { return A::id()(x); }
LL af_plus(LL a, LL b, LL c, LL d, LL x) { return (A(a, b) + A(c, d))(x); }
LL af_minus(LL a, LL b, LL c, LL d, LL x) { return (A(a, b) - A(c, d))(x); }
LL af_neg(LL a, LL b, LL x) { return (-A(a, b))(x); }
LL af_shift(LL a, LL b, LL c, LL x) { return (A(a, b) + c)(x); }
bool af_less(LL a, LL b, LL c, LL d) { return A(a, b) < A(c, d); }
bool af_eq(LL a, LL b, LL c, LL d) { return A(a, b) == A(c, d); }
LL ac_at(LL a, LL b, LL l, LL r, LL x) { return C(a, b, l, r)(x); }
LL ac_id(LL x) { return C::id()(x); }
LL ac_free(LL a, LL b, LL x) { return C(A(a, b))(x); }
LL ac_compose(LL a, LL b, LL l, LL r, LL c, LL d, LL s, LL t, LL x) { return C::compose(C(a, b, l, r), C(c, d, s, t))(x); }
LL ac_compose2(LL a, LL b, LL l, LL r, LL c, LL d, LL s, LL t, LL x) { return C(a, b, l, r).compose(C(c, d, s, t))(x); }
}
