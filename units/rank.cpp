#include <vc.h>
#include <vector>
#include <utility>
#include <type_traits>
#include "library/datastructure/bit_vector.hpp"
using BV = suisen::BitVector;
using VI = std::vector<int>;
VC_TYPE(BV, BV) VC_TYPE(VI, VI)
extern "C" {
void bv_ctor(BV* out, int n, const VI* a) { new (out) BV(n, [a](int i) -> bool { return (*a)[i] != 0; }); }
bool bv_get(const BV* s, int i) { return (*s)[i]; }
bool bv_access(const BV* s, int i) { return s->access(i); }
int bv_rank(const BV* s, bool v, int i) { return s->rank(v, i); }
int bv_rank_range(const BV* s, bool v, int l, int r) { return s->rank(v, l, r); }
int bv_select(const BV* s, bool v, int k, int d) { return s->select(v, k, d); }
}
