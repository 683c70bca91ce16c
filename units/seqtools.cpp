#include <vc.h>
#include <vector>
#include <array>
#include <utility>
#include <algorithm>
#include <numeric>
#include <functional>
#include <cstdint>
#include <limits>
#include <type_traits>
#include <string>
#include "library/util/search.hpp"
#include "library/util/permutation.hpp"
#include "library/util/sum_count.hpp"
#include "library/util/transpose.hpp"
#include "library/util/rot90.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/util/subset_iterator.hpp"
struct T { long v; };
using VI = std::vector<int>;
using VT = std::vector<T>;
using VVT = std::vector<VT>;
using Pm = suisen::Permutation;
using CB = suisen::MinCartesianTreeBuilder;
using SubIt = suisen::all_subset<uint32_t>::all_subset_iter;
VC_TYPE(T, T) VC_TYPE(VI, VI) VC_TYPE(VT, VT) VC_TYPE(VVT, VVT) VC_TYPE(Pm, Pm) VC_TYPE(SubIt, SubIt) VC_TYPE(CB, CB)
extern "C" {
bool uf_b_pred(long long);
long long uf_l_f(long long);
}
struct Pred { bool operator()(long long x) const { return uf_b_pred(x); } };
struct F { long long operator()(long long x) const { return uf_l_f(x); } };
using suisen::ternary_search_tag;
extern "C" {
long long sq_bin(long long lo, long long hi) { return suisen::binary_search(lo, hi, Pred{}); }
long long sq_exp(long long lo) { return suisen::binary_search_exponential(lo, Pred{}); }
long long sq_tern(long long lo, long long hi) { return suisen::ternary_search_key<ternary_search_tag::Convex>(lo, hi, F{}); }
long long sq_ternc(long long lo, long long hi) { return suisen::ternary_search_key<ternary_search_tag::Concave>(lo, hi, F{}); }
void pm_id(Pm* out, int n) { ::new (out) Pm(n); }
void pm_permute(VT* out, const Pm* p, const VT* a) { ::new (out) VT(p->permute(*a)); }
void pm_ipermute(VT* out, const Pm* p, const VT* a) { ::new (out) VT(p->inv_permute(*a)); }
void pm_mul(Pm* out, const Pm* p, const Pm* q) { ::new (out) Pm(*p * *q); }
void pm_inv(Pm* out, const Pm* p) { ::new (out) Pm(p->inv()); }
long long sc_eq(long long al, long long ar, long long bl, long long br, long long x) { return suisen::sum_count(al, ar, bl, br, x); }
long long sc_leq(long long al, long long ar, long long bl, long long br, long long x) { return suisen::sum_count_leq(al, ar, bl, br, x); }
void sq_transpose(VVT* out, const VVT* a) { ::new (out) VVT(suisen::transpose(*a)); }
void sq_rot90(VVT* out, const VVT* a) { ::new (out) VVT(suisen::rot90(*a)); }
void ct_parents(CB* out, const VI* a) { ::new (out) CB(*a); }
int ct_parent(const CB* c, unsigned long i) { return c->parent(i); }
bool ss_next(SubIt* it) { return *it != nullptr; }
}
