#include <vc.h>
#include <vector>
#include <utility>
#include "library/number/linear_sieve.hpp"
using LS = suisen::LinearSieve;
using VI = std::vector<int>;
using VPI = std::vector<std::pair<int, int>>;
VC_TYPE(LS, LS) VC_TYPE(VI, VI) VC_TYPE(VPI, VPI)
extern "C" {
void ls_ctor(LS* out, int n) { ::new (out) LS(n); }
void ls_factorize(VPI* out, const LS* s, int n) { ::new (out) VPI(s->factorize(n)); }
int ls_num(const LS* s) { return s->prime_num(); }
}
