#include <vc.h>
#include <vector>
#include <utility>
#include <algorithm>
#include <limits>
#include <cassert>
#define SUISEN_FAST_FACTORIZE // the factorization is C14; tetration_mod itself is not extracted
#define SUISEN_SIEVE_OF_ERATOSTHENES
namespace suisen::fast_factorize { std::vector<std::pair<int, int>> factorize(int); }
#include "library/number/tetration_mod.hpp"
namespace tm_ = suisen::internal::tetration_mod;
extern "C" {
int te_pow(int a, int b, int m) { return tm_::pow_mod(a, b, m); }
int te_sat(int a, int b) { return tm_::saturation_pow(a, b); }
int te_tet(int a, int b) { return tm_::saturation_tetration(a, b); }
}
