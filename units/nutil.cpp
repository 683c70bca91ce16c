#include <vc.h>
#include <vector>
#include <array>
#include <cmath>
#include <tuple>
#include <utility>
#include <numeric>
#include "library/number/util.hpp"
using VI = std::vector<int>;
using VVI = std::vector<std::vector<int>>;
VC_TYPE(VI, VI) VC_TYPE(VVI, VVI)
extern "C" {
long long pw_ll(long long a, int b) { return suisen::powi<long long>(a, b); }
int pw_int(int a, int b) { return suisen::powi<int>(a, b); }
void div_table(VVI* out, int n) { ::new (out) VVI(suisen::divisors_table(n)); }
}
