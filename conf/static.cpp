#include <algorithm>
#include <string>
#include "library/datastructure/sparse_table.hpp"
#include "library/util/cumulative_sum.hpp"
#include "library/util/cumulative_sum_2d.hpp"
#include "library/util/step_sum.hpp"
#include "conf.h"
using namespace cf;
// an idempotent, non-commutative monoid: (first, last, min, or) of a non-empty block
struct B { int f, l, mn; unsigned o; bool operator==(const B&) const = default; };
static B op(B a, B b) { if (a.f < 0) return b; if (b.f < 0) return a; return {a.f, b.l, std::min(a.mn, b.mn), a.o | b.o}; }
static B e() { return {-1, -1, 1 << 30, 0}; }
static std::string note_(B b) { return fmt(b.f, b.l, b.mn, b.o); }
using ST = suisen::SparseTable<B, op, e>;
static void spt(int n, bool all) {
    begin("sparse n", n); std::vector<B> a(n); for (auto& x : a) { int v = R(0, 99); x = {v, v, (int)R(0, 99), 1u << R(0, 31)}; }
    op("a", a); ST s(a);
    auto chk = [&](int l, int r) { B w = e(); for (int i = l; i < r; ++i) w = op(w, a[i]); B g = s(l, r), h = s.prod(l, r); EXPECT(g == w, "call", l, r, "n", n); EXPECT(h == w, "prod", l, r, "n", n); };
    if (all) { for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) chk(l, r); for (int l = 0; l <= n; ++l) for (int r = 0; r < l; ++r) EXPECT(s(l, r) == e(), "empty", l, r); }
    else for (int q = 0; q < 60; ++q) { int l = R(0, n), r = R(0, n); if (l > r) std::swap(l, r); chk(l, r); }
}
SUITE(sparse) { for (int n = 0; n <= 20; ++n) spt(n, true); int k = R(3, 10); spt((1 << k) + R(-1, 1), false); spt(R(20, 1200), false); }
SUITE(cumsum) {
    for (int n = 0; n <= 12; ++n) {
        std::vector<u64> a(n); for (auto& x : a) x = E(); begin("cumsum", a);
        suisen::CumulativeSum<u64> s(a); if (n == 0 && R(0, 1)) s = suisen::CumulativeSum<u64>();
        for (int rep = 0; rep < 4; ++rep) {
            for (int l = 0; l <= (int)a.size(); ++l) for (int r = l; r <= (int)a.size(); ++r) { u64 w = 0; for (int i = l; i < r; ++i) w += a[i]; EXPECT_EQ(s(l, r), w, l, r); EXPECT_EQ(s.sum(l, r), w, l, r); }
            u64 v = E(); op("push", v); s.push_back(v); a.push_back(v);
        }
    }
}
SUITE(cumsum2d) {
    for (int n = 0; n <= 5; ++n) for (int m = n ? 0 : 0; m <= 5; ++m) {
        std::vector<std::vector<u64>> a(n, std::vector<u64>(m)); for (auto& r : a) for (auto& x : r) x = E(); begin("cumsum2d", n, m, a); if (n == 0) m = 9;
        suisen::CumulativeSum2D<u64> s(a); if (n == 0 && R(0, 1)) s = suisen::CumulativeSum2D<u64>(); int M = n ? m : 0;
        for (int u = 0; u <= n + 1; ++u) for (int d = 0; d <= n + 1; ++d) for (int l = 0; l <= M + 1; ++l) for (int r = 0; r <= M + 1; ++r) {
            u64 w = 0; if (u <= d && d <= n && l <= r && r <= M) for (int i = u; i < d; ++i) for (int j = l; j < r; ++j) w += a[i][j];
            EXPECT_EQ(s(u, d, l, r), w, u, d, l, r);
        }
    }
}
SUITE(stepsum) {
    for (int n = 0; n <= 9; ++n) for (int st = 1; st <= 11; ++st) {
        std::vector<i64> a(n); for (auto& x : a) x = R(-1000, 1000); begin("stepsum", n, st, a); suisen::StepSum<i64> s(a, st);
        for (int k = 0; k < st; ++k) for (int l = 0; l <= n + 2; ++l) for (int r = 0; r <= n + 3; ++r) { i64 w = 0; for (int i = l; i < r && i < n; ++i) if (i % st == k) w += a[i]; EXPECT_EQ(s(k, l, r), w, k, l, r); }
    }
}
