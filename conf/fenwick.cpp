#include <string>
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "conf.h"
using namespace cf;
using FW = suisen::FenwickTree<u64>;
static u64 sum(const std::vector<u64>& a, int l, int r) { u64 s = 0; for (int i = l; i < r; ++i) s += a[i]; return s; }
static void all(FW& f, const std::vector<u64>& a) {
    int n = a.size();
    for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { EXPECT_EQ(f.sum(l, r), sum(a, l, r), "sum", l, r); EXPECT_EQ(f(l, r), sum(a, l, r), "call", l, r); }
    for (int i = 0; i < n; ++i) EXPECT_EQ((u64)f[i], a[i], "get", i);
}
SUITE(group) {
    for (int n = 0; n <= 18; ++n) {
        begin("n", n);
        std::vector<u64> a(n);
        bool z = R(0, 1);
        if (!z) for (auto& x : a) x = rnd() >> R(0, 63);
        FW f = z ? FW(n) : FW(a);
        op("init", a); all(f, a);
        for (int q = 0; n && q < 8; ++q) {
            int i = R(0, n - 1); u64 v = rnd() >> R(0, 63); int k = R(0, 6); op("op", k, "i", i, "v", v);
            switch (k) {
                case 0: f.add(i, v); a[i] += v; break;
                case 1: EXPECT_EQ((u64)(f[i] += v), a[i] += v); break;
                case 2: EXPECT_EQ((u64)(f[i] -= v), a[i] -= v); break;
                case 3: EXPECT_EQ((u64)(f[i] = v), a[i] = v); break;
                case 4: EXPECT_EQ((u64)++f[i], ++a[i]); break;
                case 5: EXPECT_EQ((u64)--f[i], --a[i]); break;
                case 6: EXPECT_EQ((u64)(f[i] *= v), a[i] *= v); break;
            }
            all(f, a);
        }
    }
}
SUITE(large) {
    int n = R(50, 3000); begin("large n", n);
    std::vector<u64> a(n); for (auto& x : a) x = rnd();
    FW f(a);
    for (int q = 0; q < 60; ++q) {
        int i = R(0, n - 1); u64 v = rnd(); op("add", i, v); f.add(i, v); a[i] += v;
        int l = R(0, n), r = R(0, n); if (l > r) std::swap(l, r); EXPECT_EQ(f.sum(l, r), sum(a, l, r), "sum", l, r);
    }
}
// commutative, non-invertible and non-idempotent: multiset of letters as sorted string
static std::string op_(std::string a, std::string b) { std::string c = a + b; std::sort(c.begin(), c.end()); return c; }
static std::string e_() { return ""; }
using FP = suisen::FenwickTreePrefix<std::string, op_, e_>;
SUITE(prefix) {
    for (int n = 0; n <= 18; ++n) {
        begin("prefix n", n);
        std::vector<std::string> a(n);
        bool z = R(0, 1); if (!z) for (auto& x : a) x = std::string(1, char('a' + R(0, 25)));
        FP f = z ? FP(n) : FP(a); op("init", a);
        for (int q = 0; q < 8; ++q) {
            std::string p; for (int r = 0; r <= n; ++r) { EXPECT_EQ(f.prefix_query(r), p, "prefix", r); if (r < n) p = op_(p, a[r]); }
            if (!n) break;
            int i = R(0, n - 1); std::string v(1, char('a' + R(0, 25))); op("apply", i, v); f.apply(i, v); a[i] = op_(a[i], v);
        }
    }
}
