#include <string>
#include "library/datastructure/segment_tree/segment_tree.hpp"
#include "conf.h"
using namespace cf;
// free monoid: strings under concatenation (non-commutative, so every ordering mistake shows)
using T = std::string;
static T op(T a, T b) { return a + b; }
static T e() { return ""; }
using Seg = suisen::SegmentTree<T, op, e>;
static T fold(const std::vector<T>& a, int l, int r) { T s; for (int i = l; i < r; ++i) s += a[i]; return s; }
static T tok() { return std::string(1, char('a' + R(0, 25))) + (R(0, 3) ? "" : "."); }
static void all(const Seg& s, const std::vector<T>& a) {
    int n = a.size();
    for (int i = 0; i < n; ++i) EXPECT_EQ(s.get(i), a[i], "get", i);
    for (int l = 0; l <= n; ++l) {
        for (int r = l; r <= n; ++r) EXPECT_EQ(s.prod(l, r), fold(a, l, r), "prod", l, r);
        EXPECT_EQ(s.prefix_prod(l), fold(a, 0, l), "prefix_prod", l);
        EXPECT_EQ(s.suffix_prod(l), fold(a, l, n), "suffix_prod", l);
    }
    EXPECT_EQ(s.all_prod(), fold(a, 0, n), "all_prod");
}
SUITE(history) {
    for (int n = 0; n <= 20; ++n) {
        begin("n", n);
        std::vector<T> a(n);
        if (R(0, 1)) for (auto& x : a) x = tok();
        Seg s = R(0, 1) || std::count(a.begin(), a.end(), T()) != n ? Seg(a) : Seg(n);
        op("init", a); all(s, a);
        for (int q = 0; n && q < 6; ++q) {
            int i = R(0, n - 1); T v = tok(); op("set", i, v);
            if (R(0, 1)) s.set(i, v), a[i] = v; else if (R(0, 1)) s[i] = v, a[i] = v; else s[i] += v, a[i] += v;
            all(s, a);
        }
    }
}
SUITE(large) {
    int n = R(60, 300); begin("large n", n);
    std::vector<T> a(n); for (auto& x : a) x = tok();
    Seg s(a);
    for (int q = 0; q < 40; ++q) {
        int i = R(0, n - 1); T v = tok(); op("set", i, v); s.set(i, v); a[i] = v;
        int l = R(0, n), r = R(0, n); if (l > r) std::swap(l, r); EXPECT_EQ(s.prod(l, r), fold(a, l, r), "prod", l, r);
        EXPECT_EQ(s.all_prod(), fold(a, 0, n));
    }
}
// the searches: largest/smallest end for which a (not necessarily monotone) predicate switches, local specification
SUITE(search) {
    for (int n = 0; n <= 20; ++n) {
        std::vector<T> a(n); for (auto& x : a) x = R(0, 3) ? tok() : T();
        begin("search", n, a); Seg s(a);
        int lim = R(0, n + 2); u64 salt = rnd(); bool mono = R(0, 1);
        auto f = [&](const T& x) { return x.empty() || (mono ? (int)x.size() <= lim : std::hash<T>()(x) % 3 != salt % 3); };
        for (int l = 0; l <= n; ++l) {
            int r = s.max_right(l, f); op("max_right", l, "->", r, "lim", lim, "mono", mono);
            EXPECT(l <= r && r <= n, r); EXPECT(f(fold(a, l, r)), "predicate fails on the answer", l, r); EXPECT(r == n || !f(fold(a, l, r + 1)), "predicate still holds one further", l, r);
            r = s.min_left(l, f); op("min_left", l, "->", r);
            EXPECT(0 <= r && r <= l, r); EXPECT(f(fold(a, r, l)), "predicate fails on the answer", r, l); EXPECT(r == 0 || !f(fold(a, r - 1, l)), "predicate still holds one further", r, l);
        }
    }
}
