#include <string>
#include <array>
#include "library/datastructure/segment_tree/commutative_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
// words over four letters under concatenation, acted on letter by letter by arbitrary (non-commuting) maps of the alphabet
using T = std::string;
struct F { std::array<char, 4> m; };
static std::string note_(F f) { return "[" + std::string(f.m.begin(), f.m.end()) + "]"; }
#include "conf.h"
using namespace cf;
static T op(T a, T b) { return a + b; }
static T e() { return ""; }
static T mapping(F f, T x) { for (auto& c : x) c = f.m[c - 'a']; return x; }
static F comp(F f, F g) { F h; for (int i = 0; i < 4; ++i) h.m[i] = f.m[g.m[i] - 'a']; return h; }
static F id() { return F{ { 'a', 'b', 'c', 'd' } }; }
static F rf() { F f; for (auto& c : f.m) c = 'a' + R(0, 3); if (!R(0, 6)) f = id(); return f; }
static F shift() { int k = R(0, 3); F f; for (int i = 0; i < 4; ++i) f.m[i] = 'a' + (i + k) % 4; return f; }
static T tok() { T s(1, 'a' + R(0, 3)); if (!R(0, 4)) s += char('a' + R(0, 3)); return s; }
using V = std::vector<T>;
static T fold(const V& a, int l, int r) { T s; for (int i = l; i < r; ++i) s += a[i]; return s; }
using CD = suisen::CommutativeDualSegmentTree<T, F, mapping, comp, id>;
using DU = suisen::DualSegmentTree<T, F, mapping, comp, id>;
using LZ = suisen::LazySegmentTree<T, op, e, F, mapping, comp, id>;
static V init(int n) { V a(n); for (auto& x : a) x = tok(); return a; }
template <class S> static void dual(bool comm) {
    for (int n = 0; n <= 20; ++n) {
        begin("dual n", n, "commuting", comm); V a = init(n); op("init", a); S s(a);
        for (int q = 0; q < 10; ++q) {
            int l = R(0, n), r = R(0, n); if (l > r) std::swap(l, r); F f = comm ? shift() : rf(); op("apply", l, r, f);
            s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = mapping(f, a[i]);
            for (int i = 0; i < n; ++i) EXPECT_EQ(s.get(i), a[i], "get", i);
            if (n && R(0, 2) == 0) { int i = R(0, n - 1); EXPECT_EQ(s[i], a[i], "operator[]", i); }
        }
    }
}
SUITE(commutative_dual) { dual<CD>(true); }
SUITE(dual_) { dual<DU>(false); }
static void step(LZ& s, V& a) {
    int n = a.size(); int l = R(0, n), r = R(0, n); if (l > r) std::swap(l, r);
    switch (R(0, 6)) {
    case 0: case 1: { F f = rf(); op("apply", l, r, f); s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = mapping(f, a[i]); break; }
    case 2: { if (!n) break; int p = R(0, n - 1); F f = rf(); op("apply", p, f); s.apply(p, f); a[p] = mapping(f, a[p]); break; }
    case 3: { if (!n) break; int p = R(0, n - 1); T v = tok(); op("set", p, v); if (R(0, 1)) s.set(p, v); else s[p] = v; a[p] = v; break; }
    case 4: { if (!n) break; int p = R(0, n - 1); T v = tok(); op("operator[] +=", p, v); s[p] += v; a[p] += v; break; }
    case 5: { if (!n) break; int p = R(0, n - 1); op("get", p); EXPECT_EQ(s.get(p), a[p]); break; }
    case 6: { op("prod", l, r); EXPECT_EQ(s.prod(l, r), fold(a, l, r)); break; }
    }
    EXPECT_EQ(s.all_prod(), fold(a, 0, n), "all_prod");
}
static void full(const LZ& s0, const V& a) {
    int n = a.size();
    for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { LZ s = s0; EXPECT_EQ(s(l, r), fold(a, l, r), "prod on a copy", l, r); }
    LZ s = s0; for (int i = 0; i < n; ++i) EXPECT_EQ(s.get(i), a[i], "get", i);
    for (int l = 0; l <= n; ++l) { LZ u = s0; EXPECT_EQ(u.prefix_prod(l), fold(a, 0, l), "prefix_prod", l); LZ v = s0; EXPECT_EQ(v.suffix_prod(l), fold(a, l, n), "suffix_prod", l); }
}
SUITE(lazy) {
    for (int n = 0; n <= 18; ++n) {
        begin("lazy n", n); V a(n, e()); LZ s(n); if (R(0, 3)) { a = init(n); s = LZ(a); } op("init", a);
        for (int q = 0; q < 12; ++q) { step(s, a); if (n <= 9 || q % 4 == 0) full(s, a); }
    }
}
SUITE(lazy_large) {
    int n = R(60, 260); begin("lazy n", n); V a = init(n); LZ s(a); op("init", a); for (int q = 0; q < 80; ++q) step(s, a); full(LZ(a), a); for (int i = 0; i < n; ++i) EXPECT_EQ(s.get(i), a[i], "get", i);
}
SUITE(lazy_search) {
    for (int n = 0; n <= 18; ++n) {
        begin("search n", n); V a = init(n); op("init", a); LZ s(a);
        for (int q = 0; q < 5; ++q) {
            int lim = R(0, n + 2); u64 salt = rnd(); bool mono = R(0, 1);
            auto f = [&](const T& x) { return x.empty() || (mono ? (int)x.size() <= lim : std::hash<T>()(x) % 3 != salt % 3); };
            for (int t = R(0, 3); t--;) step(s, a);
            for (int l = 0; l <= n; ++l) {
                LZ u = s; int r = u.max_right(l, f); op("max_right", l, "->", r, "lim", lim, "mono", mono);
                EXPECT(l <= r && r <= n, r); EXPECT(f(fold(a, l, r)), "predicate fails on the answer", l, r); EXPECT(r == n || !f(fold(a, l, r + 1)), "predicate still holds one further", l, r);
                if (R(0, 1)) EXPECT_EQ(u.prod(0, n), fold(a, 0, n), "values after max_right");
                u = s; r = u.min_left(l, f); op("min_left", l, "->", r);
                EXPECT(0 <= r && r <= l, r); EXPECT(f(fold(a, r, l)), "predicate fails on the answer", r, l); EXPECT(r == 0 || !f(fold(a, r - 1, l)), "predicate still holds one further", r, l);
                for (int i = 0; i < n; ++i) EXPECT_EQ(u.get(i), a[i], "get after min_left", i);
            }
        }
    }
}
