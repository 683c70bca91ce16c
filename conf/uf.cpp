#include <string>
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "conf.h"
using namespace cf;
struct Part { // naive partition
    std::vector<int> c; Part(int n) : c(n) { std::iota(c.begin(), c.end(), 0); }
    bool same(int x, int y) const { return c[x] == c[y]; }
    bool merge(int x, int y) { int a = c[x], b = c[y]; if (a == b) return false; for (auto& v : c) if (v == b) v = a; return true; }
    int size(int x) const { return std::count(c.begin(), c.end(), c[x]); }
    std::vector<int> comp(int x) const { std::vector<int> r; for (int i = 0; i < (int)c.size(); ++i) if (c[i] == c[x]) r.push_back(i); return r; }
    std::set<std::vector<int>> groups() const { std::set<std::vector<int>> r; for (int i = 0; i < (int)c.size(); ++i) r.insert(comp(i)); return r; }
};
template <class U> static void same_all(U& u, const Part& p, int how) {
    int n = p.c.size();
    for (int q = 0; q < n * 2; ++q) {
        int x = R(0, n - 1), y = R(0, n - 1);
        EXPECT_EQ(u.same(x, y), p.same(x, y), "same", x, y); EXPECT_EQ(u.size(x), p.size(x), "size", x);
        EXPECT_EQ(u.root(x) == u.root(y), p.same(x, y), "root", x, y); EXPECT(p.same(u.root(x), x), "root in component", x); EXPECT_EQ(u[x], u.root(x), x);
    }
    if (how) { auto g = u.groups(); std::set<std::vector<int>> s; size_t tot = 0; for (auto& v : g) { std::sort(v.begin(), v.end()); s.insert(v); tot++; } EXPECT(s == p.groups() && tot == s.size(), "groups", g); }
}
SUITE(plain) {
    for (int n = 0; n <= 14; ++n) {
        begin("n", n); suisen::UnionFind u(n); Part p(n); same_all(u, p, 1);
        for (int q = 0; n && q < 16; ++q) { int x = R(0, n - 1), y = R(0, n - 1); op("merge", x, y); EXPECT_EQ(u.merge(x, y), p.merge(x, y), "merge", x, y); if (R(0, 2) == 0) same_all(u, p, R(0, 1)); }
        if (n) same_all(u, p, 1);
    }
}
SUITE(linked) {
    for (int n = 1; n <= 14; ++n) {
        begin("linked n", n); suisen::LinkedUnionFind u(n); Part p(n);
        for (int q = 0; q < 16; ++q) {
            int x = R(0, n - 1), y = R(0, n - 1); op("merge", x, y); EXPECT_EQ(u.merge(x, y), p.merge(x, y), "merge", x, y);
            x = R(0, n - 1); auto c = u.connected_component(x); EXPECT_EQ(c[0], x); std::sort(c.begin(), c.end()); EXPECT_EQ(c, p.comp(x), "component", x); EXPECT_EQ(u.size(x), p.size(x));
        }
    }
}
SUITE(undo) {
    for (int n = 1; n <= 12; ++n) {
        begin("undo n", n); suisen::UndoUnionFind u(n); std::vector<Part> h{Part(n)};
        for (int q = 0; q < 40; ++q) {
            int k = R(0, 11);
            if (k < 7) { int x = R(0, n - 1), y = R(0, n - 1); Part p = h.back(); op("merge", x, y); bool m = p.merge(x, y); EXPECT_EQ(u.merge(x, y), m, "merge", x, y); if (m) h.push_back(p); }
            else if (k < 9) { if (h.size() > 1) { op("undo"); u.undo(); h.pop_back(); } }
            else if (k == 9) { op("snapshot"); u.snapshot(); h = {h.back()}; }
            else if (k == 10) { op("rollback"); u.rollback(); h = {h.front()}; }
            same_all(u, h.back(), k & 1);
        }
    }
}
// symmetric group S3 is the smallest non-commutative group; permutations of 4 points here
using P4 = std::vector<int>;
static P4 pop_(P4 a, P4 b) { P4 c(4); for (int i = 0; i < 4; ++i) c[i] = b[a[i]]; return c; }
static P4 pe() { return {0, 1, 2, 3}; }
static P4 pneg(P4 a) { P4 c(4); for (int i = 0; i < 4; ++i) c[a[i]] = i; return c; }
SUITE(weighted) {
    for (int n = 1; n <= 12; ++n) {
        begin("weighted n", n); suisen::WeightedUnionFind<P4, pop_, pe, pneg> u(n); Part p(n);
        std::vector<P4> w(n, pe()); // potential per vertex relative to naive component
        for (int q = 0; q < 30; ++q) {
            int x = R(0, n - 1), y = R(0, n - 1); P4 d = pe(); for (int i = 3; i; --i) std::swap(d[i], d[R(0, i)]);
            op("merge", x, y, d);
            bool m = p.same(x, y);
            if (!m) { P4 shift = pop_(pop_(w[x], d), pneg(w[y])); for (int i : p.comp(y)) w[i] = pop_(shift, w[i]); p.merge(x, y); }
            EXPECT_EQ(u.merge(x, y, d), !m, "merge", x, y);
            x = R(0, n - 1), y = R(0, n - 1);
            if (p.same(x, y)) EXPECT_EQ(u.diff(x, y), pop_(pneg(w[x]), w[y]), "diff", x, y);
            if (q % 5 == 0) same_all(u, p, q & 1);
        }
    }
}
SUITE(undo_long) {
    int n = R(40, 150); begin("undo long n", n); suisen::UndoUnionFind u(n); std::vector<Part> h{Part(n)};
    int steps = R(20, 160);
    for (int q = 0; q < steps; ++q) {
        int k = R(0, 40);
        if (k < 34) { int x = R(0, n - 1), y = R(0, n - 1); Part p = h.back(); bool m = p.merge(x, y); EXPECT_EQ(u.merge(x, y), m, "merge", x, y); if (m) h.push_back(p); op("merge", x, y); }
        else if (k < 38) { if (h.size() > 1) { op("undo"); u.undo(); h.pop_back(); } }
        else if (k < 40) { op("snapshot"); u.snapshot(); h = {h.back()}; }
        else { op("rollback"); u.rollback(); h = {h.front()}; }
        if (k >= 34) same_all(u, h.back(), 0);
    }
    op("rollback"); u.rollback(); same_all(u, h.front(), 1);
}
SUITE(plain_long) {
    int n = R(40, 300); begin("long n", n); suisen::UnionFind u(n); suisen::LinkedUnionFind w(n); Part p(n);
    for (int q = 0; q < 2 * n; ++q) { int x = R(0, n - 1), y = R(0, n - 1); op("merge", x, y); bool m = p.merge(x, y); EXPECT_EQ(u.merge(x, y), m); EXPECT_EQ(w.merge(x, y), m);
        if (q % 16 == 0) { same_all(u, p, 0); x = R(0, n - 1); auto c = w.connected_component(x); std::sort(c.begin(), c.end()); EXPECT_EQ(c, p.comp(x), "component", x); } }
}
SUITE(weighted_long) {
    int n = R(16, 80); begin("weighted long n", n); suisen::WeightedUnionFind<P4, pop_, pe, pneg> u(n); std::vector<P4> w(n); Part p(n);
    for (auto& d : w) { d = pe(); for (int i = 3; i; --i) std::swap(d[i], d[R(0, i)]); }
    for (int q = 0; q < 3 * n; ++q) { int x = R(0, n - 1), y = R(0, n - 1); if (R(0, 1)) { x = u.root(x); y = u.root(y); } op("merge", x, y); EXPECT_EQ(u.merge(x, y, pop_(pneg(w[x]), w[y])), p.merge(x, y)); }
    for (int q = 0; q < 3 * n; ++q) { int x = R(0, n - 1), y = R(0, n - 1); if (p.same(x, y)) EXPECT_EQ(u.diff(x, y), pop_(pneg(w[x]), w[y]), "diff", x, y); }
    same_all(u, p, 1);
}
