#include <string>
#include <deque>
#include <queue>
#include <functional>
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/sliding_window_minimum.hpp"
#include "conf.h"
using namespace cf;
static std::string cat(std::string a, std::string b) { return a + b; }
static std::string emp() { return ""; }
using DQ = suisen::DequeAggregation<std::string, cat, emp>;
struct Sm { std::vector<int> v; bool operator==(const Sm&) const = default; };
static Sm s0() { return {}; }
static Sm sapp(Sm a, int x) { a.v.push_back(x); std::sort(a.v.begin(), a.v.end()); return a; }
static std::vector<int> smrg(Sm a, Sm b) { for (int x : b.v) a.v.push_back(x); std::sort(a.v.begin(), a.v.end()); return a.v; }
using QA = suisen::QueueAggregation<int, Sm, s0, sapp, std::vector<int>, smrg>;
template <class D, class M> static void iters(const D& d, const M& m) {
    int n = m.size(); int i = 0;
    for (auto it = d.begin(); it != d.end(); ++it, ++i) { EXPECT(i < n, "too many"); EXPECT_EQ(*it, m[i], i); }
    EXPECT_EQ(i, n, "iterated"); EXPECT_EQ((int)(d.end() - d.begin()), n, "end-begin");
    for (auto it = d.end(); it != d.begin();) { --it; --i; EXPECT(i >= 0, "too many back"); EXPECT_EQ(*it, m[i], i); }
    for (int k = 0; k < 12; ++k) {
        int a = R(0, n), b = R(0, n); auto x = d.begin() + a, y = d.end() - (n - b); EXPECT_EQ((int)(x - y), a - b, a, b, n);
        EXPECT((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "compare", a, b, n);
        auto z = x; z += b - a; EXPECT(z == y, "+=", a, b); auto w = y; w -= b - a; EXPECT(w == x, "-=", a, b);
        if (b < n) { EXPECT_EQ(x[b - a], m[b], a, b); EXPECT_EQ(*y, m[b], b); auto p = y; EXPECT_EQ(*p++, m[b], b); EXPECT_EQ((int)(p - y), 1, b); --p; EXPECT(p == y, b); auto q = (b - a) + x; EXPECT(q == y, b); }
        if (b > 0) { auto p = y; auto o = p--; EXPECT(o == y && (int)(y - p) == 1, b); EXPECT_EQ(*p, m[b - 1], b); }
    }
}
SUITE(deque) {
    int sty = R(0, 3); std::deque<std::string> m; begin("deque style", sty); DQ d;
    if (R(0, 1)) { int n = R(0, 12); std::vector<std::string> a(n); for (auto& x : a) x = std::string(1, 'a' + R(0, 25)); op("init", a); d = R(0, 1) ? DQ(a) : DQ(a.begin(), a.end()); m.assign(a.begin(), a.end()); }
    for (int q = 0; q < 120; ++q) {
        int k = R(0, 9); if (sty == 1 && (q / 20) % 2) k = R(4, 9); if (sty == 2 && k < 2) k += 2; if (sty == 3 && (k & 1)) k ^= 1;
        std::string v(1, 'A' + R(0, 50));
        if (k < 2) { op("pf", v); d.push_front(v); m.push_front(v); } else if (k < 5) { op("pb", v); d.push_back(v); m.push_back(v); }
        else if (k < 7 && m.size()) { op("popf"); d.pop_front(); m.pop_front(); } else if (k < 9 && m.size()) { op("popb"); d.pop_back(); m.pop_back(); }
        else if (R(0, 30) == 0) { op("clear"); d.clear(); m.clear(); }
        std::string w; for (auto& x : m) w += x; EXPECT_EQ(d.prod(), w, q); EXPECT_EQ(d.size(), (int)m.size(), q);
        if (m.size()) { EXPECT_EQ(d.front(), m.front(), q); EXPECT_EQ(d.back(), m.back(), q); int i = R(0, m.size() - 1); EXPECT_EQ(d[i], m[i], i); }
        if (q % 8 == 0) { for (int i = 0; i < (int)m.size(); ++i) EXPECT_EQ(d[i], m[i], i); iters(d, m); }
    }
}
SUITE(queue) {
    std::deque<int> m; begin("queue"); QA d;
    if (R(0, 1)) { int n = R(0, 12); std::vector<int> a(n); for (auto& x : a) x = R(0, 99); op("init", a); d = R(0, 1) ? QA(a) : QA(a.begin(), a.end()); m.assign(a.begin(), a.end()); }
    for (int q = 0; q < 120; ++q) {
        int v = R(0, 999), k = R(0, 9); if ((q / 30) % 2) k = R(3, 9);
        if (k < 5) { op("push", v); d.push_back(v); m.push_back(v); } else if (k < 9 && m.size()) { op("pop"); d.pop_front(); m.pop_front(); } else if (R(0, 30) == 0) { op("clear"); d.clear(); m.clear(); }
        std::vector<int> w(m.begin(), m.end()); std::sort(w.begin(), w.end()); EXPECT_EQ(d.prod(), w, q); EXPECT_EQ(d.size(), (int)m.size(), q);
        if (m.size()) { EXPECT_EQ(d.front(), m.front(), q); EXPECT_EQ(d.back(), m.back(), q); }
        if (q % 8 == 0) { for (int i = 0; i < (int)m.size(); ++i) EXPECT_EQ(d[i], m[i], i); iters(d, m); }
    }
}
template <class C> static void win(const char* nm, bool mx, bool rt) {
    int n = R(0, 30), hi = R(0, 6); std::vector<i64> a(n); for (auto& x : a) x = R(-hi, hi); begin("window", nm, a);
    suisen::sliding_window_minimum<i64, C> s(n, [&](int i) { return a[i]; }); int l = 0, r = 0;
    for (int q = 0; q < 60; ++q) {
        int k = R(0, 4);
        if (k < 2 && r < n) { op("right"); s.proc_right(); ++r; } else if (k == 2 && l < r) { op("left"); s.proc_left(); ++l; }
        else if (k == 3) { int t = R(0, n); op("right", t); s.proc_right(t); r = std::max(r, t); if (r) { int u = R(0, r); op("left", u); s.proc_left(u); l = std::max(l, u); } }
        else if (k == 4) { int x = R(0, n), y = R(0, n); if (x > y) std::swap(x, y); op("proc", x, y); s.proc(x, y); l = std::max(l, x); r = std::max(r, y); }
        EXPECT_EQ(s.get_left(), l, q); EXPECT_EQ(s.get_right(), r, q); EXPECT_EQ(s.get_window_size(), r - l, q);
        if (l < r) { int b = l; for (int i = l; i < r; ++i) { bool bt = mx ? a[i] > a[b] : a[i] < a[b]; if (bt || (rt && a[i] == a[b])) b = i; } EXPECT_EQ(s.arg_query(), b, l, r); EXPECT_EQ(s.query(), a[b], l, r); }
    }
}
SUITE(window) { namespace pm = suisen::prioritizing_mode; for (int k = 0; k < 4; ++k) { win<pm::left_most_min<i64>>("lmin", 0, 0); win<pm::right_most_min<i64>>("rmin", 0, 1); win<pm::left_most_max<i64>>("lmax", 1, 0); win<pm::right_most_max<i64>>("rmax", 1, 1); } }
