// convex hull trick, monotone convex hull trick, slope trick and Lagrangian (alien) search against brute force
#include <bits/stdc++.h>
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/slope_trick.hpp"
#include "library/optimization/alien_dp.hpp"
#include "conf.h"
using namespace cf;
using Ln = std::pair<i64, i64>;
static i64 best(const std::vector<Ln>& v, i64 x, bool mn) { __int128 r = (__int128)v[0].first * x + v[0].second; for (auto [a, b] : v) { __int128 y = (__int128)a * x + b; r = mn ? std::min(r, y) : std::max(r, y); } return i64(r); }
template <bool mn> static void cht() {
    suisen::ConvexHullTrick<i64, mn> h; std::vector<Ln> v; i64 A = R(0, 3) ? R(1, 12) : 1000000000, B = R(0, 3) ? R(1, 40) : i64(1000000000) * 1000000000 / 4, X = R(0, 2) ? R(1, 30) : 1000000000;
    EXPECT_EQ(h.has_line(), false);
    for (int t = R(1, 40); t--;) {
        if (v.empty() || R(0, 1)) { i64 a = R(-A, A), b = R(-B, B); op("add_line", a, b); h.add_line(a, b); v.push_back({a, b}); EXPECT_EQ(h.has_line(), true); }
        else { i64 x = R(-X, X); op("query", x); EXPECT(h.query(x) == best(v, x, mn), "value of the best line"); }
    }
    for (i64 x = -40; x <= 40; ++x) if (v.size()) EXPECT(h.query(x) == best(v, x, mn), "value of the best line", x);
    suisen::ConvexHullTrick<double, mn> hd; std::vector<Ln> w;
    for (int t = R(1, 15); t--;) { i64 a = R(-8, 8), b = R(-20, 20); op("add_line (double)", a, b); hd.add_line(double(a), double(b)); w.push_back({a, b}); double x = double(R(-20, 20)); op("query", i64(x)); EXPECT(std::abs(double(hd.query(x)) - double(best(w, i64(x), mn))) < 1e-6, "value of the best line (double)"); }
}
SUITE(convex_hull_trick) { begin("ConvexHullTrick"); if (R(0, 1)) cht<true>(); else cht<false>(); }
template <class T, bool mn, class Tag> static void mono(int dirx) {
    suisen::MonotonicCHT<T, mn, Tag> h; std::vector<Ln> v; i64 S = R(0, 3) ? R(1, 3) : 100000000, B = R(0, 3) ? R(1, 40) : i64(1000000000) * 100000000, lo = R(-S, S), hi = lo, x = dirx > 0 ? -R(0, 60) : dirx < 0 ? R(0, 60) : 0; int side = R(0, 2); bool f = true;
    if (!std::is_integral_v<T>) S = std::min<i64>(S, 3), B = std::min<i64>(B, 40), lo = hi = R(-3, 3);
    for (int t = R(1, 40); t--;) {
        if (f || R(0, 1)) { bool up = side == 2 ? R(0, 1) : side; if (!f) (up ? hi : lo) += (up ? 1 : -1) * R(0, S); i64 a = up ? hi : lo, b = R(-B, B); f = false; op("add_line", a, b); h.add_line(T(a), T(b)); v.push_back({a, b}); }
        else { x = dirx == 0 ? R(-60, 60) : x + dirx * R(0, 6); op("query", x); EXPECT(std::abs((long double)h.query(T(x)) - (long double)best(v, x, mn)) < (std::is_integral_v<T> ? 0.5L : 1e-6L), "value of the best line"); }
    }
}
SUITE(monotonic_cht) {
    int k = R(0, 7); begin("MonotonicCHT", k);
    switch (k) { case 0: mono<i64, true, suisen::inc_query_tag>(1); break; case 1: mono<i64, false, suisen::inc_query_tag>(1); break; case 2: mono<i64, true, suisen::dec_query_tag>(-1); break; case 3: mono<i64, false, suisen::dec_query_tag>(-1); break;
        case 4: mono<i64, true, suisen::non_monotonic_query_tag>(0); break; case 5: mono<i64, false, suisen::non_monotonic_query_tag>(0); break; case 6: mono<double, true, suisen::inc_query_tag>(1); break; case 7: mono<double, false, suisen::dec_query_tag>(-1); break; }
}
SUITE(slope_trick) {            // the function is tabulated on [-M, M]; every breakpoint stays well inside
    const int M = 400; std::vector<i64> f(2 * M + 1); suisen::SlopeTrick<i64> s; begin("SlopeTrick"); int drift = 0;
    for (int t = R(1, 14); t--;) {
        i64 a = R(-15, 15); auto g = f;
        switch (R(0, 9)) {
            case 0: case 1: op("add_right", a); s.add_right(a); for (int x = -M; x <= M; ++x) f[x + M] += std::max<i64>(0, x - a); break;
            case 2: case 3: op("add_left", a); s.add_left(a); for (int x = -M; x <= M; ++x) f[x + M] += std::max<i64>(0, a - x); break;
            case 4: op("add_abs", a); s.add_abs(a); for (int x = -M; x <= M; ++x) f[x + M] += std::abs(x - a); break;
            case 5: op("add_const", a); s.add_const(a); for (auto& y : f) y += a; break;
            case 6: op("cumulative_min_left"); s.cumulative_min_left(); for (int x = 1; x <= 2 * M; ++x) f[x] = std::min(f[x], f[x - 1]); break;
            case 7: op("cumulative_min_right"); s.cumulative_min_right(); for (int x = 2 * M; x--;) f[x] = std::min(f[x], f[x + 1]); break;
            case 8: { i64 d = R(-10, 10); op("translate", d); int w = R(0, 2); if (w == 0) s.translate(d); else if (w == 1) s <<= -d; else s >>= d; for (int x = 0; x <= 2 * M; ++x) { int y = int(x - d); f[x] = y < 0 ? g[0] + (g[0] - g[1]) * -y : y > 2 * M ? g[2 * M] + (g[2 * M] - g[2 * M - 1]) * (y - 2 * M) : g[y]; } break; }
            default: { i64 p = R(-10, 10), q = p + R(0, 10); op("sliding_window_minimum", p, q); s.sliding_window_minimum(p, q); for (int x = 0; x <= 2 * M; ++x) { i64 b = i64(4e18); for (int y = int(x - q); y <= x - p; ++y) b = std::min(b, y < 0 ? g[0] + (g[0] - g[1]) * -y : y > 2 * M ? g[2 * M] + (g[2 * M] - g[2 * M - 1]) * (y - 2 * M) : g[y]); f[x] = b; } }
        }
        i64 mn = *std::min_element(f.begin(), f.end()); EXPECT(s.min() == mn, "minimum", s.min(), mn);
        int l = int(std::find(f.begin(), f.end(), mn) - f.begin()) - M, r = M - int(std::find(f.rbegin(), f.rend(), mn) - f.rbegin());
        auto [al, ar] = s.argmin_range(); EXPECT((l == -M ? al < -M : al == l) && (r == M ? ar > M : ar == r), "argmin range", al, ar, l, r);
    }
    auto [neg, base, pos] = s.lines(); EXPECT(std::is_sorted(neg.begin(), neg.end()) && std::is_sorted(pos.begin(), pos.end()), "breakpoints in order");
    for (int x = -100; x <= 100; ++x) { i64 y = base; for (i64 a : neg) if (a > x) y += a - x; for (i64 a : pos) if (x > a) y += x - a; EXPECT(y == f[x + M], "function given by lines()", x, y, f[x + M]); }
}
SUITE(alien) {                   // f convex on [0, n]; g(p) = min f(x) - p x
    int n = R(0, 12), C = R(0, 6); std::vector<i64> d(n), f(n + 1); for (auto& x : d) x = R(-C, C); std::sort(d.begin(), d.end()); f[0] = R(-20, 20); for (int i = 0; i < n; ++i) f[i + 1] = f[i] + d[i];
    i64 lo = n ? d[0] : 0, hi = n ? d[n - 1] : 0; lo -= R(0, 3), hi += R(0, 3); begin("alien", f, lo, hi);
    auto g = [&](i64 p) { std::pair<i64, int> r(f[0], 0); for (int i = 1; i <= n; ++i) if (f[i] - p * i < r.first) r = {f[i] - p * i, i}; return r; };
    auto h = [&](i64 p) { std::pair<i64, int> r(-f[0], 0); for (int i = 1; i <= n; ++i) if (-f[i] - p * i >= r.first) r = {-f[i] - p * i, i}; return r; };
    for (int x = 0; x <= n; ++x) {
        EXPECT_EQ(suisen::alien_convex<i64>(x, lo, hi, [&](i64 p) { return g(p).first; }), f[x]); EXPECT_EQ(suisen::alien_convex<i64>(x, lo, hi, g), f[x]);
        EXPECT_EQ(suisen::alien_concave<i64>(x, -hi, -lo, [&](i64 p) { return h(p).first; }), -f[x]); EXPECT_EQ(suisen::alien_concave<i64>(x, -hi, -lo, h), -f[x]);
    }
}
