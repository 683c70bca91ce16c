#include <string>
#include <vector>
#include <optional>
#include "library/number/bezout_equation.hpp"
#include "library/number/garner.hpp"
#include "conf.h"
using namespace cf;
static i64 sgnE(int b) { i64 v = (i64)(E() & ((u64(1) << b) - 1)); return R(0, 1) ? v : -v; }
SUITE(ext) {
    for (int it = 0; it < 400; ++it) {
        i64 a = it < 169 ? it / 13 - 6 : sgnE(62), b = it < 169 ? it % 13 - 6 : sgnE(62);
        if (it >= 169 && R(0, 4) == 0) { i64 g = 1 + R(0, 1000); a = sgnE(50) * g; b = sgnE(50) * g; }
        if (R(0, 30) == 0) a = INT64_MAX - R(0, 3); if (R(0, 30) == 0) b = -INT64_MAX + R(0, 3);
        begin("ext_gcd", a, b); auto [x, y, g] = suisen::ext_gcd(a, b); i64 G = std::gcd(a, b);
        EXPECT_EQ(g, G); EXPECT((i128)a * x + (i128)b * y == (i128)g, x, y, g);
        EXPECT((b == 0 ? std::abs(x) <= 1 : (u64)std::abs(x) <= (u64)std::abs(b)) && (a == 0 ? std::abs(y) <= 1 : (u64)std::abs(y) <= (u64)std::abs(a)), x, y);
        i64 m = b < 0 ? -b : b; if (m == 0) continue;
        op("mod", m); EXPECT_EQ(suisen::safe_mod(a, m), (i64)((((i128)a % m) + m) % m));
        auto [iv, g2] = suisen::gcd_inv(a, m); EXPECT_EQ(g2, G); EXPECT(0 <= iv && iv < m, iv); EXPECT((i64)((((i128)a % m * iv) % m + m) % m) == G % m, iv);
        if (G == 1) { i64 r = suisen::inv_mod(a, m); EXPECT(0 <= r && r < m && (((i128)a % m * r) % m + m) % m == 1 % m, r); }
    }
}
SUITE(small) {
    for (int it = 0; it < 150; ++it) {
        i64 a = R(-7, 7), b = R(-7, 7), z = R(-20, 20); if (R(0, 5) == 0) a = 0; if (R(0, 5) == 0) b = 0; if (R(0, 3) == 0) z = 0;
        begin("solve", a, b, z); suisen::BezoutEquation e(a, b); auto s = e.solve(z);
        bool any = a == 0 && b == 0 ? z == 0 : z % std::gcd(a, b) == 0; EXPECT_EQ(s.has_solution(), any);
        i64 xl = -1000, xh = 1000, yl = -1000, yh = 1000; bool bx = false, by = false, bX = false, bY = false, alive = any; int k = R(0, 6);
        std::string how;
        for (int q = 0; q < k && alive; ++q) {
            i64 v = R(-30, 30); int w = R(0, 5); bool r;
            auto cnt = [&](i64 l, i64 h, i64 l2, i64 h2) { bool f = false; for (i64 x = l; x <= h && !f; ++x) for (i64 y = l2; y <= h2 && !f; ++y) f = a * x + b * y == z; return f; };
            bool isx = false, isy = false; i64 u = v + R(-1, 10);
            if (w == 0) { op("min_x", v); r = s.set_min_x(v); if (v > xl) xl = v; bx = true; isx = true; }
            else if (w == 1) { op("max_x", v); r = s.set_max_x(v); if (v < xh) xh = v; bX = true; isx = true; }
            else if (w == 2) { op("min_y", v); r = s.set_min_y(v); if (v > yl) yl = v; by = true; isy = true; }
            else if (w == 3) { op("max_y", v); r = s.set_max_y(v); if (v < yh) yh = v; bY = true; isy = true; }
            else if (w == 4) { op("x_range", v, u); r = s.set_x_range(v, u); xl = std::max(xl, v); xh = std::min(xh, u); bx = bX = true; isx = true; }
            else { op("y_range", v, u); r = s.set_y_range(v, u); yl = std::max(yl, v); yh = std::min(yh, u); by = bY = true; isy = true; }
            // the return value says whether the restricted coordinate alone still admits a solution
            bool exx = isx ? cnt(xl, xh, -1000, 1000) : cnt(-1000, 1000, yl, yh);
            if (a == 0 && b == 0) exx = isx ? xl <= xh : yl <= yh;
            EXPECT_EQ(r, exx); if (!r) alive = false;
        }
        if (!alive) { EXPECT_EQ(s.has_solution(), false); auto c = s.count(); EXPECT(c.has_value() && *c == 0, "count"); continue; }
        if (!bx) xl = -400; if (!bX) xh = 400; if (!by) yl = -400; if (!bY) yh = 400;
        i64 n = 0, mnx = 1e9, mxx = -1e9, mny = 1e9, mxy = -1e9; for (i64 x = xl; x <= xh; ++x) for (i64 y = yl; y <= yh; ++y) if (a * x + b * y == z) { ++n; mnx = std::min(mnx, x); mxx = std::max(mxx, x); mny = std::min(mny, y); mxy = std::max(mxy, y); }
        EXPECT_EQ(s.has_solution(), n > 0); auto c = s.count();
        bool fin; if (a == 0 && b == 0) fin = bx && bX && by && bY; else if (b == 0) fin = by && bY; else if (a == 0) fin = bx && bX; else { bool dn = (i128)a * b < 0; bool lo = bx || (dn ? by : bY), hi = bX || (dn ? bY : by); fin = lo && hi; }
        if (n == 0) { EXPECT(c.has_value() && *c == 0, "count of an empty set"); continue; }
        EXPECT_EQ(c.has_value(), fin); if (fin) EXPECT_EQ(*c, n);
        if (!fin) continue;
        if (a || b) { 
            auto in = [&](std::pair<i64, i64> p) { return a * p.first + b * p.second == z && xl <= p.first && p.first <= xh && yl <= p.second && p.second <= yh; };
            auto p = s.xmin_solution(); EXPECT(in(p) && p.first == mnx, "xmin", p, mnx); p = s.xmax_solution(); EXPECT(in(p) && p.first == mxx, "xmax", p, mxx);
            p = s.ymin_solution(); EXPECT(in(p) && p.second == mny, "ymin", p, mny); p = s.ymax_solution(); EXPECT(in(p) && p.second == mxy, "ymax", p, mxy);
        } else { auto p = s.xmin_solution(); EXPECT(p.first == mnx && p.second == mny, p); p = s.xmax_solution(); EXPECT(p.first == mxx && p.second == mxy, p); p = s.ymin_solution(); EXPECT(p.second == mny, p); p = s.ymax_solution(); EXPECT(p.second == mxy, p); }
    }
}
SUITE(large) {
    for (int it = 0; it < 200; ++it) {
        i64 a = sgnE(61), b = sgnE(61), z = sgnE(61); if (R(0, 1)) { i64 g = std::gcd(a, b); if (g) z = z / g * g; } if (R(0, 6) == 0) a = sgnE(61) / 1000 * 1000;
        begin("solve", a, b, z); suisen::BezoutEquation e(a, b); auto s = e.solve(z); i64 G = std::gcd(a, b);
        EXPECT_EQ(s.has_solution(), G == 0 ? z == 0 : z % G == 0); if (!s.has_solution() || G == 0) continue;
        // pick a window of x around some solution: exactly the expected number of solutions
        i64 step = std::abs(b / G); if (step == 0) { i64 X = z / a; EXPECT(s.set_x_range(X, X), X); i64 y = R(-5, 5); EXPECT(s.set_y_range(y, y + 3), y); auto c = s.count(); EXPECT(c && *c == 4, "count"); continue; }
        i64 X = -R(0, step); bool ok = s.set_x_range(X, X + step - 1); EXPECT(ok, "one solution per period", X, step);
        auto c = s.count(); EXPECT(c && *c == 1, "count");
        auto p = s.xmin_solution(); EXPECT((i128)a * p.first + (i128)b * p.second == (i128)z && X <= p.first && p.first < X + step, p);
    }
}
SUITE(garner) {
    for (int it = 0; it < 150; ++it) {
        int n = R(0, 6); std::vector<std::pair<int, int>> eq; i128 P = 1; i64 lim = R(0, 1) ? 40 : R(0, 1) ? 2000 : INT32_MAX;
        for (int t = 0; t < 40 && (int)eq.size() < n; ++t) { int m = R(1, lim); bool ok = true; for (auto& q : eq) ok &= std::gcd(q.second, m) == 1; if (!ok || P >= ((i128)1 << 120) / m) continue; eq.push_back({0, m}); P *= m; }
        i128 X = (((i128)rnd() << 60) ^ rnd()) % P; if (X < 0) X += P; if (R(0, 5) == 0) X = P - 1;
        for (auto& q : eq) { q.first = (int)(X % q.second); if (R(0, 3) == 0 && q.second < 1000000) q.first += (int)R(-3, 3) * q.second; }
        int m = R(1, R(0, 1) ? 50 : INT32_MAX); begin("garner", eq, "mod", m); EXPECT_EQ((i64)suisen::garner(eq, m), (i64)(X % m));
    }
}
