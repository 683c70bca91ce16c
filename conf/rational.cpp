#include <iostream>
#include <sstream>
#include "library/number/rational.hpp"
#include "library/number/stern_brocot_tree.hpp"
#include "conf.h"
using namespace cf;
using Q = suisen::Rational<i64>; using F = std::pair<i128, i128>;
static i128 g128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
static F red(i128 n, i128 d) { i128 g = g128(n, d); n /= g; d /= g; if (d < 0) n = -n, d = -d; return {n, d}; }
static void same(const Q& q, F f, const char* what) { EXPECT(q.num == f.first && q.den == f.second, what, "got", q.num, q.den, "expected", f.first, f.second); }
static i64 val(i64 lim) { int k = R(0, 5); i64 v = k < 2 ? R(-6, 6) : k == 2 ? R(-lim, lim) : k == 3 ? lim - R(0, 3) : k == 4 ? (i64)(E() % (u64)lim) : R(-200, 200); return R(0, 1) ? v : -v; }
SUITE(arith) {
    for (int it = 0; it < 200; ++it) {
        i64 lim = R(0, 1) ? (1ll << 30) : 1000; i64 a = val(lim), b = val(lim), c = val(lim), d = val(lim); if (!b) b = 1; if (!d) d = -3; begin("arith", a, b, c, d);
        Q x(a, b), y(c, d); same(x, red(a, b), "make"); same(y, red(c, d), "make"); EXPECT_EQ(x.signum(), (x.num > 0) - (x.num < 0), a);
        same(x + y, red((i128)a * d + (i128)c * b, (i128)b * d), "+"); same(x - y, red((i128)a * d - (i128)c * b, (i128)b * d), "-"); same(x * y, red((i128)a * c, (i128)b * d), "*");
        if (c) { same(x / y, red((i128)a * d, (i128)b * c), "/"); same(y.inv(), red(d, c), "inv"); Q z = x; z /= y; same(z, red((i128)a * d, (i128)b * c), "/="); }
        Q z = x; z += y; same(z, red((i128)a * d + (i128)c * b, (i128)b * d), "+="); z = x; z -= y; same(z, red((i128)a * d - (i128)c * b, (i128)b * d), "-="); z = x; z *= y; same(z, red((i128)a * c, (i128)b * d), "*=");
        same(-x, red(-(i128)a, b), "neg"); same(+x, red(a, b), "plus"); F f = red(a, b); same(x.abs(), {f.first < 0 ? -f.first : f.first, f.second}, "abs");
        i128 fl = f.first >= 0 ? f.first / f.second : -((-f.first + f.second - 1) / f.second), ce = f.first <= 0 ? -(-f.first / f.second) : (f.first + f.second - 1) / f.second;
        EXPECT_EQ((i128)x.floor(), fl, a, b); EXPECT_EQ((i128)x.ceil(), ce, a, b); EXPECT_EQ((i64)x, (i64)(f.first / f.second), a, b); EXPECT_EQ((int)x, (int)(f.first / f.second), a, b);
        EXPECT((double)x == (double)(i64)f.first / (double)(i64)f.second, a, b);
        same(Q(a), {a, 1}, "int"); same(Q(), {0, 1}, "zero"); std::ostringstream os; os << x; EXPECT_EQ(os.str(), note_(f.first) + "/" + note_(f.second), a, b);
    }
}
// operands of any size whose reduced result fits
SUITE(arith_large) {
    for (int it = 0; it < 200; ++it) {
        auto big = [&](int b) { i64 v = 1 + (i64)(E() >> (64 - b)); return v; }; int k = R(1, 31), l = R(1, 31);
        i64 g = big(k), h = big(l), p = big(62 - k > 31 ? R(1, 31) : R(1, 62 - k)), t = big(R(1, 62 - k)), q = big(R(1, 62 - l)), r = big(R(1, 62 - l)); if (R(0, 3) == 0) p = 1; if (R(0, 3) == 0) t = 1; if (R(0, 3) == 0) q = 1; if (R(0, 3) == 0) r = 1;
        Q x(R(0, 1) ? g * p : -g * p, h * q), y(R(0, 1) ? h * r : -h * r, g * t); begin("arith_large", x.num, x.den, y.num, y.den);
        F f = red((i128)x.num * y.num / g128(x.num, y.den) / g128(y.num, x.den), (i128)x.den * y.den / g128(x.num, y.den) / g128(y.num, x.den)); auto fits = [](F f) { return f.first <= INT64_MAX && -f.first <= INT64_MAX && f.second <= INT64_MAX; };
        if (fits(f)) { same(x * y, f, "*"); Q z = x; z *= y; same(z, f, "*="); same(x / y.inv(), f, "/"); }
        i128 gd = g128(x.den, y.den), L = (i128)x.den / gd * y.den, A = (i128)x.num * (y.den / gd), B = (i128)y.num * (x.den / gd); auto ok = [](i128 v) { return v <= INT64_MAX && -v <= INT64_MAX; };
        if (ok(L) && ok(A) && ok(B)) { if (ok(A + B)) same(x + y, red(A + B, L), "+"); if (ok(A - B)) same(x - y, red(A - B, L), "-"); }
    }
}
SUITE(order) {
    for (int it = 0; it < 300; ++it) {
        i64 lim = R(0, 2) ? 50 : INT64_MAX; i64 a = val(lim), b = val(lim), c = val(lim), d = val(lim); if (!b) b = 1; if (!d) d = 1;
        if (R(0, 4) == 0) { c = a; d = b; if (R(0, 1) && c < lim) ++c; if (R(0, 1) && d < lim) ++d; if (!d) d = 2; }
        if (R(0, 9) == 0) { b = 0; if (!a) a = 1; }
        begin("order", a, b, c, d); Q x(a, b), y(c, d); int w;
        if (b == 0) w = a > 0 ? 1 : -1; else { i128 l = (i128)x.num * y.den, r = (i128)y.num * x.den; w = (l > r) - (l < r); }
        EXPECT_EQ(Q::compare(x, y), w, "compare"); EXPECT_EQ(Q::compare(y, x), -w, "compare reversed");
        EXPECT((x < y) == (w < 0) && (x > y) == (w > 0) && (x <= y) == (w <= 0) && (x >= y) == (w >= 0) && (x == y) == (w == 0) && (x != y) == (w != 0), "relational", w);
        Q m = max(x, y), n = min(x, y); EXPECT(m == (w >= 0 ? x : y) && n == (w <= 0 ? x : y), "max/min", w);
    }
}
SUITE(sequences) {
    begin("stern_brocot/farey tables"); int dep = R(0, 7); op(dep); auto t = Q::stern_brocot(dep); EXPECT_EQ((int)t.size(), 2 << dep, "size");
    std::vector<Q> in; std::function<void(int)> dfs = [&](int k) { if (k >= (int)t.size()) return; dfs(2 * k); in.push_back(t[k]); dfs(2 * k + 1); }; dfs(1);
    EXPECT(t[1].num == 1 && t[1].den == 1, "root"); for (size_t i = 0; i + 1 < in.size(); ++i) EXPECT((i128)in[i].num * in[i + 1].den < (i128)in[i + 1].num * in[i].den, "in-order", i);
    for (int k = 2; k < (int)t.size(); ++k) EXPECT(t[k].num + t[k].den > t[k / 2].num + t[k / 2].den, "child deeper", k);
    for (auto& q : in) EXPECT(g128(q.num, q.den) == 1, "reduced");
    auto f = Q::farey_sequence(dep); EXPECT_EQ((int)f.size(), (2 << dep) + 1, "farey size"); EXPECT(f[0].num == 0 && f.back().num == 1 && f.back().den == 1, "ends");
    for (size_t i = 0; i + 1 < f.size(); ++i) EXPECT((i128)f[i + 1].num * f[i].den - (i128)f[i].num * f[i + 1].den == 1, "farey neighbours", i);
    i64 mn = R(1, 50), md = R(1, 50); long double x = R(0, 1) ? (long double)R(1, 1000) / R(1, 60) : -(long double)R(1, 1000) / R(1, 60); op("approx", (i64)(x * 1000), mn, md); auto [lo, hi] = Q::approximate(x, mn, md);
    auto v = [](const Q& q) { return q.den ? (long double)q.num / q.den : q.num > 0 ? 1e30L : -1e30L; }; EXPECT(v(lo) <= x + 1e-15L && x <= v(hi) + 1e-15L, "approximate brackets", lo.num, lo.den, hi.num, hi.den);
    for (i64 b = 1; b <= md; ++b) for (i64 a = -mn; a <= mn; ++a) { long double y = (long double)a / b; if ((y < 0) != (x < 0)) continue; EXPECT(!(y > v(lo) + 1e-12L && y < v(hi) - 1e-12L), "approximate is tight", a, b, lo.num, lo.den, hi.num, hi.den); }
}
using N = suisen::sbt_node<i64>;
static std::string pathof(i64 a, i64 b) { std::string s; while (a != b) if (a > b) { s += 'R'; a -= b; } else { s += 'L'; b -= a; } return s; }
static std::string str(const N& n) { std::string s; for (auto [d, k] : n.path()) s += std::string(k, d ? 'R' : 'L'); return s; }
SUITE(tree) {
    for (int it = 0; it < 30; ++it) {
        i64 a = R(1, 40), b = R(1, 40), c = R(1, 40), d = R(1, 40), g = std::gcd(a, b), h = std::gcd(c, d); if (R(0, 3) == 0) c = a, d = R(1, 40), h = std::gcd(c, d); begin("tree", a, b, c, d);
        N x(a, b), y(c, d); std::string p = pathof(a / g, b / g), q = pathof(c / h, d / h);
        auto is = [&](const N& n, const std::string& w, const char* what) {
            EXPECT(str(n) == w, what, str(n), w); i64 l1 = 0, l2 = 1, r1 = 1, r2 = 0; for (char ch : w) if (ch == 'L') r1 += l1, r2 += l2; else l1 += r1, l2 += r2;
            auto rg = n.range(); EXPECT(rg.first == std::make_pair(l1, l2) && rg.second == std::make_pair(r1, r2), what, "range", w); EXPECT_EQ(n.depth(), (i64)w.size(), what); EXPECT(n.get() == std::make_pair(l1 + r1, l2 + r2), what);
            for (size_t i = 0; i < n.path().size(); ++i) { EXPECT(n.path()[i].second > 0, what); if (i) EXPECT(n.path()[i].first != n.path()[i - 1].first, what, "alternating"); } };
        is(x, p, "make"); is(y, q, "make"); EXPECT(x.get() == std::make_pair(a / g, b / g), "value");
        is(N(x.path()), p, "from path"); is(N(std::make_pair(a, b)), p, "from pair"); is(N(), "", "root");
        size_t k = 0; while (k < p.size() && k < q.size() && p[k] == q[k]) ++k;
        is(N::lca(x, y), p.substr(0, k), "lca"); is(x.lca(y), p.substr(0, k), "lca"); EXPECT_EQ(N::dist(x, y), (i64)(p.size() + q.size() - 2 * k), "dist"); EXPECT_EQ(x.dist(y), N::dist(x, y), "dist");
        bool anc = k == p.size(), dsc = k == q.size(); EXPECT_EQ(x.is_ancestor_of(y), anc, p, q); EXPECT_EQ(x.is_descendant_of(y), dsc, p, q);
        int cmp = a * d < c * b ? -1 : a * d > c * b; EXPECT((x < y) == (cmp < 0) && (x > y) == (cmp > 0) && (x <= y) == (cmp <= 0) && (x >= y) == (cmp >= 0) && (x == y) == (cmp == 0) && (x != y) == (cmp != 0), "order");
        EXPECT_EQ(N::compare_in_order(x, y), cmp, "in"); EXPECT_EQ(N::compare_pre_order(x, y), cmp == 0 ? 0 : anc ? -1 : dsc ? 1 : cmp, "pre"); EXPECT_EQ(N::compare_post_order(x, y), cmp == 0 ? 0 : anc ? 1 : dsc ? -1 : cmp, "post");
        i64 s = R(-1, p.size() + 1); N u = x; bool ok = u.move_up(s); EXPECT_EQ(ok, s >= 0 && s <= (i64)p.size(), "move_up", s); is(u, ok ? p.substr(0, p.size() - s) : p, "move_up");
        i64 m = R(0, 5); N v = x; v.move_down_left(m); is(v, p + std::string(m, 'L'), "down left"); m = R(0, 5); N w = x; w.move_down_right(m); is(w, p + std::string(m, 'R'), "down right");
        i64 t = R(0, p.size() + q.size() + 2); N z = x; bool mv = z.move_to(y, t); i64 D = p.size() + q.size() - 2 * k; EXPECT_EQ(mv, t <= D, "move_to", t, D);
        is(z, !mv ? p : t <= (i64)(p.size() - k) ? p.substr(0, p.size() - t) : q.substr(0, k + (t - (p.size() - k))), "move_to");
    }
    int n = R(1, 6); begin("auxiliary tree"); std::vector<N> xs; std::set<std::string> want; for (int i = 0; i < n; ++i) { i64 a = R(1, 12), b = R(1, 12); op(a, b); xs.emplace_back(a, b); want.insert(str(xs.back())); }
    std::set<std::string> all = want; for (auto& p : want) for (auto& q : want) { size_t k = 0; while (k < p.size() && k < q.size() && p[k] == q[k]) ++k; all.insert(p.substr(0, k)); }
    auto t = N::auxiliary_tree(xs); EXPECT_EQ(t.size(), (int)all.size(), "aux size"); std::set<std::string> got; for (auto& z : t.nodes()) got.insert(str(z)); EXPECT(got == all, "aux nodes");
    size_t rl = 1e9; for (auto& p : all) rl = std::min(rl, p.size()); EXPECT_EQ(str(t.node(t.root())).size(), rl, "aux root"); int edges = 0;
    for (int i = 0; i < t.size(); ++i) { std::string p = str(t.node(i)); std::string par; bool has = false; for (auto& q : all) if (q.size() < p.size() && p.substr(0, q.size()) == q) { if (!has || q.size() > par.size()) par = q; has = true; }
        int up = 0; for (int j : t[i]) { ++edges; std::string q = str(t.node(j)); if (q.size() < p.size()) { ++up; EXPECT(has && q == par, "aux parent", p, q); } } EXPECT_EQ(up, (int)has, "aux parents", p); }
    EXPECT_EQ(edges, 2 * (t.size() - 1), "aux edges");
}
