// integral and floating-point plane geometry against exact brute force on small integer coordinates
#include <bits/stdc++.h>
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/closest_pair.hpp"
#include "library/integral_geom/convex_hull.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/integral_geom/sort_points_by_argument.hpp"
#undef SUISEN_GEOMETRY
#undef SUISEN_CLOSEST_PAIR
#include "library/geom/geometry.hpp"
#include "library/geom/closest_pair.hpp"
#include "library/geom/convex_hull.hpp"
#include "library/geom/segment_intersections.hpp"
namespace ig = suisen::integral_geometry; namespace fg = suisen::geometry;
#include "conf.h"
using namespace cf;
using P = std::pair<i64, i64>; using Ps = std::vector<P>; using LD = long double;
static P operator-(P a, P b) { return {a.first - b.first, a.second - b.second}; }
static i64 det(P a, P b) { return a.first * b.second - a.second * b.first; }
static i64 dot(P a, P b) { return a.first * b.first + a.second * b.second; }
static i64 sq(P a) { return dot(a, a); }
static int sg(i64 x) { return (x > 0) - (x < 0); }
static ig::Point I(P p) { return {p.first, p.second}; }
static fg::Point F(P p) { return fg::Point(LD(p.first), LD(p.second)); }
static P rp(int m) { return {R(-m, m), R(-m, m)}; }
static bool near(LD a, LD b) { return std::abs(a - b) < 1e-6L * std::max<LD>(1, std::abs(b)); }
static bool near(fg::Point a, fg::Point b) { return near(a.real(), b.real()) && near(a.imag(), b.imag()); }
static bool on(P a, P b, P p) { return det(b - a, p - a) == 0 && dot(a - p, b - p) <= 0; }
static bool cross(P a, P b, P c, P d) { return on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b) || (sg(det(b - a, c - a)) * sg(det(b - a, d - a)) < 0 && sg(det(d - c, a - c)) * sg(det(d - c, b - c)) < 0); }
static LD dseg(P a, P b, P p) { LD t = LD(dot(p - a, b - a)) / sq(b - a); t = std::min<LD>(1, std::max<LD>(0, t)); LD x = a.first + t * (b - a).first - p.first, y = a.second + t * (b - a).second - p.second; return std::sqrt(x * x + y * y); }
static Ps some(int n, int m) { Ps v(n); int k = R(0, 3); for (auto& p : v) p = k == 0 ? P(R(-m, m), 0) : k == 1 ? P(0, R(-m, m)) : rp(m); if (k == 2 && m > 2) for (auto& p : v) p.second = p.first * 2 + (R(0, 5) == 0); return v; }
static int where(const Ps& g, P p) { bool in = false; int n = int(g.size()); for (int i = 0; i < n; ++i) { P a = g[i], b = g[(i + 1) % n]; if (on(a, b, p)) return 1; if ((a.second > p.second) != (b.second > p.second)) { i64 c = det(b - a, p - a); if (b.second > a.second ? c > 0 : c < 0) in = !in; } } return in ? 2 : 0; }   // 0 out, 1 on, 2 in
static Ps ring(int m) { int n = R(3, 9); Ps v; P c = rp(2); std::set<std::pair<long double, int>> s; for (int i = 0; i < n; ++i) { P q = rp(m); if (q == P(0, 0)) continue; v.push_back(q); } std::sort(v.begin(), v.end(), [](P a, P b) { LD x = std::atan2(LD(a.second), LD(a.first)), y = std::atan2(LD(b.second), LD(b.first)); return x < y; }); Ps w; for (P q : v) if (w.empty() || !(det(w.back(), q) == 0 && dot(w.back(), q) > 0)) w.push_back(q); bool ok = w.size() >= 3; for (size_t i = 0; ok && i < w.size(); ++i) if (det(w[i], w[(i + 1) % w.size()]) <= 0) ok = false; if (!ok) w = {{m, 0}, {0, m}, {-m, -1}}; for (auto& q : w) q = {q.first + c.first, q.second + c.second}; return w; }   // star-shaped polygon, counterclockwise
static int isp_(P a, P b, P c) { i64 d = det(b - a, c - a); return d > 0 ? 1 : d < 0 ? -1 : dot(b - a, c - a) < 0 ? -2 : dot(a - b, c - b) < 0 ? 2 : 0; }
static Ps strict_hull(Ps v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); if (v.size() <= 2) return v; Ps h; for (int s = 0; s < 2; ++s) { size_t b = h.size(); for (P p : v) { while (h.size() >= b + 2 && det(h.back() - h[h.size() - 2], p - h.back()) <= 0) h.pop_back(); h.push_back(p); } h.pop_back(); std::reverse(v.begin(), v.end()); } return h; }
SUITE(primitives) {
    int m = R(0, 4) ? R(1, 4) : 1000000; P a = rp(m), b = rp(m), c = rp(m), d = rp(m); while (a == b) b = rp(m); while (c == d) d = rp(m); begin("primitives", a, b, c, d);
    EXPECT(ig::det(I(a), I(b)) == det(a, b) && ig::dot(I(a), I(b)) == dot(a, b) && ig::square_abs(I(a)) == sq(a), "det, dot, square_abs");
    EXPECT(near(fg::det(F(a), F(b)), det(a, b)) && near(fg::dot(F(a), F(b)), dot(a, b)), "det, dot");
    EXPECT(I(a) + I(b) == I(P(a.first + b.first, a.second + b.second)) && I(a) - I(b) == I(a - b) && -I(a) == I(P(-a.first, -a.second)) && (I(a) * I(b)).x == a.first * b.first - a.second * b.second && (I(a) * I(b)).y == a.first * b.second + a.second * b.first, "point arithmetic");
    EXPECT(ig::sgn(det(a, b)) == sg(det(a, b)) && ig::compare(a.first, b.first) == sg(a.first - b.first), "sgn, compare");
    EXPECT(ig::isp(I(a), I(b), I(c)) == isp_(a, b, c), "isp"); EXPECT(fg::isp(F(a), F(b), F(c)) == isp_(a, b, c), "isp (floating)");
    EXPECT(ig::signed_area_doubled(I(a), I(b), I(c)) == det(b - a, c - a) && ig::area_doubled(I(a), I(b), I(c)) == std::abs(det(b - a, c - a)) && near(fg::signed_area(F(a), F(b), F(c)), det(b - a, c - a) / 2.0L) && near(fg::area(F(a), F(b), F(c)), std::abs(det(b - a, c - a)) / 2.0L), "area");
    ig::Line l(I(a), I(b)), l2(I(c), I(d)); ig::Ray r(I(a), I(b)), r2(I(c), I(d)); ig::Segment s(I(a), I(b)), s2(I(c), I(d)); fg::Line L(F(a), F(b)), L2(F(c), F(d)); fg::Ray Y(F(a), F(b)), Y2(F(c), F(d)); fg::Segment S(F(a), F(b)), S2(F(c), F(d));
    bool par = det(b - a, d - c) == 0, ort = dot(b - a, d - c) == 0, same = par && det(b - a, c - a) == 0;
    EXPECT(ig::is_parallel(l, s2) == par && ig::is_orthogonal(l, l2) == ort && ig::on_the_same_line(s, r2) == same && fg::is_parallel(L, S2) == par && fg::is_orthogonal(L, L2) == ort && fg::on_the_same_line(S, Y2) == same, "parallel, orthogonal, same line");
    EXPECT((l == l2) == same && fg::equals(L, L2) == same, "equality of lines");
    bool re = same && a == c && dot(b - a, d - c) > 0; EXPECT((r == r2) == re && fg::equals(Y, Y2) == re, "equality of rays");
    { i64 t = R(1, 3); bool o = R(0, 1); P e(a.first + (o ? -t : t) * (b - a).first, a.second + (o ? -t : t) * (b - a).second); EXPECT((r == ig::Ray(I(a), I(e))) == !o && fg::equals(Y, fg::Ray(F(a), F(e))) == !o, "equality of rays", e); }
    bool se = (a == c && b == d) || (a == d && b == c); EXPECT((s == s2) == se && fg::equals(S, S2) == se, "equality of segments");
    auto inc = [&](bool x) { return x ? ig::Inclusion::ON : ig::Inclusion::OUT; }; auto con = [&](bool x) { return x ? fg::Containment::ON : fg::Containment::OUT; };
    P q = R(0, 2) ? c : P(a.first + R(-2, 3) * (b - a).first, 0); if (q != c) { i64 k = R(-2, 3); q = P(a.first + k * (b - a).first, a.second + k * (b - a).second); }
    bool ol = det(b - a, q - a) == 0, orr = ol && dot(b - a, q - a) >= 0, os = on(a, b, q);
    EXPECT(ig::contains(l, I(q)) == inc(ol) && ig::contains(r, I(q)) == inc(orr) && ig::contains(s, I(q)) == inc(os), "point on line, ray, segment", q);
    if (m < 10) EXPECT(fg::contains(L, F(q)) == con(ol) && fg::contains(Y, F(q)) == con(orr) && fg::contains(S, F(q)) == con(os), "point on line, ray, segment (floating)", q);
    bool x = cross(a, b, c, d); EXPECT(ig::has_common_point(s, s2) == x, "segments meet"); EXPECT(fg::has_common_point(S, S2) == x, "segments meet (floating)");
    if (m > 10) return;
    LD ds = std::min(std::min(dseg(a, b, c), dseg(a, b, d)), std::min(dseg(c, d, a), dseg(c, d, b))); EXPECT(near(fg::distance(S, S2), x ? 0 : ds), "distance of segments"); EXPECT(near(fg::distance(S, F(c)), dseg(a, b, c)) && near(fg::distance(F(c), S), dseg(a, b, c)), "distance to a segment");
    LD dl = std::abs(LD(det(b - a, c - a))) / std::sqrt(LD(sq(b - a))); EXPECT(near(fg::distance(L, F(c)), dl), "distance to a line"); EXPECT(near(fg::distance(Y, F(c)), dot(b - a, c - a) >= 0 ? dl : std::sqrt(LD(sq(c - a)))), "distance to a ray");
    fg::Point h = fg::projection(F(c), L), f = fg::reflection(F(c), L); EXPECT(near(fg::dot(h - F(c), F(b) - F(a)), 0) && near(fg::det(h - F(a), F(b) - F(a)), 0), "projection"); EXPECT(near((f + F(c)) / fg::Point(2, 0), h), "reflection");
    auto cp = fg::common_point(S, S2);
    if (!x) EXPECT(cp.index() == 0, "common point of disjoint segments");
    else if (!par) { EXPECT(cp.index() == 1, "crossing point"); fg::Point p = std::get<1>(cp); EXPECT(near(fg::det(F(b) - F(a), p - F(a)), 0) && near(fg::det(F(d) - F(c), p - F(c)), 0), "crossing point on both lines"); }
    else { Ps v{std::max(std::min(a, b), std::min(c, d)), std::min(std::max(a, b), std::max(c, d))}; if (v[0] == v[1]) EXPECT(cp.index() == 1 && near(std::get<1>(cp), F(v[0])), "touching point"); else { EXPECT(cp.index() == 2, "overlap"); auto g = std::get<2>(cp); EXPECT(near(g.a, F(v[0])) && near(g.b, F(v[1])), "overlap"); } }
    i64 cx = R(-3, 3), cy = R(-3, 3), c0 = R(-5, 5); if (cx || cy) { fg::Line e{LD(cx), LD(cy), LD(c0)}; EXPECT(near(cx * e.a.real() + cy * e.a.imag() + c0, 0) && near(cx * e.b.real() + cy * e.b.imag() + c0, 0) && !near(e.a, e.b), "line from coefficients", cx, cy, c0); }
    if (det(b - a, c - a) == 0) return;
    auto A = F(a), B = F(b), C = F(c); EXPECT(near(fg::pG(A, B, C) * fg::Point(3, 0), A + B + C), "centroid"); auto o = fg::pO(A, B, C); EXPECT(near(fg::abs(o.center - A), o.radius) && near(fg::abs(o.center - B), o.radius) && near(fg::abs(o.center - C), o.radius), "circumcircle");
    auto i = fg::pI(A, B, C); auto tang = [&](fg::Circle k) { return near(fg::distance(fg::Line(A, B), k.center), k.radius) && near(fg::distance(fg::Line(B, C), k.center), k.radius) && near(fg::distance(fg::Line(C, A), k.center), k.radius); }; EXPECT(tang(i) && fg::contains(fg::Polygon{A, B, C}, i.center) == fg::Containment::IN, "incircle");
    auto hh = fg::pH(A, B, C); EXPECT(near(fg::dot(hh - A, B - C), 0) && near(fg::dot(hh - B, C - A), 0), "orthocenter");
    auto [ka, kb, kc] = fg::pIabc(A, B, C); auto opp = [&](fg::Point X, fg::Point U, fg::Point W, fg::Point K) { return fg::det(W - U, X - U) * fg::det(W - U, K - U) < 0; }; EXPECT(tang(ka) && tang(kb) && tang(kc) && opp(A, B, C, ka.center) && opp(B, C, A, kb.center) && opp(C, A, B, kc.center), "excircles");
}
SUITE(polygons) {
    for (int n = 0; n <= 2; ++n) { Ps v = some(n, 3); begin("degenerate polygon", v); ig::Polygon ip; fg::Polygon fp; for (P p : v) ip.push_back(I(p)), fp.push_back(F(p)); EXPECT(ig::is_convex(ip) && fg::is_convex(fp) && ig::signed_area_doubled(ip) == 0 && near(fg::area(fp), 0), "degenerate polygon"); }
    Ps g = ring(R(2, 7)); int n = int(g.size()); bool cw = R(0, 1); if (cw) std::reverse(g.begin(), g.end()); begin("polygon", g);
    ig::Polygon ip; fg::Polygon fp; for (P p : g) ip.push_back(I(p)), fp.push_back(F(p)); i64 s = 0; for (int i = 0; i < n; ++i) s += det(g[i], g[(i + 1) % n]);
    EXPECT(ig::signed_area_doubled(ip) == s && ig::area_doubled(ip) == std::abs(s) && near(fg::signed_area(fp), s / 2.0L) && near(fg::area(fp), std::abs(s) / 2.0L), "area");
    bool cv = true, st = true; for (int i = 0; i < n; ++i) { i64 d = det(g[(i + 1) % n] - g[i], g[(i + 2) % n] - g[i]); cv &= d >= 0; st &= d > 0; } EXPECT(ig::is_convex<true>(ip) == cv && ig::is_convex<false>(ip) == st && fg::is_convex<true>(fp) == cv && fg::is_convex<false>(fp) == st, "is_convex");
    i64 cnt = 0; for (int x = -12; x <= 12; ++x) for (int y = -12; y <= 12; ++y) { int w = where(g, {x, y}); cnt += w > 0; EXPECT(int(ig::contains(ip, I({x, y}))) == w && int(fg::contains(fp, F({x, y}))) == w, "point in polygon", x, y, w); }
    EXPECT(ig::count_lattice_points(g) == cnt, "lattice points", ig::count_lattice_points(g), cnt);
}
SUITE(hulls) {
    int m = R(0, 5) ? R(1, 6) : 1000, n = R(0, 12); Ps v = some(n, m); begin("points", v);
    auto chk = [&](const std::vector<int>& h, const char* nm) {
        std::set<int> u(h.begin(), h.end()); EXPECT(u.size() == h.size() && (h.empty() || (*u.begin() >= 0 && *u.rbegin() < n)), nm, "distinct indices", h); Ps e = strict_hull(v), w; for (int i : h) w.push_back(v[i]);
        for (P p : w) EXPECT(e.size() <= 1 ? e.size() == 1 && p == e[0] : e.size() == 2 ? on(e[0], e[1], p) : where(e, p) == 1, nm, "hull point on the boundary", p); for (P p : e) EXPECT(std::count(w.begin(), w.end(), p) >= 1, nm, "corner in the hull", p);
        if (e.size() >= 3) { int k = int(w.size()); i64 a = 0, b = 0; for (int i = 0; i < k; ++i) { a += det(w[i], w[(i + 1) % k]); EXPECT(det(w[(i + 1) % k] - w[i], w[(i + 2) % k] - w[i]) >= 0, nm, "counterclockwise", h); } for (size_t i = 0; i < e.size(); ++i) b += det(e[i], e[(i + 1) % e.size()]); EXPECT(a == b, nm, "area of the hull"); }
    };
    chk(ig::convex_hull(v), "integral convex_hull"); std::vector<fg::Point> fv; for (P p : v) fv.push_back(F(p)); chk(fg::convex_hull(fv), "convex_hull");
    if (n == 0) return;
    i64 far = 0, clo = n == 1 ? 0 : i64(4e18); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) far = std::max(far, sq(v[i] - v[j])), clo = std::min(clo, sq(v[i] - v[j]));
    auto [fp, fq] = ig::farthest_pair(v); EXPECT(sq(fp - fq) == far && std::count(v.begin(), v.end(), fp) && std::count(v.begin(), v.end(), fq), "farthest pair", fp, fq, far);
    std::vector<ig::Point> iv; for (P p : v) iv.push_back(I(p)); auto [cp, cq] = ig::closest_pair(iv); EXPECT(ig::square_abs(cp - cq) == clo && std::count(iv.begin(), iv.end(), cp) && std::count(iv.begin(), iv.end(), cq), "closest pair", clo); auto [dp, dq] = fg::closest_pair(fv); EXPECT(near(fg::square_abs(dp - dq), clo), "closest pair (floating)", clo);
    Ps e = strict_hull(v); if (R(0, 1)) { Ps w; for (int i : ig::convex_hull(v)) w.push_back(v[i]); if (e.size() >= 3) e = w; } if (e.size()) std::rotate(e.begin(), e.begin() + R(0, i64(e.size()) - 1), e.end()); ig::ConvexHullInclusion<P> q(e);
    for (int t = 0; t < 30; ++t) { P p = R(0, 2) ? rp(m + 1) : v[R(0, n - 1)]; int w = e.size() == 1 ? p == e[0] : e.size() == 2 ? on(e[0], e[1], p) : where(e, p); EXPECT(int(q(p)) == w && int(q(p.first, p.second)) == w, "ConvexHullInclusion", e, p, w); }
    if (e.size() >= 3) { fg::Polygon g; for (P p : e) g.push_back(F(p)); auto [i, j, d] = fg::convex_diameter(g); EXPECT(near(d * d, far) && near(fg::square_abs(g[i] - g[j]), far), "convex_diameter", i, j);
        P a = rp(m), b = rp(m); if (a != b) { auto c = fg::convex_cut(g, fg::Line(F(a), F(b))); LD ar = 0; int k = int(e.size()); std::vector<fg::Point> w; for (int i = 0; i < k; ++i) { LD x = det(b - a, e[i] - a), y = det(b - a, e[(i + 1) % k] - a); if (x >= 0) w.push_back(F(e[i])); if (x * y < 0) w.push_back(F(e[i]) + (F(e[(i + 1) % k]) - F(e[i])) * fg::Point(x / (x - y), 0)); } for (size_t i = 0; i < w.size(); ++i) ar += fg::det(w[i], w[(i + 1) % w.size()]); EXPECT(near(fg::signed_area(c), ar / 2), "convex_cut", a, b); } }
}
SUITE(larger_sets) {
    int n = R(13, 60), m = R(0, 1) ? R(3, 30) : 100000; Ps v = some(n, m); begin("points", v); i64 far = 0, clo = i64(4e18); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) far = std::max(far, sq(v[i] - v[j])), clo = std::min(clo, sq(v[i] - v[j]));
    auto [fp, fq] = ig::farthest_pair(v); EXPECT(sq(fp - fq) == far, "farthest pair"); std::vector<ig::Point> iv; std::vector<fg::Point> fv; for (P p : v) iv.push_back(I(p)), fv.push_back(F(p)); auto [cp, cq] = ig::closest_pair(iv); EXPECT(ig::square_abs(cp - cq) == clo, "closest pair"); auto [dp, dq] = fg::closest_pair(fv); EXPECT(near(fg::square_abs(dp - dq), clo), "closest pair (floating)");
}
SUITE(arguments) {
    int n = R(0, 40), m = R(1, 4); Ps v(n); for (auto& p : v) p = R(0, 5) ? rp(m) : P(0, 0); begin("sort_points_by_argument", v); auto w = v; ig::sort_points_by_argument(w); auto x = v, y = w; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); EXPECT(x == y, "permutation");
    auto key = [](P p) { return p == P(0, 0) ? 0.0L : std::atan2(LD(p.second), LD(p.first)); }; for (int i = 0; i + 1 < n; ++i) EXPECT(key(w[i]) <= key(w[i + 1]) + 1e-12L, "sorted by argument", w[i], w[i + 1]);
    for (int t = 0; t < 10 && n; ++t) { P a = v[R(0, n - 1)], b = v[R(0, n - 1)]; bool p = ig::compare_by_atan2(a, b), q = ig::compare_by_atan2(b, a); EXPECT(!(p && q), "asymmetric", a, b); if (std::abs(key(a) - key(b)) > 1e-12L) EXPECT(p == (key(a) < key(b)), "order", a, b); }
}
SUITE(circles) {
    P a = rp(5), b = rp(5), p = rp(8); i64 r = R(1, 6), s = R(1, 6); if (a == b && r == s) ++s; begin("circles", a, r, b, s, p); ig::Circle c(I(a), r), d(I(b), s); fg::Circle C(F(a), r), D(F(b), s);
    i64 q = sq(a - b), sum = (r + s) * (r + s), dif = (r - s) * (r - s); int k = q > sum ? 4 : q == sum ? 3 : q > dif ? 2 : q == dif ? 1 : 0; EXPECT(ig::tangent_num(c, d) == k && fg::tangent_num(C, D) == k, "tangent_num"); EXPECT(ig::has_common_point(c, d) == (k >= 1 && k <= 3) && ig::has_cross_point(c, d) == (k == 2), "common points");
    int w = sq(p - a) < r * r ? 2 : sq(p - a) == r * r; EXPECT(int(ig::contains(c, I(p))) == w && int(fg::contains(C, F(p))) == w, "point in circle");
    auto v = fg::common_point(C, D); EXPECT(int(v.size()) == (k == 2 ? 2 : k == 1 || k == 3), "number of common points", v.size()); for (auto z : v) EXPECT(near(fg::abs(z - F(a)), r) && near(fg::abs(z - F(b)), s), "common point on both circles");
    auto t = fg::tangent_to_circle(C, F(p)); EXPECT(int(t.size()) == 2 - w, "number of tangent points"); for (auto z : t) EXPECT(near(fg::abs(z - F(a)), r) && std::abs(fg::dot(z - F(a), z - F(p))) < 1e-4L, "tangent point");
    auto u = fg::common_tangent(C, D); EXPECT(int(u.size()) == k, "number of common tangents"); for (auto& l : u) EXPECT(std::abs(fg::abs(l.a - F(a)) - r) < 1e-4L && std::abs(fg::abs(l.b - F(b)) - s) < 1e-4L && (near(l.a, l.b) || std::abs(fg::dot(l.b - l.a, l.a - F(a))) < 1e-3L), "common tangent");
    P e = rp(8); if (e != p) { auto x = fg::common_point(C, fg::Line(F(p), F(e))); i64 dd = det(e - p, a - p), rr = r * r * sq(e - p); int z = dd * dd < rr ? 2 : dd * dd == rr; EXPECT(int(x.size()) == z, "line and circle", e, z); for (auto y : x) EXPECT(std::abs(fg::abs(y - F(a)) - r) < 1e-4L && std::abs(fg::det(F(e) - F(p), y - F(p))) < 1e-4L, "on line and circle", e); }
    const int N = 400; LD lo = std::max(-r, (b - a).first - s), hi = std::min(r, (b - a).first + s), ar = 0; if (q && lo < hi) { for (int i = 0; i < N; ++i) { LD x = lo + (hi - lo) * (i + 0.5L) / N, h1 = std::sqrt(std::max<LD>(0, LD(r * r) - x * x)), xx = x - (b - a).first, h2 = std::sqrt(std::max<LD>(0, LD(s * s) - xx * xx)), dy = (b - a).second; ar += std::max<LD>(0, std::min(h1, dy + h2) - std::max(-h1, dy - h2)) * (hi - lo) / N; } } else if (!q) ar = fg::PI * std::min(r * r, s * s); EXPECT(std::abs(fg::intersection_area(C, D) - ar) < 0.05L, "area of the intersection of two circles", double(ar) * 1000 > 0);
}
SUITE(segment_grid) {
    int n = R(0, 8), h = R(0, 8), m = R(1, 6); std::vector<std::pair<i64, P>> v(n); std::vector<std::pair<P, i64>> w(h); for (auto& [x, y] : v) x = R(-m, m), y = rp(m); for (auto& [x, y] : w) y = R(-m, m), x = rp(m); begin("segment_intersections", v, w); i64 c = 0; for (auto [x, y] : v) for (auto [z, t] : w) c += std::min(z.first, z.second) <= x && x <= std::max(z.first, z.second) && std::min(y.first, y.second) <= t && t <= std::max(y.first, y.second); EXPECT_EQ(fg::segment_intersections(v, w), c);
}
