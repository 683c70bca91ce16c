#include <vc.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <iostream>
#include <utility>
#include <vector>
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/sort_points_by_argument.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
using namespace suisen::integral_geometry;
using LL = long long; using Q = std::pair<LL, LL>;
VC_TYPE(Point, Point) VC_TYPE(Circle, Circle) VC_TYPE(Segment, Segment) VC_TYPE(Polygon, Polygon)
#define L2 LL ax, LL ay, LL bx, LL by
#define L3 L2, LL cx, LL cy
#define L4 L3, LL dx, LL dy
extern "C" {
LL ge_det(L2) { return det(Point(ax, ay), Point(bx, by)); }
LL ge_dot(L2) { return dot(Point(ax, ay), Point(bx, by)); }
LL ge_sqabs(LL ax, LL ay) { return square_abs(Point(ax, ay)); }
int ge_sgn(LL ax) { return sgn(ax); }
int ge_isp(L3) { return isp(Point(ax, ay), Point(bx, by), Point(cx, cy)); }
LL ge_area3(L3) { return signed_area_doubled(Point(ax, ay), Point(bx, by), Point(cx, cy)); }
bool ge_par(L4) { return is_parallel(Line(Point(ax, ay), Point(bx, by)), Line(Point(cx, cy), Point(dx, dy))); }
bool ge_ort(L4) { return is_orthogonal(Line(Point(ax, ay), Point(bx, by)), Line(Point(cx, cy), Point(dx, dy))); }
bool ge_same(L4) { return Line(Point(ax, ay), Point(bx, by)) == Line(Point(cx, cy), Point(dx, dy)); }
bool ge_rayeq(L4) { return Ray(Point(ax, ay), Point(bx, by)) == Ray(Point(cx, cy), Point(dx, dy)); }
bool ge_segeq(L4) { return Segment(Point(ax, ay), Point(bx, by)) == Segment(Point(cx, cy), Point(dx, dy)); }
int ge_online(L3) { return int(contains(Line(Point(ax, ay), Point(bx, by)), Point(cx, cy))); }
int ge_onray(L3) { return int(contains(Ray(Point(ax, ay), Point(bx, by)), Point(cx, cy))); }
int ge_onseg(L3) { return int(contains(Segment(Point(ax, ay), Point(bx, by)), Point(cx, cy))); }
bool ge_meet(L4) { return has_common_point(Segment(Point(ax, ay), Point(bx, by)), Segment(Point(cx, cy), Point(dx, dy))); }
int ge_tan(LL ax, LL ay, LL r, LL bx, LL by, LL s) { return tangent_num(Circle(Point(ax, ay), r), Circle(Point(bx, by), s)); }
int ge_incirc(LL ax, LL ay, LL r, LL bx, LL by) { return int(contains(Circle(Point(ax, ay), r), Point(bx, by))); }
bool ge_arg(L2) { return compare_by_atan2<Q, LL>(Q(ax, ay), Q(bx, by)); }
LL ge_area(const Polygon& p) { return signed_area_doubled(p); }
bool ge_convex(const Polygon& p) { return is_convex<true>(p); }
bool ge_strict(const Polygon& p) { return is_convex<false>(p); }
}
