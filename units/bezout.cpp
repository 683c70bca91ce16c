#include <vc.h>
#include <vector>
#include <optional>
#include "library/number/bezout_equation.hpp"
using BE = suisen::BezoutEquation; using BS = suisen::BezoutEquationSolution; using PL = std::pair<long long, long long>;
VC_TYPE(BE, BE) VC_TYPE(BS, BS) VC_TYPE(PL, PL)
extern "C" {
void eg(long long a, long long b, long long* x, long long* y, long long* g) { auto [p, q, r] = suisen::ext_gcd(a, b); *x = p; *y = q; *g = r; }
void gi(long long a, long long m, long long* x, long long* g) { auto [p, q] = suisen::gcd_inv(a, m); *x = p; *g = q; }
long long im(long long a, long long m) { return suisen::inv_mod(a, m); }
long long sm(long long x, long long m) { return suisen::safe_mod(x, m); }
void be_ctor(BE* out, long long a, long long b) { new (out) BE(a, b); }
void be_solve(BE* e, long long z, BS* out) { new (out) BS(e->solve(z)); }
bool bs_min_x(BS* s, long long v) { return s->set_min_x(v); }
bool bs_max_x(BS* s, long long v) { return s->set_max_x(v); }
bool bs_min_y(BS* s, long long v) { return s->set_min_y(v); }
bool bs_max_y(BS* s, long long v) { return s->set_max_y(v); }
bool bs_has(const BS* s) { return s->has_solution(); }
void bs_count(const BS* s, bool* some, long long* c) { auto r = s->count<long long>(); *some = r.has_value(); *c = r ? *r : 0; }
void bs_xmin(const BS* s, PL* out) { *out = s->xmin_solution(); }
void bs_xmax(const BS* s, PL* out) { *out = s->xmax_solution(); }
void bs_ymin(const BS* s, PL* out) { *out = s->ymin_solution(); }
void bs_ymax(const BS* s, PL* out) { *out = s->ymax_solution(); }
}
