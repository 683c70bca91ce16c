#include <vc.h>
#include <vector>
#include <utility>
#include <algorithm>
#include <optional>
#include "library/linear_algebra/xor_base.hpp"
using XB = suisen::XorBase<unsigned>;
using VU = std::vector<unsigned>;
VC_TYPE(XB, XB) VC_TYPE(VU, VU)
extern "C" {
bool xb_add(XB* s, unsigned v) { return s->add(v); }
void xb_ctor(XB* out, const VU* a) { ::new (out) XB(*a); }
void xb_pluseq(XB* s, const XB* t) { *s += *t; }
void xb_pluseq1(XB* s, unsigned v) { *s += v; }
void xb_plus(XB* out, const XB* s, const XB* t) { ::new (out) XB(*s + *t); }
int xb_dim(const XB* s) { return s->dim(); }
}
