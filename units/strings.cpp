#include <vc.h>
#include <vector>
#include <utility>
#include "library/string/morris_pratt.hpp"
#include "library/string/manacher.hpp"
using VI = std::vector<int>;
using MP = suisen::morris_pratt::MatcherMP<VI>;
using MN = suisen::Manacher;
VC_TYPE(VI, VI) VC_TYPE(MP, MP) VC_TYPE(MN, MN)
extern "C" {
void mp_build(VI* out, const VI* s) { ::new (out) VI(suisen::morris_pratt::morris_pratt(*s)); }
void mp_periods(VI* out, const VI* s, bool frag) { ::new (out) VI(suisen::morris_pratt::all_periods(s->begin(), s->end(), frag)); }
void mp_ctor(MP* out, const VI* s) { ::new (out) MP(*s); }
void mp_match(VI* out, const MP* m, const VI* t) { ::new (out) VI((*m)(*t)); }
void mn_ctor(MN* out, const VI* s, int d) { ::new (out) MN(*s, d); }
int mn_odd(const MN* m, int i) { return m->odd_length(i); }
int mn_even(const MN* m, int i) { return m->even_length(i); }
}
