#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <optional>
#include <iostream>
#include <sstream>
#include <limits>
#include <climits>
#include <cassert>
#include <cstdint>
#include <functional>
#include <iterator>
#include <numeric>
#include <algorithm>
#include <random>
#include <tuple>
#include "library/datastructure/bbst/implicit_treap.hpp"
#include "library/datastructure/bbst/implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp"
#include "library/datastructure/bbst/red_black_tree.hpp"
#include "library/datastructure/bbst/red_black_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_reversible_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_reversible_lazy_segment_tree.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/lazy_eval_dynamic_sequence.hpp"
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
namespace suisen {
    // a hash of a sequence: length, hash, hash of the reversed sequence, base^length, 1 + base + ... + base^(length-1); single elements are {1, v, v, base, 1}
    struct H { long long n = 0, h = 0, r = 0, p = 1, g = 0; bool operator==(const H&) const = default; bool operator<(const H& o) const { return h < o.h; } };
    struct Af { long long a = 1, b = 0; bool operator==(const Af&) const = default; };
    struct Ag { long long a = 1, b = 0; };    // no operator==: the other branch of push()
    inline std::string note_(const H& x) { return x.n == 1 ? std::to_string(x.h) : "hash(" + std::to_string(x.n) + "," + std::to_string(x.h) + "," + std::to_string(x.r) + ")"; }
    inline std::string note_(const Af& x) { return "(" + std::to_string(x.a) + "x+" + std::to_string(x.b) + ")"; }
}
#include "conf.h"
using namespace cf; using namespace suisen;
static const i64 P = 1000003, BB = 911;
static H one(i64 v) { return { 1, v, v, BB, 1 }; }
static H cat(H x, H y) { return { x.n + y.n, (x.h * y.p + y.h) % P, (y.r * x.p + x.r) % P, x.p * y.p % P, (x.g * y.p + y.g) % P }; }
static H he() { return {}; } static H tog(H x) { std::swap(x.h, x.r); return x; }
static H mp(Af f, H x, int) { return { x.n, (f.a * x.h + f.b * x.g) % P, (f.a * x.r + f.b * x.g) % P, x.p, x.g }; } static H mp1(Af f, H x) { return mp(f, x, 0); } static Af co(Af f, Af g) { return { f.a * g.a % P, (f.a * g.b + f.b) % P }; } static Af idf() { return {}; }
static H mpg(Ag f, H x, int) { return mp(Af{ f.a, f.b }, x, 0); } static Ag cog(Ag f, Ag g) { Af r = co(Af{ f.a, f.b }, Af{ g.a, g.b }); return { r.a, r.b }; } static Ag idg() { return {}; } static H mpd(Af f, H x) { return mp(f, x, 1); }
// a commutative variant for the classes whose reversal does not touch the folded value
static H sumop(H x, H y) { return { x.n + y.n, (x.h + y.h) % P, (x.r + y.r) % P, 1, x.g + y.g }; } static H she() { return { 0, 0, 0, 1, 0 }; }
static H sone(i64 v) { return { 1, v, v, 1, 1 }; }
using VH = std::vector<H>;
template <H(*O)(H, H), H(*Z)()> static H fold(const VH& a, int l, int r) { H s = Z(); for (int i = l; i < r; ++i) s = O(s, a[i]); return s; }
static int sz() { return R(0, 3) ? R(0, 8) : R(0, 60); }
static i64 rv() { return R(0, 1) ? R(0, 9) : R(0, P - 1); }
static VH rseq(int n, H(*mk)(i64) = one) { VH a(n); for (auto& x : a) x = mk(rv()); return a; }
template <class C> struct lam { using F = void; };

template <class It> static bool walk(It it, int n, const VH& a, bool rev, std::string& why) {
    int i = 0; for (int q = 0; q < 14; ++q) { if (i < n) { const H& x = *it; const H& y = a[rev ? n - 1 - i : i]; if (!(x == y)) { why = "iterator at " + std::to_string(i) + " gives " + note_(x) + ", expected " + note_(y); return false; } }
        int j = R(0, 3) ? std::clamp(i + int(R(-2, 2)), 0, n) : R(0, n); int d = j - i; switch (R(0, 3)) { case 0: it += d; break; case 1: it -= -d; break; case 2: it = it + d; break; default: if (d == 1) ++it; else if (d == -1) --it; else if (d == 0) { if (i < n) { it++; it--; } } else it = it - (-d); }
        if (i < n && j < n) {} i = j; }
    return true;
}
// every container is driven through whatever part of the common interface it has; two of them share the node pool
template <class C, class F, H(*O)(H, H), H(*Z)()> static void seq(const char* nm, H(*mk)(i64) = one) {
    begin(nm); C c[2]; VH m[2]; if constexpr (requires { C::node_type::rng; }) C::node_type::rng.seed(R(0, 1 << 30));
    for (int k = 0; k < 2; ++k) { int n = sz(); if (k && R(0, 1)) { H f = mk(rv()); op("fill", n, f); c[k] = C(size_t(n), f); m[k] = VH(n, f); } else { m[k] = rseq(n, mk); op("build", m[k]); c[k] = C(m[k]); } }
    for (int q = 0; q < 24; ++q) { int k = R(0, 1); C& t = c[k]; VH& a = m[k]; int n = a.size(), l = R(0, n), r = R(l, n); H v = mk(rv()); Af f{ R(0, 3) ? R(0, P - 1) : 1, R(0, P - 1) };
        switch (R(0, 19)) {
        case 0: case 1: op("insert", k, l, v); t.insert(l, v); a.insert(a.begin() + l, v); break;
        case 2: if (R(0, 1)) { op("push_front", k, v); t.push_front(v); a.insert(a.begin(), v); } else { op("push_back", k, v); t.push_back(v); a.push_back(v); } break;
        case 3: if (n) { int i = R(0, n - 1); op("erase", k, i); H x = t.erase(i); EXPECT_EQ(x, a[i], "erased value"); a.erase(a.begin() + i); } break;
        case 4: if (n) { if (R(0, 1)) { op("pop_front", k); H x = t.pop_front(); EXPECT_EQ(x, a[0]); a.erase(a.begin()); } else { op("pop_back", k); H x = t.pop_back(); EXPECT_EQ(x, a.back()); a.pop_back(); } } break;
        case 5: { op("split", k, l); C s = t.split(l); VH b(a.begin() + l, a.end()); a.resize(l); EXPECT_EQ(s.dump(), b, "right part"); EXPECT_EQ(t.dump(), a, "left part"); EXPECT_EQ(int(t.size()), l); if (R(0, 1)) { op("merge back"); t.merge(s); a.insert(a.end(), b.begin(), b.end()); } else { op("merge to the other"); c[!k].merge(s); m[!k].insert(m[!k].end(), b.begin(), b.end()); } break; }
        case 6: { op("rotate", k, l); t.rotate(l); std::rotate(a.begin(), a.begin() + l, a.end()); break; }
        case 7: { int mid = R(l, r); op("rotate", k, l, mid, r); t.rotate(l, mid, r); std::rotate(a.begin() + l, a.begin() + mid, a.begin() + r); break; }
        case 8: case 9: if constexpr (requires { t.reverse(0, 0); }) { if (R(0, 3)) { op("reverse", k, l, r); t.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); } else { op("reverse_all", k); t.reverse_all(); std::reverse(a.begin(), a.end()); } } break;
        case 10: if (n) { int i = R(0, n - 1); if constexpr (requires { t.set(0, v); }) { op("set", k, i, v); t.set(i, v); a[i] = v; } else { op("[]=", k, i, v); t[i] = v; a[i] = v; } } break;
        case 11: if (n) if constexpr (requires { t.set(0, v); }) { int i = R(0, n - 1); op("apply at", k, i); t.apply(i, [](const H& x) { return mp(Af{ 3, 1 }, x, 1); }); a[i] = mp(Af{ 3, 1 }, a[i], 1); } break;
        case 12: case 13: if constexpr (requires { t.prod(0, 0); }) { op("prod", k, l, r); H x = t.prod(l, r), y = fold<O, Z>(a, l, r); EXPECT_EQ(x, y); H z = t.prod_all(), w = fold<O, Z>(a, 0, n); EXPECT_EQ(z, w, "prod_all"); } break;
        case 14: case 15: if constexpr (!std::is_void_v<F>) { if (R(0, 3)) { op("apply", k, l, r, f); t.apply(l, r, F{ f.a, f.b }); for (int i = l; i < r; ++i) a[i] = mp(f, a[i], 1); } else { op("apply_all", k, f); t.apply_all(F{ f.a, f.b }); for (auto& x : a) x = mp(f, x, 1); } } break;
        case 16: if constexpr (requires { t.max_right(0, [](const H&) { return true; }); }) { int lim = R(0, n); bool bad = false; op("max_right", k, l, "length <=", lim); auto pr = [&](const H& x) { if (!(l + x.n <= n && x == fold<O, Z>(a, l, l + x.n))) bad = true; return x.n <= lim; }; auto it = t.max_right(l, pr); int got; if constexpr (requires { it.index(); }) got = it.index(); else got = it; EXPECT(!bad, "predicate called on something that is not a prefix product"); EXPECT_EQ(got, int(std::min(n, l + lim))); if constexpr (requires { it.index(); }) if (got < n) EXPECT_EQ(*it, a[got]); } break;
        case 17: if constexpr (requires { t.max_right(0, [](const H&) { return true; }); }) { int lim = R(0, n); bool bad = false; op("min_left", k, r, "length <=", lim); auto pr = [&](const H& x) { if (!(r - x.n >= 0 && x == fold<O, Z>(a, r - x.n, r))) bad = true; return x.n <= lim; }; auto it = t.min_left(r, pr); int got; if constexpr (requires { it.index(); }) got = it.index(); else got = it; EXPECT(!bad, "predicate called on something that is not a suffix product"); EXPECT_EQ(got, int(std::max(0, r - lim))); } break;
        case 18: if (R(0, 5) == 0) { op("clear", k); t.clear(); a.clear(); EXPECT(t.empty(), "clear"); } break;
        case 19: if constexpr (requires { t.erase(t.begin()); }) { int i = R(0, n); auto it = t.begin(); if (R(0, 1)) it += i; else for (int j = 0; j < i; ++j) ++it; if (R(0, 1) && i < n) *it; int w = R(0, 2); if (w == 0) { op("insert at iterator", k, i, v); t.insert(it, v); a.insert(a.begin() + i, v); } else if (w == 1 && i < n) { op("erase at iterator", k, i); H x = t.erase(it); EXPECT_EQ(x, a[i]); a.erase(a.begin() + i); } else if (w == 2) { op("split at iterator", k, i); C s = t.split(it); VH b(a.begin() + i, a.end()); EXPECT_EQ(s.dump(), b); t.merge(s); }
                int j = R(0, int(a.size())); auto ri = t.rbegin(); ri += j; if (R(0, 1)) { op("insert at reverse iterator", k, j, v); t.insert(ri, v); a.insert(a.end() - j, v); } else if (j < int(a.size())) { op("erase at reverse iterator", k, j); H x = t.erase(ri); EXPECT_EQ(x, *(a.end() - 1 - j)); a.erase(a.end() - 1 - j); } } break;
        }
        for (int j = 0; j < 2; ++j) { C& u = c[j]; VH& b = m[j]; int w = b.size(); EXPECT_EQ(int(u.size()), w, "size", j); EXPECT_EQ(u.empty(), w == 0); if (w) { int i = R(0, w - 1); EXPECT_EQ(H(u[i]), b[i], "element", j, i); EXPECT_EQ(H(u.front()), b.front(), "front", j); EXPECT_EQ(H(u.back()), b.back(), "back", j); const C& cu = u; EXPECT_EQ(H(cu[i]), b[i], "const element", j, i); EXPECT_EQ(H(cu.back()), b.back(), "const back", j); } 
            std::string why; if (q % 3 == 0) { EXPECT(walk(u.begin(), w, b, false, why), why); EXPECT(walk(u.rbegin(), w, b, true, why), why); EXPECT(walk(u.cbegin(), w, b, false, why), why); EXPECT(walk(u.crbegin(), w, b, true, why), why); EXPECT_EQ(int(u.end() - u.begin()), w); } if (q % 4 == 0) EXPECT_EQ(u.dump(), b, "dump", j); }
    }
    for (int j = 0; j < 2; ++j) { EXPECT_EQ(c[j].dump(), m[j], "final dump", j); if constexpr (requires { c[j].root_node(); }) {} c[j].free(); }
}
// sorted use: lower/upper bound searches, insertions and erasures by key
template <class C> static void sorted(const char* nm) {
    begin(nm); int n = sz(); VH a(n); for (auto& x : a) x = one(R(0, 12)); std::sort(a.begin(), a.end()); op("build", a); C t(a);
    for (int q = 0; q < 20; ++q) { H v = one(R(-1, 13)); n = a.size(); int lo = std::lower_bound(a.begin(), a.end(), v) - a.begin(), up = std::upper_bound(a.begin(), a.end(), v) - a.begin();
        op("bounds", v); auto x = t.lower_bound(v), y = t.upper_bound(v);
        if constexpr (requires { x.index(); }) { EXPECT_EQ(int(x.index()), lo, "lower_bound"); EXPECT_EQ(int(y.index()), up, "upper_bound"); if (lo < n) EXPECT_EQ(H(*x), a[lo]); if (up < n) EXPECT_EQ(H(*y), a[up]); auto z = t.binary_search([&](auto it) { return !((*it) < v); }); EXPECT_EQ(int(z.index()), lo, "binary_search"); const C& ct = t; EXPECT_EQ(int(ct.lower_bound(v).index()), lo); 
            int w = R(0, 2); if (w == 0) { op("insert at lower_bound", v); t.insert(x, v); a.insert(a.begin() + lo, v); } else if (w == 1 && lo < n) { op("erase at lower_bound", v); H e = t.erase(x); EXPECT_EQ(e, a[lo]); a.erase(a.begin() + lo); } }
        else { EXPECT_EQ(int(x.first), lo, "lower_bound"); EXPECT_EQ(int(y.first), up, "upper_bound"); EXPECT_EQ(bool(x.second), lo < n); EXPECT_EQ(bool(y.second), up < n); if (lo < n) EXPECT_EQ(*x.second, a[lo]); if (up < n) EXPECT_EQ(*y.second, a[up]); auto z = t.binary_search([&](const H& u, int) { return !(u < v); }); EXPECT_EQ(int(z.first), lo, "binary_search");
            switch (R(0, 8)) {
            case 0: { op("insert_lower_bound", v); int p = t.insert_lower_bound(v); EXPECT_EQ(p, lo); a.insert(a.begin() + lo, v); break; } case 1: { op("insert_upper_bound", v); int p = t.insert_upper_bound(v); EXPECT_EQ(p, up); a.insert(a.begin() + up, v); break; }
            case 2: { op("insert_binary_search", v); int p = t.insert_binary_search(v, [&](const H& u) { return v < u; }); EXPECT_EQ(p, up); a.insert(a.begin() + up, v); break; }
            case 3: { op("erase_lower_bound", v); auto e = t.erase_lower_bound(v); EXPECT_EQ(bool(e), lo < n); if (e) { EXPECT_EQ(int(e->first), lo); EXPECT_EQ(e->second, a[lo]); a.erase(a.begin() + lo); } break; } case 4: { op("erase_upper_bound", v); auto e = t.erase_upper_bound(v); EXPECT_EQ(bool(e), up < n); if (e) { EXPECT_EQ(int(e->first), up); EXPECT_EQ(e->second, a[up]); a.erase(a.begin() + up); } break; }
            case 5: { op("erase_if_exists", v); auto e = t.erase_if_exists(v); EXPECT_EQ(bool(e), lo < up); if (e) { EXPECT_EQ(int(e->first), lo); EXPECT_EQ(e->second, v); a.erase(a.begin() + lo); } break; }
            case 6: { op("split_lower_bound", v); C s = t.split_lower_bound(v); VH b(a.begin() + lo, a.end()); EXPECT_EQ(s.dump(), b); EXPECT_EQ(int(t.size()), lo); t.merge(s); break; } case 7: { op("split_upper_bound", v); C s = t.split_upper_bound(v); VH b(a.begin() + up, a.end()); EXPECT_EQ(s.dump(), b); EXPECT_EQ(int(t.size()), up); t.merge(s); break; }
            case 8: { op("erase_binary_search", v); bool odd = R(0, 1); auto e = t.erase_binary_search([&](const H& u) { return v < u; }, [&](const H& u) { return u.h % 2 == odd; }); bool want = up < n && a[up].h % 2 == odd; EXPECT_EQ(bool(e), want); if (e) { EXPECT_EQ(int(e->first), up); a.erase(a.begin() + up); } break; } } }
        EXPECT_EQ(t.dump(), a, "contents"); EXPECT_EQ(int(t.size()), int(a.size())); }
    t.free();
}
using DA = DynamicArray<H>; using DS = DynamicSegmentTree<H, cat, he>; using RA = ReversibleDynamicArray<H>; using RS = ReversibleDynamicSegmentTree<H, cat, he, tog>;
using RD = ReversibleDynamicDualSegmentTree<H, Af, mpd, co, idf>; using RL = ReversibleDynamicLazySegmentTree<H, cat, he, tog, Af, mp, co, idf>; using RG = ReversibleDynamicLazySegmentTree<H, cat, he, tog, Ag, mpg, cog, idg>;
SUITE(dynamic_array) { seq<DA, void, cat, he>("DynamicArray"); }
SUITE(dynamic_segment_tree) { seq<DS, void, cat, he>("DynamicSegmentTree"); }
SUITE(reversible_dynamic_array) { seq<RA, void, cat, he>("ReversibleDynamicArray"); }
SUITE(reversible_dynamic_segment_tree) { seq<RS, void, cat, he>("ReversibleDynamicSegmentTree"); }
SUITE(reversible_dynamic_dual) { seq<RD, Af, cat, he>("ReversibleDynamicDualSegmentTree"); }
SUITE(reversible_dynamic_lazy) { if (R(0, 3)) seq<RL, Af, cat, he>("ReversibleDynamicLazySegmentTree"); else seq<RG, Ag, cat, he>("ReversibleDynamicLazySegmentTree (no ==)"); }
SUITE(sorted_sequences) { switch (R(0, 4)) { case 0: sorted<DA>("DynamicArray sorted"); break; case 1: sorted<DS>("DynamicSegmentTree sorted"); break; case 2: sorted<RA>("ReversibleDynamicArray sorted"); break; case 3: sorted<RS>("ReversibleDynamicSegmentTree sorted"); break; default: sorted<RL>("ReversibleDynamicLazySegmentTree sorted"); } }

// red-black trees: a pool of nodes and plain functions on roots
template <class N> static VH rb_dump(typename N::tree_type t) { VH r; N::dump(t, std::back_inserter(r)); return r; }
template <class N, class F, bool PERS, H(*O)(H, H), H(*Z)()> static void rb(const char* nm, H(*mk)(i64)) {
    begin(nm); int n = PERS ? R(0, 12) : sz(); N::init_pool(PERS ? 12000 : 1000); using Tr = typename N::tree_type;
    std::vector<Tr> t; std::vector<VH> m; auto add = [&](Tr x, VH a) { t.push_back(x); m.push_back(a); };
    for (int k = 0; k < 2; ++k) { VH a = rseq(k ? R(0, 6) : n, mk); op("build", a); add(N::build(a), a); }
    for (int q = 0; q < (PERS ? 14 : 30); ++q) { int k = R(0, int(t.size()) - 1); Tr x = t[k]; VH a = m[k]; int n = a.size(), l = R(0, n), r = R(l, n); H v = mk(rv()); Af f{ R(0, 3) ? R(0, P - 1) : 1, R(0, P - 1) };
        auto put = [&](Tr y) { if (PERS) add(y, a); else t[k] = y, m[k] = a; };
        switch (R(0, 13)) {
        case 0: case 1: op("insert", k, l, v); x = N::insert(x, l, v); a.insert(a.begin() + l, v); put(x); break;
        case 2: if (R(0, 1)) { op("push_front", k, v); x = N::push_front(x, v); a.insert(a.begin(), v); } else { op("push_back", k, v); x = N::push_back(x, v); a.push_back(v); } put(x); break;
        case 3: case 4: if (n) { int i = R(0, 2); i = i == 0 ? 0 : i == 1 ? n - 1 : R(0, n - 1); op("erase", k, i); auto [y, e] = i == 0 && R(0, 1) ? N::pop_front(x) : i == n - 1 && R(0, 1) ? N::pop_back(x) : N::erase(x, i); EXPECT_EQ(e, a[i], "erased"); a.erase(a.begin() + i); put(y); } break;
        case 5: if (n) { int i = R(0, n - 1); if (R(0, 1)) { op("set", k, i, v); x = N::set(x, i, v); a[i] = v; } else { op("update_value", k, i); x = N::update_value(x, i, [](const H& u) { return mp(Af{ 3, 1 }, u, 1); }); a[i] = mp(Af{ 3, 1 }, a[i], 1); } put(x); } break;
        case 6: if (n) { int i = R(0, n - 1); op("get", k, i); auto [y, e] = N::get(x, i); EXPECT_EQ(e, a[i], "get"); put(y); } break;
        case 7: { op("split", k, l); auto [y, z] = N::split(x, l); VH b(a.begin(), a.begin() + l), c(a.begin() + l, a.end()); EXPECT_EQ(rb_dump<N>(y), b, "left part"); EXPECT_EQ(rb_dump<N>(z), c, "right part"); EXPECT_EQ(int(N::size(y)), l); if (PERS) { if (R(0, 1)) add(y, b); else add(z, c); } else { t[k] = y; m[k] = b; if (t.size() < 4) add(z, c); else { int j = (k + 1) % t.size(); op("append to", j); t[j] = N::merge(t[j], z); m[j].insert(m[j].end(), c.begin(), c.end()); } } break; }
        case 8: { int j = R(0, int(t.size()) - 1); if ((PERS || j != k) && n + m[j].size() < 150) { op("merge", k, j); VH b = m[j]; x = N::merge(x, t[j]); a.insert(a.end(), b.begin(), b.end()); if (!PERS) t[j] = N::empty_tree(), m[j].clear(); put(x); } break; }
        case 9: if constexpr (requires { N::prod(x, 0, 0); }) { op("prod", k, l, r); H want = fold<O, Z>(a, l, r); auto [y, e] = N::prod(x, l, r); EXPECT_EQ(e, want); H all = fold<O, Z>(a, 0, n); EXPECT_EQ(N::prod_all(y), all, "prod_all"); put(y); } break;
        case 10: case 11: if constexpr (!std::is_void_v<F>) { if (R(0, 3)) { op("apply", k, l, r, f); x = N::apply(x, l, r, f); for (int i = l; i < r; ++i) a[i] = mp(f, a[i], 1); } else { op("apply_all", k, f); x = N::apply_all(x, f); for (auto& u : a) u = mp(f, u, 1); } put(x); } break;
        case 12: if constexpr (requires { N::reverse(x, 0, 0); }) { if (R(0, 3)) { op("reverse", k, l, r); x = N::reverse(x, l, r); std::reverse(a.begin() + l, a.begin() + r); } else { op("reverse_all", k); x = N::reverse_all(x); std::reverse(a.begin(), a.end()); } put(x); } break;
        case 13: if constexpr (PERS) { int j = R(0, int(t.size()) - 1), w = m[j].size(), l2 = R(0, w), r2 = R(l2, w); int w2 = R(0, 2); if (w2 == 0) { op("cut", k, l, r); x = N::cut(x, l, r); a = VH(a.begin() + l, a.begin() + r); put(x); } else if (w2 == 1 && n + w < 100) { op("swap", k, l, r, j, l2, r2); VH b = m[j], pa(a.begin() + l, a.begin() + r), pb(b.begin() + l2, b.begin() + r2); auto [y, z] = N::swap(x, l, r, t[j], l2, r2); a.erase(a.begin() + l, a.begin() + r); a.insert(a.begin() + l, pb.begin(), pb.end()); b.erase(b.begin() + l2, b.begin() + r2); b.insert(b.begin() + l2, pa.begin(), pa.end()); add(y, a); add(z, b); } else if (n + w < 100) { op("replace", j, "into", k, l, r); x = N::replace(t[j], x, l, r); VH b = m[j]; a.erase(a.begin() + l, a.begin() + r); a.insert(a.begin() + l, b.begin(), b.end()); put(x); } }
            else if (R(0, 3) == 0) { op("free", k); N::free(x); t[k] = N::empty_tree(); m[k].clear(); } break;
        }
        int nodes = 0; for (size_t j = 0; j < t.size(); ++j) { EXPECT_EQ(int(N::size(t[j])), int(m[j].size()), "size of version", j); EXPECT_EQ(rb_dump<N>(t[j]), m[j], "contents of version", j); N::check_rbtree_properties(t[j]); EXPECT_EQ(N::empty(t[j]), m[j].empty()); nodes += m[j].empty() ? 0 : 2 * m[j].size() - 1; }
        if (!PERS) EXPECT_EQ(int(N::node_num()), nodes, "nodes in use");
    }
    if constexpr (PERS) { int k = R(0, int(t.size()) - 1); op("rebuild", k); Tr x = N::rebuild(t[k]); EXPECT_EQ(rb_dump<N>(x), m[k], "rebuild"); }
}
SUITE(red_black) { switch (R(0, 3)) { case 0: rb<bbst::RedBlackTreeNode<H>, void, false, cat, he>("RedBlackTree", one); break; case 1: rb<bbst::segtree::RedBlackTreeNode<H, cat, he>, void, false, cat, he>("RedBlackSegmentTree", one); break; case 2: rb<bbst::lazy_segtree::RedBlackTreeNode<H, cat, he, Af, mp, co, idf>, Af, false, cat, he>("RedBlackLazySegmentTree", one); break; default: rb<bbst::reversible_lazy_segtree::RedBlackTreeNode<H, sumop, she, Af, mp, co, idf>, Af, false, sumop, she>("RedBlackReversibleLazySegmentTree", sone); } }
SUITE(persistent_red_black) { switch (R(0, 3)) { case 0: rb<bbst::PersistentRedBlackTreeNode<H>, void, true, cat, he>("PersistentRedBlackTree", one); break; case 1: rb<bbst::segtree::PersistentRedBlackTreeNode<H, cat, he>, void, true, cat, he>("PersistentRedBlackSegmentTree", one); break; case 2: rb<bbst::lazy_segtree::PersistentRedBlackTreeNode<H, cat, he, Af, mp, co, idf>, Af, true, cat, he>("PersistentRedBlackLazySegmentTree", one); break; default: rb<bbst::reversible_lazy_segtree::PersistentRedBlackTreeNode<H, sumop, she, Af, mp, co, idf>, Af, true, sumop, she>("PersistentRedBlackReversibleLazySegmentTree", sone); } }

// splay-based sequences
template <class C, class F, bool REV, H(*O)(H, H), H(*Z)()> static void splay(const char* nm, H(*mk)(i64)) {
    begin(nm); C c[2]; VH m[2];
    for (int q = 0; q < 40; ++q) { int k = R(0, 1); C& t = c[k]; VH& a = m[k]; int n = a.size(), l = R(0, n), r = R(l, n); H v = mk(rv()); Af f{ R(0, 3) ? R(0, P - 1) : 1, R(0, P - 1) };
        switch (R(0, 13)) {
        case 0: case 1: case 2: op("insert", k, l, v); t.insert(l, v); a.insert(a.begin() + l, v); break; case 3: op("push_front", k, v); t.push_front(v); a.insert(a.begin(), v); break; case 4: op("push_back", k, v); t.push_back(v); a.push_back(v); break;
        case 5: if (n) { int i = R(0, n - 1); op("erase", k, i); t.erase(i); a.erase(a.begin() + i); } break; case 6: if (n) { if (R(0, 1)) { op("pop_front", k); t.pop_front(); a.erase(a.begin()); } else { op("pop_back", k); t.pop_back(); a.pop_back(); } } break;
        case 7: { op("split", k, l); C s = t.split(l); VH b(a.begin() + l, a.end()); a.resize(l); EXPECT_EQ(int(s.size()), int(b.size())); switch (R(0, 3)) { case 0: op("+="); t += std::move(s); a.insert(a.end(), b.begin(), b.end()); break; case 1: op("concat to other"); c[!k].concat(std::move(s)); m[!k].insert(m[!k].end(), b.begin(), b.end()); break; case 2: op("concat_left"); t.concat_left(std::move(s)); a.insert(a.begin(), b.begin(), b.end()); break; default: op("move assign"); c[!k] = std::move(s); m[!k] = b; } break; }
        case 8: if constexpr (REV) { if (R(0, 3)) { op("reverse", k, l, r); t.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); } else { op("reverse_all", k); t.reverse_all(); std::reverse(a.begin(), a.end()); } } break;
        case 9: if (n) { int i = R(0, n - 1); op("[]=", k, i, v); t[i] = v; a[i] = v; } break;
        case 10: if constexpr (requires { t.prod(0, 0); }) { op("prod", k, l, r); H want = fold<O, Z>(a, l, r), all = fold<O, Z>(a, 0, n); H got = R(0, 1) ? t(l, r) : t.prod(l, r); EXPECT_EQ(got, want); EXPECT_EQ(t.prod_all(), all); } break;
        case 11: case 12: if constexpr (!std::is_void_v<F>) { if (R(0, 3)) { op("apply", k, l, r, f); t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = mp(f, a[i], 1); } else { op("apply_all", k, f); t.apply_all(f); for (auto& u : a) u = mp(f, u, 1); } } break;
        case 13: if constexpr (requires { t.swap(c[1]); }) { op("swap"); c[0].swap(c[1]); std::swap(m[0], m[1]); } break;
        }
        for (int j = 0; j < 2; ++j) { EXPECT_EQ(int(c[j].size()), int(m[j].size()), "size", j); if (m[j].size()) { int i = R(0, int(m[j].size()) - 1); EXPECT_EQ(H(c[j][i]), m[j][i], "element", j, i); if constexpr (requires { c[j].front(); }) { EXPECT_EQ(c[j].front(), m[j].front()); EXPECT_EQ(c[j].back(), m[j].back()); const C& cc = c[j]; EXPECT_EQ(cc[i], m[j][i]); } } }
        if (q % 8 == 7) for (int j = 0; j < 2; ++j) for (size_t i = 0; i < m[j].size(); ++i) EXPECT_EQ(H(c[j][i]), m[j][i], "element", j, i);
    }
}
SUITE(dynamic_sequence) { switch (R(0, 4)) { case 0: splay<DynamicSequence<H>, void, true, cat, he>("DynamicSequence", one); break; case 1: splay<RangeFoldableDynamicSequence<H, cat, he>, void, false, cat, he>("RangeFoldableDynamicSequence", one); break; case 2: splay<RangeFoldableDynamicSequence<H, sumop, she>, void, true, sumop, she>("RangeFoldableDynamicSequence with reversals", sone); break; case 3: splay<LazyEvalDynamicSequence<H, cat, he, Af, mp1, co, idf>, Af, false, cat, he>("LazyEvalDynamicSequence", one); break; default: splay<LazyEvalDynamicSequence<H, sumop, she, Af, mp1, co, idf>, Af, true, sumop, she>("LazyEvalDynamicSequence with reversals", sone); } }
// splay-based maps
using MH = std::map<int, H>;
template <class A, class B> static H mfold(A x, B y) { H s = he(); for (; x != y; ++x) s = cat(s, x->second); return s; }
template <class C, bool FOLD, bool LAZY> static void mapt(const char* nm) {
    begin(nm); C c[2]; MH m[2]; int K = R(0, 1) ? 10 : 60; auto at = [](MH& a, int i) { return std::next(a.begin(), i); };
    for (int q = 0; q < 40; ++q) { int k = R(0, 1); C& t = c[k]; MH& a = m[k]; int n = a.size(), key = R(0, K), k2 = R(key, K), l = R(0, n), r = R(l, n); H v = one(rv()); Af f{ R(0, P - 1), R(0, P - 1) };
        switch (R(0, 13)) {
        case 0: case 1: op("insert", k, key, v); t.insert(key, v); a[key] = v; break; case 2: op("insert_if_absent", k, key, v); t.insert_if_absent(key, v); a.insert({ key, v }); break;
        case 3: { op("erase_key", k, key); bool e = t.erase_key(key); EXPECT_EQ(e, bool(a.erase(key))); break; } case 4: if (n) { int i = R(0, n - 1); op("erase_index", k, i); t.erase_index(i); a.erase(at(a, i)); } break;
        case 5: { op("get_or_default", k, key); H x = t.get_or_default(key, v), y = a.count(key) ? a[key] : v; EXPECT_EQ(x, y); break; } case 6: { op("[]=", k, key, v); t[key] = v; a[key] = v; break; }
        case 7: { op("get_or_create", k, key, v); a.insert({ key, v }); H x = t.get_or_create(key, v), y = a[key]; EXPECT_EQ(x, y); break; }
        case 8: { bool by = R(0, 1); auto it = by ? at(a, l) : a.lower_bound(key); if (by) op("split_by_index", k, l); else op("split_by_key", k, key); C s = by ? t.split_by_index(l) : t.split_by_key(key); MH b(it, a.end()); a.erase(it, a.end()); EXPECT_EQ(int(s.size()), int(b.size()), "right part"); EXPECT_EQ(int(t.size()), int(a.size()), "left part"); op("merge"); t.merge(std::move(s)); EXPECT_EQ(int(s.size()), 0, "merged from"); a.insert(b.begin(), b.end()); break; }
        case 9: if constexpr (FOLD) { op("prod_by_key", k, key, k2); H x = R(0, 1) ? t.prod_by_key(key, k2) : t(key, k2), y = mfold(a.lower_bound(key), a.lower_bound(k2)); EXPECT_EQ(x, y); } break; case 10: if constexpr (FOLD) { op("prod_by_index", k, l, r); H x = t.prod_by_index(l, r), y = mfold(at(a, l), at(a, r)); EXPECT_EQ(x, y); H z = t.prod_all(), w = mfold(a.begin(), a.end()); EXPECT_EQ(z, w, "prod_all"); } break;
        case 11: if constexpr (LAZY) { op("apply_by_key", k, key, k2, f); t.apply_by_key(key, k2, f); for (auto i = a.lower_bound(key); i != a.lower_bound(k2); ++i) i->second = mp(f, i->second, 1); } break; case 12: if constexpr (LAZY) { if (R(0, 2)) { op("apply_by_index", k, l, r, f); t.apply_by_index(l, r, f); for (auto i = at(a, l); i != at(a, r); ++i) i->second = mp(f, i->second, 1); } else { op("apply_all", k, f); t.apply_all(f); for (auto& [x, y] : a) y = mp(f, y, 1); } } break;
        case 13: if (R(0, 1)) { op("swap"); c[0].swap(c[1]); std::swap(m[0], m[1]); } else { op("move assign", k); c[k] = std::move(c[!k]); m[k] = m[!k]; m[!k].clear(); } break;
        }
        for (int j = 0; j < 2; ++j) { MH& b = m[j]; EXPECT_EQ(int(c[j].size()), int(b.size()), "size", j); int x = R(0, K); EXPECT_EQ(c[j].contains(x), b.count(x) > 0, "contains", j, x); if (b.size()) { int i = R(0, int(b.size()) - 1); auto [kk, vv] = c[j].kth_entry(i); EXPECT_EQ(kk, at(b, i)->first, "key", j, i); EXPECT_EQ(vv, at(b, i)->second, "value", j, i); } }
        if (q % 8 == 7) for (int j = 0; j < 2; ++j) { int i = 0; for (auto& [x, y] : m[j]) { auto [kk, vv] = c[j].kth_entry(i++); EXPECT_EQ(kk, x); EXPECT_EQ(vv, y); } }
    }
}
SUITE(splay_map) { switch (R(0, 2)) { case 0: mapt<SplayTreeMap<int, H>, false, false>("SplayTreeMap"); break; case 1: mapt<RangeFoldableMap<int, H, cat, he>, true, false>("RangeFoldableMap"); break; default: mapt<LazyEvalMap<int, H, cat, he, Af, mp1, co, idf>, true, true>("LazyEvalMap"); } }
SUITE(splay_set) {
    begin("SplayTreeSet"); SplayTreeSet<int> t; std::set<int> a; int K = R(0, 1) ? 10 : 80;
    for (int q = 0; q < 40; ++q) { int x = R(0, K); switch (R(0, 5)) { case 0: case 1: case 2: op("insert", x); t.insert(x); a.insert(x); break; case 3: { op("erase", x); bool e = t.erase(x); EXPECT_EQ(e, bool(a.erase(x))); break; } case 4: { op("split_by_key", x); SplayTreeSet<int> s = t.split_by_key(x); auto it = a.lower_bound(x); EXPECT_EQ(int(s.size()), int(std::distance(it, a.end()))); t.merge(std::move(s)); break; } case 5: { int i = R(0, int(a.size())); op("split_by_index", i); SplayTreeSet<int> s = t.split_by_index(i); EXPECT_EQ(int(t.size()), i); if (R(0, 1)) t.merge(std::move(s)); else { op("keep right"); t = std::move(s); a.erase(a.begin(), std::next(a.begin(), i)); } break; } }
        EXPECT_EQ(int(t.size()), int(a.size())); int y = R(0, K); EXPECT_EQ(t.contains(y), a.count(y) > 0, y); if (a.size()) { int i = R(0, int(a.size()) - 1); EXPECT_EQ(t[i], *std::next(a.begin(), i)); EXPECT_EQ(t.kth_element(i), *std::next(a.begin(), i)); } }
}
SUITE(sortable_segment_tree) {
    begin("SortableSegmentTree"); using S = SortableSegmentTree<H, cat, he, tog, int>; using VP = std::vector<std::pair<int, H>>; int n = sz(); VP a(n); std::vector<int> ks(200); std::iota(ks.begin(), ks.end(), -50); for (int i = 199; i > 0; --i) std::swap(ks[i], ks[R(0, i)]); int nk = 0; for (auto& [k, v] : a) k = ks[nk++], v = one(rv()); { std::vector<int> kk; VH vv; for (auto& [k, v] : a) kk.push_back(k), vv.push_back(v); op("build", kk, vv); } S t(a);
    auto vals = [&](int l, int r) { H s = he(); for (int i = l; i < r; ++i) s = cat(s, a[i].second); return s; };
    for (int q = 0; q < 30; ++q) { n = a.size(); int l = R(0, n), r = R(l, n); H v = one(rv()); int key = ks[nk % 200];
        switch (R(0, 12)) {
        case 0: case 1: case 2: { bool d = R(0, 1); op(d ? "sort_dsc" : "sort_asc", l, r); if (d) { t.sort_dsc(l, r); std::sort(a.begin() + l, a.begin() + r, [](auto& x, auto& y) { return x.first > y.first; }); } else { t.sort_asc(l, r); std::sort(a.begin() + l, a.begin() + r, [](auto& x, auto& y) { return x.first < y.first; }); } break; }
        case 3: { op("prod", l, r); H x = t.prod(l, r), y = vals(l, r); EXPECT_EQ(x, y); break; }
        case 4: if (n) { int i = R(0, n - 1); H old = a[i].second; if (R(0, 1)) { op("set_value", i, v); H x = t.set_value(i, v); EXPECT_EQ(x, old); } else { op("[]=", i, v); t[i] = v; } a[i].second = v; } break;
        case 5: if (n && nk < 200) { int i = R(0, n - 1); op("set_key_value", i, key, v); ++nk; auto [k0, v0] = t.set_key_value(i, key, v); EXPECT_EQ(k0, a[i].first); EXPECT_EQ(v0, a[i].second); a[i] = { key, v }; } break;
        case 6: if (nk < 200) { ++nk; switch (R(0, 2)) { case 0: op("insert", l, key, v); t.insert(l, key, v); a.insert(a.begin() + l, { key, v }); break; case 1: op("push_front", key, v); t.push_front(key, v); a.insert(a.begin(), { key, v }); break; default: op("push_back", key, v); t.push_back(key, v); a.push_back({ key, v }); } } break;
        case 7: if (n) { int w = R(0, 2), i = w == 0 ? R(0, n - 1) : w == 1 ? 0 : n - 1; op(w == 0 ? "erase" : w == 1 ? "pop_front" : "pop_back", i); auto [k0, v0] = w == 0 ? t.erase(i) : w == 1 ? t.pop_front() : t.pop_back(); EXPECT_EQ(k0, a[i].first); EXPECT_EQ(v0, a[i].second); a.erase(a.begin() + i); } break;
        case 8: { op("split and concat", l); S s = t.split(l); EXPECT_EQ(int(s.size()), n - l); EXPECT_EQ(int(t.size()), l); t.concat(std::move(s)); break; }
        case 9: { int lim = R(0, n); bool bad = false; op("max_right", l, "length <=", lim); auto [x, s] = t.max_right(l, [&](const H& y) { if (!(l + y.n <= n && y == vals(l, l + y.n))) bad = true; return y.n <= lim; }); EXPECT_EQ(int(x), int(std::min(n, l + lim))); EXPECT(!bad, "predicate called on something that is not a prefix product"); H y = vals(l, std::min(n, l + lim)); EXPECT_EQ(s, y, "product"); break; }
        case 10: { int lim = R(0, n); bool bad = false; op("min_left", r, "length <=", lim); auto [x, s] = t.min_left(r, [&](const H& y) { if (!(r - y.n >= 0 && y == vals(r - y.n, r))) bad = true; return y.n <= lim; }); EXPECT_EQ(int(x), int(std::max(0, r - lim))); EXPECT(!bad, "predicate called on something that is not a suffix product"); H y = vals(std::max(0, r - lim), r); EXPECT_EQ(s, y, "product"); break; }
        default: if (n) { int i = R(0, n - 1); EXPECT_EQ(t.get(i), a[i].second, i); H x = t[i]; EXPECT_EQ(x, a[i].second, i); } }
        EXPECT_EQ(int(t.size()), int(a.size())); if (q % 3 == 0) { std::vector<int> kk; VH vv; for (auto& [k, v] : a) kk.push_back(k), vv.push_back(v); EXPECT_EQ(t.dump_keys(), kk, "keys"); EXPECT_EQ(t.dump_values(), vv, "values"); EXPECT(t.dump_entries() == a, "entries"); VH rev(vv.rbegin(), vv.rend()), got; t.foreach([&](const int&, const H& y) { got.push_back(y); }, true); EXPECT_EQ(got, rev, "reversed foreach"); } }
}
