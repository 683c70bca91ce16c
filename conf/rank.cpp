#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <optional>
#include <iostream>
#include <sstream>
#include <limits>
#include <cassert>
#include <cstdint>
#include <functional>
#include <iterator>
#include <bitset>
#include "library/datastructure/bit_vector.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
#include "library/datastructure/util/static_bitset.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/util/coordinate_compressor.hpp"
#include "conf.h"
using namespace cf; using namespace suisen;
static int len_() { int k = R(0, 5); return k == 0 ? R(0, 9) : k == 1 ? 8 * R(0, 70) + R(-1, 1) + 1 : k == 2 ? 256 * R(0, 3) + R(0, 2) : R(0, 600); }
SUITE(bit_vector) {
    int n = len_(), p = R(0, 4); std::vector<int> a(n); for (auto& x : a) x = p == 0 ? 0 : p == 1 ? 1 : R(0, 99) < p * 20; begin("BitVector", n, p); BitVector b(n, [&](int i) { return a[i] == 1; }); if (R(0, 1)) { BitVector c; c = b; b = BitVector(3, [](int) { return true; }); b = std::move(c); }
    std::vector<int> c(n + 1); for (int i = 0; i < n; ++i) { EXPECT_EQ((int)b[i], a[i], i); EXPECT_EQ((int)b.access(i), a[i]); c[i + 1] = c[i] + a[i]; }
    for (int i = 0; i <= n; ++i) { EXPECT_EQ(b.rank(true, i), c[i], i); EXPECT_EQ(b.rank(false, i), i - c[i], i); } int l = R(0, n), r = R(l, n); EXPECT_EQ(b.rank(true, l, r), c[r] - c[l], l, r); EXPECT_EQ(b.rank(false, l, r), r - l - c[r] + c[l], l, r);
    for (int v = 0; v < 2; ++v) { int k = 0; for (int i = 0; i < n; ++i) if (a[i] == v) { ++k; if (k <= 3 || R(0, 9) == 0 || i + 9 > n) EXPECT_EQ(b.select(v, k), i + 1, v, k); } EXPECT_EQ(b.select(v, k + 1), -1); EXPECT_EQ(b.select(v, k + 1, -7), -7); }
}
template <class T, int B> static void wm(T hi, const char* nm) {
    int n = R(0, 2) ? R(0, 12) : R(0, 300); std::vector<T> a(n); int small = R(0, 1); for (auto& x : a) x = small ? T(R(0, std::min<i64>(hi, 5))) : T(R(0, hi)); begin(nm, a); WaveletMatrix<T, B> w(a); if (R(0, 1)) w = WaveletMatrix<T, B>(n, [&](int i) { return a[i]; });
    for (int i = 0; i < n; ++i) { EXPECT_EQ(w[i], a[i], i); EXPECT_EQ(w.access(i), a[i], i); }
    for (int q = 0; q < 12; ++q) {
        int l = R(0, n), r = R(l, n); T x = R(0, 1) ? 0 : T(R(0, hi)); auto val = [&]() { return n && R(0, 1) ? T((a[R(0, n - 1)] ^ (R(0, 1) ? x : 0))) : R(0, 3) ? T(R(0, hi)) : T(R(0, 1) ? hi : 0); }; T v = val(), u = val(); op("range", l, r, "x", x, "v", v, "u", u);
        int c = 0; for (int i = 0; i < l; ++i) c += a[i] == v; EXPECT_EQ(w.rank(v, l), c, "rank");
        std::vector<T> s; for (int i = l; i < r; ++i) s.push_back(a[i] ^ x); std::sort(s.begin(), s.end()); int m = s.size(); auto lt = [&](T t) { return int(std::lower_bound(s.begin(), s.end(), t) - s.begin()); }; auto le = [&](T t) { return int(std::upper_bound(s.begin(), s.end(), t) - s.begin()); };
        if (m) { int k = R(0, m - 1); EXPECT_EQ(T(w.range_xor_kth_smallest(l, r, k, x) ^ x), s[k], "kth smallest", k); EXPECT_EQ(T(w.range_xor_kth_largest(l, r, k, x) ^ x), s[m - 1 - k], "kth largest", k); EXPECT_EQ(T(w.range_xor_min(l, r, x) ^ x), s[0]); EXPECT_EQ(T(w.range_xor_max(l, r, x) ^ x), s[m - 1]); }
        EXPECT_EQ(w.range_xor_kth_smallest(l, r, m, x, T(77)), T(77)); EXPECT_EQ(w.range_xor_kth_smallest(l, r, -1, x, T(77)), T(77)); EXPECT_EQ(w.range_xor_kth_largest(l, r, m, x), T(-1));
        EXPECT_EQ(w.range_xor_freq(l, r, x, v), lt(v), "freq below", v); EXPECT_EQ(w.range_xor_freq(l, r, x, v, u), v < u ? lt(u) - lt(v) : 0, "freq between");
        auto chk = [&](T got, bool has, T want, const char* what) { if (has) EXPECT_EQ(T(got ^ x), want, what); else EXPECT_EQ(got, T(-1), what); };
        chk(w.range_xor_min_geq(l, r, x, v), lt(v) < m, lt(v) < m ? s[lt(v)] : 0, "min_geq"); chk(w.range_xor_min_gt(l, r, x, v), le(v) < m, le(v) < m ? s[le(v)] : 0, "min_gt"); chk(w.range_xor_max_lt(l, r, x, v), lt(v) > 0, lt(v) > 0 ? s[lt(v) - 1] : 0, "max_lt"); chk(w.range_xor_max_leq(l, r, x, v), le(v) > 0, le(v) > 0 ? s[le(v) - 1] : 0, "max_leq");
        if (x == 0) { if (m) { int k = R(0, m - 1); EXPECT_EQ(w.range_kth_smallest(l, r, k), s[k]); EXPECT_EQ(w.range_kth_largest(l, r, k), s[m - 1 - k]); EXPECT_EQ(w.range_min(l, r), s[0]); EXPECT_EQ(w.range_max(l, r), s[m - 1]); } EXPECT_EQ(w.range_freq(l, r, v), lt(v)); EXPECT_EQ(w.range_freq(l, r, v, u), v < u ? lt(u) - lt(v) : 0);
            chk(w.range_min_geq(l, r, v), lt(v) < m, lt(v) < m ? s[lt(v)] : 0, "min_geq0"); chk(w.range_min_gt(l, r, v), le(v) < m, le(v) < m ? s[le(v)] : 0, "min_gt0"); chk(w.range_max_lt(l, r, v), lt(v) > 0, lt(v) > 0 ? s[lt(v) - 1] : 0, "max_lt0"); chk(w.range_max_leq(l, r, v), le(v) > 0, le(v) > 0 ? s[le(v) - 1] : 0, "max_leq0"); }
    }
}
SUITE(wavelet) { switch (R(0, 4)) { case 0: wm<int, 32>(INT32_MAX, "WaveletMatrix<int>"); break; case 1: wm<unsigned, 5>(31, "WaveletMatrix<unsigned,5>"); break; case 2: wm<i64, 60>((1ll << 60) - 1, "WaveletMatrix<ll,60>"); break; case 3: wm<int, 1>(1, "WaveletMatrix<int,1>"); break; default: wm<u64, 64>(INT64_MAX, "WaveletMatrix<ull>"); } }
template <class W, class T> static void cwm_(const char* nm, T lo, T hi) {
    int n = R(0, 12); std::vector<T> a(n); for (auto& x : a) x = R(0, 1) ? T(R(lo, hi)) : T(R(0, 3)); begin(nm, a); W w(a); for (int i = 0; i < n; ++i) { EXPECT_EQ(w[i], a[i]); EXPECT_EQ(w.access(i), a[i]); }
    for (int q = 0; q < 10; ++q) {
        int l = R(0, n), r = R(l, n); auto val = [&]() { int k = R(0, 6); return k == 0 ? lo : k == 1 ? hi : n && k < 5 ? T(a[R(0, n - 1)]) : T(R(lo, hi)); }; T v = val(), u = val(), d = T(-77); op("range", l, r, v, u); int c = 0; for (int i = 0; i < l; ++i) c += a[i] == v; EXPECT_EQ(w.rank(v, l), c, "rank");
        std::vector<T> s(a.begin() + l, a.begin() + r); std::sort(s.begin(), s.end()); int m = s.size(), lt = std::lower_bound(s.begin(), s.end(), v) - s.begin(), le = std::upper_bound(s.begin(), s.end(), v) - s.begin(); int ltu = std::lower_bound(s.begin(), s.end(), u) - s.begin();
        if (m) { int k = R(0, m - 1); EXPECT_EQ(w.range_kth_smallest(l, r, k), s[k]); EXPECT_EQ(w.range_kth_largest(l, r, k), s[m - 1 - k]); EXPECT_EQ(w.range_min(l, r), s[0]); EXPECT_EQ(w.range_max(l, r), s[m - 1]); } EXPECT_EQ(w.range_kth_smallest(l, r, m, d), d); EXPECT_EQ(w.range_kth_largest(l, r, -1, d), d);
        EXPECT_EQ(w.range_freq(l, r, v), lt); EXPECT_EQ(w.range_freq(l, r, v, u), v < u ? ltu - lt : 0); EXPECT_EQ(w.range_min_geq(l, r, v, d), lt < m ? s[lt] : d, "min_geq"); EXPECT_EQ(w.range_min_gt(l, r, v, d), le < m ? s[le] : d, "min_gt"); EXPECT_EQ(w.range_max_lt(l, r, v, d), lt ? s[lt - 1] : d, "max_lt"); EXPECT_EQ(w.range_max_leq(l, r, v, d), le ? s[le - 1] : d, "max_leq");
    }
}
SUITE(compressed_wavelet) { switch (R(0, 2)) { case 0: cwm_<CompressedWaveletMatrix<int>, int>("CompressedWaveletMatrix<int>", INT32_MIN, INT32_MAX); break; case 1: cwm_<CompressedWaveletMatrix<i64>, i64>("CompressedWaveletMatrix<ll>", INT64_MIN / 4, INT64_MAX / 4); break; default: cwm_<CompressedWaveletMatrix<i64, 4>, i64>("CompressedWaveletMatrix<ll,4>", -1000, 1000); } }
SUITE(compressor) {
    std::vector<i64> a(R(0, 12)); for (auto& x : a) x = R(-8, 8) * (R(0, 5) ? 1 : 1000000007ll); begin("CoordinateCompressor", a); using B = CoordinateCompressorBuilder<i64>; std::set<i64> s(a.begin(), a.end()); std::vector<i64> v(s.begin(), s.end()); int how = R(0, 4); op("how", how); B::Compressor c;
    if (how == 0) c = B::build(a); else if (how == 1) { B b; for (i64 x : a) b.push(x); c = b.build(); } else if (how == 2) { B b; b.push(a.begin(), a.end()); b.push(a); c = b.build(); } else if (how == 3) c = B::build((int)a.size(), [&](int i) { return a[i]; }); else { B b(a); for (i64 x : a) b.emplace(x); c = b.build(); }
    EXPECT_EQ(c.size(), (int)v.size()); for (int i = 0; i < (int)v.size(); ++i) { EXPECT_EQ(c.decomp(i), v[i]); EXPECT_EQ(c.comp(v[i]), i); EXPECT_EQ(c[v[i]], i); }
    for (int q = 0; q < 8; ++q) { i64 e = a.size() && R(0, 1) ? a[R(0, a.size() - 1)] + R(-1, 1) : R(-10, 10); op("e", e); auto ge = s.lower_bound(e), gt = s.upper_bound(e); int gi = std::distance(s.begin(), ge), ti = std::distance(s.begin(), gt); EXPECT_EQ(c.has_key(e), s.count(e) == 1); EXPECT_EQ(c.comp(e, -5), s.count(e) ? gi : -5); EXPECT_EQ(c.min_geq_index(e), gi); EXPECT_EQ(c.min_gt_index(e), ti); EXPECT_EQ(c.max_lt_index(e), gi - 1); EXPECT_EQ(c.max_leq_index(e), ti - 1);
        EXPECT_EQ(c.min_geq(e, 99), ge == s.end() ? 99 : *ge); EXPECT_EQ(c.min_gt(e, 99), gt == s.end() ? 99 : *gt); EXPECT_EQ(c.max_lt(e, 99), gi ? v[gi - 1] : 99); EXPECT_EQ(c.max_leq(e, 99), ti ? v[ti - 1] : 99); }
}
static void same(const DynamicBitSet& b, const std::vector<char>& a, const char* what) {
    int n = a.size(); EXPECT_EQ(b.size(), n, what); EXPECT_EQ(b.empty(), n == 0); int c = 0; for (int i = 0; i < n; ++i) { EXPECT(b[i] == (a[i] == 1), what, "bit", i); c += a[i]; } EXPECT_EQ(b.count(), c, what, "count"); EXPECT_EQ(b.any(), c > 0, what); EXPECT_EQ(b.none(), c == 0, what); EXPECT_EQ(b.all(), c == n, what); EXPECT_EQ(bool(b), c > 0);
    int f = std::find(a.begin(), a.end(), 1) - a.begin(); EXPECT_EQ(b.find_first(), f, what, "find_first"); for (int q = 0; q < 3 && n; ++q) { int p = R(0, n - 1); int g = p + 1; while (g < n && !a[g]) ++g; EXPECT_EQ(b.find_next(p), g, what, "find_next", p); }
}
SUITE(dynamic_bitset) {
    auto len = []() { int k = R(0, 3); return k == 0 ? (int)R(0, 5) : k == 1 ? 64 * (int)R(0, 3) : k == 2 ? 64 * (int)R(1, 3) + (int)R(-1, 1) : (int)R(0, 200); };
    int n = len(); bool f = R(0, 1); begin("DynamicBitSet", n, f); DynamicBitSet b(n, f); std::vector<char> a(n, f); same(b, a, "init");
    for (int q = 0; q < 14; ++q) {
        n = a.size(); int l = R(0, n), r = R(l, n); if (R(0, 2) == 0) l = l / 64 * 64; if (l > r) r = l;
        switch (int k = R(0, 15); k) {
        case 0: op("range_set", l, r); b.range_set(l, r); std::fill(a.begin() + l, a.begin() + r, 1); break;
        case 1: op("range_reset", l, r); b.range_reset(l, r); std::fill(a.begin() + l, a.begin() + r, 0); break;
        case 2: op("range_flip", l, r); b.range_flip(l, r); for (int i = l; i < r; ++i) a[i] ^= 1; break;
        case 3: { op("range_count", l, r); int c = 0; for (int i = l; i < r; ++i) c += a[i]; EXPECT_EQ(b.range_count(l, r), c); break; }
        case 4: { int m = len(); bool v = R(0, 1); op("resize", m, v); b.resize(m, v); a.resize(m, v); break; }
        case 5: { bool v = R(0, 1); op("push_back", v); b.push_back(v); a.push_back(v); break; }
        case 6: if (n) { op("pop_back"); b.pop_back(); a.pop_back(); } break;
        case 7: { int s = R(0, n + 3); if (R(0, 2) == 0) s = s / 64 * 64; bool in = R(0, 1); op("<<", s); DynamicBitSet c = b << s; if (in) { b <<= s; EXPECT(b == c); } else b = c; std::vector<char> t(n); for (int i = s; i < n; ++i) t[i] = a[i - s]; a = t; break; }
        case 8: { int s = R(0, n + 3); if (R(0, 2) == 0) s = s / 64 * 64; bool in = R(0, 1); op(">>", s); DynamicBitSet c = b >> s; if (in) { b >>= s; EXPECT(b == c); } else b = c; std::vector<char> t(n); for (int i = 0; i + s < n; ++i) t[i] = a[i + s]; a = t; break; }
        case 9: op("~"); b = ~b; for (auto& x : a) x ^= 1; break;
        case 10: if (n) { int i = R(0, n - 1), o = R(0, 8); bool v = R(0, 1); op("bit", i, o, v); auto x = b[i]; switch (o) { case 0: x.set(); a[i] = 1; break; case 1: x.reset(); a[i] = 0; break; case 2: x.flip(); a[i] ^= 1; break; case 3: x = v; a[i] = v; break; case 4: x &= v; a[i] &= v; break; case 5: x |= v; a[i] |= v; break; case 6: x ^= v; a[i] ^= v; break; case 7: EXPECT_EQ(x.test(), a[i] == 1); break; default: { int j = R(0, n - 1); b[i] = b[j]; a[i] = a[j]; } } } break;
        case 11: if (R(0, 1)) { op("set"); b.set(); for (auto& x : a) x = 1; } else { op("reset"); b.reset(); for (auto& x : a) x = 0; } break;
        default: { std::vector<char> c(n); DynamicBitSet d(n, R(0, 1)); for (int i = 0; i < n; ++i) { c[i] = R(0, 3) ? R(0, 1) : a[i]; if (R(0, 1)) c[i] = k % 2 ? a[i] : c[i]; d[i] = c[i] == 1; } op("binary", k, std::string(c.begin(), c.end()).size()); if (R(0, 5) == 0) c = a, d = b;
            auto key = [](const std::vector<char>& v) { return std::vector<char>(v.rbegin(), v.rend()); }; EXPECT_EQ(b == d, a == c); EXPECT_EQ(b != d, a != c); EXPECT_EQ(b < d, key(a) < key(c), "<"); EXPECT_EQ(b <= d, key(a) <= key(c), "<="); EXPECT_EQ(b > d, key(a) > key(c), ">"); EXPECT_EQ(b >= d, key(a) >= key(c), ">=");
            bool in = false; for (int i = 0; i < n; ++i) in |= a[i] && c[i]; EXPECT_EQ(b.has_intersection(d), in); EXPECT_EQ(d.is_disjoint(b), !in); { int m = R(0, n); DynamicBitSet e(m); bool y = false; for (int i = 0; i < m; ++i) { bool v = R(0, 9) == 0; e[i] = v; y |= v && a[i]; } EXPECT_EQ(b.has_intersection(e), y, "shorter"); EXPECT_EQ(e.has_intersection(b), y, "longer"); }
            if (k == 12) { b &= d; for (int i = 0; i < n; ++i) a[i] &= c[i]; } else if (k == 13) { b |= d; for (int i = 0; i < n; ++i) a[i] |= c[i]; } else if (k == 14) { b ^= d; for (int i = 0; i < n; ++i) a[i] ^= c[i]; } else { b = (b & d) | (b ^ d); for (int i = 0; i < n; ++i) a[i] |= c[i]; } }
        }
        same(b, a, "state");
    }
}
template <size_t N> static void sb(const char* nm) {
    begin(nm); static_bitset<N> b; std::bitset<N> a; auto same = [&](const char* w) { for (size_t i = 0; i < N; ++i) EXPECT(b[i] == a[i], w, "bit", i); EXPECT_EQ(bool(b), a.any(), w); std::ostringstream o; o << b; EXPECT_EQ(o.str(), a.to_string(), w); };
    for (int q = 0; q < 12; ++q) {
        int l = R(0, N), r = R(l, N); int s = R(0, 2) ? R(0, N + 2) : 64 * R(0, N / 64); int i = R(0, N - 1); bool v = R(0, 1);
        switch (int k = R(0, 9); k) {
        case 0: case 1: op("range_set", l, r, v); b.range_set(l, r, v); for (int t = l; t < r; ++t) a[t] = v; break;
        case 2: op("set", i, v); b.set(i, v); a[i] = v; break; case 3: op("flip", i); b.flip(i); a.flip(i); break; case 4: op("<<", s); if (v) b <<= s; else b = b << s; a <<= s; break; case 5: op(">>", s); if (v) b >>= s; else b = b >> s; a >>= s; break; case 6: op("~"); b = ~b; a = ~a; break; case 7: if (R(0, 4) == 0) { op("clear"); b.clear(); a.reset(); } break;
        default: { static_bitset<N> c; std::bitset<N> d; for (size_t t = 0; t < N; ++t) if (R(0, 1)) c.set(t), d[t] = 1; if (R(0, 5) == 0) c = b, d = a; if (R(0, 3) == 0) c = ~c, d = ~d; op("binary"); EXPECT_EQ(b == c, a == d); EXPECT_EQ(b != c, a != d); std::string x = a.to_string(), y = d.to_string(); EXPECT_EQ(b < c, x < y); EXPECT_EQ(b <= c, x <= y); EXPECT_EQ(b > c, x > y); EXPECT_EQ(b >= c, x >= y); int z = R(0, 2); if (z == 0) { v ? b &= c : b = b & c; a &= d; } else if (z == 1) { v ? b |= c : b = b | c; a |= d; } else { v ? b ^= c : b = b ^ c; a ^= d; } } }
        same("state");
    }
}
SUITE(static_bitset) { switch (R(0, 5)) { case 0: sb<1>("static_bitset<1>"); break; case 1: sb<63>("static_bitset<63>"); break; case 2: sb<64>("static_bitset<64>"); break; case 3: sb<65>("static_bitset<65>"); break; case 4: sb<128>("static_bitset<128>"); break; default: sb<200>("static_bitset<200>"); } }
template <bool M> static void rset() {
    begin("RangeSet", M); RangeSet<int, M> s; std::set<int> o; std::set<int> cuts; // without merging, a range may end anywhere: only membership and counts are compared
    for (int q = 0; q < 20; ++q) {
        int l = R(-3, 20), r = R(0, 6) ? l + R(0, 6) : l - 1; auto cnt = [&]() { int c = 0; for (int i = l; i <= r; ++i) c += o.count(i); return c; };
        switch (R(0, 3)) { case 0: { op("insert", l, r); int c = cnt(); EXPECT_EQ(s.insert(l, r), std::max(0, r - l + 1) - c, "inserted"); for (int i = l; i <= r; ++i) o.insert(i); break; } case 1: { op("erase", l, r); int c = cnt(); EXPECT_EQ(s.erase(l, r), c, "erased"); for (int i = l; i <= r; ++i) o.erase(i); break; } case 2: op("insert", l); EXPECT_EQ(s.insert(l), 1 - (int)o.count(l)); o.insert(l); break; default: op("erase", l); EXPECT_EQ(s.erase(l), (int)o.count(l)); o.erase(l); }
        EXPECT_EQ(s.size(), (int)o.size()); EXPECT_EQ(s.number_of_elements(), (int)o.size()); std::set<int> g; int pr = -100, nr = 0; for (auto [a, b] : s) { EXPECT(a <= b && a > pr + (M ? 1 : 0), "ranges disjoint (and not adjacent)", a, b); pr = b; ++nr; for (int i = a; i <= b; ++i) g.insert(i); } EXPECT(g == o, "elements"); EXPECT_EQ(s.number_of_ranges(), nr);
        for (int x = -5; x <= 28; ++x) { EXPECT_EQ(s.contains(x), o.count(x) == 1, x); auto it = s.find_range(x); EXPECT_EQ(it != s.end(), o.count(x) == 1); if (it != s.end()) EXPECT(it->first <= x && x <= it->second, x); if constexpr (M) { int e = x; while (o.count(e)) ++e; EXPECT_EQ(s.minimum_excluded(x), e, x); e = x; while (o.count(e)) --e; EXPECT_EQ(s.maximum_excluded(x), e, x); int y = R(-3, 26); bool sm = true; for (int i = std::min(x, y); i <= std::max(x, y); ++i) sm &= o.count(i) == 1; EXPECT_EQ(s.in_the_same_range(x, y), sm, x, y); } }
    }
}
SUITE(range_set) { if (R(0, 1)) rset<true>(); else rset<false>(); }
SUITE(fenwick_set) {
    int n = R(0, 3) ? R(0, 700) : R(0, 3); int how = R(0, 3); std::set<int> o; begin("fenwick_tree_set", n, how); fenwick_tree_set s; std::vector<int> vs; for (int i = 0; i < n; ++i) if (R(0, 3) == 0) vs.push_back(i); for (int i = vs.size() - 1; i > 0; --i) std::swap(vs[i], vs[R(0, i)]); if (vs.size() && R(0, 1)) vs.push_back(vs[0]);
    if (how == 0) s = fenwick_tree_set(n); else if (how == 1) { s = fenwick_tree_set(n, true); for (int i = 0; i < n; ++i) o.insert(i); } else if (how == 2) { s = fenwick_tree_set(n, vs); o.insert(vs.begin(), vs.end()); } else { std::vector<int> b(n); for (int v : vs) b[v] = 1, o.insert(v); s = fenwick_tree_set(b); }
    for (int q = 0; q < 40; ++q) {
        int k = R(0, 9), v = n ? R(0, n - 1) : 0; if (R(0, 4) == 0 && o.size()) { v = *std::next(o.begin(), R(0, o.size() - 1)); }
        if (k < 2 && n) { op("insert", v); EXPECT_EQ(s.insert(v), o.insert(v).second); } else if (k < 5 && n) { op("erase", v); EXPECT_EQ(s.erase(v), o.erase(v) == 1); } else if (k == 5 && n && R(0, 3) == 0) { int l = R(0, n), r = R(l, n); op("erase range", l, r); for (int i = l; i < r; ++i) EXPECT_EQ(s.erase(i), o.erase(i) == 1); }
        EXPECT_EQ(s.size(), (int)o.size()); int u = R(0, 5) ? v : R(0, 1) ? R(-3, n + 3) : R(0, 1) ? INT32_MAX : INT32_MIN; op("at", u); EXPECT_EQ(s.contains(u), o.count(u) == 1); int lt = std::distance(o.begin(), o.lower_bound(u)), le = std::distance(o.begin(), o.upper_bound(u)), m = o.size(); EXPECT_EQ(s.count_lt(u), lt); EXPECT_EQ(s.count_leq(u), le); EXPECT_EQ(s.count_gt(u), m - le); EXPECT_EQ(s.count_geq(u), m - lt);
        auto at = [&](int i) { return i >= 0 && i < m ? *std::next(o.begin(), i) : -1; }; EXPECT_EQ(s.max_lt(u), at(lt - 1), "max_lt"); EXPECT_EQ(s.max_leq(u), at(le - 1), "max_leq"); EXPECT_EQ(s.min_geq(u), at(lt), "min_geq"); EXPECT_EQ(s.min_gt(u), at(le), "min_gt"); int i = R(-1, m); EXPECT_EQ(s.kth_element(i), at(i), i); EXPECT_EQ(s[i], at(i), i);
        EXPECT_EQ(s.lower_bound(u) - s.begin(), lt); EXPECT_EQ(s.upper_bound(u).index(), le); EXPECT_EQ(s.find(u) == s.end(), o.count(u) == 0); if (q % 16 == 0) { std::vector<int> g; for (int x : s) g.push_back(x); EXPECT(g == std::vector<int>(o.begin(), o.end()), "iteration"); }
    }
}
template <class T, int B> static void trie(const char* nm) {
    using U = std::make_unsigned_t<T>; U top = B == std::numeric_limits<U>::digits ? ~U(0) : (U(1) << B % std::numeric_limits<U>::digits) - 1; begin(nm); BinaryTrie<T, B> t; std::multiset<U> o; auto rv = [&]() { return U(R(0, 1) ? R(0, 6) : E()) & top; };
    for (int q = 0; q < 25; ++q) {
        U v = o.size() && R(0, 1) ? *std::next(o.begin(), R(0, o.size() - 1)) : rv(); int k = R(0, 4), num = R(0, 3);
        if (k <= 1) { op("insert", v, num); int r = t.insert(v, num); for (int i = 0; i < num; ++i) o.insert(v); EXPECT_EQ(r, num ? (int)o.count(v) : 0); } else if (k == 2) { op("erase", v, num); int w = std::min(num, (int)o.count(v)); EXPECT_EQ(t.erase(v, num), w); while (w--) o.erase(o.find(v)); } else if (k == 3 && R(0, 3) == 0) { op("erase_all", v); int w = o.count(v); EXPECT_EQ(t.erase_all(v), w); o.erase(v); }
        EXPECT_EQ(t.size(), (int)o.size()); EXPECT_EQ(t.empty(), o.empty()); U x = R(0, 2) ? rv() : 0, y = R(0, 1) ? rv() : U(v ^ x); op("x", x, "y", y); EXPECT_EQ(t.count(v), (int)o.count(v)); EXPECT_EQ(t.contains(y), o.count(y) > 0); { unsigned l = R(0, B - 1); int c = 0; for (U e : o) c += (e >> l) == (v >> l); EXPECT_EQ(t.prefix_count(v, l), c, "prefix", l); }
        std::vector<U> s; for (U e : o) s.push_back(e ^ x); std::sort(s.begin(), s.end()); int m = s.size(), lt = std::lower_bound(s.begin(), s.end(), y) - s.begin(), le = std::upper_bound(s.begin(), s.end(), y) - s.begin(); if (m) { int i = R(0, m - 1); EXPECT_EQ(t.xor_kth_min(x, i), s[i]); EXPECT_EQ(t.xor_kth_max(x, i), s[m - 1 - i]); EXPECT_EQ(t.xor_min(x), s[0]); EXPECT_EQ(t.xor_max(x), s[m - 1]); EXPECT_EQ(t.kth_min(i), *std::next(o.begin(), i)); EXPECT_EQ(t.min(), *o.begin()); EXPECT_EQ(t.max(), *o.rbegin(), "max"); }
        EXPECT_EQ(t.xor_count_lt(x, y), lt); EXPECT_EQ(t.xor_count_leq(x, y), le); EXPECT_EQ(t.xor_count_gt(x, y), m - le); EXPECT_EQ(t.xor_count_geq(x, y), m - lt); U d = ~U(0) - 5; auto at = [&](int i) { return i >= 0 && i < m ? s[i] : d; }; EXPECT_EQ(t.xor_lower(x, y, d), at(lt - 1), "lower"); EXPECT_EQ(t.xor_floor(x, y, d), at(le - 1), "floor"); EXPECT_EQ(t.xor_higher(x, y, d), at(le), "higher"); EXPECT_EQ(t.xor_ceil(x, y, d), at(lt), "ceil");
        auto ge = o.lower_bound(y), gt = o.upper_bound(y); EXPECT_EQ(t.count_lt(y), (int)std::distance(o.begin(), ge)); EXPECT_EQ(t.count_leq(y), (int)std::distance(o.begin(), gt)); EXPECT_EQ(t.count_gt(y), (int)std::distance(gt, o.end())); EXPECT_EQ(t.count_geq(y), (int)std::distance(ge, o.end())); EXPECT_EQ(t.lower(y, d), ge == o.begin() ? d : *std::prev(ge)); EXPECT_EQ(t.floor(y, d), gt == o.begin() ? d : *std::prev(gt)); EXPECT_EQ(t.higher(y, d), gt == o.end() ? d : *gt); EXPECT_EQ(t.ceil(y, d), ge == o.end() ? d : *ge);
    }
}
SUITE(binary_trie) { switch (R(0, 3)) { case 0: trie<int, 32>("BinaryTrie<int>"); break; case 1: trie<unsigned, 5>("BinaryTrie<unsigned,5>"); break; case 2: trie<i64, 64>("BinaryTrie<ll>"); break; default: trie<i64, 40>("BinaryTrie<ll,40>"); } }
template <class T, unsigned B> static void pat(const char* nm) {
    using U = std::make_unsigned_t<T>; const int W = std::numeric_limits<U>::digits; U top = B == W ? ~U(0) : (U(1) << B % W) - 1; begin(nm); BinaryTriePatricia<T, B> t; std::multiset<U> o; auto rv = [&]() { return U(R(0, 1) ? R(0, 6) : E()) & top; };
    for (int q = 0; q < 25; ++q) {
        U v = o.size() && R(0, 1) ? *std::next(o.begin(), R(0, o.size() - 1)) : rv(); if (R(0, 3) == 0) v ^= U(1) << R(0, B - 1); int k = R(0, 4), num = R(1, 3);
        if (k == 0) { op("insert", v, num); t.insert(v, num); for (int i = 0; i < num; ++i) o.insert(v); } else if (k == 1) { op("insert_if_absent", v); EXPECT_EQ(t.insert_if_absent(v), o.count(v) == 0); if (!o.count(v)) o.insert(v); } else if (k <= 3) { if (R(0, 4) == 0) num = 0; op("erase", v, num); int w = std::min(num, (int)o.count(v)); EXPECT_EQ((int)t.erase(v, num), w); while (w--) o.erase(o.find(v)); } else if (R(0, 20) == 0) { op("clear"); t.clear(); o.clear(); }
        EXPECT_EQ(t.size(), (int)o.size()); EXPECT_EQ(t.empty(), o.empty()); U x = R(0, 2) ? rv() : 0, y = R(0, 1) ? rv() : U(v ^ x); if (R(0, 9) == 0) y = ~U(0); op("x", x, "y", y); EXPECT_EQ((int)t.count(v), (int)o.count(v)); { U z = rv(); EXPECT_EQ(t.contains(z), o.count(z) > 0, z); }
        std::vector<U> s; for (U e : o) s.push_back(e ^ x); std::sort(s.begin(), s.end()); int m = s.size(), lt = std::lower_bound(s.begin(), s.end(), y) - s.begin(), le = std::upper_bound(s.begin(), s.end(), y) - s.begin(); if (m) { int i = R(0, m - 1); EXPECT_EQ(U(t.xor_kth_min(x, i)), s[i]); EXPECT_EQ(U(t.xor_kth_max(x, i)), s[m - 1 - i]); EXPECT_EQ(U(t.xor_min(x)), s[0]); EXPECT_EQ(U(t.xor_max(x)), s[m - 1], "xor_max"); EXPECT_EQ(U(t.kth_min(i)), *std::next(o.begin(), i)); EXPECT_EQ(U(t.kth_max(i)), *std::next(o.rbegin(), i)); }
        EXPECT_EQ((int)t.xor_count_lt(x, y), lt); EXPECT_EQ((int)t.xor_count_leq(x, y), le); EXPECT_EQ((int)t.xor_count_gt(x, y), m - le); EXPECT_EQ((int)t.xor_count_geq(x, y), m - lt);
        auto chk = [&](std::optional<T> g, int i, const char* w) { EXPECT_EQ(g.has_value(), i >= 0 && i < m, w); if (g) EXPECT_EQ(U(*g), s[i], w); }; chk(t.safe_xor_max_lt(x, y), lt - 1, "max_lt"); chk(t.safe_xor_max_leq(x, y), le - 1, "max_leq"); chk(t.safe_xor_min_geq(x, y), lt, "min_geq"); chk(t.safe_xor_min_gt(x, y), le, "min_gt"); if (lt) EXPECT_EQ(U(t.xor_max_lt(x, y)), s[lt - 1]); if (lt < m) EXPECT_EQ(U(t.xor_min_geq(x, y)), s[lt]); if (le) EXPECT_EQ(U(t.xor_max_leq(x, y)), s[le - 1]); if (le < m) EXPECT_EQ(U(t.xor_min_gt(x, y)), s[le]);
        auto ge = o.lower_bound(y), gt = o.upper_bound(y); EXPECT_EQ((int)t.count_lt(y), (int)std::distance(o.begin(), ge)); EXPECT_EQ((int)t.count_leq(y), (int)std::distance(o.begin(), gt)); EXPECT_EQ((int)t.count_gt(y), (int)std::distance(gt, o.end())); EXPECT_EQ((int)t.count_geq(y), (int)std::distance(ge, o.end())); if (ge != o.end()) EXPECT_EQ(U(t.min_geq(y)), *ge); if (gt != o.begin()) EXPECT_EQ(U(t.max_leq(y)), *std::prev(gt)); if (ge != o.begin()) EXPECT_EQ(U(t.max_lt(y)), *std::prev(ge)); if (gt != o.end()) EXPECT_EQ(U(t.min_gt(y)), *gt);
    }
}
SUITE(patricia) { switch (R(0, 6)) { case 0: pat<int, 31>("BinaryTriePatricia<int,31>"); break; case 1: pat<unsigned, 5>("BinaryTriePatricia<unsigned,5>"); break; case 2: pat<u64, 64>("BinaryTriePatricia<ull,64>"); break; case 3: pat<unsigned, 32>("BinaryTriePatricia<unsigned,32>"); break; case 4: pat<i64, 30>("BinaryTriePatricia<ll,30>"); break; case 5: pat<u64, 1>("BinaryTriePatricia<ull,1>"); break; default: pat<i64, 47>("BinaryTriePatricia<ll,47>"); } }
template <int lg> static void parr() {
    using P = PersistentArray<int, lg>; static bool once = (P::init_pool(40000), true); (void)once; P::Node::pool.clear(); int n = R(1, 1) * (R(0, 2) ? R(1, 9) : R(1, 400)); std::vector<int> a(n); for (auto& x : a) x = R(0, 99); begin("PersistentArray", lg, a); std::vector<P> v; std::vector<std::vector<int>> o; if (R(0, 3)) v.push_back(P(a)), o.push_back(a); else v.push_back(P(n, 7)), o.push_back(std::vector<int>(n, 7));
    for (int q = 0; q < 15; ++q) { int k = R(0, v.size() - 1), i = R(0, n - 1), x = R(100, 999); op("set", k, i, x); v.push_back(v[k].set(i, x)); o.push_back(o[k]); o.back()[i] = x; int z = R(0, v.size() - 1); for (int t = 0; t < n; ++t) EXPECT_EQ(v[z].get(t), o[z][t], "version", z, t); EXPECT_EQ(v[z].size(), n); EXPECT_EQ(v[z].dump(), o[z], "dump", z); }
}
SUITE(persistent_array) { if (R(0, 1)) parr<4>(); else parr<1>(); }
