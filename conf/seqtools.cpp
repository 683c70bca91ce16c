// sequences, searches, permutations, small utilities against brute force
#include <bits/stdc++.h>
#include "library/util/search.hpp"
#include "library/util/permutation.hpp"
#include "library/util/sum_count.hpp"
#include "library/util/transpose.hpp"
#include "library/util/rot90.hpp"
#include "library/util/run_length_encoder.hpp"
#include "library/util/subset_iterator.hpp"
#include "library/util/step_view.hpp"
#include "library/util/zobrist_hash.hpp"
#include "library/util/default_vector.hpp"
#include "library/util/iter_util.hpp"
#include "library/util/bit_utils.hpp"
#include "library/util/grid_utils.hpp"
#include "library/util/container_utils.hpp"
#include "library/util/vector_ops.hpp"
#include "library/util/pair_ops.hpp"
#include "library/util/tuple_ops.hpp"
#include "library/util/hashes.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/datastructure/permutation_tree.hpp"
#include "library/dp/longest_increasing_subsequence.hpp"
#include "library/dp/number_of_subsequences.hpp"
#include "conf.h"
using namespace cf;
using VI = std::vector<int>;
static VI vec(int n, int lo, int hi) { VI a(n); for (auto& x : a) x = R(lo, hi); return a; }
static VI rperm(int n) { VI p(n); std::iota(p.begin(), p.end(), 0); for (int i = n - 1; i > 0; --i) std::swap(p[i], p[R(0, i)]); return p; }
SUITE(binary_search) {
    i64 lo = R(0, 3) ? R(-50, 50) : i64(E()) / 4, w = R(0, 2) ? R(1, 60) : R(1, i64(1) << R(1, 60)), c = lo + R(1, w);
    begin("binary_search", lo, lo + w, "threshold", c);
    auto f = [&](i64 x) { return x >= c; };
    EXPECT_EQ(suisen::binary_search(lo, lo + w, f), c);
    EXPECT_EQ(suisen::binary_search_exponential(lo, f), c);
    int l2 = R(-100, 100), c2 = l2 + R(1, 100); auto g = [&](int x) { return x >= c2; };
    EXPECT_EQ(suisen::binary_search(l2, c2 + int(R(0, 50)), g), c2); EXPECT_EQ(suisen::binary_search_exponential(l2, g), c2);
}
SUITE(ternary_search) {
    int n = R(1, 40); i64 off = R(-100, 100); std::vector<i64> v(n), d(n);
    i64 scale = R(0, 3) ? 1 : i64(1) << 40;
    for (auto& x : d) x = R(-4, 4) * scale; std::sort(d.begin(), d.end());
    for (int i = 1; i < n; ++i) v[i] = v[i - 1] + d[i];
    begin("ternary_search", off, v);
    auto f = [&](i64 x) { EXPECT(off <= x && x < off + n, x); return v[x - off]; };
    auto g = [&](i64 x) { return -f(x); };
    i64 mnv = *std::min_element(v.begin(), v.end());
    using suisen::ternary_search_tag;
    EXPECT_EQ(f(suisen::ternary_search_key<ternary_search_tag::Convex>(off, off + n - 1, f)), mnv);
    EXPECT_EQ(g(suisen::ternary_search_key<ternary_search_tag::Concave>(off, off + n - 1, g)), -mnv);
    EXPECT_EQ(suisen::ternary_search_value<ternary_search_tag::Convex>(off, off + n - 1, f), mnv);
    EXPECT_EQ(suisen::ternary_search_value<ternary_search_tag::Convex>(int(off), int(off + n - 1), f), mnv);
    EXPECT_EQ(suisen::ternary_search_value<ternary_search_tag::Concave>(int(off), int(off + n - 1), g), -mnv);
    double c = R(-100, 100) / 7.0; auto h = [&](double x) { return (x - c) * (x - c); };
    EXPECT(std::abs(suisen::ternary_search_key<ternary_search_tag::Convex>(-20.0, 20.0, 200, h) - c) < 1e-6);
    EXPECT(suisen::ternary_search_value<ternary_search_tag::Convex>(-20.0, 20.0, 200, h) < 1e-9);
}
SUITE(permutation) {
    int n = R(0, 9); VI p = rperm(n), q = rperm(n), a = vec(n, 0, 99); i64 k = R(0, 2) ? R(0, 40) : i64(E() >> 1);
    begin("Permutation", p, q, a, k);
    suisen::Permutation P(p), Q(q);
    auto b = P.permute(a), c = P.inv_permute(a); auto m = P * Q, iv = P.inv();
    for (int i = 0; i < n; ++i) { EXPECT_EQ(b[i], a[p[i]]); EXPECT_EQ(c[p[i]], a[i]); EXPECT_EQ(m[i], p[q[i]]); EXPECT_EQ(iv[p[i]], i); }
    VI id(n); std::iota(id.begin(), id.end(), 0);
    EXPECT((VI)suisen::Permutation(n) == id); EXPECT((VI)suisen::Permutation(std::size_t(n)) == id); EXPECT((VI)suisen::Permutation() == VI{});
    auto mm = P; mm *= Q; EXPECT((VI)mm == (VI)m);
    // k mod the length of each cycle
    VI w(n); for (int i = 0; i < n; ++i) { int len = 1, v = p[i]; while (v != i) v = p[v], ++len; v = i; for (i64 t = k % len; t--;) v = p[v]; w[i] = v; }
    EXPECT((VI)P.pow(k) == w);
    VI s = vec(n, 0, 1000); auto o = suisen::Permutation::index_sort(s); for (int i = 1; i < n; ++i) EXPECT(s[o[i - 1]] <= s[o[i]]); VI so = o; std::sort(so.begin(), so.end()); EXPECT(so == id);
    auto o2 = suisen::Permutation::index_sort(s, std::greater<int>()); for (int i = 1; i < n; ++i) EXPECT(s[o2[i - 1]] >= s[o2[i]]);
    using H = suisen::PermutationHash<u64>; u64 fact = 1; for (int i = 1; i <= n; ++i) fact *= i;
    u64 h = H::hash(P); EXPECT(h < fact, h); EXPECT((VI)H::unhash(n, h) == p); EXPECT_EQ(H{}(P), h);
    u64 h2 = rnd() % fact; EXPECT_EQ(H::hash(H::unhash(n, h2)), h2);
}
SUITE(run_length) {
    VI a = vec(R(0, 12), 0, 2); begin("RunLengthEncoder", a); suisen::RunLengthEncoder<VI> r(a), other(vec(3, 0, 1));
    if (!R(0, 3)) { r = suisen::RunLengthEncoder<VI>(); a.clear(); op("fresh"); }
    for (int t = R(0, 10); t--;) {
        switch (R(0, 5)) {
        case 0: case 1: { int v = R(0, 2), c = R(1, 4); op("push_back", v, c); r.push_back(v, c); a.insert(a.end(), c, v); break; }
        case 2: { int c = R(0, 6); op("pop_back", c); int e = std::min<int>(c, a.size()); EXPECT_EQ(r.pop_back(c), e); a.resize(a.size() - e); break; }
        case 3: { op("push_back", 1); r.push_back(1); a.push_back(1); break; }
        case 4: if (!R(0, 4)) { op("clear"); r.clear(); a.clear(); } break;
        default: if (!R(0, 3)) { VI b = vec(R(0, 4), 0, 2); op("swap", b); suisen::RunLengthEncoder<VI> o(b); r.swap(o); std::swap(a, b); EXPECT_EQ(o.length(), i64(b.size())); }
        }
        EXPECT_EQ(r.length(), i64(a.size()));
        VI d; int prev = -1; for (auto [v, c] : r) { EXPECT(c > 0); EXPECT(v != prev, v); prev = v; for (i64 i = 0; i < c; ++i) d.push_back(v); }
        EXPECT_EQ(d, a);
        if (a.size()) { EXPECT_EQ(r.front().first, a[0]); EXPECT_EQ(r.back().first, a.back()); }
    }
}
SUITE(subsets) {
    unsigned s = R(0, 2047); if (!R(0, 3)) s <<= R(0, 18); int k = R(0, 12); begin("subsets", s, "size", k);
    std::vector<unsigned> w; for (unsigned t = s;; t = (t - 1) & s) { w.push_back(t); if (!t) break; }
    std::vector<unsigned> g; for (unsigned t : suisen::all_subset(s)) g.push_back(t); EXPECT_EQ(g, w);
    std::vector<int> gi; for (int t : suisen::all_subset(int(s))) gi.push_back(t); EXPECT_EQ(gi.size(), w.size()); for (size_t i = 0; i < w.size(); ++i) EXPECT_EQ(unsigned(gi[i]), w[i]);
    std::reverse(w.begin(), w.end()); std::vector<unsigned> wk; for (unsigned t : w) if (__builtin_popcount(t) == k) wk.push_back(t);
    std::vector<unsigned> gk; for (unsigned t : suisen::all_subset_k(s, k)) gk.push_back(t); EXPECT_EQ(gk, wk);
    u64 s6 = u64(s) << R(0, 33); std::vector<u64> w6, g6; for (u64 t = s6;; t = (t - 1) & s6) { if (__builtin_popcountll(t) == k) w6.push_back(t); if (!t) break; } std::reverse(w6.begin(), w6.end());
    for (u64 t : suisen::all_subset_k_64(s6, k)) g6.push_back(t); EXPECT_EQ(g6, w6);
    int n = R(0, 10), kk = R(0, 10); std::vector<unsigned> c; for (unsigned t = 0; t < (1u << n); ++t) if (__builtin_popcount(t) == kk) c.push_back(t);
    std::vector<unsigned> gc; for (unsigned t : suisen::all_subset_k::nCk(n, kk)) gc.push_back(t); EXPECT_EQ(gc, c);
    unsigned x = unsigned(E()); u64 y = E(); VI b1, b2, e1, e2; for (int i = 0; i < 32; ++i) if (x >> i & 1) e1.push_back(i); for (int i = 0; i < 64; ++i) if (y >> i & 1) e2.push_back(i);
    for (int i : suisen::all_setbit(x)) b1.push_back(i); for (int i : suisen::all_setbit_64(y)) b2.push_back(i); EXPECT_EQ(b1, e1); EXPECT_EQ(b2, e2);
}
SUITE(sum_count) {
    i64 al = R(-6, 6), ar = R(-8, 8), bl = R(-6, 6), br = R(-8, 8), x = R(-20, 20); begin("sum_count", al, ar, bl, br, x);
    i64 e = 0, le = 0, lt = 0, ge = 0, gt = 0; for (i64 a = al; a <= ar; ++a) for (i64 b = bl; b <= br; ++b) { e += a + b == x; le += a + b <= x; lt += a + b < x; ge += a + b >= x; gt += a + b > x; }
    EXPECT_EQ(suisen::sum_count(al, ar, bl, br, x), e); EXPECT_EQ(suisen::sum_count_leq(al, ar, bl, br, x), le); EXPECT_EQ(suisen::sum_count_lt(al, ar, bl, br, x), lt); EXPECT_EQ(suisen::sum_count_geq(al, ar, bl, br, x), ge); EXPECT_EQ(suisen::sum_count_gt(al, ar, bl, br, x), gt);
    // a wider result type: counts beyond the range of the argument type
    int L = R(-100000, 0), H = R(1, 100000), X = R(-1000, 1000) * 100; i128 w = 0, tot = i128(H - L + 1) * (H - L + 1); for (i64 a = L; a <= H; ++a) w += std::max<i64>(0, std::min<i64>(H, X - a) - L + 1);
    op("wide", L, H, X);
    EXPECT_EQ((suisen::sum_count_leq<int, i64>(L, H, L, H, X)), i64(w)); EXPECT_EQ((suisen::sum_count_lt<int, i64>(L, H, L, H, X + 1)), i64(w));
    EXPECT_EQ((suisen::sum_count_gt<int, i64>(L, H, L, H, X)), i64(tot - w)); EXPECT_EQ((suisen::sum_count_geq<int, i64>(L, H, L, H, X + 1)), i64(tot - w));
}
SUITE(grids) {
    int n = R(0, 4), m = R(0, 4); std::vector<VI> a(n, VI(m)); std::vector<std::string> s(n, std::string(m, ' ')); for (auto& r : a) for (auto& x : r) x = R(0, 99); for (auto& r : s) for (auto& x : r) x = char('a' + R(0, 25));
    begin("transpose, rot90", a); auto t = suisen::transpose(a), r = suisen::rot90(a); auto ts = suisen::transpose(s), rs = suisen::rot90(s);
    EXPECT_EQ(int(t.size()), n ? m : 0); EXPECT_EQ(int(r.size()), n ? m : 0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { EXPECT_EQ(t[j][i], a[i][j]); EXPECT_EQ(r[m - 1 - j][i], a[i][j]); EXPECT_EQ(ts[j][i], s[i][j]); EXPECT_EQ(rs[m - 1 - j][i], s[i][j]); }
    int x = R(-1, 4), y = R(-1, 4), xl = R(-1, 1), xr = R(0, 4), yl = R(-1, 1), yr = R(0, 4); op("cells", x, y, xl, xr, yl, yr);
    std::set<std::pair<int, int>> w4, w8, b4, b8, c4, c8; for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) if (i || j) { std::pair<int, int> p{ x + i, y + j }; bool in = xl <= p.first && p.first < xr && yl <= p.second && p.second < yr, in0 = 0 <= p.first && p.first < xr && 0 <= p.second && p.second < yr; w8.insert(p); if (in) b8.insert(p); if (in0) c8.insert(p); if (!i || !j) { w4.insert(p); if (in) b4.insert(p); if (in0) c4.insert(p); } }
    auto chk = [&](auto cells, const std::set<std::pair<int, int>>& w) { std::set<std::pair<int, int>> g; int c = 0; for (auto p : cells) g.insert(p), ++c; EXPECT(g == w); EXPECT_EQ(c, int(w.size())); std::vector<std::pair<int, int>> v = cells; EXPECT_EQ(v.size(), w.size()); };
    chk(adjacent_four_cells(x, y), w4); chk(adjacent_eight_cells(x, y), w8); chk(adjacent_four_cells(x, y, xl, xr, yl, yr), b4); chk(adjacent_eight_cells(x, y, xl, xr, yl, yr), b8); chk(adjacent_four_cells(x, y, xr, yr), c4); chk(adjacent_eight_cells(x, y, xr, yr), c8);
    EXPECT_EQ(in_range(x, xl, xr), xl <= x && x < xr); EXPECT_EQ(out_range(x, xl, xr), !(xl <= x && x < xr)); EXPECT_EQ(in_range(x, xr), 0 <= x && x < xr); EXPECT_EQ(out_range(x, xr), !(0 <= x && x < xr));
    int d1 = R(0, 3), d2 = R(0, 3), d3 = R(0, 3); std::vector<std::array<int, 3>> e, g; for (int i = 0; i < d1; ++i) for (int j = 0; j < d2; ++j) for (int k = 0; k < d3; ++k) e.push_back({ i, j, k }); for (const auto& v : suisen::product_range(d1, d2, d3)) g.push_back(v); EXPECT(e == g, d1, d2, d3);
}
SUITE(views) {
    VI a = vec(R(6, 30), 0, 99); int start = R(0, 3), step = R(1, 3), cnt = (int(a.size()) - 1 - start) / step + 1; begin("StepView", a, start, step); VI b = a;
    suisen::StepView<VI> v(a, start, step, cnt); EXPECT_EQ(int(v.size()), cnt); for (int i = 0; i < cnt; ++i) EXPECT_EQ(v[i], b[start + i * step]); int k = R(0, cnt - 1); v[k] = -5; EXPECT_EQ(a[start + k * step], -5);
    suisen::StepIterator<VI::iterator> it(a.begin() + start, step), jt = it + k; EXPECT_EQ(*jt, -5); EXPECT_EQ(int(jt - it), k); EXPECT_EQ(it < jt, k > 0); EXPECT(it <= jt); EXPECT((it == jt) == (k == 0)); EXPECT((it != jt) == (k != 0)); EXPECT((jt > it) == (k > 0)); EXPECT(jt >= it); EXPECT(k + it == jt); EXPECT(jt - k == it); EXPECT_EQ(it[k], -5);
    auto kt = it; for (int i = 0; i < k; ++i) { if (i & 1) kt++; else ++kt; } EXPECT(kt == jt); for (int i = 0; i < k; ++i) { if (i & 1) kt--; else --kt; } EXPECT(kt == it);
    suisen::default_vector<int> dv(3, 1); dv.set_default_value(7); EXPECT_EQ(dv.get_or_default(10), 7); EXPECT_EQ(dv.get_or_default(10, 9), 9); EXPECT_EQ(dv.get_or_default(2), 1); EXPECT_EQ(dv.size(), 3); const auto& cd = dv; EXPECT_EQ(cd[20], 7); EXPECT_EQ(cd.at(1), 1); dv[5] = 2; EXPECT_EQ(dv.size(), 6); EXPECT_EQ(dv[4], 7); EXPECT_EQ(dv.at(5), 2); dv.resize(8); EXPECT_EQ(dv[7], 7);
    VI p = vec(R(0, 4), 0, 9), q = vec(R(0, 4), 0, 9); int rep = R(0, 4); op("vector ops", p, q, rep); using suisen::operator+; using suisen::operator+=; using suisen::operator*; using suisen::operator*=;
    VI pq = p; pq.insert(pq.end(), q.begin(), q.end()); EXPECT_EQ(p + q, pq); VI z = p; z += q; EXPECT_EQ(z, pq); VI w; for (int i = 0; i < rep; ++i) w.insert(w.end(), p.begin(), p.end()); VI y = p; y *= rep; EXPECT_EQ(y, w); EXPECT_EQ(p * rep, w);
    VI p1 = p; p1.push_back(4); const int four = 4; EXPECT_EQ(p + four, p1);
}
SUITE(bits_and_ops) {
    unsigned x = unsigned(E()); u64 y = E(); int k = R(0, 31); begin("bits", x, y, k); using namespace suisen;
    EXPECT_EQ(popcount(x), __builtin_popcount(x)); EXPECT_EQ(popcount(y), __builtin_popcountll(y)); EXPECT_EQ(popcount(int(x)), __builtin_popcount(x)); EXPECT_EQ(parity(y), __builtin_popcountll(y) & 1); EXPECT_EQ(kth_bit(x, k), int(x >> k & 1));
    auto tests = [&](auto v) { using U = decltype(v); const int W = sizeof(U) * 8; int hi = -1, lo = W; for (int i = 0; i < W; ++i) if (u64(v) >> i & 1) { hi = i; if (lo == W) lo = i; } op("width", W, u64(v));
        EXPECT_EQ(count_lz(v), W - 1 - hi); EXPECT_EQ(count_tz(v), lo); if (v) { EXPECT_EQ(floor_log2(v), hi); EXPECT_EQ(ceil_log2(v), hi + (lo != hi)); } };
    tests(x); tests(y); tests((unsigned char)(x)); tests((unsigned short)(x));
    int i32 = int(x & 0x7fffffff); i64 l64 = i64(y >> 1); tests(i32); tests(l64);
    using P = std::pair<int, i64>; P a{ int(R(-9, 9)), R(-9, 9) }, b{ int(R(-9, 9)), R(-9, 9) }; EXPECT((a + b == P{ a.first + b.first, a.second + b.second })); EXPECT((a - b == P{ a.first - b.first, a.second - b.second })); EXPECT((a * 3 == P{ a.first * 3, a.second * 3 })); EXPECT((3 * a == a * 3)); P c = a; c += b; c -= b; c *= 2; EXPECT((c == a * 2));
    using Q = std::tuple<int, i64, int>; Q s{ 1, 2, 3 }, t{ int(R(-9, 9)), 5, 7 }; EXPECT((s + t == Q{ 1 + std::get<0>(t), 7, 10 })); EXPECT((t - s == Q{ std::get<0>(t) - 1, 3, 4 })); EXPECT((s * 4 == Q{ 4, 8, 12 })); EXPECT((4 * s == s * 4)); EXPECT(((s * 4) / 2 == Q{ 2, 4, 6 }));
    EXPECT_EQ(std::hash<P>{}(a), std::hash<P>{}(P(a))); EXPECT_EQ(std::hash<Q>{}(t), std::hash<Q>{}(Q(t))); std::unordered_set<Q> hs{ s, t }; EXPECT(hs.count(s) && hs.count(t));
}
SUITE(containers) {
    VI a = vec(R(0, 8), 0, 9); std::sort(a.begin(), a.end()); int k = R(-1, 10); begin("sorted containers", a, k); using namespace suisen; std::set<int> st(a.begin(), a.end());
    auto cnt = [&](auto f) { return int(std::count_if(a.begin(), a.end(), f)); };
    EXPECT_EQ(count_leq(a, k), cnt([&](int x) { return x <= k; })); EXPECT_EQ(count_lt(a, k), cnt([&](int x) { return x < k; })); EXPECT_EQ(count_geq(a, k), cnt([&](int x) { return x >= k; })); EXPECT_EQ(count_gt(a, k), cnt([&](int x) { return x > k; }));
    auto best = [&](auto f, bool mn) { std::optional<int> r; for (int x : a) if (f(x)) { if (!r || (mn ? x < *r : x > *r)) r = x; } return r; };
    auto same = [&](std::optional<int> x, std::optional<int> y) { EXPECT(x == y, x.value_or(-99), y.value_or(-99)); };
    same(min_geq(a, k), best([&](int x) { return x >= k; }, true)); same(min_gt(a, k), best([&](int x) { return x > k; }, true)); same(max_leq(a, k), best([&](int x) { return x <= k; }, false)); same(max_lt(a, k), best([&](int x) { return x < k; }, false));
    same(min_geq(st, k), best([&](int x) { return x >= k; }, true)); same(min_gt(st, k), best([&](int x) { return x > k; }, true)); same(max_leq(st, k), best([&](int x) { return x <= k; }, false)); same(max_lt(st, k), best([&](int x) { return x < k; }, false));
    std::string s; for (int i = R(0, 10); i--;) s += "ab,"[R(0, 2)]; op("split", s); std::vector<std::string> w(1); for (char c : s) { if (c == ',') w.emplace_back(); else w.back() += c; } EXPECT_EQ(split(s, ','), w);
    VI b = vec(R(0, 4), 0, 9), ab = a; ab.insert(ab.end(), b.begin(), b.end()); EXPECT_EQ(concatenated(a, b), ab);
    VI sq = mapped_vec([](int x) { return x * x; }, a); for (size_t i = 0; i < a.size(); ++i) EXPECT_EQ(sq[i], a[i] * a[i]); auto cv = copied_vec<i64>(a); EXPECT(std::equal(cv.begin(), cv.end(), a.begin(), a.end()));
    i64 v = i64(E() >> 1); int base = R(2, 10); op("digits", v, base); auto dg = digits(v, base); i128 t = 0; for (size_t i = dg.size(); i--;) { EXPECT(0 <= dg[i] && dg[i] < base); t = t * base + dg[i]; } EXPECT(t == v); EXPECT(dg.size() == 1 || dg.back() != 0);
    int wd = R(0, 70); auto d2 = digits_str<3>(v, wd); t = 0; for (size_t i = d2.size(); i--;) t = t * 3 + (d2[i] - '0'); EXPECT(t == v); EXPECT(int(d2.size()) >= wd);
    EXPECT_EQ(charmap::fd('7'), 7); EXPECT_EQ(charmap::fa('c'), 2); EXPECT_EQ(charmap::fA('D'), 3); EXPECT_EQ(charmap::faA('Z'), 25); EXPECT_EQ(charmap::faA('a'), 26);
}
SUITE(zobrist) {
    begin("zobrist"); suisen::VecZobristHash<> z(R(0, 5)); suisen::ArrZobristHash<20> az; suisen::MapZobristHash<std::string> mz; suisen::MapZobristHash<int> uz(VI{ 1, 2, 3 });
    auto t = [&](auto& h, auto key) { u64 s = h.empty_set(); EXPECT_EQ(s, u64(0)); std::set<int> cur; u64 x = s; for (int i = R(0, 12); i--;) { int v = R(0, 20); x = h.flip(x, key(v)); if (!cur.insert(v).second) cur.erase(v); } u64 w = 0; for (int v : cur) w = h.xor_set(w, h.sigleton_set(key(v))); EXPECT_EQ(x, w); EXPECT((x == 0) == cur.empty()); for (int v : cur) EXPECT_EQ(h(key(v)), h(key(v))); };
    t(z, [](int v) { return std::size_t(v); }); t(az, [](int v) { return std::size_t(v); }); t(mz, [](int v) { return std::to_string(v); }); t(uz, [](int v) { return v; });
}
SUITE(lis) {
    int n = R(0, 12); VI a = vec(n, 0, R(0, 12)); begin("longest monotone subsequence", a);
    auto t = [&](VI ix, auto ok) { for (size_t i = 0; i < ix.size(); ++i) { EXPECT(0 <= ix[i] && ix[i] < n); if (i) EXPECT(ix[i - 1] < ix[i] && ok(a[ix[i - 1]], a[ix[i]]), ix); } VI d(n); int b = 0; for (int i = 0; i < n; ++i) { d[i] = 1; for (int j = 0; j < i; ++j) if (ok(a[j], a[i])) d[i] = std::max(d[i], d[j] + 1); b = std::max(b, d[i]); } EXPECT_EQ(int(ix.size()), b); };
    t(suisen::longest_increasing_subsequence(a), std::less<int>()); t(suisen::longest_nondecreasing_subsequence(a), std::less_equal<int>()); t(suisen::longest_decreasing_subsequence(a), std::greater<int>()); t(suisen::longest_nonincreasing_subsequence(a), std::greater_equal<int>());
    int m = R(0, 9); VI b = vec(m, 0, R(0, 4)); op("distinct subsequences", b); std::set<VI> s; for (int k = 1; k < (1 << m); ++k) { VI c; for (int i = 0; i < m; ++i) if (k >> i & 1) c.push_back(b[i]); s.insert(c); } EXPECT_EQ((suisen::number_of_nonempty_subsequences<i64>(b)), i64(s.size()));
}
SUITE(cartesian_tree) {
    int n = R(1, 10); VI a = vec(n, 0, R(0, 10)); begin("CartesianTree", a);
    auto t = [&](auto bld, auto tree, auto comp) { // comp(x, y): x is nearer the root
        std::vector<std::pair<int, int>> rg(n); VI par(n, -2);
        auto rec = [&](auto rec, int l, int r, int p) -> int { if (l >= r) return -1; int m = l; for (int i = l + 1; i < r; ++i) if (comp(a[i], a[m])) m = i; par[m] = p; rg[m] = { l, r }; EXPECT_EQ(int(bld.parent(m)), p); EXPECT_EQ(int(bld[m]), p); int x = rec(rec, l, m, m), y = rec(rec, m + 1, r, m); EXPECT_EQ(tree[m][0], x); EXPECT_EQ(tree[m][1], y); return m; };
        EXPECT_EQ(tree.root, rec(rec, 0, n, -1)); EXPECT(tree.ranges() == rg); EXPECT_EQ(int(tree.size()), n); };
    t(suisen::MinCartesianTreeBuilder(a), suisen::MinCartesianTreeBuilder::build(a), std::less<int>()); t(suisen::MaxCartesianTreeBuilder(a), suisen::MaxCartesianTreeBuilder(a).build(), std::greater<int>());
}
static void ptree(const suisen::PermutationTree& t, const VI& p, std::vector<std::pair<int, int>>& all, bool root) {
    int l = t.begin_index(), r = t.end_index(); all.push_back({ l, r }); int mn = 1 << 30, mxv = -1; for (int i = l; i < r; ++i) mn = std::min(mn, p[i]), mxv = std::max(mxv, p[i]);
    EXPECT_EQ(t.length(), r - l); EXPECT_EQ(mxv - mn + 1, r - l); EXPECT_EQ(t.min_value(), mn); EXPECT_EQ(t.max_value(), mxv); EXPECT_EQ(t.begin_value(), mn); EXPECT_EQ(t.end_value(), mxv + 1); EXPECT_EQ(t.min_index(), l); EXPECT_EQ(t.max_index(), r - 1);
    EXPECT((t.get_index_range() == std::pair<int, int>{ l, r })); EXPECT((t.get_value_range_closed() == std::pair<int, int>{ mn, mxv }));
    if (r - l == 1) { EXPECT(t.empty()); return; }
    EXPECT(t.size() >= 2); int c = l; for (auto& ch : t) { EXPECT_EQ(ch.begin_index(), c); c = ch.end_index(); ptree(ch, p, all, false); } EXPECT_EQ(c, r);
    // join node iff two adjacent children together form an interval of values
    auto con = [&](int i) { int a = std::min(t[i].min_value(), t[i + 1].min_value()), b = std::max(t[i].max_value(), t[i + 1].max_value()); return b - a + 1 == t[i].length() + t[i + 1].length(); };
    EXPECT_EQ(t.is_join_node(), con(0));
}
SUITE(permutation_tree) {
    int n = R(1, 10); VI p = rperm(n); if (!R(0, 2)) { int b = R(1, 3); VI o = rperm(b); p.clear(); for (int x : o) for (int i = 0; i < 3; ++i) p.push_back(x * 3 + (x & 1 ? i : 2 - i)); n = p.size(); }
    begin("PermutationTree", p); suisen::PermutationTree t(p); std::vector<std::pair<int, int>> all; ptree(t, p, all, true); EXPECT_EQ(t.length(), n);
    // strong intervals: common intervals that overlap no other common interval
    std::vector<std::pair<int, int>> ci, strong; for (int l = 0; l < n; ++l) { int mn = 1 << 30, mxv = -1; for (int r = l; r < n; ++r) { mn = std::min(mn, p[r]); mxv = std::max(mxv, p[r]); if (mxv - mn == r - l) ci.push_back({ l, r + 1 }); } }
    for (auto [l, r] : ci) { bool ok = true; for (auto [x, y] : ci) if ((l < x && x < r && r < y) || (x < l && l < y && y < r)) ok = false; if (ok) strong.push_back({ l, r }); }
    std::sort(all.begin(), all.end()); std::sort(strong.begin(), strong.end()); EXPECT_EQ(all, strong);
}
