#include <cassert>
#include <optional>
#include <iterator>
#include <vector>
#include <string>
#include <array>
#include <deque>
#include <map>
#include <unordered_map>
#include <random>
#include "conf.h"
#include "library/number/modint.hpp"
#include "library/string/morris_pratt.hpp"
#include "library/string/manacher.hpp"
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/trie_array.hpp"
#include "library/string/trie_map.hpp"
#include "library/string/rolling_hash.hpp"
#include "library/string/rolling_hash_field.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/substring_set.hpp"
using namespace cf; using namespace suisen; using Str = std::string; using VI = std::vector<int>;
namespace {
// random, periodic, Fibonacci-like and near-periodic strings over small alphabets
Str rs(int n, int k = 3) { Str s; int m = R(0, 4); if (m == 0) { for (int i = 0; i < n; ++i) s += char('a' + R(0, k - 1)); } else if (m == 1) { int p = R(1, std::max(1, n / 2)); Str u = rs(0); for (int i = 0; i < p; ++i) u += char('a' + R(0, k - 1)); for (int i = 0; i < n; ++i) s += u[i % p]; }
    else if (m == 2) { Str a = "a", b = "ab"; while ((int)b.size() < n) { Str c = b + a; a = b; b = c; } s = b.substr(0, n); } else if (m == 3) { s = Str(n, 'a'); } else { Str u; for (int i = 0; i < (n + 1) / 2; ++i) u += char('a' + R(0, k - 1)); s = u; for (int i = n / 2; i-- > 0;) s += u[i]; }
    if (n && R(0, 2) == 0) s[R(0, n - 1)] = char('a' + R(0, k - 1)); return s; }
VI vi(const Str& s) { VI v; for (char c : s) v.push_back(c - 'a'); return v; }
VI occ(const Str& s, const Str& t) { VI r; for (int i = 0; i + t.size() <= s.size(); ++i) if (s.compare(i, t.size(), t) == 0) r.push_back(i); return r; }
bool pal(const Str& s, int l, int r) { for (; l < --r; ++l) if (s[l] != s[r]) return false; return true; }
}
SUITE(morris_pratt) { for (int q = 0; q < 150; ++q) { int n = R(0, 24); Str s = rs(n, R(1, 3)); begin("morris_pratt", s); auto mp = morris_pratt::morris_pratt(s); EXPECT_EQ((int)mp.size(), n + 1, ""); EXPECT_EQ(mp[0], -1, "");
    for (int i = 1; i <= n; ++i) { int b = i - 1; while (s.substr(0, b) != s.substr(i - b, b)) --b; EXPECT(mp[i] == b, "border of prefix", i, mp[i], b); }
    for (bool fr : {true, false}) { VI e; for (int p = 1; p <= n; ++p) { bool ok = fr || n % p == 0; for (int i = p; i < n && ok; ++i) ok = s[i] == s[i - p]; if (ok) e.push_back(p); } EXPECT_EQ(morris_pratt::all_periods(s.begin(), s.end(), fr), e, "periods", fr); if (n) EXPECT_EQ(morris_pratt::min_period(s, fr), s.substr(0, e[0]), "min_period", fr); }
    if (n) { Str t = R(0, 1) ? rs(R(0, 60), 2) : s + rs(R(0, 5), 2) + s + s + Str(R(0, 3), '\0') + s; op("match", t); morris_pratt::MatcherMP<Str> m(s); EXPECT_EQ(m(t), occ(t, s), "matcher"); EXPECT_EQ(m.enumerate_occurences(t), occ(t, s), "matcher"); morris_pratt::MatcherMP<VI> mv(vi(s)); EXPECT_EQ(mv(vi(t)), occ(t, s), "matcher over vectors"); } } }
SUITE(manacher) { for (int q = 0; q < 150; ++q) { int n = R(0, 24); Str s = rs(n, R(1, 3)); char d = R(0, 2) ? '$' : 'a'; begin("manacher", s, d); Manacher m(s, d);
    for (int i = 0; i < n; ++i) { int k = 0; while (i - k - 1 >= 0 && i + k + 1 < n && s[i - k - 1] == s[i + k + 1]) ++k; EXPECT(m.odd_length(i) == 2 * k + 1 && m[2 * i + 1] == 2 * k + 1, "odd", i, m.odd_length(i)); }
    for (int i = 0; i <= n; ++i) { int k = 0; while (i - k - 1 >= 0 && i + k < n && s[i - k - 1] == s[i + k]) ++k; EXPECT(m.even_length(i) == 2 * k && m[2 * i] == 2 * k, "even", i, m.even_length(i)); } } }
SUITE(aho_corasick) { for (int q = 0; q < 60; ++q) { AhoCorasick<char> a; AhoCorasickArray<3, 'a'> b; std::vector<Str> p; int rounds = R(1, 3); begin("aho-corasick"); bool ab = false; a.build();
    auto walk = [&](auto& x, const char* w) { Str t = rs(R(0, 40), 3); op("text", t); int v = x.init_state(); for (int i = 0; i <= (int)t.size(); ++i) { if (i) v = x.next_state(v, t[i - 1]); int e = 0; for (auto& s : p) if ((int)s.size() <= i && t.compare(i - s.size(), s.size(), s) == 0) ++e; EXPECT(x.count_suffix_matching(v) == e, w, "position", i, x.count_suffix_matching(v), e); } };
    for (int r = 0; r < rounds; ++r) { for (int k = R(0, 5); k-- > 0;) { Str s = rs(R(1, 5), R(1, 3)); op("add", s); p.push_back(s); a.add(s); if (r == 0) b.add(s); } op("build"); a.build(); walk(a, "map"); if (r == 0) { b.build(); walk(b, "array"); } walk(a, "map"); if (r == 0) walk(b, "array"); } } }
struct PNode : ArrayTrieNodeWithParentLink<3, 'a'> { using ArrayTrieNodeWithParentLink<3, 'a'>::ArrayTrieNodeWithParentLink; int c = 0; };
struct ANode : ArrayTrieNode<3, 'a'> { int c = 0; }; struct MNode : MapTrieNode<char> { int c = 0; }; struct UNode : MapTrieNode<char, false> { int c = 0; };
SUITE(trie) { for (int q = 0; q < 60; ++q) { ArrayTrie<ANode> a; ArrayTrie<PNode> b; MapTrie<MNode> m; MapTrie<UNode> u; std::map<Str, int> ref; std::set<Str> pre{""}; begin("trie");
    for (int k = R(1, 25); k-- > 0;) { Str s = rs(R(0, 6), 3); op(s); ++a.add(s).c; ++b.add(s).c; ++m.add(s).c; ++u.add(s).c; ++ref[s]; for (int i = 0; i <= (int)s.size(); ++i) pre.insert(s.substr(0, i)); }
    EXPECT_EQ(a.nodes.size(), pre.size(), "one node per prefix"); EXPECT_EQ(b.nodes.size(), pre.size(), ""); EXPECT_EQ(m.nodes.size(), pre.size(), ""); EXPECT_EQ(u.nodes.size(), pre.size(), "");
    std::set<int> sa, sm; for (auto& s : pre) { int x = 0, y = 0, z = 0, w = 0; const auto& cm = m; const auto& cu = u; for (char c : s) { int px = z; x = a[x][c - 'a']; z = b[z][c - 'a']; y = cm[y][c]; w = cu[w][c]; EXPECT(x > 0 && y > 0 && z > 0 && w > 0, "prefix missing", s); EXPECT(b[z].par == px && b[z].key == c - 'a', "parent link", s); } sa.insert(x); sm.insert(y); int e = ref.count(s) ? ref[s] : 0; EXPECT(a[x].c == e && b[z].c == e && m[y].c == e && u[w].c == e, "count", s); }
    EXPECT(sa.size() == pre.size() && sm.size() == pre.size(), "nodes not distinct"); } }
template <class H> static void hashcheck(const Str& s, H h, const char* what) { int n = s.size(); for (int q = 0; q < 40; ++q) { int l = R(0, n), r = R(0, n), a = R(0, n), b = R(0, n); if (l > r) std::swap(l, r); if (a > b) std::swap(a, b); if (q % 2) { b = std::min(n, a + r - l); } EXPECT((h(l, r) == h(a, b)) == (s.substr(l, r - l) == s.substr(a, b - a)), what, l, r, a, b); } }
SUITE(rolling_hash) { for (int q = 0; q < 60; ++q) { int n = R(0, 40); Str s = rs(n, R(1, 3)); begin("hash", s); auto h1 = RollingHash<1>::from_lowercase_alphabet(s); auto h2 = RollingHash<2>::from_lowercase_alphabet(s); auto hm = RollingHash<2, suisen::modint998244353>::from_lowercase_alphabet(s);
    hashcheck(s, [&](int l, int r) { return h1(l, r); }, "one base"); hashcheck(s, [&](int l, int r) { return h2(l, r); }, "two bases"); hashcheck(s, [&](int l, int r) { return hm(l, r); }, "mod 998244353");
    Str t = rs(R(0, 30), 2); auto g = RollingHash<2>::from_lowercase_alphabet(t), st = RollingHash<2>::from_lowercase_alphabet(s + t); int l = R(0, n), r = R(l, n), a = R(0, t.size()), b = R(a, t.size()); EXPECT(g.concat(h2(l, r), a, b) == RollingHash<2>::from_lowercase_alphabet(s.substr(l, r - l) + t.substr(a, b - a))(0, r - l + b - a), "concat", l, r, t, a, b); EXPECT(h2(0, n) == st(0, n), "same string, different object", t);
    Str up = s; for (auto& c : up) c = c - 'a' + 'A'; auto hu = RollingHash<1>::from_uppercase_alphabet(up); hashcheck(up, [&](int l, int r) { return hu(l, r); }, "uppercase"); auto ha = RollingHash<1>::from_alphabet(up + s); hashcheck(up + s, [&](int l, int r) { return ha(l, r); }, "alphabet"); Str dg = s; for (auto& c : dg) c = c - 'a' + '0'; auto hd = RollingHash<1>::from_digit(dg); hashcheck(dg, [&](int l, int r) { return hd(l, r); }, "digit");
    using F = RollingHashField<suisen::modint998244353, 2>; F::set_bases({suisen::modint998244353((int)R(1000, 900000000)), suisen::modint998244353((int)R(1000, 900000000))}); std::function<suisen::modint998244353(char)> f0 = [](char c) { return suisen::modint998244353(c); }, f1 = [](char c) { return suisen::modint998244353(3 * c + 1); };
    auto hf = F::create(s, {f0, f1}); auto fs = [&](int l, int r) { auto x = hf(l, r); return std::make_pair(x[0].val(), x[1].val()); }; hashcheck(s, fs, "field"); auto ht = F::create(t, {f0, f1}), hst = F::create(s + t, {f0, f1}); auto c = F::concat(hf(l, n), ht(0, b), b), d = hst(l, n + b); EXPECT(c[0] == d[0] && c[1] == d[1], "field concat", l, t, b); if (n) { int x = R(0, n), y = R(0, n), k = 0; while (x + k < n && y + k < n && s[x + k] == s[y + k]) ++k; EXPECT_EQ(hf.lcp(x, y), k, "lcp", x, y); } } }
SUITE(dynamic_hash) { DynamicRollingHash<2>::init_pool(20000); for (int q = 0; q < 6; ++q) { Str s = rs(R(1, 20), 2); begin("dynamic hash", s); DynamicRollingHash<2> h(std::vector<int>(s.begin(), s.end())); DynamicRollingHash<1>::init_pool(20000); DynamicRollingHash<1> h1(std::vector<int>(s.begin(), s.end()));
    for (int k = 0; k < 40; ++k) { int n = s.size(), t = R(0, 7); char c = char('a' + R(0, 1)); if (t == 0 && n) { int i = R(0, n - 1); op("set", i, c); s[i] = c; h.set(i, (int)c); h1.set(i, (int)c); } else if (t == 1) { int i = R(0, n); op("insert", i, c); s.insert(s.begin() + i, c); h.insert(i, (int)c); h1.insert(i, (int)c); } else if (t == 2) { op("push_back", c); s += c; h.push_back((int)c); h1.push_back((int)c); } else if (t == 3) { op("push_front", c); s = Str(1, c) + s; h.push_front((int)c); h1.push_front((int)c); } else if (t == 4 && n > 1) { int i = R(0, n - 1); op("erase", i); s.erase(i, 1); h.erase(i); h1.erase(i); } else if (t == 5 && n > 1) { op("pop_back"); s.pop_back(); h.pop_back(); h1.pop_back(); } else if (t == 6 && n > 1) { op("pop_front"); s.erase(0, 1); h.pop_front(); h1.pop_front(); }
        if (k % 5 == 0) { hashcheck(s, [&](int l, int r) { return h(l, r); }, "dynamic"); hashcheck(s, [&](int l, int r) { return h1(l, r); }, "dynamic"); } } } }
template <class P, class S, class F> static void ptree(P& t, const Str& s, F conv) {
    std::map<Str, int> cnt, first; int n = s.size(); for (int l = 0; l < n; ++l) for (int r = l + 1; r <= n; ++r) if (pal(s, l, r)) { Str u = s.substr(l, r - l); if (!cnt[u]++) first[u] = l; }
    EXPECT_EQ(t.node_num(), (int)cnt.size() + 2, "one node per distinct palindrome"); auto fr = t.frequency_table(); auto par = t.parents(); std::set<Str> seen;
    for (int i = 2; i < t.node_num(); ++i) { S v = t.get_palindrome(i); Str u; for (auto c : v) u += conv(c); EXPECT(cnt.count(u) && seen.insert(u).second, "not a palindrome of the text, or repeated:", u); EXPECT_EQ(t.length(i), (int)u.size(), u); EXPECT_EQ(fr[i], cnt[u], "frequency of", u); EXPECT_EQ(t.first_occurence(i), first[u], "first occurrence of", u);
        Str w; for (int k = 1; k < (int)u.size() + 1; ++k) if (pal(u, k, u.size())) { w = u.substr(k); break; } int sl = t.suffix_link(i); EXPECT(t.length(sl) == (int)w.size(), "suffix link", u, w); S lv = t.get_palindrome(sl); Str lw; for (auto c : lv) lw += conv(c); EXPECT_EQ(lw, w, "suffix link of", u); EXPECT(par[i] >= 0 && t.length(par[i]) == (int)u.size() - 2, "parent of", u); } }
SUITE(palindromic_tree) { for (int q = 0; q < 50; ++q) { int n = R(0, 18), k = R(1, 3); Str s = rs(n, k); bool big = q == 0; if (big) { s = ""; for (int i = 0; i < 300; ++i) s += 'a'; n = 300; } begin("palindromic tree", s); PalindromicTree<char, Str> t(s); auto id = [](char c) { return c; }; auto fi = [](int c) { return char('a' + c); };
    PalindromicTreeVec<int> v(vi(s)); PalindromicTreeArr<int, 3> a(vi(s)); if (!big) { ptree<decltype(t), Str>(t, s, id); ptree<decltype(v), VI>(v, s, fi); ptree<decltype(a), VI>(a, s, fi); } else EXPECT(t.node_num() == 302 && v.node_num() == 302 && a.node_num() == 302, "unary text");
    std::vector<char> cs; for (char c : s) cs.push_back(c - 'a'); PalindromicTreeVec<char> vc(cs); PalindromicTreeArr<char, 3> ac(cs); EXPECT(vc.node_num() == t.node_num() && ac.node_num() == t.node_num(), "children indices of a char alphabet", vc.node_num(), ac.node_num(), t.node_num());
    Str s2 = rs(R(0, 18), 3); op("clear", s2); t.clear(); t.add_all(s2); ptree<decltype(t), Str>(t, s2, id); v.clear(); v.add_all(vi(s2)); ptree<decltype(v), VI>(v, s2, fi); a.clear(); a.add_all(vi(s2)); ptree<decltype(a), VI>(a, s2, fi);
    PalindromicTree<char, Str> o; int last = 0; for (int i = 0; i < n && !big; ++i) { int x = o.add(s[i]); int l = 0; while (!pal(s, l, i + 1)) ++l; EXPECT(o.length(x) == i + 1 - l, "longest suffix palindrome after", i + 1); } } }
SUITE(suffix_automaton) { for (int q = 0; q < 40; ++q) { int n = R(0, 16), k = R(1, 3); Str s = rs(n, k); begin("suffix automaton", s); SuffixAutomaton<char> sa(s); SuffixAutomaton<int> si(vi(s)); std::set<Str> sub; for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) sub.insert(s.substr(l, r - l));
    auto cnt = sa.substring_counter(); auto oe = sa.occurrence_enumerator(); auto fo = sa.first_occurence_searcher(); auto ci = si.substring_counter(); EXPECT((int)sa.nodes.size() <= std::max(1, 2 * n), "size");
    std::vector<Str> ts(sub.begin(), sub.end()); for (int i = 0; i < 30; ++i) ts.push_back(rs(R(0, 7), 3));
    for (auto& t : ts) { bool in = sub.count(t); EXPECT_EQ(sa.accept(t), in, "accept", t); auto o = occ(s, t); EXPECT_EQ(cnt.count(t), (i64)o.size(), "count", t); EXPECT_EQ(ci.count(vi(t)), (i64)o.size(), "count", t); auto e = oe.enumerate_all_occurrence(t); std::sort(e.begin(), e.end()); EXPECT_EQ(e, o, "occurrences", t); EXPECT_EQ(fo.first_occurrence(t), o.empty() ? -1 : o[0], "first", t); }
    for (int i = 0; i < 10; ++i) { Str t = rs(R(0, 14), 3); op("lcs", t); int best = 0; for (int l = 0; l < (int)t.size(); ++l) for (int r = l + 1; r <= (int)t.size(); ++r) if (sub.count(t.substr(l, r - l))) best = std::max(best, r - l); auto [x, y, len] = sa.longest_common_substring(t); EXPECT_EQ(len, best, "length"); EXPECT(x >= 0 && y >= 0 && x + len <= n && y + len <= (int)t.size() && s.substr(x, len) == t.substr(y, len), "positions", x, y, len); }
    // the set of substrings
    SubstringSet<char> ss; if (R(0, 1)) ss.build(rs(R(0, 9), 3)); ss.build(s); if (R(0, 1)) ss = SubstringSet<char>(s); std::vector<Str> L(sub.begin(), sub.end()); EXPECT_EQ(ss.size(), (i64)L.size(), "size"); for (size_t i = 0; i < L.size(); ++i) { EXPECT_EQ(ss[i], L[i], "k-th"); EXPECT_EQ(ss.kth_element(i), L[i], "k-th"); EXPECT_EQ(*(ss.begin() + i), L[i], "iterator"); }
    { size_t i = 0; for (auto x : ss) { EXPECT(i < L.size() && x == L[i], "iteration", x); ++i; } EXPECT_EQ(i, L.size(), ""); i = L.size(); for (auto it = ss.rbegin(); it != ss.rend(); ++it) { EXPECT_EQ(*it, L[--i], "reverse iteration"); } }
    for (auto& t : ts) { i64 lt = std::lower_bound(L.begin(), L.end(), t) - L.begin(), le = std::upper_bound(L.begin(), L.end(), t) - L.begin(), N = L.size(); EXPECT_EQ(ss.contains(t), le > lt, t); EXPECT_EQ(ss.count_lt(t), lt, t); EXPECT_EQ(ss.count_leq(t), le, t); EXPECT_EQ(ss.count_gt(t), N - le, t); EXPECT_EQ(ss.count_geq(t), N - lt, t); if (lt < N) EXPECT_EQ(ss.min_geq(t), L[lt], t); if (le < N) EXPECT_EQ(ss.min_gt(t), L[le], t); if (lt) EXPECT_EQ(ss.max_lt(t), L[lt - 1], t); if (le) EXPECT_EQ(ss.max_leq(t), L[le - 1], t);
        EXPECT(ss.lower_bound(t) - ss.begin() == lt && ss.upper_bound(t) - ss.begin() == le, "bounds", t); auto f = ss.find(t); EXPECT(le > lt ? f - ss.begin() == lt : f == ss.end(), "find", t); } } }
