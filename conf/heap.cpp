#include <set>
#include <list>
#include <queue>
#include <string>
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/priority_queue.hpp"
#include "library/datastructure/util/priority_sum.hpp"
#include "conf.h"
using namespace cf;
// a key with an identity: equal keys stay distinguishable
struct K { int k; int id; };
static std::string note_(K x) { return fmt(x.k, x.id); }
static bool operator<(const K& a, const K& b) { return a.k < b.k; }
static bool operator>(const K& a, const K& b) { return a.k > b.k; }
static bool operator==(const K& a, const K& b) { return a.k == b.k && a.id == b.id; }
struct Cmp { int m; Cmp(int m = 0) : m(m) {} int key(int k) const { return m == 0 ? k : m == 1 ? -k : m == 2 ? k % 5 : -(k % 3); } bool operator()(const K& a, const K& b) const { return key(a.k) < key(b.k); } };
struct Model {      // elements in some order, ranked by key
    std::vector<K> v; std::function<int(int)> key;
    int best(bool mx) const { int b = key(v[0].k); for (auto& x : v) b = mx ? std::max(b, key(x.k)) : std::min(b, key(x.k)); return b; }
    void chk(const K& r, bool mx, const char* w) const { bool in = false; for (auto& x : v) in |= x == r; EXPECT(in, w, "not an element", r); EXPECT_EQ(key(r.k), best(mx), w, r); }
    void del(const K& r) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == r) { v.erase(v.begin() + i); return; } failed("removed an element that was not there: " + fmt(r)); }
};
static int idc;
template <class H> static void binary(const char* nm, bool mx, std::function<int(int)> key, std::function<H(const std::vector<K>&, int)> make) {
    int hi = R(0, 3) ? R(0, 8) : R(20, 200); int n = R(0, 1) ? 0 : R(0, 18); std::vector<K> a(n); for (auto& x : a) x = {(int)R(0, hi), ++idc}; begin(nm, a); Model m{a, key}; H h = make(a, R(0, 3));
    int Q = R(5, 80), bias = R(0, 2);
    for (int q = 0; q < Q; ++q) {
        int k = R(0, 9); if (bias == 1 && q > Q / 2) k = R(5, 9); if (bias == 2 && q < Q / 2) k = R(0, 5);
        if (k < 5 || m.v.empty()) { K x{(int)R(0, hi), ++idc}; op("push", x); if (R(0, 1)) h.push(x); else h.emplace(K(x)); m.v.push_back(x); }
        else if (k < 9) { op("pop"); K r = h.pop(); m.chk(r, mx, "pop"); m.del(r); }
        else if (R(0, 20) == 0) { op("clear"); h.clear(); m.v.clear(); } else { op("copy"); H g = h; h.clear(); h = g; h.reserve(R(0, 50)); h.shrink_to_fit(); }
        if (R(0, 40) == 0) { op("data+construct"); for (auto& x : h.data()) x = {(int)R(0, hi), ++idc}; m.v = h.data(); h.construct_heap(); }
        EXPECT_EQ(h.size(), (int)m.v.size(), q); EXPECT_EQ(h.empty(), m.v.empty(), q); if (m.v.size()) m.chk(h.top(), mx, "top");
    }
    if (R(0, 1)) { op("drain"); while (m.v.size()) { K r = h.pop(); m.chk(r, mx, "pop"); m.del(r); } EXPECT(h.empty(), "drained"); }
}
SUITE(binary) {
    auto id = [](int k) { return k; };
    for (int rep = 0; rep < 3; ++rep) {
    { using H = suisen::MinBinaryHeap<K>; binary<H>("MinBinaryHeap", false, id, [](const std::vector<K>& a, int w) { if (a.empty() && w) return H(); if (w == 0) return H(a); if (w == 1) return H(a.begin(), a.end()); std::list<K> l(a.begin(), a.end()); if (w == 2) return H(l); return H(l.begin(), l.end()); }); }
    { using H = suisen::MaxBinaryHeap<K>; binary<H>("MaxBinaryHeap", true, id, [](const std::vector<K>& a, int w) { if (a.empty() && w) return H(); if (w == 0) return H(a); return H(a.begin(), a.end()); }); }
    int md = R(0, 3); auto ky = [md](int k) { return Cmp(md).key(k); };
    { using H = suisen::MinBinaryHeap<K, Cmp>; binary<H>("MinBinaryHeap cmp", false, ky, [md](const std::vector<K>& a, int w) { Cmp c(md); if (a.empty() && w) return H(c); if (w == 0) return H(a, c); return H(a.begin(), a.end(), c); }); }
    { using H = suisen::MaxBinaryHeap<K, Cmp>; binary<H>("MaxBinaryHeap cmp", true, ky, [md](const std::vector<K>& a, int w) { Cmp c(md); if (a.empty() && w) return H(c); if (w == 0) return H(a, c); return H(a.begin(), a.end(), c); }); }
    { using H = suisen::MinPriorityQueue<K>; binary<H>("MinPriorityQueue", false, id, [](const std::vector<K>& a, int w) { return H(a); }); }
    { using H = suisen::MaxPriorityQueue<K>; binary<H>("MaxPriorityQueue", true, id, [](const std::vector<K>& a, int w) { return H(a); }); }
    }
}
template <class H, bool DE> static void ended(const char* nm, std::function<int(int)> key, std::function<H(const std::vector<K>&, int)> make) {
    int hi = R(0, 3) ? R(0, 8) : R(20, 200); int n = R(0, 1) ? 0 : R(0, 18); std::vector<K> a(n); for (auto& x : a) x = {(int)R(0, hi), ++idc}; begin(nm, a); Model m{a, key}; H h = make(a, R(0, 3));
    int Q = R(5, 90), bias = R(0, 3);
    for (int q = 0; q < Q; ++q) {
        int k = R(0, 9); if (bias == 1 && q > Q / 2) k = R(5, 9); if (bias == 2 && q < Q / 2) k = R(0, 5); if (bias == 3 && (k == 7 || k == 8)) k = 6;
        if (k < 5 || m.v.empty()) { K x{(int)R(0, hi), ++idc}; op("push", x); if (R(0, 1)) h.push(x); else h.emplace(K(x)); m.v.push_back(x); }
        else if (k < 7) { op("pop_min"); K r = h.pop_min(); m.chk(r, false, "pop_min"); m.del(r); }
        else if (k < 9) { op("pop_max"); K r = h.pop_max(); m.chk(r, true, "pop_max"); m.del(r); }
        else if (R(0, 3) == 0) { op("copy"); { H g = h; h = H(); h = g; if constexpr (DE) if (m.v.size()) { g.pop_min(); g.push({5, 0}); } } std::vector<K> junk(64, K{1000000, -1}); }
        EXPECT_EQ(h.size(), (int)m.v.size(), q); EXPECT_EQ(h.empty(), m.v.empty(), q);
        if (m.v.size()) { if (R(0, 1)) { op("max"); if constexpr (DE) EXPECT_EQ(key(h.max().k), m.best(true), "max"); else m.chk(h.max(), true, "max"); } if (R(0, 1)) { op("min"); m.chk(h.min(), false, "min"); } }
        if constexpr (DE) { if (m.v.size() && R(0, 4) == 0) { EXPECT_EQ(key(h.top().k), m.best(true), "top"); K r = h.pop(); op("pop"); m.chk(r, true, "pop"); m.del(r); }
            if (q % 5 == 0) { op("dump"); auto d = h.dump_sorted(); auto s = m.v; EXPECT_EQ(d.size(), s.size(), "dump size"); for (size_t i = 1; i < d.size(); ++i) EXPECT(key(d[i - 1].k) <= key(d[i].k), "dump order", i);
                auto by = [](const K& x, const K& y) { return x.id < y.id; }; std::sort(d.begin(), d.end(), by); std::sort(s.begin(), s.end(), by); EXPECT(d == s, "dump contents"); } }
    }
    if (R(0, 1)) { op("drain"); while (m.v.size()) { bool mx = R(0, 1); K r = mx ? h.pop_max() : h.pop_min(); m.chk(r, mx, "pop"); m.del(r); } EXPECT(h.empty(), "drained"); }
}
SUITE(ended) {
    auto id = [](int k) { return k; };
    for (int rep = 0; rep < 4; ++rep) {
    int md = R(0, 3); auto ky = [md](int k) { return Cmp(md).key(k); };
    { using H = suisen::IntervalHeap<K>; ended<H, false>("IntervalHeap", id, [](const std::vector<K>& a, int w) { H h; if (w) h.reserve(10); for (auto& x : a) h.push(x); return h; }); }
    { using H = suisen::IntervalHeap<K, Cmp>; ended<H, false>("IntervalHeap cmp", ky, [md](const std::vector<K>& a, int w) { H h{Cmp(md)}; for (auto& x : a) h.push(x); return h; }); }
    { using H = suisen::DoubleEndedPriorityQueue<K>; ended<H, true>("DoubleEndedPriorityQueue", id, [](const std::vector<K>& a, int w) { if (a.empty() && w) return H(); if (w == 0) return H(a); if (w == 1) { H h; for (auto& x : a) h.push(x); return h; } std::list<K> l(a.begin(), a.end()); return w == 2 ? H(l) : H(a.begin(), a.end()); }); }
    { using H = suisen::DoubleEndedPriorityQueue<K, Cmp>; ended<H, true>("DoubleEndedPriorityQueue cmp", ky, [md](const std::vector<K>& a, int w) { Cmp c(md); if (w == 1) { H h(c); for (auto& x : a) h.push(x); return h; } if (w == 0) return H(a, c); return H(a.begin(), a.end(), c); }); }
    }
}
// the k first elements in the order (smallest for the max-heap variant, largest for the min-heap variant)
template <class P> static void psum(const char* nm, bool large) {
    int k = R(0, 6), hi = R(0, 2) ? R(1, 8) : 1000; std::vector<i64> v; begin(nm, k); P p(k); if (R(0, 3) == 0) { p = P(); k = 0; }
    for (int q = 0; q < 100; ++q) {
        int o = R(0, 9); if (o < 4 || v.empty()) { i64 x = R(-hi, hi); op("insert", x); p.insert(x); v.push_back(x); }
        else if (o < 8) { int i = R(0, v.size() - 1); op("erase", v[i]); p.erase(v[i]); v.erase(v.begin() + i); }
        else if (R(0, 1)) { int d = R(0, 2); if (d == 0) { k = R(0, 10); op("set_k", k); p.set_k(k); } else if (d == 1) { ++k; op("incr"); p.incr_k(); } else if (k > 0) { --k; op("decr"); p.decr_k(); } }
        auto w = v; std::sort(w.begin(), w.end()); if (large) std::reverse(w.begin(), w.end()); i64 s = 0; for (int i = 0; i < k && i < (int)w.size(); ++i) s += w[i];
        EXPECT_EQ(p.get_sum(), s, q); EXPECT_EQ(p.size(), (int)v.size(), q); EXPECT_EQ(p.get_k(), k, q);
    }
}
SUITE(psum) { for (int r = 0; r < 3; ++r) { psum<suisen::MaximumPrioritySum<i64>>("MaximumPrioritySum", false); psum<suisen::MinimumPrioritySum<i64>>("MinimumPrioritySum", true); } }
