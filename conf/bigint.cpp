// unsigned_bigint / bigint against schoolbook decimal arithmetic. ACL is absent, so convolution_int (used beyond 200 limbs) is a naive stand-in here.
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <iomanip>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#define SUISEN_ARBITRARY_MOD_CONVOLUTION
#include "library/convolution/convolution_naive.hpp"
namespace suisen { inline std::vector<__uint128_t> convolution_int(const std::vector<int>& a, const std::vector<int>& b) { if (a.empty() or b.empty()) return {}; std::vector<__uint128_t> c(a.size() + b.size() - 1); for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) c[i + j] += (unsigned long long)a[i] * b[j]; return c; } }
#include "library/math/unsigned_bigint.hpp"
#include "library/math/bigint.hpp"
#include "conf.h"
using namespace cf;
using UB = suisen::unsigned_bigint; using BI = suisen::bigint; using St = std::string;
// ---- oracle: decimal strings without leading zeros, sign-magnitude
static St norm(St s) { size_t i = 0; while (i + 1 < s.size() && s[i] == '0') ++i; return s.substr(i); }
static int cmp(const St& a, const St& b) { return a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : a < b ? -1 : a > b; }
static St add(const St& a, const St& b) { St r; int c = 0; for (size_t i = 0; i < std::max(a.size(), b.size()) || c; ++i) { if (i < a.size()) c += a[a.size() - 1 - i] - '0'; if (i < b.size()) c += b[b.size() - 1 - i] - '0'; r += char('0' + c % 10); c /= 10; } std::reverse(r.begin(), r.end()); return r.empty() ? "0" : norm(r); }
static St sub(const St& a, const St& b) { St r; int c = 0; for (size_t i = 0; i < a.size(); ++i) { int d = a[a.size() - 1 - i] - '0' - c - (i < b.size() ? b[b.size() - 1 - i] - '0' : 0); c = d < 0; r += char('0' + d + 10 * c); } std::reverse(r.begin(), r.end()); return norm(r); }
static St mul(const St& a, const St& b) { std::vector<int> r(a.size() + b.size()); for (size_t i = 0; i < a.size(); ++i) { int c = 0, x = a[a.size() - 1 - i] - '0'; size_t k = i; for (size_t j = 0; j < b.size(); ++j, ++k) { c += r[k] + x * (b[b.size() - 1 - j] - '0'); r[k] = c % 10; c /= 10; } while (c) { c += r[k]; r[k++] = c % 10; c /= 10; } } St s; for (size_t i = r.size(); i--;) s += char('0' + r[i]); return norm(s); }
// numbers made of limbs that are often 0, 1, D - 1 or D / 2
static St num(int limbs) { St s; int mode = R(0, 3); for (int i = 0; i < limbs; ++i) { u64 v; switch (mode == 0 ? 9 : R(0, mode == 1 ? 9 : 5)) { case 0: case 1: v = 0; break; case 2: v = 999999999; break; case 3: v = 1; break; case 4: v = 499999999 + R(0, 2); break; case 5: v = R(0, 3); break; default: v = rnd() % 1000000000; } St t = std::to_string(v); s += St(9 - t.size(), '0') + t; } return s.empty() ? "0" : norm(s.substr(R(0, 8))); }
static St pick(int m) { return num(R(0, 9) ? R(0, m) : R(0, 3)); }
static St str(const UB& a) { std::ostringstream o; o << a; EXPECT(o.str() == St(a), "stream and string"); return o.str(); }
static St str(const BI& a) { std::ostringstream o; o << a; EXPECT(o.str() == St(a), "stream and string"); return o.str(); }
static void canon(const UB& a, const St& want) { St s = str(a); EXPECT_EQ(s, want); EXPECT(a == UB(want), s); EXPECT(bool(a) == (want != "0"), s); EXPECT(!(a != UB(want)) && a <= UB(want) && !(a < UB(want)), s); }
static void divide(const UB& a, const UB& b, const St& x, const St& y) { auto [q, r] = UB::divmod(a, b); St sq = str(q), sr = str(r); EXPECT(cmp(sr, y) < 0, sr); EXPECT_EQ(add(mul(sq, y), sr), x); canon(q, sq); canon(r, sr); }
SUITE(unsigned_arithmetic) {
    St x = pick(6), y = pick(6); begin("unsigned_bigint", x, y); UB a(x), b(y); canon(a, x); canon(b, y); int c = cmp(x, y);
    EXPECT((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0) && (a == b) == (c == 0) && (a != b) == (c != 0));
    canon(a + b, add(x, y)); if (c >= 0) canon(a - b, sub(x, y)); else canon(b - a, sub(y, x)); canon(a * b, mul(x, y)); canon(a, x);
    { UB t = a; canon(++t, add(x, "1")); canon(t++, add(x, "1")); canon(t, add(x, "2")); canon(--t, add(x, "1")); canon(t--, add(x, "1")); canon(t, x); if (x != "0") canon(--t, sub(x, "1")); }
    { UB t = a; t += t; canon(t, add(x, x)); t -= t; canon(t, "0"); t = a; t *= t; canon(t, mul(x, x)); }
    if (y != "0") { divide(a, b, x, y); UB t = a; t /= b; UB u = a; u %= b; canon(t, str(a / b)); canon(u, str(a % b)); }
    int k = R(0, 4); canon(a << k, x == "0" ? x : x + St(9 * k, '0')); canon(a >> k, int(x.size()) <= 9 * k ? "0" : x.substr(0, x.size() - 9 * k));
    UB in; std::istringstream is(St(R(0, 12), '0') + x); is >> in; canon(in, x); canon(UB((St(R(0, 30), '0') + x).c_str()), x);
}
SUITE(division_of_sparse_numbers) {     // zero limbs inside the dividend, exact multiples
    St y = num(R(2, 4)), q = num(R(1, 4)), z = num(R(0, 2)); if (y == "0") y = "7"; begin("division", y, q, z); St x = mul(y, q) + St(9 * R(0, 5), '0') + (R(0, 1) ? z : St()); x = norm(x); UB a(x), b(y); op(x); divide(a, b, x, y);
}
SUITE(large) {
    static int cnt = 0; if (cnt++ % 25) { begin("skip"); return; }
    int m = R(0, 2) ? 150 : 260; St x = num(R(60, m)), y = num(R(1, R(0, 1) ? 70 : m)); if (R(0, 3) == 0) y = num(R(60, 75)), x = num(R(130, 160)); begin("large", x, y); UB a(x), b(y);
    canon(a * b, mul(x, y)); if (y != "0") divide(a, b, x, y), divide(a * b, b, mul(x, y), y); if (y != "0" && x != "0" && R(0, 1)) divide(a * b - UB(1), b, sub(mul(x, y), "1"), y);
}
template <class T> void conv() {
    T v = T(E()); if (std::is_signed_v<T> && R(0, 3) == 0) v = R(0, 1) ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); begin("conversion", int(sizeof(T)), std::is_signed_v<T>, (i128)v);
    BI a(v); EXPECT_EQ(str(a), note_((i128)v)); EXPECT(static_cast<T>(a) == v, str(a)); if (v >= 0) { UB u(v); canon(u, note_((i128)v)); EXPECT(static_cast<T>(u) == v); }
}
SUITE(conversions) {
    switch (R(0, 5)) { case 0: conv<int>(); break; case 1: conv<unsigned>(); break; case 2: conv<long>(); break; case 3: conv<unsigned long>(); break; case 4: conv<long long>(); break; default: conv<unsigned long long>(); }
    u128 w = ((u128)E() << 64) | E(); UB u(note_(w)); EXPECT(static_cast<u128>(u) == w, note_(w)); i128 iw = (i128)w; BI b(note_(iw)); if (iw != (i128)1 << 127) EXPECT(static_cast<i128>(b) == iw, note_(iw));
    i64 d = R(-(1ll << 52), 1ll << 52); EXPECT(static_cast<double>(BI(d)) == double(d), d); EXPECT(static_cast<long double>(BI(d)) == d); EXPECT(bool(BI(d)) == (d != 0)); EXPECT(static_cast<float>(BI(int(d % 1000))) == float(d % 1000));
}
struct Z { bool n; St m; Z(St s) : n(s[0] == '-'), m(n ? norm(s.substr(1)) : norm(s)) { if (m == "0") n = false; } St s() const { return (n ? "-" : "") + m; } };
static St neg(const St& s) { return s == "0" ? s : s[0] == '-' ? s.substr(1) : "-" + s; }
static St zadd(const Z& a, const Z& b) { if (a.n == b.n) return Z((a.n ? "-" : "") + add(a.m, b.m)).s(); int c = cmp(a.m, b.m); if (!c) return "0"; return c > 0 ? (a.n ? "-" : "") + sub(a.m, b.m) : (b.n ? "-" : "") + sub(b.m, a.m); }
static int zcmp(const Z& a, const Z& b) { return a.n != b.n ? (a.n ? -1 : 1) : a.n ? -cmp(a.m, b.m) : cmp(a.m, b.m); }
static void is(const BI& a, const St& w) { EXPECT_EQ(str(a), w); EXPECT(a == BI(w) && !(a < BI(w)) && !(a != BI(w)), w); EXPECT(bool(a) == (w != "0"), w); }
SUITE(signed_arithmetic) {
    St x = Z((R(0, 1) ? "-" : "") + pick(4)).s(), y = R(0, 8) ? Z((R(0, 1) ? "-" : "") + pick(4)).s() : R(0, 1) ? x : neg(x); begin("bigint", x, y); BI a(x), b(y); Z p(x), q(y); is(a, x); is(b, y); int c = zcmp(p, q);
    EXPECT((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0) && (a == b) == (c == 0) && (a != b) == (c != 0));
    is(a + b, zadd(p, q)); is(a - b, zadd(p, Z(neg(y)))); is(-a, neg(x)); is(+a, x); is(a * b, Z((p.n != q.n ? "-" : "") + mul(p.m, q.m)).s());
    { BI t = a; is(++t, zadd(p, Z("1"))); is(t--, zadd(p, Z("1"))); is(t, x); is(--t, zadd(p, Z("-1"))); is(t++, zadd(p, Z("-1"))); is(t, x); t += t; is(t, zadd(p, p)); t -= t; is(t, "0"); t = a; t *= b; is(t, str(a * b)); }
    if (y != "0") { BI d = a / b, r = a % b; St sd = str(d), sr = str(r); is(d, sd); is(r, sr); Z zr(sr), zd(sd); EXPECT(cmp(zr.m, q.m) < 0, sr); EXPECT(zr.m == "0" || zr.n == p.n, sr); EXPECT_EQ(zadd(Z((zd.n != q.n ? "-" : "") + mul(zd.m, q.m)), zr), x); BI t = a; t /= b; is(t, sd); t = a; t %= b; is(t, sr); }
    int k = R(0, 3); is(a << k, Z(x + St(9 * k, '0')).s()); St m = int(p.m.size()) <= 9 * k ? "0" : p.m.substr(0, p.m.size() - 9 * k); is(a >> k, Z((p.n ? "-" : "") + m).s());
    BI in; std::istringstream iss(x); iss >> in; is(in, x); if (!p.n) canon(static_cast<UB>(a), x);
}
