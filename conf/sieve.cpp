#include <optional>
#include "conf.h"
#include "library/number/linear_sieve.hpp"
#include "library/number/sieve_of_eratosthenes.hpp"
#include "library/number/sieve_of_eratosthenes_constexpr.hpp"
#include "library/number/mobius_function.hpp"
#include "library/number/util.hpp"
#include "library/number/fast_factorize.hpp"
using namespace cf; using namespace suisen;
namespace {
struct Tab { std::vector<int> lp, mu, ph; Tab(int n) : lp(n + 1), mu(n + 1, 1), ph(n + 1) { for (int i = 0; i <= n; ++i) lp[i] = i; for (int i = 2; i <= n; ++i) if (lp[i] == i) for (int j = 2 * i; j <= n; j += i) if (lp[j] == j) lp[j] = i;
    ph[1] = 1; for (int i = 2; i <= n; ++i) { int p = lp[i], m = i / p; mu[i] = lp[m] == p && m > 1 ? 0 : -mu[m]; ph[i] = m > 1 && lp[m] == p ? ph[m] * p : ph[m] * (p - 1); } } };
const Tab& tab() { static Tab t(1100000); return t; }
template <class T> std::vector<std::pair<T, int>> ref_small(int n) { std::vector<std::pair<T, int>> r; while (n > 1) { int p = tab().lp[n], c = 0; while (n % p == 0) n /= p, ++c; r.emplace_back(p, c); } return r; }
u64 mulmod(u64 a, u64 b, u64 m) { return (u64)((u128)a * b % m); }
u64 powmod(u64 a, u64 e, u64 m) { u64 r = 1 % m; for (a %= m; e; e >>= 1, a = mulmod(a, a, m)) if (e & 1) r = mulmod(r, a, m); return r; }
// oracle primality: twelve prime bases decide every n < 2^64
bool ref_prime(u64 n) { if (n < 2) return false; for (u64 p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n % p == 0) return n == p; }
    u64 d = n - 1; int s = 0; while (!(d & 1)) d >>= 1, ++s;
    for (u64 a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { u64 x = powmod(a, d, n); if (x == 1 || x == n - 1) continue; bool ok = false; for (int i = 1; i < s && !ok; ++i) { x = mulmod(x, x, n); ok = x == n - 1; } if (!ok) return false; }
    return true; }
template <class T> void check_fact(const std::vector<std::pair<T, int>>& f, T n, bool sorted) {
    u128 prod = 1; std::set<T> seen; for (size_t i = 0; i < f.size(); ++i) { auto [p, c] = f[i]; EXPECT(c >= 1, p, c); EXPECT(ref_prime((u64)p), "not prime", p); EXPECT(seen.insert(p).second, "repeated", p); if (sorted && i) EXPECT(f[i - 1].first < p, "order");
        for (int j = 0; j < c; ++j) { prod *= (u64)p; EXPECT(prod <= (u128)n, "product exceeds n", f); } }
    EXPECT_EQ(prod, (u128)n, f);
}
u64 rprime(u64 lim) { u64 x; do x = 2 + rnd() % (lim - 1); while (!ref_prime(x)); return x; }
// numbers with interesting factorizations below lim
u64 rnum(u64 lim) { switch (R(0, 7)) { case 0: return 1 + rnd() % lim; case 1: return rprime(lim); case 2: { u64 p = rprime(std::max<u64>(3, (u64)std::sqrt((double)lim) - 1)); return p * p <= lim ? p * p : p; }
    case 3: { u64 p = rprime(std::max<u64>(3, (u64)std::sqrt((double)lim))); u64 q = rprime(std::max<u64>(3, lim / p)); return q <= lim / p ? p * q : p; } case 4: return lim - rnd() % std::min<u64>(lim, 50);
    case 5: { u64 x = 1; for (;;) { u64 p = rprime(40); if (x > lim / p) return x; x *= p; } } case 6: { u64 x = rprime(std::max<u64>(3, (u64)std::cbrt((double)lim))); u64 y = x; while (y <= lim / x) y *= x; return y; } default: return 1 + rnd() % std::min<u64>(lim, 100000); } }
}
static void linear(int n) {
    begin("LinearSieve", n); LinearSieve s(n); auto& t = tab(); std::vector<int> pr;
    auto& m = s.get_min_prime_factor(); EXPECT_EQ((int)m.size(), n + 1, "");
    for (int i = 2; i <= n; ++i) { EXPECT(m[i] == t.lp[i], "min_prime_factor of", i, m[i], t.lp[i]); if (t.lp[i] == i) pr.push_back(i); }
    EXPECT(s.get_prime_list() == pr, "prime list"); EXPECT_EQ(s.prime_num(), (int)pr.size(), "");
    for (int k = 0; k < 60 && n >= 1; ++k) { int x = k < 40 && k < n ? k + 1 : (int)R(1, n); op("factorize", x); EXPECT_EQ(s.factorize(x), ref_small<int>(x), ""); }
}
SUITE(linear_sieve) { for (int n = 0; n <= 140; ++n) linear(n); linear(R(1000, 50000)); linear(R(100, 3000)); }
template <unsigned N> static void era() {
    begin("Sieve", (int)N); static Sieve<N> s; static SimpleSieve<N> q; auto& t = tab(); std::vector<int> pr;
    for (unsigned i = 0; i <= N; ++i) { bool p = i >= 2 && t.lp[i] == (int)i; if (p) pr.push_back(i); EXPECT(s.is_prime(i) == p, "is_prime", i); EXPECT(q.is_prime(i) == p, "SimpleSieve::is_prime", i); if (i >= 2) { int f = s.prime_factor(i); EXPECT(f >= 2 && i % f == 0 && t.lp[f] == f, "prime_factor", i, f); } }
    EXPECT(q.prime_list() == pr, "prime_list", q.prime_list(), pr);
    for (int k = 0; k < 40; ++k) { unsigned mv = k < 3 ? k : (unsigned)R(0, N); if (mv > N) mv = N; op("prime_list", mv); EXPECT(q.prime_list(mv) == std::vector<int>(pr.begin(), std::upper_bound(pr.begin(), pr.end(), (int)mv)), "prime_list"); }
    for (int k = 0; k < 60 && N; ++k) { unsigned x = k < 30 && k < (int)N ? k + 1 : (unsigned)R(1, N); op("factorize", x); auto f = s.factorize(x); std::sort(f.begin(), f.end()); EXPECT_EQ(f, ref_small<int>(x), "");
        auto d = s.divisors(x); std::sort(d.begin(), d.end()); std::vector<int> e; for (unsigned i = 1; i * i <= x; ++i) if (x % i == 0) { e.push_back(i); if (i * i != x) e.push_back(x / i); } std::sort(e.begin(), e.end()); EXPECT_EQ(d, e, "divisors"); }
}
SUITE(eratosthenes) { era<1>(); era<2>(); era<6>(); era<7>(); era<29>(); era<30>(); era<31>(); era<48>(); era<49>(); era<59>(); era<60>(); era<61>(); era<119>(); era<120>(); era<121>(); era<168>(); era<169>(); era<210>(); era<288>(); era<289>(); era<360>(); era<361>(); era<528>(); era<529>(); era<840>(); era<841>(); era<899>(); era<900>(); era<958>(); era<959>(); era<960>(); era<961>(); era<962>(); era<1369>(); era<3481>(); era<3721>(); era<8281>(); era<10007>(); era<200000>(); era<1000000>(); }
template <unsigned N> static void erac() { begin("SieveConstexpr", (int)N); static constexpr SieveConstexpr<N> s; static constexpr SimpleSieveConstexpr<N> q; auto& t = tab();
    for (unsigned i = 0; i <= N; ++i) { bool p = i >= 2 && t.lp[i] == (int)i; EXPECT(s.is_prime(i) == p, "is_prime", i); EXPECT(q.is_prime(i) == p, "simple is_prime", i); if (i >= 2) { int f = s.prime_factor(i); EXPECT(f >= 2 && i % f == 0 && t.lp[f] == f, "prime_factor", i, f); } } }
SUITE(eratosthenes_constexpr) { erac<1>(); erac<30>(); erac<49>(); erac<121>(); erac<361>(); erac<529>(); erac<960>(); erac<961>(); erac<5000>(); erac<50000>(); }
template <unsigned N> static void mob() { begin("MobiusFunction", (int)N); static MobiusFunction<N> m; auto& t = tab();
    for (unsigned i = 1; i <= N; ++i) { EXPECT(m(i) == t.mu[i] && m[i] == t.mu[i] && m.mobius(i) == t.mu[i], "mu", i, m(i)); EXPECT(m.is_prime(i) == (i >= 2 && t.lp[i] == (int)i), "is_prime", i); if (i >= 2) EXPECT(m.min_prime_factor(i) == t.lp[i], "mpf", i); EXPECT(m.factorize(i) == ref_small<int>(i), "factorize", i); }
    EXPECT(!m.is_prime(0), "0"); }
SUITE(mobius) { mob<1>(); mob<2>(); mob<30>(); mob<200>(); mob<5041>(); mob<20000>(); }
SUITE(util_small) {
    auto& t = tab(); int n = R(1, 3000); begin("tables", n); auto dt = divisors_table(n); auto tt = totient_table(n); EXPECT_EQ((int)dt.size(), n + 1, ""); EXPECT_EQ((int)tt.size(), n + 1, "");
    for (int i = 1; i <= n; ++i) { std::vector<int> e; for (int j = 1; j <= i; ++j) if (i % j == 0) e.push_back(j); EXPECT(dt[i] == e, "divisors_table", i, dt[i]); EXPECT(tt[i] == t.ph[i], "totient_table", i, tt[i]); }
    for (int k = 0; k < 300; ++k) { int x = k < 150 ? k + 1 : (int)R(1, 1000000); begin("util", x); auto f = factorize(x); EXPECT_EQ(f, ref_small<int>(x), "factorize"); EXPECT_EQ(totient(x), t.ph[x], "totient"); EXPECT_EQ(totient(f), t.ph[x], "totient");
        auto d = divisors(x); std::sort(d.begin(), d.end()); std::vector<int> e; for (int i = 1; (i64)i * i <= x; ++i) if (x % i == 0) { e.push_back(i); if (i * i != x) e.push_back(x / i); } std::sort(e.begin(), e.end()); EXPECT_EQ(d, e, "divisors");
        if (x <= 400) { int lam = 1; for (;; ++lam) { bool ok = true; for (int a = 1; a <= x && ok; ++a) if (std::gcd(a, x) == 1) ok = powmod(a, lam, x) == 1 % x; if (ok) break; } EXPECT_EQ(carmichael(x), lam, "carmichael"); }
        else { i64 l = 1; for (auto [p, c] : ref_small<i64>(x)) { i64 q = p - 1; for (int j = 1; j < c; ++j) q *= p; if (p == 2 && c >= 3) q /= 2; l = std::lcm(l, q); } EXPECT_EQ(carmichael((i64)x), l, "carmichael"); } }
}
SUITE(util_large) {
    for (int k = 0; k < 12; ++k) { int x = (int)rnum(2147483647); begin("factorize<int>", x); check_fact<int>(factorize(x), x, true); }
    for (int k = 0; k < 6; ++k) { unsigned x = (unsigned)rnum(4294967295u); begin("factorize<unsigned>", x); check_fact<unsigned>(factorize(x), x, true); }
    for (int k = 0; k < 8; ++k) { i64 x = (i64)rnum(1000000000000ll); begin("factorize<i64>", x); check_fact<i64>(factorize(x), x, true); i64 ph = 1; for (auto [p, c] : factorize(x)) { ph *= p - 1; for (int j = 1; j < c; ++j) ph *= p; } EXPECT_EQ(totient(x), ph, "totient"); }
    if (R(0, 3) == 0) { i64 x = R(0, 1) ? 9223372036854775783ll : 3037000493ll * 3037000493ll; begin("factorize<i64>", x); check_fact<i64>(factorize(x), x, true); }
    for (int k = 0; k < 200; ++k) { i64 a = R(-12, 12); if (k % 4 == 0) a = R(-100000, 100000); int b = R(0, 63); begin("powi", a, b); i128 v = 1; bool ok = true; for (int j = 0; j < b && ok; ++j) { v *= a; ok = v >= -(i128)9223372036854775807ll - 1 && v <= 9223372036854775807ll; }
        if (ok) EXPECT_EQ(powi(a, b), (i64)v, ""); u64 w = 1; for (int j = 0; j < b; ++j) w *= (u64)a; EXPECT_EQ(powi((u64)a, b), w, ""); }
}
SUITE(miller_rabin) {
    auto& t = tab(); u64 base = rnd() % 1000000; for (u64 i = 0; i < 3000; ++i) { u64 x = (base + i) % 1000001; begin("is_prime", x); bool p = x >= 2 && t.lp[x] == (int)x; EXPECT_EQ(miller_rabin::is_prime(x), p, ""); EXPECT_EQ(miller_rabin::is_prime((int)x), p, ""); }
    for (u64 x : {341531ull, 1050535501ull, 350269456337ull, 55245642489451ull, 7999252175582851ull, 585226005592931977ull, 18446744073709551557ull, 18446744073709551615ull, 3825123056546413051ull, 2152302898747ull, 3474749660383ull, 341550071728321ull, 3215031751ull, 25326001ull, 1373653ull, 2047ull, 4759123141ull})
        for (i64 d = -3; d <= 3; ++d) { u64 y = x + d; if (d > 0 && y < x) continue; begin("is_prime", y); EXPECT_EQ(miller_rabin::is_prime(y), ref_prime(y), ""); }
    for (int k = 0; k < 300; ++k) { u64 x = R(0, 1) ? rnum(~0ull) : E(); begin("is_prime", x); EXPECT_EQ(miller_rabin::is_prime(x), ref_prime(x), ""); if (x < (1ull << 63)) EXPECT_EQ(miller_rabin::is_prime((i64)x), ref_prime(x), ""); if (x < (1ull << 32)) EXPECT_EQ(miller_rabin::is_prime((unsigned)x), ref_prime(x), ""); }
}
SUITE(fast_factorize) {
    for (int k = 0; k < 60; ++k) { i64 x = (i64)rnum(k % 3 == 0 ? 9223372036854775807ull : k % 3 == 1 ? 1000000000000ull : 4000000ull); begin("fast_factorize<i64>", x); check_fact<i64>(fast_factorize::factorize(x), x, false); }
    for (int k = 0; k < 20; ++k) { int x = (int)rnum(2147483647); begin("fast_factorize<int>", x); check_fact<int>(fast_factorize::factorize(x), x, false); }
    for (int x = 1; x <= 200; ++x) { begin("fast_factorize", x); check_fact<int>(fast_factorize::factorize(x), x, false); }
    for (int k = 0; k < 10; ++k) { u64 x = rnum(~0ull); begin("fast_factorize<u64>", x); check_fact<u64>(fast_factorize::factorize(x), x, false); }
}
