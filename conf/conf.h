#pragma once
// Conformance harness support: runs the real library code (g++, real libstdc++) against naive oracles.
// usage: prog <seed> <seconds> [suite-filter]
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <csignal>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <chrono>
#include <algorithm>
#include <numeric>
#include <utility>
#include <tuple>
#include <random>
#include <unistd.h>
#include <sys/time.h>
namespace cf {
using u64 = unsigned long long; using i64 = long long; using i128 = __int128; using u128 = unsigned __int128;
inline u64 st = 1;
inline u64 rnd() { st += 0x9e3779b97f4a7c15ull; u64 z = st; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline i64 R(i64 a, i64 b) { u64 w = (u64)b - (u64)a + 1; return (i64)((u64)a + (w ? rnd() % w : rnd())); }
// 64-bit values biased to short lengths and to the neighbourhood of powers of two
inline u64 E() { int k = R(0, 9); if (k < 2) return rnd() % 20; if (k < 5) return (u64(1) << R(0, 63)) + (u64)R(-3, 3); if (k == 5) return ~(u64)0 - rnd() % 8; return rnd() >> R(0, 63); }
inline std::string cur;            // description of the running case
inline u64 ncases = 0, ndistinct = 0, suite_cases = 0; inline std::string sample;
inline const char* suite = "";
inline std::string note_(i64 v) { return std::to_string(v); }
inline std::string note_(u64 v) { return std::to_string(v); }
inline std::string note_(int v) { return std::to_string(v); }
inline std::string note_(unsigned v) { return std::to_string(v); }
inline std::string note_(long v) { return std::to_string(v); }
inline std::string note_(unsigned long v) { return std::to_string(v); }
inline std::string note_(bool v) { return v ? "1" : "0"; }
inline std::string note_(char v) { return std::string(1, v); }
inline std::string note_(const char* v) { return v; }
inline std::string note_(const std::string& v) { return v; }
inline std::string note_(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
inline std::string note_(i128 v) { return v < 0 ? "-" + note_((u128)0 - (u128)v) : note_((u128)v); }
template <class A, class B> std::string note_(const std::pair<A, B>& p);
template <class T> std::string note_(const std::vector<T>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; T x = v[i]; s += note_(x); } return s + "]"; }
template <class A, class B> std::string note_(const std::pair<A, B>& p) { return "(" + note_(p.first) + "," + note_(p.second) + ")"; }
template <class... X> std::string fmt(const X&... x) { std::string s; ((s += note_(x), s += " "), ...); return s; }
template <class... X> void begin(const X&... x) { cur = fmt(x...); ++ncases; ++suite_cases; if (cur.size() > sample.size() && cur.size() < 400) sample = cur; }
template <class... X> void op(const X&... x) { if (cur.size() < 20000) cur += "; " + fmt(x...); if (cur.size() > sample.size() && cur.size() < 400) sample = cur; }
[[noreturn]] inline void failed(const std::string& why) {
    printf("FAIL suite=%s\ncase: %s\nwhy: %s\n", suite, cur.c_str(), why.c_str()); fflush(stdout); _exit(1);
}
#define EXPECT(c, ...) do { if (!(c)) cf::failed(std::string(#c) + " violated: " + cf::fmt(__VA_ARGS__)); } while (0)
#define EXPECT_EQ(a, b, ...) do { auto&& _x = (a); auto&& _y = (b); if (!(_x == _y)) cf::failed(std::string(#a " == " #b " violated: got ") + cf::fmt(_x) + " expected " + cf::fmt(_y) + " " + cf::fmt(__VA_ARGS__)); } while (0)
struct S { const char* name; void (*f)(); };
inline std::vector<S>& suites() { static std::vector<S> v; return v; }
struct Reg { Reg(const char* n, void (*f)()) { suites().push_back({n, f}); } };
#define SUITE(n) static void suite_##n(); static cf::Reg reg_##n(#n, suite_##n); static void suite_##n()
inline void on_sig(int s) { signal(s, SIG_DFL); printf("FAIL suite=%s\ncase: %s\nwhy: terminated by signal %d (assertion failure, crash or hang)\n", suite, cur.c_str(), s); fflush(stdout); _exit(1); }
inline void on_death() { printf("FAIL suite=%s\ncase: %s\nwhy: stopped by a sanitizer (see below)\n", suite, cur.c_str()); fflush(stdout); }
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}
extern "C" __attribute__((used, visibility("default"))) const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0:abort_on_error=1"; }
extern "C" __attribute__((used, visibility("default"))) const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
int main(int argc, char** argv) {
    using namespace cf;
    u64 seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; double secs = argc > 2 ? atof(argv[2]) : 1; const char* filter = argc > 3 ? argv[3] : nullptr;
    for (int s : {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGVTALRM}) signal(s, on_sig);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    double t0 = now(); u64 round = 0;
    auto& v = suites();
    std::map<std::string, u64> cnt;
    do {
        for (size_t k = 0; k < v.size(); ++k) {
            if (filter && ("," + std::string(filter) + ",").find("," + std::string(v[k].name) + ",") == std::string::npos) continue;
            st = seed * 1000003ull + round * 7919ull + k * 104729ull + 12345;
            suite = v[k].name; suite_cases = 0; cur = "";
            struct itimerval it = {{0, 0}, {20, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);   // hang guard: 20 s of CPU for one round of a suite
            v[k].f(); cnt[suite] += suite_cases;
        }
        ++round;
    } while (now() - t0 < secs);
    printf("OK rounds=%llu cases=%llu suites=%zu\nsample: %s\n", round, ncases, v.size(), sample.c_str());
    for (auto& [n, c] : cnt) printf("suite %s cases=%llu\n", n.c_str(), c);
    return 0;
}
