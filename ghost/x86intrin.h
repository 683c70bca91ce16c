#pragma once
extern "C" unsigned long long _pdep_u64(unsigned long long, unsigned long long);
extern "C" unsigned _pdep_u32(unsigned, unsigned);
inline unsigned _blsi_u32(unsigned x) { return x & (0u - x); }
inline unsigned long long _blsi_u64(unsigned long long x) { return x & (0ull - x); }
inline unsigned __blsr_u32(unsigned x) { return x & (x - 1u); }
inline unsigned long long __blsr_u64(unsigned long long x) { return x & (x - 1ull); }
inline unsigned _tzcnt_u32(unsigned x) { return x ? unsigned(__builtin_ctz(x)) : 32u; }
inline unsigned long long _tzcnt_u64(unsigned long long x) { return x ? (unsigned long long)(__builtin_ctzll(x)) : 64ull; }
inline int _mm_popcnt_u32(unsigned x) { return __builtin_popcount(x); }
inline long long _mm_popcnt_u64(unsigned long long x) { return __builtin_popcountll(x); }
