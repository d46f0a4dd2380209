// Selects which of the library's platform branches is compiled, then includes the real sources.
// The standard headers come first, so that removing/adding predefined macros affects the library only.
#pragma once
#include <bitset>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <array>
#include <cstdlib>
#include <cstdio>

#if defined(MC_PLATFORM_GENERIC)          // any target without x86-64 intrinsics / __int128
#undef __SIZEOF_INT128__
#undef __x86_64__
#elif defined(MC_PLATFORM_NO_INT128)       // x86-64, no 128-bit integers
#undef __SIZEOF_INT128__
#elif defined(MC_PLATFORM_CLANG_CL)        // clang imitating MSVC: both families of macros
#define _MSC_VER 1927
#define _M_X64 100
static inline std::uint64_t __emulu(unsigned int a, unsigned int b) { return (std::uint64_t)a * b; }
static inline std::uint64_t _umul128(std::uint64_t a, std::uint64_t b, std::uint64_t* hi) { *hi = (std::uint64_t)(((unsigned __int128)a * b) >> 64); return a * b; }
static inline std::uint64_t __umulh(std::uint64_t a, std::uint64_t b) { return (std::uint64_t)(((unsigned __int128)a * b) >> 64); }
#elif defined(MC_PLATFORM_MSVC64) || defined(MC_PLATFORM_MSVC32)
#undef __SIZEOF_INT128__
#undef __x86_64__
#define _MSC_VER 1927
#if defined(MC_PLATFORM_MSVC64)
#define _M_X64 100
#endif
#define __declspec(x)
// stand-ins with the documented semantics of the MSVC intrinsics
static inline std::uint64_t __emulu(unsigned int a, unsigned int b) { return (std::uint64_t)a * b; }
static inline std::uint64_t mc_mulhi(std::uint64_t a, std::uint64_t b) { return (std::uint64_t)(((unsigned __int128)a * b) >> 64); }
static inline std::uint64_t _umul128(std::uint64_t a, std::uint64_t b, std::uint64_t* hi) { *hi = mc_mulhi(a, b); return a * b; }
static inline std::uint64_t __umulh(std::uint64_t a, std::uint64_t b) { return mc_mulhi(a, b); }
static inline unsigned char _addcarry_u64(unsigned char c, std::uint64_t a, std::uint64_t b, std::uint64_t* out) {
    unsigned __int128 s = (unsigned __int128)a + b + (c ? 1 : 0); *out = (std::uint64_t)s; return (unsigned char)(s >> 64);
}
static inline unsigned char _BitScanForward(unsigned long* i, unsigned long m) { if (!(std::uint32_t)m) return 0; *i = (unsigned long)__builtin_ctz((unsigned)m); return 1; }
static inline unsigned char _BitScanForward64(unsigned long* i, std::uint64_t m) { if (!m) return 0; *i = (unsigned long)__builtin_ctzll(m); return 1; }
#endif
