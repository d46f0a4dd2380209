// Exhaustive enumerators of bounded input sets ("alphabets").
#pragma once
#include "oracle.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <string>
#include <functional>
#include <random>
#include <cmath>
namespace gen {
using ref::u64; using ref::u32; using ref::u128; using ref::fmt;
typedef boost::multiprecision::cpp_int Z;
typedef boost::multiprecision::uint256_t U256;

// ---- all x in [0,n) with (B + A x) mod 2^FB < W, in increasing order --------------------------------------
constexpr int FB = 126;
constexpr u128 MOD = (u128)1 << FB;
constexpr u64 NONE = ~u64(0);
inline U256 to256(u128 v) { U256 r = (u64)(v >> 64); r <<= 64; r += (u64)v; return r; }

// least x >= 0 with l <= a*x mod m <= r (0 <= l <= r < m), or NONE if it is beyond the bound
inline u64 first_in(u128 a, u128 m, u128 l, u128 r, u64 bound) {
    if (l == 0) return 0;
    if (a == 0) return NONE;
    u128 c = (l + a - 1) / a;
    if (a * c <= r) return c <= bound ? (u64)c : NONE;
    u128 rr = r % a, ll = l % a;
    // no multiple of a in [l,r], so 0 < ll <= rr
    u64 y = first_in(m % a, a, a - rr, a - ll, bound);
    if (y == NONE) return NONE;
    U256 t = to256(m) * y + to256(l) + to256(a) - 1;
    t /= to256(a);
    if (t > U256(bound)) return NONE;
    return t.convert_to<u64>();
}
// least x>=0 with (B + A x) mod MOD < W
inline u64 first_hit(u128 A, u128 B, u128 W, u64 bound) {
    if (B < W) return 0;
    u128 l = MOD - B, r = l + W - 1;           // B >= W > 0: l <= MOD - W, so r < MOD
    return first_in(A, MOD, l, r, bound);
}
// calls f(x) for every hit in [0,n), at most cap of them; returns true if complete
template <class Fn> bool hits(u128 A, u128 B, u128 W, u64 n, u64 cap, Fn f) {
    A &= MOD - 1; B &= MOD - 1;
    u64 x = first_hit(A, B, W, n);
    if (x == NONE || x >= n) return true;
    u64 q1 = first_hit(A, A, W, n), q2 = first_hit((MOD - A) & (MOD - 1), (MOD - A) & (MOD - 1), W, n);
    u128 u = 0, d = 0;
    if (q1 != NONE) { ++q1; u = (A * q1) & (MOD - 1); }
    if (q2 != NONE) { ++q2; d = ((MOD - A) * q2) & (MOD - 1); }
    u128 p = (B + A * x) & (MOD - 1);
    for (u64 cnt = 0; ; ) {
        if (cnt++ >= cap) return false;
        f(x);
        u64 step = NONE; 
        if (q1 != NONE && p + u < W) step = q1;
        if (q2 != NONE && p >= d && q2 < step) step = q2;
        if (step == NONE) { if (q1 == NONE || q2 == NONE) return true; step = q1 + q2; }
        if (step >= n - x) return true;
        x += step; p = (p + A * step) & (MOD - 1);
    }
}

// frac(2^e / 10^j) * 2^FB, and its half-unit offset frac(2^(e-1)/10^j) * 2^FB
inline Z pow10z(int n) { Z r = 1; for (int i = 0; i < n; ++i) r *= 10; return r; }
inline u128 fracpow(int e, int j) {
    static std::vector<Z> p10 = [] { std::vector<Z> v; Z r = 1; for (int i = 0; i <= 420; ++i) { v.push_back(r); r *= 10; } return v; }();
    Z num = 1, den = 1;
    if (e >= 0) num <<= e; else den <<= -e;
    if (j >= 0) den *= p10[j]; else num *= p10[-j];
    num %= den; num <<= FB; num /= den;
    Z lo = num & Z(~u64(0)), hi = num >> 64;
    return ((u128)hi.convert_to<u64>() << 64) | lo.convert_to<u64>();
}

template <class F> inline typename fmt<F>::U bits_of(int ex, u64 frac) { return (typename fmt<F>::U(ex) << fmt<F>::p) | (typename fmt<F>::U)frac; }

// All positive inputs of exponent field ex whose value or whose interval end points come closest to a
// decimal boundary: for every decimal position j, every f with the distance of
//   (f + 1/2) 2^e, f 2^e   to a multiple of 10^j,  or of  f 2^e  to an odd multiple of 10^j / 2
// below `per` / (2 * number of significands) of 10^j; each with its neighbours f-1, f+1.
struct CritStat { u64 relations = 0, hits = 0, capped = 0; };
template <class F> void critical(int ex, double per, u64 cap, std::vector<typename fmt<F>::U>& out, CritStat& st) {
    typedef fmt<F> T; typedef typename T::U U;
    const int e = (ex ? ex : 1) - T::bias;
    const u64 lo = ex ? u64(1) << T::p : 1, n = ex ? u64(1) << T::p : (u64(1) << T::p) - 1;
    u128 W = (u128)(per / (double)n * 0x1p100); W <<= (FB - 100); if (W > MOD / 4) W = MOD / 4;
    // decimal positions: from two digits below the spacing to the top of the binade
    int jlo = (int)std::floor((e) * 0.30103) - 2, jhi = (int)std::floor((e + T::p + 1) * 0.30103) + 1;
    const U base = ex ? bits_of<F>(ex, 0) : 0;
    auto add = [&](u64 f) {            // f is a significand of this binade, or next to one
        U b = ex ? (U)(base + (U)(f - lo)) : (U)f;
        if (ref::is_finite_nonzero<F>(b)) out.push_back(b);
    };
    for (int j = jlo; j <= jhi; ++j) {
        u128 A = fracpow(e, j), H = fracpow(e - 1, j);
        u128 B0 = (A * (u128)lo) & (MOD - 1);
        for (int rel = 0; rel < 3; ++rel) {
            u128 B = rel == 0 ? B0 + H : rel == 1 ? B0 : B0 + MOD / 2;
            B = (B + W / 2) & (MOD - 1);
            ++st.relations;
            auto put = [&](u64 f) { ++st.hits; add(f); if (f > 1) add(f - 1); add(f + 1); };
            if (!hits(A, B, W, n, cap, [&](u64 x) { put(lo + x); })) {
                ++st.capped;        // dense (exact) family: also enumerate from the top end
                u128 Bt = (B + A * (u128)(n - 1)) & (MOD - 1), An = (MOD - A) & (MOD - 1);
                hits(An, Bt, W, n, cap, [&](u64 x) { put(lo + n - 1 - x); });
            }
        }
    }
}
// first hit at or after x0 (wrapping to 0), or NONE
inline u64 hit_from(u128 A, u128 B, u128 W, u64 n, u64 x0) {
    A &= MOD - 1; B &= MOD - 1;
    u64 x = first_hit(A, (B + A * (u128)x0) & (MOD - 1), W, n - x0);
    if (x != NONE && x < n - x0) return x0 + x;
    x = first_hit(A, B, W, n);
    return x != NONE && x < n ? x : NONE;
}
// For every decimal position j, relation and side: an input whose distance to the decimal boundary lies between 2^s and
// 2^(s+1) (as a fraction of 10^j, in units of 2^-FB), for every `step`-th s between the closest ones and one sixteenth.
template <class F> void scales(int ex, int step, std::vector<typename fmt<F>::U>& out, CritStat& st) {
    typedef fmt<F> T; typedef typename T::U U;
    const int e = (ex ? ex : 1) - T::bias;
    const u64 lo = ex ? u64(1) << T::p : 1, n = ex ? u64(1) << T::p : (u64(1) << T::p) - 1;
    int jlo = (int)std::floor((e) * 0.30103) - 2, jhi = (int)std::floor((e + T::p + 1) * 0.30103) + 1;
    u64 lat = (u64)(0.6180339887498949 * (double)n) | 1, at = lat;
    for (int j = jlo; j <= jhi; ++j) {
        u128 A = fracpow(e, j), H = fracpow(e - 1, j), B0 = (A * (u128)lo) & (MOD - 1);
        for (int rel = 0; rel < 3; ++rel) {
            u128 B = rel == 0 ? B0 + H : rel == 1 ? B0 : B0 + MOD / 2;
            for (int s = FB - T::p; s <= FB - 5; s += step) for (int side = 0; side < 2; ++side) {
                u128 W = (u128)1 << s;
                at = (at + lat) % n; ++st.relations;
                u64 x = hit_from(A, side ? B + 2 * W : B + MOD - W, W, n, at);
                if (x == NONE) continue;
                ++st.hits; u64 f = lo + x;
                U b = ex ? bits_of<F>(ex, f - lo) : (U)f;
                if (ref::is_finite_nonzero<F>(b)) out.push_back(b);
            }
        }
    }
}
// Inputs whose value, counted in units of 10^u (u: the finest decimal position worth counting at this spacing, and the
// next one), leaves a remainder next to a multiple of 2^31 or 2^32 on division by 10^j: where a count kept in a machine
// word that is too narrow would start again from zero.
template <class F> void wraps(int ex, int per, std::vector<typename fmt<F>::U>& out, CritStat& st) {
    typedef fmt<F> T; typedef typename T::U U;
    const int e = (ex ? ex : 1) - T::bias;
    const u64 lo = ex ? u64(1) << T::p : 1, n = ex ? u64(1) << T::p : (u64(1) << T::p) - 1;
    const int ext = sizeof(F) == 4 ? 8 : 11, u = (int)std::floor((e - ext + 6) * 0.30102999566398120);
    u64 lat = (u64)(0.6180339887498949 * (double)n) | 1, at = lat;
    for (int j = 9; j <= (sizeof(F) == 4 ? 10 : 18); ++j) {
        u64 p10 = 1; for (int i = 0; i < j; ++i) p10 *= 10;
        u128 A = fracpow(e, u + j), B0 = (A * (u128)lo) & (MOD - 1);
        u128 unit = MOD / p10;
        auto target = [&](u64 t) {                       // remainder close to t: (value/10^u - t) mod 10^j in [-32,32]
            if (t >= p10) return;
            for (int k = 0; k < per; ++k) {
                at = (at + lat) % n; ++st.relations;
                u64 x = hit_from(A, B0 + (MOD - unit * t) + unit * 32, unit * 64, n, at);
                if (x == NONE) return;
                ++st.hits; u64 f = lo + x;
                U b = ex ? bits_of<F>(ex, f - lo) : (U)f;
                if (ref::is_finite_nonzero<F>(b)) out.push_back(b);
            }
        };
        target(u64(1) << 31); target(u64(3) << 31);
        for (u64 c = 1; c <= 4; ++c) target(c << 32);
        if (p10 > (u64(5) << 32)) target((p10 - 1) >> 32 << 32);
    }
}
// first and last k significands of a binade
template <class F> void windows(int ex, u64 k, std::vector<typename fmt<F>::U>& out) {
    typedef fmt<F> T; u64 n = u64(1) << T::p; if (k > n / 2) k = n / 2;
    for (u64 i = 0; i < k; ++i) { if (ex || i) out.push_back(bits_of<F>(ex, i)); out.push_back(bits_of<F>(ex, n - 1 - i)); }
    for (u64 i = 0; i < 16; ++i) out.push_back(bits_of<F>(ex, n / 2 - 8 + i));
}
// significands with at most two bits set, or at most two bits clear
template <class F> void twobits(int ex, std::vector<typename fmt<F>::U>& out, int depth = 2) {
    typedef fmt<F> T; const u64 all = (u64(1) << T::p) - 1;
    auto put = [&](u64 v) { if (ex || v) out.push_back(bits_of<F>(ex, v)); if (ex || (all ^ v)) out.push_back(bits_of<F>(ex, all ^ v)); };
    put(0);
    for (int i = 0; i < T::p; ++i) {
        put(u64(1) << i);
        if (depth > 1) for (int j = 0; j < i; ++j) {
            put(u64(1) << i | u64(1) << j);
            if (depth > 2) for (int k = 0; k < j; ++k) put(u64(1) << i | u64(1) << j | u64(1) << k);
        }
    }
}
// all floats of a narrower format: only the top `w` significand bits vary
template <class F> void narrow(int ex, int w, std::vector<typename fmt<F>::U>& out) {
    typedef fmt<F> T;
    for (u64 i = 0; i < (u64(1) << w); ++i) if (ex || i) out.push_back(bits_of<F>(ex, i << (T::p - w)));
}
// nearest number to d * 10^m (ties to even), by exact comparison; returns false if out of range or zero
template <class F> bool nearest_to(u64 d, int m, typename fmt<F>::U& out, bool* tie = nullptr, typename fmt<F>::U* low = nullptr) {
    typedef fmt<F> T; typedef typename T::U U;
    // binary search over the ordered bit patterns
    U lo = 0, hi = (U)((1u << T::eb) - 1) << T::p;       // value(lo) <= v < value(hi)=overflow threshold pattern
    auto cmpv = [&](U b) { ref::Geo g = ref::geo<F>(b); return ref::cmp10(d, m, g.X, g.q); };
    // initial guess narrows the range
    double approx = std::log2((double)d) + m * 3.32192809488736234787;
    int eg = (int)std::floor(approx) + T::bias - 1 - T::p + T::p;   // exponent field of 2^floor: floor + bias - p ... 
    eg = (int)std::floor(approx) + (T::bias - T::p);
    int e0 = std::max(0, eg - 1), e1 = std::min((1 << T::eb) - 1, eg + 2);
    if (e1 <= 0) e1 = 1;
    if (e0 >= (1 << T::eb) - 1) return false;
    U l2 = (U)e0 << T::p, h2 = (U)e1 << T::p;
    if (e0 == 0 || cmpv(l2) >= 0) lo = l2;
    if (e1 == (1 << T::eb) - 1 || cmpv(h2) < 0) hi = h2;
    while (hi - lo > 1) { U mid = lo + (hi - lo) / 2; if (cmpv(mid) >= 0) lo = mid; else hi = mid; }
    // v in [lo, lo+1): compare with the midpoint
    ref::Geo g = ref::geo<F>(lo);
    int c = ref::cmp10(d, m, g.X + 2, g.q);
    out = lo; if (tie) *tie = c == 0; if (low) *low = lo;
    if (c > 0 || (c == 0 && (lo & 1))) out = lo + 1;
    return ref::is_finite_nonzero<F>(out);
}
} // namespace gen
