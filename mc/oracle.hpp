// Reference model for shortest / correctly rounded binary-to-decimal conversion.
// Independent of the code under test: exact integer arithmetic on f * 2^e and s * 10^k,
// with a 128-bit fast path whose ambiguous cases fall back to the exact comparison.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <array>
#include <algorithm>

namespace ref {
typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- exact powers of five
struct Big {                       // little endian 64-bit limbs, no leading zero limbs
    std::vector<u64> w;
    static Big of(u64 v) { Big b; if (v) b.w.push_back(v); return b; }
    void mul(u64 m) {
        u64 c = 0;
        for (auto& x : w) { u128 p = (u128)x * m + c; x = (u64)p; c = (u64)(p >> 64); }
        if (c) w.push_back(c);
        if (m == 0) w.clear();
    }
    int bits() const { return w.empty() ? 0 : int(w.size() * 64) - __builtin_clzll(w.back()); }
    // 128 bits starting at the top bit (left aligned, zero filled); exact flag tells if truncated
    u128 top128(bool& exact) const {
        int n = bits(); u128 r = 0; exact = true;
        int lo = n - 128;          // lowest bit index kept
        for (size_t i = 0; i < w.size(); ++i) {
            int pos = int(i) * 64 - lo;   // shift of limb i in result
            if (pos >= 0) { if (pos < 128) r |= (u128)w[i] << pos; }
            else if (pos > -64) {
                r |= (u128)(w[i] >> -pos);
                if (w[i] & ((u64(1) << -pos) - 1)) exact = false;
            } else if (w[i]) exact = false;
        }
        return r;
    }
    int cmp_top(const Big& o) const; // unused
};

constexpr int MAXP = 420;
struct Pow5 {
    u64 limb[MAXP + 1][16];
    int n[MAXP + 1];
    int bits[MAXP + 1];
    u128 top[MAXP + 1];            // floor of the top 128 bits
    Pow5() {
        Big b = Big::of(1);
        for (int i = 0; i <= MAXP; ++i) {
            memset(limb[i], 0, sizeof limb[i]);
            n[i] = (int)b.w.size();
            for (int j = 0; j < n[i]; ++j) limb[i][j] = b.w[j];
            bits[i] = b.bits();
            bool ex; top[i] = b.top128(ex);
            b.mul(5);
        }
    }
};
inline const Pow5& P5() { static const Pow5 p; return p; }

inline int bl(u64 v) { return v ? 64 - __builtin_clzll(v) : 0; }

// exact: sign of m * 5^n * 2^0  -  c * 2^sh      (m,c > 0)
inline int cmp5_exact(u64 m, int n, u64 c, int sh) {
    const Pow5& P = P5();
    u64 w[18]; int len = P.n[n]; u64 carry = 0;
    for (int i = 0; i < len; ++i) { u128 p = (u128)P.limb[n][i] * m + carry; w[i] = (u64)p; carry = (u64)(p >> 64); }
    if (carry) w[len++] = carry;
    int bw = len * 64 - __builtin_clzll(w[len - 1]);
    int bc = bl(c) + sh;
    if (bw != bc) return bw < bc ? -1 : 1;
    // compare aligned at the top bit: walk bits of W as 64-bit windows against c << (64 - bl(c))
    // top 64 bits of w
    auto window = [&](int hi) -> u64 {      // 64 bits ending just below bit index hi (exclusive), zero filled
        int lo = hi - 64; u64 r = 0;
        for (int i = 0; i < len; ++i) {
            int pos = i * 64 - lo;
            if (pos >= 64 || pos <= -64) continue;
            r |= pos >= 0 ? w[i] << pos : w[i] >> -pos;
        }
        return r;
    };
    u64 a = window(bw), b = c << __builtin_clzll(c);
    if (a != b) return a < b ? -1 : 1;
    for (int hi = bw - 64; hi > 0; hi -= 64) if (window(hi)) return 1;
    return 0;
}
// exact/fast: sign of m * 5^n - c * 2^sh
inline int cmp5(u64 m, int n, u64 c, int sh) {
    const Pow5& P = P5();
    if (n <= 27) {       // 5^27 < 2^63: exact in 128 bits
        u128 a = (u128)m * (P.limb[n][0]);
        int ba = (u64)(a >> 64) ? 128 - __builtin_clzll((u64)(a >> 64)) : bl((u64)a);
        int bc = bl(c) + sh;
        if (ba != bc) return ba < bc ? -1 : 1;
        u128 x = a << (128 - ba), y = (u128)c << (128 - bl(c));
        return x < y ? -1 : x > y;
    }
    int zm = __builtin_clzll(m), zc = __builtin_clzll(c);
    u64 mm = m << zm; u128 t = P.top[n];
    u128 p1 = (u128)mm * (u64)(t >> 64), p0 = (u128)mm * (u64)t;
    u128 top = p1 + (p0 >> 64);              // floor of (mm*t) >> 64; true value in [top, top+2)
    // exponent: product = top * 2^(bits[n]-128 - zm + 64)   (approximately)
    int e = P.bits[n] - zm - 64;             // value ~ top * 2^e
    if (!(top >> 127)) { top <<= 1; --e; }   // error now < 4
    u128 y = (u128)c << (64 + zc); int ey = sh - 64 - zc;
    if (e == ey) {
        if (top > y) return 1;               // floor already larger
        if (y - top > 4) return -1;
    } else if (e < ey) {                     // product smaller unless rounding carries
        if (e + 1 < ey || ~top > 4) return -1;
    } else return 1;                         // floor product already in a higher binade
    return cmp5_exact(m, n, c, sh);
}
// sign of s * 10^k - a * 2^q
inline int cmp10(u64 s, int k, u64 a, int q) {
    if (s == 0) return a == 0 ? 0 : -1;
    if (a == 0) return 1;
    if (k >= 0) { if (k > MAXP) return 1; return cmp5(s, k, a, q - k); }
    if (-k > MAXP) return -1;
    return -cmp5(a, -k, s, k - q);
}

// ---------------------------------------------------------------- formats
template <class F> struct fmt;
template <> struct fmt<float>  { typedef u32 U; static constexpr int p = 23, eb = 8,  bias = 150;  static constexpr int digits = 9; };
template <> struct fmt<double> { typedef u64 U; static constexpr int p = 52, eb = 11, bias = 1075; static constexpr int digits = 17; };

template <class F> inline bool is_finite_nonzero(typename fmt<F>::U b) {
    typedef fmt<F> T; typedef typename T::U U;
    U mag = b & ~(U(1) << (T::p + T::eb));
    return mag != 0 && (mag >> T::p) != ((1u << T::eb) - 1);
}

// Quarter-unit description of the input magnitude: value = X * 2^q, X = 4f
struct Geo { u64 X; int q; bool edge; bool even; bool neg; };
template <class F> inline Geo geo(typename fmt<F>::U b) {
    typedef fmt<F> T; typedef typename T::U U;
    Geo g; U frac = b & ((U(1) << T::p) - 1); int ex = int(b >> T::p) & ((1 << T::eb) - 1);
    u64 f = ex ? (u64)frac | (u64(1) << T::p) : (u64)frac;
    g.q = (ex ? ex : 1) - T::bias - 2; g.X = 4 * f;
    g.edge = frac == 0 && ex > 1; g.even = !(b & 1); g.neg = (b >> (T::p + T::eb)) & 1;
    return g;
}

// ---------------------------------------------------------------- rounding intervals
enum Kind { NEAREST, LEFT_CLOSED, RIGHT_CLOSED };      // in terms of the magnitude
struct Interval { Kind kind; bool lc, rc; };
// the 14 rounding modes of the library, by their documented meaning
enum Mode { M_EVEN, M_ODD, M_PINF, M_MINF, M_ZERO, M_AWAY,
            M_EVEN_S, M_ODD_S, M_PINF_S, M_MINF_S,
            M_D_PINF, M_D_MINF, M_D_ZERO, M_D_AWAY, N_MODES };
enum Crs { C_NONE, C_EVEN, C_ODD, C_UP, C_DOWN, N_CRS };
static const char* const mode_name[] = { "nearest_to_even","nearest_to_odd","nearest_toward_plus_infinity",
    "nearest_toward_minus_infinity","nearest_toward_zero","nearest_away_from_zero",
    "nearest_to_even_static_boundary","nearest_to_odd_static_boundary",
    "nearest_toward_plus_infinity_static_boundary","nearest_toward_minus_infinity_static_boundary",
    "toward_plus_infinity","toward_minus_infinity","toward_zero","away_from_zero" };
static const char* const crs_name[] = { "do_not_care","tie_to_even","tie_to_odd","tie_to_up","tie_to_down" };

// the set of reals that a reader applying the rounding mode maps to this number
inline Interval interval_of(int mode, const Geo& g) {
    switch (mode) {
    case M_EVEN: case M_EVEN_S: return { NEAREST, g.even, g.even };
    case M_ODD:  case M_ODD_S:  return { NEAREST, !g.even, !g.even };
    // a tie goes up (toward +inf): for a positive number the lower midpoint belongs to it
    case M_PINF: case M_PINF_S: return { NEAREST, !g.neg, g.neg };
    case M_MINF: case M_MINF_S: return { NEAREST, g.neg, !g.neg };
    case M_ZERO: return { NEAREST, false, true };   // a tie goes down in magnitude: the upper midpoint belongs
    case M_AWAY: return { NEAREST, true, false };
    case M_D_PINF:  return g.neg ? Interval{ LEFT_CLOSED, true, false } : Interval{ RIGHT_CLOSED, false, true };
    case M_D_MINF:  return g.neg ? Interval{ RIGHT_CLOSED, false, true } : Interval{ LEFT_CLOSED, true, false };
    case M_D_ZERO:  return { LEFT_CLOSED, true, false };
    default:        return { RIGHT_CLOSED, false, true };
    }
}
inline bool is_directed(int m) { return m >= M_D_PINF; }
inline u64 left_of(const Geo& g, Kind k)  { return k == LEFT_CLOSED ? g.X : k == NEAREST ? g.X - (g.edge ? 1 : 2) : g.X - (g.edge ? 2 : 4); }
inline u64 right_of(const Geo& g, Kind k) { return k == RIGHT_CLOSED ? g.X : k == NEAREST ? g.X + 2 : g.X + 4; }

// ---------------------------------------------------------------- verdicts
enum { V_OK = 0, V_OUTSIDE = 1, V_NOT_SHORTEST = 2, V_NOT_CLOSEST = 4, V_TIE = 8, V_SIGN = 16 };

// All relations of a decimal (s,k) to the input needed for every verdict
struct Rel {
    u64 s; int k; Kind kind;
    int8_t L, R;         // s vs endpoints
    int8_t tlL, tlR;     // floor(s/10)*10 vs endpoints
    int8_t thL, thR;
    int8_t nL, pR, nR, pL;       // s-1, s+1 vs endpoints
    int8_t mlo, mhi;     // s-1/2, s+1/2 vs value
    int8_t low;          // 1: s == 1 and 9*10^(k-1) is inside-able and closer; 0 otherwise
    bool filled_short, filled_close;
};
inline bool in(int8_t l, int8_t r, const Interval& i) { return (l > 0 || (l == 0 && i.lc)) && (r < 0 || (r == 0 && i.rc)); }
inline void rel_init(Rel& r, const Geo& g, u64 s, int k, Kind kind) {
    r.s = s; r.k = k; r.kind = kind; r.filled_short = r.filled_close = false;
    r.L = (int8_t)cmp10(s, k, left_of(g, kind), g.q);
    r.R = (int8_t)cmp10(s, k, right_of(g, kind), g.q);
}
inline void rel_short(Rel& r, const Geo& g) {
    if (r.filled_short) return; r.filled_short = true;
    u64 t = r.s / 10, l = left_of(g, r.kind), h = right_of(g, r.kind);
    r.tlL = (int8_t)cmp10(t, r.k + 1, l, g.q);
    r.tlR = r.s % 10 ? int8_t(-1) : r.R;     // floor is below s: only meaningful when s itself is inside
    r.thL = 1;
    r.thR = (int8_t)cmp10(t + 1, r.k + 1, h, g.q);
}
inline void rel_close(Rel& r, const Geo& g) {
    if (r.filled_close) return; r.filled_close = true;
    r.mlo = (int8_t)cmp10(2 * r.s - 1, r.k, g.X, g.q + 1);
    r.mhi = (int8_t)cmp10(2 * r.s + 1, r.k, g.X, g.q + 1);
    r.nL = r.mlo >= 0 ? (int8_t)cmp10(r.s - 1, r.k, left_of(g, r.kind), g.q) : int8_t(-1);
    r.pR = r.mhi <= 0 ? (int8_t)cmp10(r.s + 1, r.k, right_of(g, r.kind), g.q) : int8_t(1);
}
// s, k must come from an implementation; interval by mode
inline int judge(const Geo& g, const Interval& iv, int crs, u64 s, int k, Rel* cache = nullptr) {
    Rel local; Rel& r = cache ? *cache : local;
    if (!cache || r.s != s || r.k != k || r.kind != iv.kind) rel_init(r, g, s, k, iv.kind);
    if (s == 0 || !in(r.L, r.R, iv)) return V_OUTSIDE;
    if (s >= (u64(1) << 62)) return V_NOT_SHORTEST;
    rel_short(r, g);
    if (in(r.tlL, r.tlR, iv) && s >= 10) return V_NOT_SHORTEST;
    if (in(r.thL, r.thR, iv)) return V_NOT_SHORTEST;
    if (crs == C_NONE) return V_OK;
    rel_close(r, g);
    bool down_in = s > 1 && (r.nL > 0 || (r.nL == 0 && iv.lc));   // s-1 is below s, hence below R
    bool up_in = r.pR < 0 || (r.pR == 0 && iv.rc);
    if (down_in && r.mlo > 0) return V_NOT_CLOSEST;
    if (up_in && r.mhi < 0) return V_NOT_CLOSEST;
    if (s == 1) {      // 9*10^(k-1) also has one digit
        int l = cmp10(9, k - 1, left_of(g, iv.kind), g.q);
        if (l > 0 || (l == 0 && iv.lc))
            if (cmp10(19, k - 1, g.X, g.q + 1) > 0) return V_NOT_CLOSEST;
    }
    if (iv.kind == NEAREST) {
        bool tie_down = down_in && r.mlo == 0, tie_up = up_in && r.mhi == 0;
        if (tie_down || tie_up) {
            bool ok = crs == C_EVEN ? !(s & 1) : crs == C_ODD ? (s & 1) : crs == C_UP ? tie_down : tie_up;
            if (!ok) return V_TIE;
        }
    }
    return V_OK;
}

// ---------------------------------------------------------------- reference result (search, for messages/self tests)
struct Dec { u64 s; int k; };
// greatest decimal floor(right/10^k) etc. by big integers is avoided: derive from a correct starting exponent
inline Dec reference(const Geo& g, const Interval& iv, int crs) {
    // largest k such that some multiple of 10^k lies in the interval; n-digit search by long arithmetic
    u64 R = right_of(g, iv.kind), L = left_of(g, iv.kind);
    for (int k = 330; k >= -400; --k) {
        // t = floor(R*2^q / 10^k) if it fits in 62 bits
        if (cmp10(1, k, R, g.q) > 0) continue;
        u64 lo = 1, hi = (u64)1 << 61;       // invariant: lo*10^k <= R
        if (cmp10(hi, k, R, g.q) <= 0) return { 0, 0 };
        while (hi - lo > 1) { u64 m = lo + (hi - lo) / 2; if (cmp10(m, k, R, g.q) <= 0) lo = m; else hi = m; }
        u64 t = lo;
        if (cmp10(t, k, R, g.q) == 0 && !iv.rc) --t;
        if (t == 0) continue;
        int c = cmp10(t, k, L, g.q);
        if (!(c > 0 || (c == 0 && iv.lc))) continue;
        if (crs == C_NONE) return { t, k };
        // move down while the lower neighbour is inside and at least as good
        while (t > 1) {
            int cl = cmp10(t - 1, k, L, g.q);
            if (!(cl > 0 || (cl == 0 && iv.lc))) break;
            int m = cmp10(2 * t - 1, k, g.X, g.q + 1);      // midpoint vs x
            if (m > 0) { --t; continue; }
            if (m == 0 && iv.kind == NEAREST) {
                bool takelow = crs == C_DOWN || (crs == C_EVEN && (t & 1)) || (crs == C_ODD && !(t & 1));
                if (takelow) --t;
            }
            break;
        }
        return { t, k };
    }
    return { 0, 0 };
}
} // namespace ref
