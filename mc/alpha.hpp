// Work units: bounded input alphabets, each enumerated completely.
#pragma once
#include "gen.hpp"
#include "core.hpp"
namespace alpha {
using ref::u64; using ref::u32; using ref::fmt;
struct Level {                      // bounds of one exploration
    double perF, perD; u64 capF, capD;      // closeness of critical inputs, cap per relation
    u64 winF, winD;                         // first/last significands of a binade
    int bitsF, bitsD;                       // sparse/dense significands: how many set/clear bits
    int narF, narD;                         // narrow formats: top fraction bits
    u64 latF, latD;                         // lattice points per binade
    u64 decmax;                             // short decimals d * 10^m, d <= decmax
    int scF, scD, wrap;                     // step between scales of closeness (0: none), inputs per machine-word remainder
};
inline Level level(const char* name) {
    std::string n = name;
    if (n == "tiny")  return { 8, 2, 64, 16, 32, 8, 1, 1, 4, 2, 64, 64, 99, 0, 0, 1 };
    if (n == "small") return { 64, 4, 256, 32, 128, 32, 2, 1, 8, 6, 512, 256, 999, 16, 16, 1 };
    if (n == "quick") return { 256, 32, 1024, 256, 512, 64, 2, 2, 10, 9, 2048, 1024, 9999, 4, 5, 2 };
    /* deep */        return { 4096, 256, 8192, 1024, 4096, 2048, 3, 3, 14, 13, 1 << 16, 1 << 15, 999999, 1, 1, 8 };
}
template <class F> void lattice(int ex, u64 n, std::vector<typename fmt<F>::U>& out) {
    typedef fmt<F> T; u64 all = (u64(1) << T::p) - 1;
    u64 step = ((u64)((double)(all + 1) * 0.6180339887498949)) | 1;      // additive (golden section) lattice, no repeats
    if (n > all) n = all;
    for (u64 i = 1; i <= n; ++i) { u64 v = (step * i) & all; if (ex || v) out.push_back(gen::bits_of<F>(ex, v)); }
}
template <class F> void decimals(int ex, u64 dmax, std::vector<typename fmt<F>::U>& out) {
    typedef fmt<F> T; typedef typename T::U U;
    int e2 = (ex ? ex : 1) - T::bias;                    // smallest unit of the binade
    double loglo = ex ? (e2 + T::p) * 0.30102999566398 : e2 * 0.30102999566398, loghi = (e2 + T::p + 1) * 0.30102999566398;
    int dd = 0; for (u64 t = dmax; t; t /= 10) ++dd;
    for (int m = (int)std::floor(loglo) - dd - 1; m <= (int)std::floor(loghi) + 1; ++m) {
        double lo = std::pow(10.0, std::min(18.0, loglo - m)) * 0.999, hi = loghi - m > 18 ? 1e18 : std::pow(10.0, loghi - m) * 1.001;
        u64 d0 = lo < 1 ? 1 : (u64)lo, d1 = hi > (double)dmax ? dmax : (u64)hi + 1;
        for (u64 d = d0; d <= d1; ++d) {
            if (d % 10 == 0) continue;
            U b; if (!gen::nearest_to<F>(d, m, b)) continue;
            if ((int)(b >> T::p) != ex) continue;
            out.push_back(b);
            for (int s = -1; s <= 1; s += 2) { U c = (U)(b + s); if ((int)(c >> T::p) == ex && ref::is_finite_nonzero<F>(c)) out.push_back(c); }
        }
    }
}
// every positive input of the alphabet with exponent field ex, sorted, no repeats
template <class F> std::vector<typename fmt<F>::U> binade(int ex, const Level& L, gen::CritStat* st = nullptr) {
    typedef fmt<F> T; typedef typename T::U U; constexpr bool f = sizeof(F) == 4;
    std::vector<U> v; gen::CritStat s0;
    gen::critical<F>(ex, f ? L.perF : L.perD, f ? L.capF : L.capD, v, st ? *st : s0);
    int sc = f ? L.scF : L.scD; if (sc) gen::scales<F>(ex, sc, v, st ? *st : s0);
    gen::wraps<F>(ex, L.wrap, v, st ? *st : s0);
    gen::windows<F>(ex, f ? L.winF : L.winD, v);
    gen::twobits<F>(ex, v, f ? L.bitsF : L.bitsD);
    gen::narrow<F>(ex, f ? L.narF : L.narD, v);
    lattice<F>(ex, f ? L.latF : L.latD, v);
    decimals<F>(ex, L.decmax, v);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    std::vector<U> w; w.reserve(v.size());
    for (U b : v) if (ref::is_finite_nonzero<F>(b) && (int)(b >> T::p) == ex) w.push_back(b);
    return w;
}
constexpr int NEXF = 255, NEXD = 2047;           // exponent fields of finite numbers
} // namespace alpha
