// Compiled once per rounding mode (-DMC_MODE=n) and per configuration, from /repo's working tree.
#include "platform.hpp"
#include "fp_to_chars.h"
#include "impl.hpp"
#include "modes.hpp"
template <class F, class U> static inline F value(U u) { F x; std::memcpy(&x, &u, sizeof x); return x; }

template <class F, class U, class CR, bool S>
static void batch(const U* in, Out* out, size_t n, volatile uint64_t* cursor) {
    for (size_t i = 0; i < n; ++i) {
        if (cursor) *cursor = in[i];
        auto v = jkj::grisu_exact<S>(value<F>(in[i]), RM{}, CR{});
        out[i].sig = v.significand; out[i].exp = v.exponent;
        if constexpr (S) out[i].neg = v.is_negative; else out[i].neg = 2;
    }
}
template <class F, class U, class CR, bool Z>
static char* chars(U u, char* buf) {
    if constexpr (Z) return jkj::fp_to_chars(value<F>(u), buf, RM{}, CR{});
    else return jkj::fp_to_chars_n(value<F>(u), buf, RM{}, CR{});
}
#ifndef MC_CRSMASK
#define MC_CRSMASK 31
#endif
#ifndef MC_CHARS
#define MC_CHARS 1
#endif
template <int I, class F, class U, class CR, bool S> static constexpr auto pick_batch() {
    if constexpr ((MC_CRSMASK >> I) & 1) return &batch<F, U, CR, S>;
    else return (void (*)(const U*, Out*, size_t, volatile uint64_t*))nullptr;
}
template <int I, class F, class U, class CR, bool S> static constexpr auto pick_chars() {
    if constexpr (MC_CHARS && ((MC_CRSMASK >> I) & 1)) return &chars<F, U, CR, S>;
    else return (char* (*)(U, char*))nullptr;
}
#define ROW(I, F, U, C) { pick_batch<I, F, U, C, false>(), pick_batch<I, F, U, C, true>() }
#define CROW(I, F, U, C) { pick_chars<I, F, U, C, false>(), pick_chars<I, F, U, C, true>() }
#define ALL(R, F, U) { R(0, F, U, cr::do_not_care), R(1, F, U, cr::tie_to_even), R(2, F, U, cr::tie_to_odd), R(3, F, U, cr::tie_to_up), R(4, F, U, cr::tie_to_down) }
extern "C" const ModeTable MC_CAT(mc_mode_, MC_MODE);
extern "C" __attribute__((visibility("default"))) const ModeTable MC_CAT(mc_mode_, MC_MODE) = {
    ALL(ROW, float, uint32_t), ALL(ROW, double, uint64_t), ALL(CROW, float, uint32_t), ALL(CROW, double, uint64_t)
};
