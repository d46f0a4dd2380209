// C22: every form in which mode, policy and handler may be passed (or omitted); one unit per rounding mode.
#include "platform.hpp"
#include "fp_to_chars.h"
#include "modes.hpp"
#include "forms_unit.hpp"
template <class F> static F val(uint64_t u) { F x; if (sizeof x == 4) { uint32_t w = (uint32_t)u; std::memcpy(&x, &w, 4); } else std::memcpy(&x, &u, 8); return x; }
template <class R> static void put(Out* o, R const& v) { o->sig = v.significand; o->exp = v.exponent; o->neg = 2; }
template <class F> static void put(Out* o, jkj::fp_t<F, true> const& v) { o->sig = v.significand; o->exp = v.exponent; o->neg = v.is_negative; }
constexpr bool default_mode = std::is_same_v<RM, rm::nearest_to_even>;
template <class CR> constexpr bool default_crs = std::is_same_v<CR, cr::tie_to_even>;
namespace ch = jkj::grisu_exact_case_handlers;
static const char* const names[] = { "temporaries", "named", "const named", "moved", "explicit template arguments, defaulted values", "explicit template arguments, temporaries", "unsigned, named", "unsigned, explicit template arguments",
    "named with handler", "const references as template arguments", "policy omitted", "mode and policy omitted", "policy omitted, unsigned", "mode and policy omitted, unsigned", "sign given explicitly", "mode only, named" };
static const char* const cnames[] = { "temporaries", "named", "const named", "moved", "explicit template arguments, defaulted values", "const references as template arguments", "policy omitted", "mode and policy omitted", "policy omitted, named",
    "terminated, temporaries", "terminated, named", "terminated, policy omitted", "terminated, mode and policy omitted", "terminated, explicit template arguments" };
template <class F, class U, class CR, int K> static void form(U u, Out* o) {
    F x = val<F>(u); RM m{}; CR c{}; const RM mc{}; const CR cc{};
    if constexpr (K == 0) put(o, jkj::grisu_exact(x, RM{}, CR{}));
    else if constexpr (K == 1) put(o, jkj::grisu_exact(x, m, c));
    else if constexpr (K == 2) put(o, jkj::grisu_exact(x, mc, cc));
    else if constexpr (K == 3) put(o, jkj::grisu_exact(x, std::move(m), std::move(c)));
    else if constexpr (K == 4) put(o, jkj::grisu_exact<true, F, RM, CR>(x));
    else if constexpr (K == 5) put(o, jkj::grisu_exact<true, F, RM, CR, ch::assert_finite>(x, RM{}, CR{}, ch::assert_finite{}));
    else if constexpr (K == 6) put(o, jkj::grisu_exact<false>(x, m, cc));
    else if constexpr (K == 7) put(o, jkj::grisu_exact<false, F, RM, CR>(x));
    else if constexpr (K == 8) { ch::ignore_special_cases h; put(o, jkj::grisu_exact(x, m, c, h)); }
    else if constexpr (K == 9) put(o, jkj::grisu_exact<true, F, RM const&, CR const&>(x, m, c));
    else if constexpr (K == 10) put(o, jkj::grisu_exact(x, RM{}));
    else if constexpr (K == 11) put(o, jkj::grisu_exact(x));
    else if constexpr (K == 12) put(o, jkj::grisu_exact<false>(x, RM{}));
    else if constexpr (K == 13) put(o, jkj::grisu_exact<false>(x));
    else if constexpr (K == 14) put(o, jkj::grisu_exact<true>(x, mc, CR{}));
    else put(o, jkj::grisu_exact(x, m));
}
template <class F, class U, class CR, int K> static char* cform(U u, char* b) {
    F x = val<F>(u); RM m{}; CR c{}; const RM mc{}; const CR cc{};
    if constexpr (K == 0) return jkj::fp_to_chars_n(x, b, RM{}, CR{});
    else if constexpr (K == 1) return jkj::fp_to_chars_n(x, b, m, c);
    else if constexpr (K == 2) return jkj::fp_to_chars_n(x, b, mc, cc);
    else if constexpr (K == 3) return jkj::fp_to_chars_n(x, b, std::move(m), std::move(c));
    else if constexpr (K == 4) return jkj::fp_to_chars_n<F, RM, CR>(x, b);
    else if constexpr (K == 5) return jkj::fp_to_chars_n<F, RM const&, CR const&>(x, b, m, c);
    else if constexpr (K == 6) return jkj::fp_to_chars_n(x, b, RM{});
    else if constexpr (K == 7) return jkj::fp_to_chars_n(x, b);
    else if constexpr (K == 8) return jkj::fp_to_chars_n(x, b, mc);
    else if constexpr (K == 9) return jkj::fp_to_chars(x, b, RM{}, CR{});
    else if constexpr (K == 10) return jkj::fp_to_chars(x, b, m, cc);
    else if constexpr (K == 11) return jkj::fp_to_chars(x, b, m);
    else if constexpr (K == 12) return jkj::fp_to_chars(x, b);
    else return jkj::fp_to_chars<F, RM, CR>(x, b);
}
template <class CR, int K> constexpr bool applies = (K != 10 && K != 12 && K != 15 || default_crs<CR>) && (K != 11 && K != 13 || default_mode && default_crs<CR>);
template <class CR, int K> constexpr bool capplies = (K != 6 && K != 8 && K != 11 || default_crs<CR>) && (K != 7 && K != 12 || default_mode && default_crs<CR>);
template <class F, class U, class CR, int K> static constexpr auto pick() { if constexpr (applies<CR, K>) return &form<F, U, CR, K>; else return (void (*)(U, Out*))nullptr; }
template <class F, class U, class CR, int K> static constexpr auto cpick() { if constexpr (capplies<CR, K>) return &cform<F, U, CR, K>; else return (char* (*)(U, char*))nullptr; }
#define R8(P, F, U, C, B) P<F, U, C, B>(), P<F, U, C, B + 1>(), P<F, U, C, B + 2>(), P<F, U, C, B + 3>(), P<F, U, C, B + 4>(), P<F, U, C, B + 5>(), P<F, U, C, B + 6>(), P<F, U, C, B + 7>()
#define R6(P, F, U, C, B) P<F, U, C, B>(), P<F, U, C, B + 1>(), P<F, U, C, B + 2>(), P<F, U, C, B + 3>(), P<F, U, C, B + 4>(), P<F, U, C, B + 5>()
#define FR(F, U, C) { R8(pick, F, U, C, 0), R8(pick, F, U, C, 8) }
#define CF(F, U, C) { R8(cpick, F, U, C, 0), R6(cpick, F, U, C, 8) }
#define FA(R, F, U) { R(F, U, cr::do_not_care), R(F, U, cr::tie_to_even), R(F, U, cr::tie_to_odd), R(F, U, cr::tie_to_up), R(F, U, cr::tie_to_down) }
extern "C" const FormTable MC_CAT(mc_forms_, MC_MODE);
extern "C" __attribute__((visibility("default"))) const FormTable MC_CAT(mc_forms_, MC_MODE) = { FA(FR, float, uint32_t), FA(FR, double, uint64_t), FA(CF, float, uint32_t), FA(CF, double, uint64_t), names, cnames };
