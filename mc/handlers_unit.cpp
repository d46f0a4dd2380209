// C21: conversions with recording, throwing and library-provided case handlers; one unit per rounding mode.
#include "platform.hpp"
#include "fp_to_chars.h"
#include "modes.hpp"
#include "handlers_unit.hpp"
namespace {        // the observers refer to this unit's record
struct MCThrown { uint64_t bits; };
template <class F> static F val(uint64_t u) { F x; if (sizeof x == 4) { uint32_t w = (uint32_t)u; std::memcpy(&x, &w, 4); } else std::memcpy(&x, &u, 8); return x; }
static HRec rec;
struct Recorder { template <class B> void operator()(B br) const { ++rec.calls; rec.bits = br.f; } };
struct MutRecorder { int n = 0; template <class B> void operator()(B br) { ++n; ++rec.calls; rec.bits = br.f; } };
struct Thrower { template <class B> void operator()(B br) const { ++rec.calls; rec.bits = br.f; throw MCThrown{ br.f }; } };
}
template <class R> static void put(HOut* o, R const& v) { o->sig = v.significand; o->exp = v.exponent; o->neg = 2; }
template <class F> static void put(HOut* o, jkj::fp_t<F, true> const& v) { o->sig = v.significand; o->exp = v.exponent; o->neg = v.is_negative; }
template <class F, class U, class CR, bool S, int FORM> static void run(U u, HOut* o) {
    rec = HRec{ 0, 0, 1 }; o->thrown = 0; o->sig = 0; o->exp = 0; o->neg = 9;
    F x = val<F>(u);
    if constexpr (FORM == 0) put(o, jkj::grisu_exact<S>(x, RM{}, CR{}, Recorder{}));
    else if constexpr (FORM == 1) { MutRecorder h; put(o, jkj::grisu_exact<S>(x, RM{}, CR{}, h)); rec.copies = h.n; }
    else if constexpr (FORM == 2) { const Recorder h{}; put(o, jkj::grisu_exact<S>(x, RM{}, CR{}, h)); }
    else if constexpr (FORM == 3 || FORM == 4) {
        try { if constexpr (FORM == 3) put(o, jkj::grisu_exact<S>(x, RM{}, CR{}, Thrower{})); else { Thrower h; put(o, jkj::grisu_exact<S>(x, RM{}, CR{}, h)); } }
        catch (MCThrown& t) { o->thrown = t.bits == u ? 1 : 2; }
        catch (...) { o->thrown = 3; }
    }
    else if constexpr (FORM == 5) put(o, jkj::grisu_exact<S>(x, RM{}, CR{}, jkj::grisu_exact_case_handlers::assert_finite{}));
    else if constexpr (FORM == 6) put(o, jkj::grisu_exact<S>(x, RM{}, CR{}));
    else put(o, jkj::grisu_exact<S>(x, RM{}, CR{}, jkj::grisu_exact_case_handlers::ignore_special_cases{}));
    o->rec = rec;
}
#define HF(F, U, C, S) { &run<F, U, C, S, 0>, &run<F, U, C, S, 1>, &run<F, U, C, S, 2>, &run<F, U, C, S, 3>, &run<F, U, C, S, 4>, &run<F, U, C, S, 5>, &run<F, U, C, S, 6>, &run<F, U, C, S, 7> }
#define HC(F, U, C) { HF(F, U, C, false), HF(F, U, C, true) }
#define HA(F, U) { HC(F, U, cr::do_not_care), HC(F, U, cr::tie_to_even), HC(F, U, cr::tie_to_odd), HC(F, U, cr::tie_to_up), HC(F, U, cr::tie_to_down) }
template <class F, class U, class H> static void direct(U u) { H h; h(jkj::get_bit_representation(val<F>(u))); const H hc{}; hc(jkj::get_bit_representation(val<F>(u))); }
namespace ch = jkj::grisu_exact_case_handlers;
extern "C" const HTable MC_CAT(mc_handlers_, MC_MODE);
extern "C" __attribute__((visibility("default"))) const HTable MC_CAT(mc_handlers_, MC_MODE) = { HA(float, uint32_t), HA(double, uint64_t),
    &direct<float, uint32_t, ch::ignore_special_cases>, &direct<double, uint64_t, ch::ignore_special_cases>, &direct<float, uint32_t, ch::assert_finite>, &direct<double, uint64_t, ch::assert_finite> };
