#include "platform.hpp"
#include "grisu_exact.h"
#include "seam.hpp"
namespace d = jkj::grisu_exact_detail;
template <class F> static bool one(int kind, uint64_t f, int e, int minus_k) {
    typedef d::grisu_exact_impl<F> I; typedef typename I::integer_check_case_id C; typedef typename I::extended_significand_type U;
    if (kind == 0) return I::template is_product_integer<C::fc_pm_2_to_the_q_mp_m2_generic>((U)f, e, minus_k);
    if (kind == 1) return I::template is_product_integer<C::other>((U)f, e, minus_k);
    return I::template is_product_integer<C::two_times_fc>((U)f, e, minus_k);
}
MC_EXPORT void mc_intcheck(int fmt, int kind, int e, int minus_k, const uint64_t* f, unsigned char* out, size_t n) {
    if (fmt == 4) for (size_t i = 0; i < n; ++i) out[i] = one<float>(kind, f[i], e, minus_k); else for (size_t i = 0; i < n; ++i) out[i] = one<double>(kind, f[i], e, minus_k);
}
