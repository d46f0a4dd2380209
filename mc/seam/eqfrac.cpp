#include "platform.hpp"
#include "grisu_exact.h"
#include "seam.hpp"
namespace d = jkj::grisu_exact_detail; namespace rm = jkj::grisu_exact_rounding_modes;
MC_EXPORT void mc_eqfrac(int fmt, int kind, int e, int minus_k, const uint64_t* f, unsigned char* out, size_t n) {
    if (fmt == 4) for (size_t i = 0; i < n; ++i) out[i] = kind == 0 ? d::grisu_exact_impl<float>::equal_fractional_parts<rm::to_nearest_tag>((uint32_t)f[i], e, minus_k) : d::grisu_exact_impl<float>::equal_fractional_parts<rm::left_closed_directed_tag>((uint32_t)f[i], e, minus_k);
    else for (size_t i = 0; i < n; ++i) out[i] = kind == 0 ? d::grisu_exact_impl<double>::equal_fractional_parts<rm::to_nearest_tag>(f[i], e, minus_k) : d::grisu_exact_impl<double>::equal_fractional_parts<rm::left_closed_directed_tag>(f[i], e, minus_k);
}
