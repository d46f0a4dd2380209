#include "platform.hpp"
#include "grisu_exact.h"
#include "seam.hpp"
namespace d = jkj::grisu_exact_detail; namespace rm = jkj::grisu_exact_rounding_modes;
MC_EXPORT void mc_mul(int fmt, int k, int minus_beta, const uint64_t* f, uint64_t* out, size_t n) {
    if (fmt == 4) { auto const& c = d::get_cache<float>(k); for (size_t i = 0; i < n; ++i) out[i] = d::grisu_exact_impl<float>::compute_mul((uint32_t)f[i], c, minus_beta); }
    else { auto const& c = d::get_cache<double>(k); for (size_t i = 0; i < n; ++i) out[i] = d::grisu_exact_impl<double>::compute_mul(f[i], c, minus_beta); }
}
template <class F> static uint32_t delta(int kind, bool edge, int k, int minus_beta) {
    auto const& c = d::get_cache<F>(k);
    if (kind == 0) return d::grisu_exact_impl<F>::template compute_delta<rm::to_nearest_tag>(edge, c, minus_beta);
    if (kind == 1) return d::grisu_exact_impl<F>::template compute_delta<rm::left_closed_directed_tag>(edge, c, minus_beta);
    return d::grisu_exact_impl<F>::template compute_delta<rm::right_closed_directed_tag>(edge, c, minus_beta);
}
MC_EXPORT uint32_t mc_delta(int fmt, int kind, int edge, int k, int minus_beta) { return fmt == 4 ? delta<float>(kind, edge, k, minus_beta) : delta<double>(kind, edge, k, minus_beta); }
