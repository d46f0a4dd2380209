#include "platform.hpp"
#include "grisu_exact.h"
#include "seam.hpp"
namespace d = jkj::grisu_exact_detail;
MC_EXPORT int mc_info(int fmt, int what) {
    auto pick = [what](auto x) { typedef d::common_info<decltype(x)> C; int v[] = { (int)C::alpha, (int)C::gamma, (int)C::min_k, (int)C::max_k, (int)C::cache_precision, (int)C::min_exponent, (int)C::max_exponent, (int)C::min_kappa }; return v[what]; };
    return fmt == 4 ? pick(0.0f) : pick(0.0);
}
MC_EXPORT void mc_cache(int fmt, int k, uint64_t* hi, uint64_t* lo) {
    if (fmt == 4) { *hi = d::get_cache<float>(k); *lo = 0; }
    else { auto c = d::get_cache<double>(k); *hi = c.high(); *lo = c.low(); }
}
