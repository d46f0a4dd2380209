#include "platform.hpp"
#include "grisu_exact.h"
#include "seam.hpp"
namespace d = jkj::grisu_exact_detail;
MC_EXPORT void mc_umul128(uint64_t x, uint64_t y, uint64_t* hi, uint64_t* lo, uint64_t* upper) { auto r = d::umul128(x, y); *hi = r.high(); *lo = r.low(); *upper = d::umul128_upper64(x, y); }
MC_EXPORT uint64_t mc_umul192(uint64_t x, uint64_t yh, uint64_t yl) { return d::umul192_upper64(x, d::uint128(yh, yl)); }
MC_EXPORT uint32_t mc_umul96(uint32_t x, uint64_t y) { return d::umul96_upper32(x, y); }
