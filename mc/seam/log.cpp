#include "platform.hpp"
#include "grisu_exact.h"
#include "seam.hpp"
namespace d = jkj::grisu_exact_detail;
MC_EXPORT int mc_log(int which, int e) {
    switch (which) {
    case 0: return d::floor_log10_pow2<false>(e);
    case 1: return d::floor_log2_pow10<false>(e);
    case 2: return d::floor_log5_pow2<false>(e);
    case 3: return d::floor_log10_pow2(e);
    case 4: return d::floor_log2_pow10(e);
    default: return d::floor_log5_pow2(e);
    }
}
