#include "platform.hpp"
#include "grisu_exact.h"
#include "seam.hpp"
namespace d = jkj::grisu_exact_detail;
MC_EXPORT int mc_div5_size(int bits) { return bits == 32 ? (int)d::divisibility_test_table_holder<uint32_t>::table.size : (int)d::divisibility_test_table_holder<uint64_t>::table.size; }
MC_EXPORT int mc_div5(int bits, uint64_t x, unsigned e) { return bits == 32 ? d::divisible_by_power_of_5((uint32_t)x, e) : d::divisible_by_power_of_5(x, e); }
MC_EXPORT int mc_div2(int bits, uint64_t x, int e) { return bits == 32 ? d::divisible_by_power_of_2((uint32_t)x, e) : d::divisible_by_power_of_2(x, e); }
