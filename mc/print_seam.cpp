// The digit printer by itself (optional seam: skipped when the sources no longer offer it).
#include "platform.hpp"
#include "fp_to_chars.h"
extern "C" __attribute__((visibility("default"))) char* mc_print_float(uint32_t s, int k, char* b) { jkj::unsigned_fp_t<float> v; v.significand = s; v.exponent = k; return jkj::fp_to_chars_detail::float_to_chars(v, b); }
extern "C" __attribute__((visibility("default"))) char* mc_print_double(uint64_t s, int k, char* b) { jkj::unsigned_fp_t<double> v; v.significand = s; v.exponent = k; return jkj::fp_to_chars_detail::double_to_chars(v, b); }
