// C12: the public inspectors of bit_representation_t, flattened.
#include "platform.hpp"
#include "grisu_exact.h"
#include "bits_unit.hpp"
template <class F, class U> static void bits(const U* in, BitInfo* o, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        F x; std::memcpy(&x, in + i, sizeof x);
        auto br = jkj::get_bit_representation(x);
        BitInfo b{}; b.f = br.f;
        F y = br.as_ieee754(); U back; std::memcpy(&back, &y, sizeof y); b.back = back;
        b.sig = br.extract_significand_bits(); b.exp = br.extract_exponent_bits();
        b.flags = (br.is_finite() ? B_FINITE : 0) | (br.is_nonzero() ? B_NONZERO : 0) | (br.is_subnormal() ? B_SUBNORMAL : 0) | (br.is_negative() ? B_NEGATIVE : 0) | (br.is_positive() ? B_POSITIVE : 0)
            | (br.is_positive_infinity() ? B_PINF : 0) | (br.is_negative_infinity() ? B_NINF : 0) | (br.is_infinity() ? B_INF : 0) | (br.is_nan() ? B_NAN : 0) | (br.is_quiet_nan() ? B_QNAN : 0) | (br.is_signaling_nan() ? B_SNAN : 0);
        b.payload = br.get_nan_payload().to_ullong();
        o[i] = b;
    }
}
extern "C" __attribute__((visibility("default"))) void mc_bits32(const uint32_t* in, BitInfo* o, size_t n) { bits<float>(in, o, n); }
extern "C" __attribute__((visibility("default"))) void mc_bits64(const uint64_t* in, BitInfo* o, size_t n) { bits<double>(in, o, n); }
