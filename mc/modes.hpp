// The rounding mode this translation unit is compiled for (-DMC_MODE=n); included after the library.
#pragma once
namespace rm = jkj::grisu_exact_rounding_modes;
namespace cr = jkj::grisu_exact_correct_rounding;
#define MC_M0 rm::nearest_to_even
#define MC_M1 rm::nearest_to_odd
#define MC_M2 rm::nearest_toward_plus_infinity
#define MC_M3 rm::nearest_toward_minus_infinity
#define MC_M4 rm::nearest_toward_zero
#define MC_M5 rm::nearest_away_from_zero
#define MC_M6 rm::nearest_to_even_static_boundary
#define MC_M7 rm::nearest_to_odd_static_boundary
#define MC_M8 rm::nearest_toward_plus_infinity_static_boundary
#define MC_M9 rm::nearest_toward_minus_infinity_static_boundary
#define MC_M10 rm::toward_plus_infinity
#define MC_M11 rm::toward_minus_infinity
#define MC_M12 rm::toward_zero
#define MC_M13 rm::away_from_zero
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
typedef MC_CAT(MC_M, MC_MODE) RM;

