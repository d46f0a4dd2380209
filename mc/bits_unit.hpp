#pragma once
#include <cstdint>
#include <cstddef>
struct BitInfo { uint64_t f, back, sig, payload; uint32_t exp, flags; };
enum { B_FINITE = 1, B_NONZERO = 2, B_SUBNORMAL = 4, B_NEGATIVE = 8, B_POSITIVE = 16, B_PINF = 32, B_NINF = 64, B_INF = 128, B_NAN = 256, B_QNAN = 512, B_SNAN = 1024 };
