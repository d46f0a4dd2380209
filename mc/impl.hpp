// Flat view of the code under test: one batch function per (float type, rounding mode, tie policy, sign returned).
#pragma once
#include <cstdint>
#include <cstddef>
struct Out { uint64_t sig; int32_t exp; uint32_t neg; };
constexpr int MC_MODES = 14, MC_CRS = 5;
typedef void (*batch32)(const uint32_t*, Out*, size_t, volatile uint64_t* cursor);
typedef void (*batch64)(const uint64_t*, Out*, size_t, volatile uint64_t* cursor);
typedef char* (*chars32)(uint32_t, char*);
typedef char* (*chars64)(uint64_t, char*);
struct ModeTable {
    batch32 f[MC_CRS][2]; batch64 d[MC_CRS][2];      // [crs][sign returned]
    chars32 cf[MC_CRS][2]; chars64 cd[MC_CRS][2];    // [crs][null terminated]
};
