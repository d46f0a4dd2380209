#pragma once
#include <cstdint>
#include <cstddef>
// what a recording handler saw
struct HRec { int calls; uint64_t bits; int copies; };
struct HOut { uint64_t sig; int32_t exp; uint32_t neg; int32_t thrown; HRec rec; };
// form: 0 handler passed as a temporary, 1 named object, 2 const object, 3 throwing (temporary), 4 throwing (named),
//       5 assert_finite given explicitly, 6 default handler, 7 ignore_special_cases
constexpr int H_FORMS = 8;
typedef void (*hfn32)(uint32_t, HOut*); typedef void (*hfn64)(uint64_t, HOut*);
struct HTable { hfn32 f[5][2][H_FORMS]; hfn64 d[5][2][H_FORMS]; void (*ignore32)(uint32_t); void (*ignore64)(uint64_t); void (*finite32)(uint32_t); void (*finite64)(uint64_t); };
