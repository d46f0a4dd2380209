#pragma once
#include "impl.hpp"
// argument forms; see forms_unit.cpp.  Index -1 in the table marks a form that only exists for the default mode/policy.
constexpr int FORMS = 16, CFORMS = 14;
typedef void (*form32)(uint32_t, Out*); typedef void (*form64)(uint64_t, Out*);
typedef char* (*cform32)(uint32_t, char*); typedef char* (*cform64)(uint64_t, char*);
struct FormTable { form32 f[MC_CRS][FORMS]; form64 d[MC_CRS][FORMS]; cform32 cf[MC_CRS][CFORMS]; cform64 cd[MC_CRS][CFORMS]; const char* const* name; const char* const* cname; };
