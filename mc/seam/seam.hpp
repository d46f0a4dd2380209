// Internal seams of the library, one small translation unit each, so that a seam that is gone only switches off the
// exploration at that seam (the whole-conversion exploration remains).
#pragma once
#define MC_EXPORT extern "C" __attribute__((visibility("default")))
