// Seeded faults: the sanitized builds must report each that concerns them (77: does not concern this one).
#include <cassert>
#include <cstdlib>
#include <climits>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MC_MSAN 1
#endif
#endif
extern "C" int mc_fault(int k, int one) {
    volatile int z = one; int t[4] = { 1, 2, 3, 4 };
    switch (k) {
#ifdef MC_MSAN
    case 1: { int u[4]; volatile int* p = u; if (p[z] == 3) return 1; return 2; }
    case 2: case 3: return 77;
#else
    case 1: { volatile int s = 31 + z; return 1 << s; }
    case 2: { volatile int m = INT_MAX; return m + z; }
    case 3: { volatile int i = 3 + z; return t[i]; }
#endif
    case 4: { assert(z == 0); return 0; }
    }
    return t[0] == 1 ? 0 : 1;
}
