// C27: what the exploring driver and the program whose life is explored agree on.
#pragma once
#include "impl.hpp"
#include "picked.hpp"
#include <cstring>
enum Phase { PREINIT, EARLY_OBJECT, OBJECT, CONSTRUCTOR, MAIN, THREAD, TLS_CONSTRUCTOR, TLS_DESTRUCTOR, FORKED, NO_MEMORY, AT_EXIT, OBJECT_DESTRUCTOR, EARLY_DESTRUCTOR, LAST_DESTRUCTOR, QUICK_EXIT, N_PROGRAM,
             SO_EARLY = N_PROGRAM, SO_OBJECT, SO_CALL, SO_DESTRUCTOR, SO_EARLY_DESTRUCTOR, SO_AGAIN_EARLY, SO_AGAIN_OBJECT, SO_AGAIN_CALL, SO_AGAIN_DESTRUCTOR, N_PHASES };
static const char* const phase_name[] = { "before any initialisation", "while early static objects are built", "while static objects are built", "in a constructor function", "in main", "in a thread", "while a thread_local is built",
    "while a thread_local is destroyed", "in a forked child", "with no memory to allocate", "in an exit handler", "while static objects are destroyed", "while early static objects are destroyed", "in the last destructor function", "in a quick_exit handler",
    "while a loaded library's early objects are built", "while a loaded library's objects are built", "in a loaded library", "while an unloaded library's objects are destroyed", "while an unloaded library's early objects are destroyed",
    "while a reloaded library's early objects are built", "while a reloaded library's objects are built", "in a reloaded library", "while a reloaded library is unloaded" };
struct Res { unsigned char b[40]; };
constexpr int OWN = 12, PER = OWN + N_PICKED, NOPS = PER * 2 * MC_MODES * MC_CRS * 4;
struct Life { volatile unsigned done[N_PHASES]; volatile unsigned now; Res r[N_PHASES][NOPS]; };     // now: 1 + phase being in, 0 none
static const uint32_t life_f[OWN] = { 0x3f800001, 0x4b800000, 0x00000001, 0x7f7fffff, 0xbdcccccd, 0x5d5e0b6b, 0x0da24260, 0x00800000, 0x3dcccccd, 0x80000001, 0x4b7fffff, 0x42c80000 };
static const uint64_t life_d[OWN] = { 0x3ff0000000000001, 0x4340000000000000, 1, 0x7fefffffffffffff, 0xbfb999999999999a, 0x44b52d02c7e14af6, 0x0010000000000000, 0x3e60000000000000, 0x3fb999999999999a, 0x8000000000000001, 0x433fffffffffffff, 0x4059000000000000 };
static inline void life_op(int i, int& f, int& m, int& c, int& kind, uint64_t& x) {
    kind = i % 4; i /= 4; c = i % MC_CRS; i /= MC_CRS; m = i % MC_MODES; i /= MC_MODES; f = i % 2 ? 8 : 4; i /= 2; x = i < OWN ? (f == 4 ? life_f[i] : life_d[i]) : f == 4 ? picked_f[i - OWN] : picked_d[i - OWN];
}
