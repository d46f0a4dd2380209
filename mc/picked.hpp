// Inputs that together take (nearly) every branch direction of every (mode, policy) instantiation of the code
// (chosen by tools/pick.cpp from the alphabets); operations of the history, schedule, interruption and life explorations.
#pragma once
#include <cstdint>
constexpr int N_PICKED = 24;
static const uint32_t picked_f[N_PICKED] = { 0xd84eaec4, 0x4a72011f, 0x41522000, 0x4e026de4, 0xb8387bdd, 0xb9800000, 0xd161e6cf, 0xc2ba0000, 0x80035c65, 0x72cd7b85, 0x4c7fd049, 0x3f6e4001, 0x8f3d65bb, 0xd57667d5, 0x2b800012, 0x46000002, 0x3b1d4952, 0xdd4de9c, 0x33ee5fe, 0x940fcc0, 0x4b000682, 0x4dffea4e, 0x4c194286, 0xdc000000 };
static const uint64_t picked_d[N_PICKED] = { 0x43cfffffffede5ff, 0xeff760d6f7ce1860, 0x4310000000002c29, 0x739109d00e1d1d78, 0xc46ffffeff323da6, 0x432e602e00d45fff, 0xc2b0000000000000, 0x4740f2bc2790aa9c, 0x46801107843cea66, 0x3ec0000000000080, 0x6916f9a26c, 0x4bb0000000100000, 0x46800060429887ed, 0x756ca37fa9d66fe3, 0x83a15d87010689fd, 0x3f22f00000000000, 0x6e227909966b5ee7, 0x8742d5a4350d30ff, 0x2d528b7bd766a077, 0x1052d5f44195e192, 0x905f8e0fe8444874, 0x44dfea8c2dab373c, 0xe03804, 0x1deb7d63ecf859d };
