// Loads one compiled configuration of the code under test (see impl.cpp).
#pragma once
#include "impl.hpp"
#include <dlfcn.h>
#include <string>
#include <cstdio>
#include <cstdlib>
struct Lib {
    std::string name, path; void* h = nullptr; const ModeTable* mode[MC_MODES] = {};
    bool load(const std::string& n, const std::string& p) {
        name = n; path = p;
        h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "dlopen %s: %s\n", p.c_str(), dlerror()); return false; }
        for (int m = 0; m < MC_MODES; ++m) { char b[32]; snprintf(b, sizeof b, "mc_mode_%d", m); mode[m] = (const ModeTable*)dlsym(h, b); }
        return true;
    }
    bool has(int m, int c) const { return mode[m] && mode[m]->f[c][1]; }
    template <class F> auto batch(int m, int c, int sign) const;
    template <class F> auto chars(int m, int c, int z) const;
};
template <> inline auto Lib::batch<float>(int m, int c, int s) const { return mode[m]->f[c][s]; }
template <> inline auto Lib::batch<double>(int m, int c, int s) const { return mode[m]->d[c][s]; }
template <> inline auto Lib::chars<float>(int m, int c, int z) const { return mode[m]->cf[c][z]; }
template <> inline auto Lib::chars<double>(int m, int c, int z) const { return mode[m]->cd[c][z]; }
