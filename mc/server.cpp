// The process behind Server: linked with every compiled mode of one configuration.
#include "impl.hpp"
#include "server.hpp"
#include <vector>
#include <memory>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MC_MSAN 1
#endif
#endif
#ifdef MC_MSAN
#define POISON(p, n) __msan_poison(p, n)
#define CHECK(p, n) __msan_check_mem_is_initialized(p, n)
#else
#define POISON(p, n) memset(p, 0x7b, n)
#define CHECK(p, n) (void)0
#endif
#define W(n) extern "C" __attribute__((weak)) const ModeTable mc_mode_##n;
W(0) W(1) W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9) W(10) W(11) W(12) W(13)
extern "C" __attribute__((weak)) int mc_fault(int k, int one);
int main() {
    const ModeTable* t[] = { &mc_mode_0,&mc_mode_1,&mc_mode_2,&mc_mode_3,&mc_mode_4,&mc_mode_5,&mc_mode_6,&mc_mode_7,&mc_mode_8,&mc_mode_9,&mc_mode_10,&mc_mode_11,&mc_mode_12,&mc_mode_13 };
    Req r; std::vector<uint64_t> w; std::vector<uint32_t> w4; std::vector<Out> o;
    std::unique_ptr<char[]> b4(new char[15]), b8(new char[24]);       // exactly the longest text without terminator
    while (io_all(0, &r, sizeof r, false)) {
        if (r.fmt == 64) { int32_t a = mc_fault ? mc_fault(r.mode, r.n + 1) : 77; if (!io_all(1, &a, 4, true)) return 0; continue; }
        w.resize((size_t)r.n); w4.resize((size_t)r.n); o.resize((size_t)r.n);
        if (!io_all(0, w.data(), 8 * (size_t)r.n, false)) return 0;
        const ModeTable* m = t[r.mode];
        if (r.fmt & 16) {
            int32_t ok = m && m->cf[r.crs][0] ? 1 : 0; std::vector<Txt> x((size_t)r.n);
            if (ok) for (int i = 0; i < r.n; ++i) {
                bool f = (r.fmt & 15) == 4; char* b = f ? b4.get() : b8.get(); POISON(b, f ? 15 : 24);
                char* e = f ? m->cf[r.crs][0]((uint32_t)w[(size_t)i], b) : m->cd[r.crs][0](w[(size_t)i], b);
                CHECK(&e, sizeof e); if (e > b && e <= b + 24) CHECK(b, (size_t)(e - b));
                set_txt(x[(size_t)i], b, e);
            }
            if (!io_all(1, &ok, 4, true)) return 0;
            if (ok && !io_all(1, x.data(), sizeof(Txt) * (size_t)r.n, true)) return 0;
            continue;
        }
        int32_t ok = m && m->f[r.crs][1] ? 1 : 0;
        if (ok) {
            POISON(o.data(), sizeof(Out) * (size_t)r.n);
            if (r.fmt == 4) { for (int i = 0; i < r.n; ++i) w4[(size_t)i] = (uint32_t)w[(size_t)i]; m->f[r.crs][1](w4.data(), o.data(), (size_t)r.n, nullptr); }
            else m->d[r.crs][1](w.data(), o.data(), (size_t)r.n, nullptr);
            CHECK(o.data(), sizeof(Out) * (size_t)r.n);
        }
        if (!io_all(1, &ok, 4, true)) return 0;
        if (ok && !io_all(1, o.data(), sizeof(Out) * (size_t)r.n, true)) return 0;
    }
    return 0;
}
