// C12: every inspector on every bit pattern of the bounded spaces, and the field decoding of the conversion itself.
//   bits C12 <tier> <result.json> gcc-O2=lib.so
#include "alpha.hpp"
#include "lib.hpp"
#include "bits_unit.hpp"
using namespace ref; using namespace core;
static Lib lib; static void (*b32)(const u32*, BitInfo*, size_t); static void (*b64)(const u64*, BitInfo*, size_t);
static int c_cls[8], c_conv;
static const char* const flag_name[] = { "is_finite", "is_nonzero", "is_subnormal", "is_negative", "is_positive", "is_positive_infinity", "is_negative_infinity", "is_infinity", "is_nan", "is_quiet_nan", "is_signaling_nan" };
template <class F> BitInfo expected(typename fmt<F>::U x, int& cls) {
    typedef fmt<F> T; const u64 fmask = (u64(1) << T::p) - 1; const u32 emax = (1u << T::eb) - 1;
    BitInfo b{}; b.f = b.back = x; b.sig = x & fmask; b.exp = (u32)(x >> T::p) & emax; bool neg = (x >> (T::p + T::eb)) & 1;
    b.payload = b.sig & (fmask >> 1);
    bool quiet = (b.sig >> (T::p - 1)) & 1, nan = b.exp == emax && b.sig, inf = b.exp == emax && !b.sig;
    b.flags = (b.exp != emax ? B_FINITE : 0) | (b.exp || b.sig ? B_NONZERO : 0) | (b.exp == 0 ? B_SUBNORMAL : 0) | (neg ? B_NEGATIVE : B_POSITIVE) | (inf ? (neg ? B_NINF : B_PINF) | B_INF : 0) | (nan ? B_NAN | (quiet ? B_QNAN : B_SNAN) : 0);
    cls = nan ? (quiet ? 5 : 6) : inf ? 4 : b.exp ? 3 : b.sig ? 2 : 1;
    return b;
}
template <class F> void check(const typename fmt<F>::U* in, int n) {
    static BitInfo o[4096]; const char* fn = sizeof(F) == 4 ? "float" : "double"; u64 k[8] = {};
    what("inspect %s", fn); me->cursor = in[0];
    { Inside x; if constexpr (sizeof(F) == 4) b32(in, o, (size_t)n); else b64(in, o, (size_t)n); }
    for (int i = 0; i < n; ++i) {
        int c; BitInfo w = expected<F>(in[i], c); ++k[c]; const BitInfo& g = o[i]; const char* bad = nullptr;
        if (g.f != w.f) bad = "get_bit_representation"; else if (g.back != w.back) bad = "as_ieee754"; else if (g.sig != w.sig) bad = "extract_significand_bits"; else if (g.exp != w.exp) bad = "extract_exponent_bits";
        else if (w.flags & B_NAN ? g.payload != w.payload : false) bad = "get_nan_payload";
        else if (g.flags != w.flags) bad = flag_name[__builtin_ctz(g.flags ^ w.flags)];
        if (bad) { char key[120]; snprintf(key, sizeof key, "%s %s 0x%llx", bad, fn, (unsigned long long)in[i]);
            violation(key, "%s of %s bits 0x%llx disagrees with IEEE-754 (flags %x, expected %x; sig %llx exp %x payload %llx)", bad, fn, (unsigned long long)in[i], g.flags, w.flags, (unsigned long long)g.sig, g.exp, (unsigned long long)g.payload); if (stopped()) return; }
    }
    if (want_sample()) sample("%s 0x%llx flags %x sig %llx exp %u", fn, (unsigned long long)in[n / 2], o[n / 2].flags, (unsigned long long)o[n / 2].sig, o[n / 2].exp);
    for (int c = 1; c < 8; ++c) if (k[c]) add(c_cls[c], k[c]);
    add(CS, n); add(CT, 14 * (u64)n); add(CJ, n);
}
// the conversion decodes sign, exponent and implicit bit as the pattern says
template <class F> void convert(const std::vector<typename fmt<F>::U>& v) {
    typedef typename fmt<F>::U U; static U in[512]; static Out o[512]; const char* fn = sizeof(F) == 4 ? "float" : "double";
    for (int sg = 0; sg < 2; ++sg) for (size_t i = 0; i < v.size() && !stopped(); i += 512) {
        int n = (int)std::min<size_t>(512, v.size() - i);
        for (int j = 0; j < n; ++j) in[j] = v[i + j] | (sg ? U(1) << (fmt<F>::p + fmt<F>::eb) : U(0));
        for (int c = 0; c < 2; ++c) {
            int m = M_EVEN;
            what("convert %s", fn);
            { Inside x; lib.batch<F>(m, c, 1)(in, o, n, &me->cursor); }
            for (int j = 0; j < n; ++j) {
                Geo g = geo<F>(in[j]); Interval iv = interval_of(m, g); int vd = judge(g, iv, c, o[j].sig, o[j].exp);
                if ((vd & V_OUTSIDE) || o[j].neg != (u32)g.neg) { char key[120]; snprintf(key, sizeof key, "decode %s 0x%llx", fn, (unsigned long long)in[j]);
                    violation(key, "%s bits 0x%llx converts to %s%llue%d, which is a different number", fn, (unsigned long long)in[j], o[j].neg ? "-" : "", (unsigned long long)o[j].sig, o[j].exp); if (stopped()) return; }
            }
            add(CT, n); add(CJ, n); add(c_conv, n);
        }
    }
}
int main(int argc, char** argv) {
    double t0 = now(); if (argc < 5) return 3;
    tier = argv[2]; init(); base_counters();
    std::string a = argv[4]; if (!lib.load("gcc-O2", a.substr(a.find('=') + 1))) return 3;
    b32 = (decltype(b32))dlsym(lib.h, "mc_bits32"); b64 = (decltype(b64))dlsym(lib.h, "mc_bits64"); if (!b32 || !b64) return 3;
    const char* cn[] = { "", "zeros", "subnormals", "normals", "infinities", "quiet_nans", "signaling_nans", "" };
    for (int i = 1; i < 7; ++i) c_cls[i] = counter(cn[i]); c_conv = counter("conversions_judged");
    alpha::Level L = alpha::level(thorough() ? "quick" : "tiny"); if (thorough()) L.bitsD = 3;
    const u64 FB_ = 1 << 20, NF = (u64(1) << 32) / FB_;
    run_units(NF + 2048 + 255, [&](u64 u) {
        static u32 f[4096];
        if (u < NF) { for (u64 b = u * FB_; b < (u + 1) * FB_ && !stopped(); b += 4096) { for (int i = 0; i < 4096; ++i) f[i] = (u32)(b + i); check<float>(f, 4096); } return; }
        if (u >= NF + 2048) { int ex = (int)(u - NF - 2048); convert<float>(alpha::binade<float>(ex, L)); return; }
        int ex = (int)(u - NF); std::vector<u64> v;
        gen::twobits<double>(1, v, 3); gen::windows<double>(1, 512, v); gen::narrow<double>(1, 10, v); alpha::lattice<double>(1, 1024, v); v.push_back(u64(1) << 52);
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        for (u64 sg = 0; sg < 2; ++sg) { std::vector<u64> w; for (u64 x : v) w.push_back((x & ((u64(1) << 52) - 1)) | (u64)ex << 52 | sg << 63);
            for (size_t i = 0; i < w.size() && !stopped(); i += 4096) check<double>(&w[i], (int)std::min<size_t>(4096, w.size() - i)); }
        if (ex < 2047) convert<double>(alpha::binade<double>(ex, L));
    });
    return finish(argv[3], t0);
}
