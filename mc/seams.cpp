// C17..C20: the exact integer building blocks, explored at their own seams against exact big-integer arithmetic.
//   seams <C17|C18|C19|C20> <tier> <result.json> <seam>:<configuration>=lib.so ...
#include "alpha.hpp"
#include <dlfcn.h>
#include <cerrno>
using namespace ref; using namespace core; using gen::Z;
static std::string prop;
struct Seam { std::string kind, cfg; void* h; template <class T> T fn(const char* n) const { T p = (T)dlsym(h, n); if (!p) { fprintf(stderr, "no %s\n", n); exit(3); } return p; } };
static std::vector<Seam> seams;
static std::vector<const Seam*> of(const char* k) { std::vector<const Seam*> r; for (auto& s : seams) if (s.kind == k) r.push_back(&s); return r; }
static int c_log, c_cache, c_lookup, c_mul, c_int, c_delta, c_umul, c_true, c_false, c_div, c_near;
static const Z one = 1;
static Z p5(int n) { static std::vector<Z> t = [] { std::vector<Z> v; Z r = 1; for (int i = 0; i <= 420; ++i) { v.push_back(r); r *= 5; } return v; }(); return t[n]; }
static int bitlen(const Z& v) { return v == 0 ? 0 : (int)boost::multiprecision::msb(v) + 1; }
static u64 lo64(const Z& v) { return Z(v & Z(~u64(0))).convert_to<u64>(); }
static int floor_log10_2(int e) { // exact: largest k with 10^k <= 2^e
    if (e >= 0) { int k = (int)(e * 0.30102999566398); while (bitlen(p5(k + 1)) + k + 1 <= e) ++k; while (k > 0 && bitlen(p5(k)) + k > e) --k; return k; }
    int k = floor_log10_2(-e); return -k - 1;    // 2^|e| is no power of ten for |e| > 0
}
static int floor_log2_10(int k) { return k >= 0 ? bitlen(p5(k)) - 1 + k : -(bitlen(p5(-k)) + -k); }

// ------------------------------------------------------------------------------------------------ C17
static void logs() {
    auto v = of("log"); if (v.empty()) { note("logarithm helpers not reachable in this tree"); return; }
    // bits of 5^n, as far as |e| <= 65536 needs
    std::vector<int> b5; { Big b = Big::of(1); while (b5.empty() || b5.back() <= 65540) { b5.push_back(b.bits()); b.mul(5); } }
    std::vector<int> l5(65537, 0); { int n = 0; for (int e = 0; e <= 65536; ++e) { while (n + 1 < (int)b5.size() && b5[n + 1] <= e) ++n; l5[e] = n; } }
    std::vector<int> l10(1651, 0); { int n = 0; for (int e = 0; e <= 1650; ++e) { while (b5[n + 1] + n + 1 <= e) ++n; l10[e] = n; } }
    const char* nm[] = { "floor_log10_pow2", "floor_log2_pow10", "floor_log5_pow2" };
    run_units(v.size() * 6, [&](u64 u) {
        const Seam& s = *v[u / 6]; int w = (int)(u % 6), f = w % 3; auto fn = s.fn<int (*)(int, int)>("mc_log");
        int R = f == 0 ? 1650 : f == 1 ? 642 : 65536;
        what("%s [%s]", nm[f], s.cfg.c_str());
        for (int e = -R; e <= R; ++e) {
            int want = f == 1 ? (e >= 0 ? b5[e] - 1 + e : -(b5[-e] + -e)) : (f == 0 ? l10[std::abs(e)] : l5[std::abs(e)]);
            if (f != 1 && e < 0) want = -want - 1;
            me->cursor = (u64)(unsigned)e; me->phase = 1; int g = fn(w, e); me->phase = 0;
            if (g != want) { char key[120]; snprintf(key, sizeof key, "%s(%d)", nm[f], e); violation(key, "%s(%d) is %d, exactly %d [%s]", nm[f], e, g, want, s.cfg.c_str()); if (stopped()) return; }
            if (e == R / 3 && want_sample()) sample("%s(%d) = %d [%s]", nm[f], e, g, s.cfg.c_str());
        }
        ++me->beat; u64 n = 2 * (u64)R + 1; if (u < 3) add(CS, n); add(CT, n); add(CJ, n); add(c_log, n);
    });
}
// ------------------------------------------------------------------------------------------------ C18
static Z cache_exact(int k, int Q) {
    if (k >= 0) { Z v = p5(k); int n = bitlen(v); if (n <= Q) return v << (Q - n); return v >> (n - Q); }
    // 10^k = 2^k / 5^-k: top Q bits, rounded up
    Z d = p5(-k); int n = bitlen(d); Z q = (one << (n + Q - 1)) / d;       // 2^(n-1) < d < 2^n for -k > 0: 2^(Q-1) < q < 2^Q
    return q + 1;
}
static void caches() {
    auto v = of("cache"); if (v.empty()) { note("power-of-ten tables not reachable in this tree"); return; }
    run_units(v.size() * 2, [&](u64 u) {
        const Seam& s = *v[u / 2]; int f = u % 2 ? 8 : 4; auto info = s.fn<int (*)(int, int)>("mc_info"); auto get = s.fn<void (*)(int, int, u64*, u64*)>("mc_cache");
        int alpha = info(f, 0), mn = info(f, 2), mx = info(f, 3), Q = info(f, 4);
        const char* fn = f == 4 ? "float" : "double"; what("cache %s [%s]", fn, s.cfg.c_str());
        for (int k = mn; k <= mx; ++k) {
            u64 h = 0, l = 0; me->cursor = (u64)(unsigned)k; me->phase = 1; get(f, k, &h, &l); me->phase = 0;
            Z w = cache_exact(k, Q); Z g = h; if (f == 8) { g <<= 64; g += l; }
            if (g != w) { char key[80]; snprintf(key, sizeof key, "cache %s 10^%d", fn, k); violation(key, "%s cache entry for 10^%d is %016llx %016llx, exactly %016llx %016llx", fn, k, (unsigned long long)h, (unsigned long long)l, (unsigned long long)lo64(f == 8 ? Z(w >> 64) : w), (unsigned long long)(f == 8 ? lo64(w) : 0)); if (stopped()) return; }
            if ((k == -7 || k == 11) && want_sample()) sample("%s 10^%d: %016llx %016llx", fn, k, (unsigned long long)h, (unsigned long long)l);
            add(c_cache, 1); add(CS, 1); add(CT, 1); add(CJ, 1);
        }
        const int p = f == 4 ? 23 : 52, q = f * 8, bias = f == 4 ? 150 : 1075, nex = f == 4 ? 255 : 2047;
        for (int ex = 0; ex < nex; ++ex) {
            int e = (ex ? ex : 1) - bias - (q - p - 1), k = -floor_log10_2(e + 1 - alpha);
            if (k < mn || k > mx) { char key[80]; snprintf(key, sizeof key, "lookup %s %d", fn, ex); violation(key, "%s exponent field %d needs 10^%d, outside the table [%d,%d]", fn, ex, k, mn, mx); }
            add(c_lookup, 1); add(CS, 1); add(CT, 1); add(CJ, 1);
        }
        ++me->beat;
    });
}
// ------------------------------------------------------------------------------------------------ C19 / C20 helpers
struct Exp { int fmt, ex, e, minus_k, minus_beta; };
static std::vector<Exp> exps(const Seam& info) {
    auto in = info.fn<int (*)(int, int)>("mc_info"); std::vector<Exp> r;
    for (int f = 4; f <= 8; f += 4) {
        int alpha = in(f, 0); const int p = f == 4 ? 23 : 52, q = f * 8, bias = f == 4 ? 150 : 1075, nex = f == 4 ? 255 : 2047;
        for (int ex = 0; ex < nex; ++ex) { int e = (ex ? ex : 1) - bias - (q - p - 1); int mk = floor_log10_2(e + 1 - alpha); r.push_back({ f, ex, e, mk, -(e + floor_log2_10(-mk) + 1) }); }
    }
    return r;
}
// exact floor of f * 2^e * 10^-mk
struct Frac { Z num; int sh; Z den; };       // f * num * 2^sh / den
static Frac frac_of(int e, int mk) { Frac r; r.sh = e - mk; r.num = mk <= 0 ? p5(-mk) : one; r.den = mk > 0 ? p5(mk) : one; return r; }
static Z floor_mul(const Frac& x, const Z& f) { Z n = f * x.num, d = x.den; if (x.sh >= 0) n <<= x.sh; else d <<= -x.sh; return n / d; }
static bool integral(int e, int mk, int v2, int v5, int half = 0) { return v2 + e - mk + half >= 0 && v5 >= mk; }
static int v2of(u128 f) { int n = 0; while (!(f & 1)) { f >>= 1; ++n; } return n; }
static int v5of(u128 f) { int n = 0; while (f % 5 == 0) { f /= 5; ++n; } return n; }

// double: every significand of exponent field ex with f 2^e 10^-mk, (f+1/2) 2^e 10^-mk (in units of the last place)
// close to an integer on either side, and the window/sparse alphabets
static std::vector<u64> near_integers(int ex, int mk, double per, u64 cap) {
    typedef fmt<double> T; std::vector<u64> v; const int e = (ex ? ex : 1) - T::bias; const u64 lo = ex ? u64(1) << 52 : 1, n = ex ? u64(1) << 52 : (u64(1) << 52) - 1;
    u128 W = (u128)(per / (double)n * 0x1p100); W <<= (gen::FB - 100); if (W > gen::MOD / 4) W = gen::MOD / 4;
    u128 A = gen::fracpow(e, mk), H = gen::fracpow(e - 1, mk), B0 = (A * (u128)lo) & (gen::MOD - 1);
    for (int rel = 0; rel < 3; ++rel) {
        u128 B = ((rel == 0 ? B0 : rel == 1 ? B0 + H : B0 + gen::MOD - H) + W / 2) & (gen::MOD - 1);
        auto put = [&](u64 f) { v.push_back(f); if (f > lo) v.push_back(f - 1); if (f < lo + n - 1) v.push_back(f + 1); };
        if (!gen::hits(A, B, W, n, cap, [&](u64 x) { put(lo + x); })) { u128 Bt = (B + A * (u128)(n - 1)) & (gen::MOD - 1), An = (gen::MOD - A) & (gen::MOD - 1); gen::hits(An, Bt, W, n, cap, [&](u64 x) { put(lo + n - 1 - x); }); }
    }
    std::vector<u64> w; gen::windows<double>(ex ? ex : 0, 64, w); gen::twobits<double>(ex ? ex : 0, w, 2); alpha::lattice<double>(ex ? ex : 0, 512, w);
    for (u64 b : w) { u64 f = (b & ((u64(1) << 52) - 1)) | (ex ? u64(1) << 52 : 0); if (f) v.push_back(f); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
// ------------------------------------------------------------------------------------------------ C19
static void muls() {
    auto vc = of("cache"), vm = of("mul"), vu = of("umul");
    if (vm.empty() || vc.empty()) note("scaled product not reachable on its own in this tree");
    if (vu.empty()) note("wide multiplications not reachable on their own in this tree");
    std::vector<Exp> xs; if (!vm.empty() && !vc.empty()) xs = exps(*vc[0]);
    const u64 NX = xs.size() * (vm.empty() ? 0 : 1);
    std::vector<u64> limb; { u64 h[] = { 0, 1, 2, 3, 5, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xaaaaaaaa, 0x55555555, 0xfffffffd, 0xfffffffe, 0xffffffff }; for (u64 a : h) for (u64 b : h) limb.push_back(a << 32 | b); for (int i = 0; i < 64; ++i) { limb.push_back(u64(1) << i); limb.push_back((u64(1) << i) - 1); limb.push_back(~u64(0) << i); } std::sort(limb.begin(), limb.end()); limb.erase(std::unique(limb.begin(), limb.end()), limb.end()); }
    run_units(NX * vm.size() + vu.size() * limb.size(), [&](u64 u) {
        if (u >= NX * vm.size()) {
            u64 t = u - NX * vm.size(); const Seam& s = *vu[t / limb.size()]; u64 x = limb[t % limb.size()];
            auto f128 = s.fn<void (*)(u64, u64, u64*, u64*, u64*)>("mc_umul128"); auto f192 = s.fn<u64 (*)(u64, u64, u64)>("mc_umul192"); auto f96 = s.fn<u32 (*)(u32, u64)>("mc_umul96");
            what("wide multiplication [%s]", s.cfg.c_str()); me->cursor = x; u64 n = 0;
            auto bad = [&](const char* nm, u64 y, u64 z) { char key[120]; snprintf(key, sizeof key, "%s %llx %llx %llx", nm, (unsigned long long)x, (unsigned long long)y, (unsigned long long)z); violation(key, "%s(%llx, %llx %llx) is wrong [%s]", nm, (unsigned long long)x, (unsigned long long)y, (unsigned long long)z, s.cfg.c_str()); };
            for (u64 y : limb) {
                u64 h, l, up; me->phase = 1; f128(x, y, &h, &l, &up); me->phase = 0; u128 w = (u128)x * y; ++n;
                if (h != (u64)(w >> 64) || l != (u64)w || up != h) bad("umul128", y, 0);
                { u32 x4 = (u32)x; u32 g = f96(x4, y); ++n; if (g != (u32)(((u128)x4 * y) >> 64)) bad("umul96_upper32", y, 0); }
                for (u64 z : limb) { u64 g = f192(x, y, z); u128 m = (u128)x * y + (((u128)x * z) >> 64); ++n; if (g != (u64)(m >> 64)) { bad("umul192_upper64", y, z); } if (stopped()) return; }
            }
            ++me->beat; add(c_umul, n); add(CS, n); add(CT, n); add(CJ, n); return;
        }
        const Seam& s = *vm[u / NX]; Exp x = xs[u % NX]; bool primary = u / NX == 0;
        auto mul = s.fn<void (*)(int, int, int, const u64*, u64*, size_t)>("mc_mul"); auto delta = s.fn<u32 (*)(int, int, int, int, int)>("mc_delta");
        const char* fn = x.fmt == 4 ? "float" : "double"; const int p = x.fmt == 4 ? 23 : 52, q = x.fmt * 8, sh = q - p - 1;
        what("scaled product %s exponent field %d [%s]", fn, x.ex, s.cfg.c_str());
        static u64 in[4096], out[4096]; Frac fr = frac_of(x.e, x.minus_k);
        auto bad = [&](u64 f, u64 g, u64 w, int half) { char key[120]; snprintf(key, sizeof key, "mul %s %d %llx %d", fn, x.ex, (unsigned long long)f, half); violation(key, "%s exponent field %d, significand %llx: scaled product is %llu, exactly %llu [%s]", fn, x.ex, (unsigned long long)f, (unsigned long long)g, (unsigned long long)w, s.cfg.c_str()); };
        if (x.fmt == 4 && (primary || thorough())) {             // every significand of the binade: centre, right and left half units
            u64 lo = x.ex ? u64(1) << p : 1, hi = x.ex ? u64(1) << (p + 1) : u64(1) << p;
            for (int half = -1; half <= 1; ++half) {
                Z S = (Z(1) << sh) * fr.num, D = fr.den, N = ((Z(lo) << sh) + (half * (Z(1) << (sh - 1)))) * fr.num;
                if (fr.sh >= 0) { S <<= fr.sh; N <<= fr.sh; } else D <<= -fr.sh;
                // exact quotient and remainder carried along; the denominators fit in 126 bits for binary32
                auto to128 = [](const Z& z) { return (u128)lo64(Z(z >> 64)) << 64 | lo64(z); };
                int dl = bitlen(D); Z sc = 1; if (dl > 126) { note("denominator too wide"); return; }
                u128 d = to128(D), r = to128(Z(N % D)), dr = to128(Z(S % D)); u64 qn = lo64(Z(N / D)), dq = lo64(Z(S / D));
                for (u64 f = lo; f < hi; f += 4096) {
                    int n = (int)std::min<u64>(4096, hi - f); for (int i = 0; i < n; ++i) in[i] = ((f + i) << sh) + (half == 1 ? u64(1) << (sh - 1) : half == -1 ? -(u64(1) << (sh - 1)) : 0);
                    me->cursor = in[0]; { Inside y; mul(4, -x.minus_k, x.minus_beta, in, out, (size_t)n); }
                    for (int i = 0; i < n; ++i) { if (out[i] != qn) { bad(in[i], out[i], qn, half); if (stopped()) return; } qn += dq; r += dr; if (r >= d) { r -= d; ++qn; } }
                }
                u64 n = hi - lo; add(CS, n); add(CT, n); add(CJ, n); add(c_mul, n);
            }
        } else {
            auto v = x.fmt == 8 ? near_integers(x.ex, x.minus_k, thorough() ? 2048 : 256, thorough() ? 4096 : 512) : std::vector<u64>();
            if (x.fmt == 4) for (u64 f = x.ex ? u64(1) << p : 1, i = 0; i < 4096; ++i) v.push_back(f + (i * 2039) % (u64(1) << p));
            for (int half = -1; half <= 1; ++half) for (size_t i = 0; i < v.size(); i += 4096) {
                int n = (int)std::min<size_t>(4096, v.size() - i); for (int j = 0; j < n; ++j) in[j] = (v[i + j] << sh) + (half == 1 ? u64(1) << (sh - 1) : half == -1 ? -(u64(1) << (sh - 1)) : 0);
                me->cursor = in[0]; { Inside y; mul(x.fmt, -x.minus_k, x.minus_beta, in, out, (size_t)n); }
                for (int j = 0; j < n; ++j) { Z w = floor_mul(fr, Z(in[j])); if (w != out[j]) { bad(in[j], out[j], lo64(w), half); if (stopped()) return; } }
                add(CS, primary ? n : 0); add(CT, n); add(CJ, n); add(c_mul, n);
            }
            if (want_sample() && !v.empty()) sample("%s exponent field %d: %zu significands x 3, floor(f 2^%d 10^%d) exact", fn, x.ex, v.size(), x.e, -x.minus_k);
        }
        // interval widths
        for (int kind = 0; kind < 3; ++kind) for (int edge = 0; edge < 2; ++edge) for (int half = 0; half < (kind == 1 ? 2 : 1); ++half) {
            if (edge && (x.ex <= 1 || kind == 1)) continue;      // binade minimum above the subnormals only
            // width in units of the last place x4: nearest 4 (edge 3), left-closed 4 (or half of it), right-closed 4 (edge 2)
            int w4 = kind == 0 ? (edge ? 3 : 4) : kind == 1 ? (half ? 2 : 4) : edge ? 2 : 4;
            me->phase = 1; u32 g = delta(x.fmt, kind, edge, -x.minus_k, x.minus_beta + half); me->phase = 0;
            Z w = floor_mul(fr, Z(w4) << (sh - 2));
            if (w != g) { char key[120]; snprintf(key, sizeof key, "width %s %d kind %d edge %d half %d", fn, x.ex, kind, edge, half); violation(key, "%s exponent field %d, interval kind %d%s%s: width is %u, exactly %llu [%s]", fn, x.ex, kind, edge ? ", binade minimum" : "", half ? ", half" : "", g, (unsigned long long)lo64(w), s.cfg.c_str()); if (stopped()) return; }
            add(c_delta, 1); add(CS, primary ? 1 : 0); add(CT, 1); add(CJ, 1);
        }
        ++me->beat;
    });
}
// ------------------------------------------------------------------------------------------------ C20
static void ints() {
    auto vc = of("cache"), ve = of("eqfrac"), vi = of("intcheck"), vd = of("div");
    if (ve.empty()) note("end point integrality test not reachable in this tree"); if (vi.empty()) note("integrality test not reachable on its own in this tree"); if (vd.empty()) note("divisibility tests not reachable on their own in this tree");
    struct J { const Seam* s; int what; Exp x; int kind; };      // what 0 eqfrac, 1 intcheck, 2 div5/div2
    std::vector<J> js; std::vector<Exp> xs; if (!vc.empty()) xs = exps(*vc[0]); else { ve.clear(); vi.clear(); }
    for (auto s : vi) for (auto& x : xs) for (int k = 0; k < 3; ++k) if (k < 2 || x.fmt == 4) js.push_back({ s, 1, x, k });
    for (auto s : ve) for (auto& x : xs) for (int k = 0; k < 2; ++k) js.push_back({ s, 0, x, k });
    for (auto s : vd) for (int b = 0; b < 64; ++b) js.push_back({ s, 2, { b < 32 ? 4 : 8, b % 32, 0, 0, 0 }, 0 });
    run_units(js.size(), [&](u64 u) {
        J& j = js[u]; const Seam& s = *j.s; Exp& x = j.x; const char* fn = x.fmt == 4 ? "float" : "double"; const int p = x.fmt == 4 ? 23 : 52, q = x.fmt * 8, sh = q - p - 1;
        if (j.what == 2) {
            auto sz = s.fn<int (*)(int)>("mc_div5_size"); auto d5 = s.fn<int (*)(int, u64, unsigned)>("mc_div5"); auto d2 = s.fn<int (*)(int, u64, int)>("mc_div2");
            what("divisibility %s [%s]", fn, s.cfg.c_str()); int bits = q; u64 maxv = bits == 32 ? 0xffffffffu : ~u64(0), n = 0; int e = x.ex;
            auto test5 = [&](u64 v, unsigned k, u64 pw) { me->cursor = v; me->phase = 1; int g = d5(bits, v, k); me->phase = 0; ++n; if (g != (v % pw == 0)) { char key[100]; snprintf(key, sizeof key, "div5 %d %llx %u", bits, (unsigned long long)v, k); violation(key, "divisible_by_power_of_5<%d>(%llu, %u) is %d [%s]", bits, (unsigned long long)v, k, g, s.cfg.c_str()); } };
            if (e >= 1 && e < sz(bits) && e <= (bits == 32 ? 10 : 23)) {      // powers a significand, doubled and odd, can be a multiple of
                u64 pw = 1; for (int i = 0; i < e; ++i) pw *= 5; u64 top = maxv / pw;
                u64 M = thorough() ? 4000000 : 200000;
                for (u64 m = 0; m < M && !stopped(); ++m) { u64 ms[] = { m, top - m, top / 2 + m, m * (top / M + 1) }; for (u64 t : ms) if (t <= top) { test5(t * pw, (unsigned)e, pw); if (t) test5(t * pw - 1, (unsigned)e, pw); if (t * pw < maxv) test5(t * pw + 1, (unsigned)e, pw); } if (m < 64) { test5(u64(1) << (m % bits), (unsigned)e, pw); test5(maxv - m, (unsigned)e, pw); } }
            }
            for (int k = 1 + e * (bits / 16); k < 1 + (e + 1) * (bits / 16) && k < (bits == 32 ? 64 : 128); ++k) for (int i = 0; i < bits; ++i) for (int t = -1; t < bits; ++t) for (int w = -1; w < t; ++w) {       // all values with up to three set bits, and all ones above a bit
                u64 v = (u64(1) << i) | (t >= 0 ? u64(1) << t : 0) | (w >= 0 ? u64(1) << w : 0); v &= maxv; if (!v) continue;
                auto chk = [&](u64 v) { me->cursor = v; me->phase = 1; int g = d2(bits, v, k); me->phase = 0; ++n; int want = __builtin_ctzll(v) >= k; if (g != want) { char key[100]; snprintf(key, sizeof key, "div2 %d %llx %d", bits, (unsigned long long)v, k); violation(key, "divisible_by_power_of_2<%d>(%llx, %d) is %d [%s]", bits, (unsigned long long)v, k, g, s.cfg.c_str()); } };
                chk(v); if (t < 0) { chk((maxv << i) & maxv); } if (stopped()) return;
            }
            ++me->beat; add(c_div, n); add(CS, n); add(CT, n); add(CJ, n); return;
        }
        auto fe = (void (*)(int, int, int, int, const u64*, unsigned char*, size_t))dlsym(s.h, j.what == 0 ? "mc_eqfrac" : "mc_intcheck"); if (!fe) exit(3);
        what("integrality %s exponent field %d kind %d.%d [%s]", fn, x.ex, j.what, j.kind, s.cfg.c_str());
        static u64 in[4096]; static unsigned char out[4096]; u64 nt = 0, nf = 0;
        // which f: eqfrac nearest = left end (f - 1/2 ulp, 1/4 at a binade minimum), eqfrac left-closed = centre; intcheck 0 = right end (f + 1/2), 1 = centre and next number, 2 = centre doubled
        auto scaled = [&](u64 f) -> u64 { if (j.what == 0 && j.kind == 0) return (f << sh) - ((f == u64(1) << p) && x.ex > 1 ? u64(1) << (sh - 2) : u64(1) << (sh - 1)); if (j.what == 1 && j.kind == 0) return (f << sh) + (u64(1) << (sh - 1)); return f << sh; };
        const int dbl = j.what == 1 && j.kind == 2;
        auto block = [&](int n) {
            me->cursor = in[0]; { Inside y; fe(x.fmt, j.kind, x.e, x.minus_k, in, out, (size_t)n); }
            for (int i = 0; i < n; ++i) {
                // an overflowed right end is 2^q
                u128 v = in[i] ? (u128)in[i] : (u128)1 << q; bool want = v2of(v) + x.e - x.minus_k + dbl >= 0 && (x.minus_k <= 0 || v5of(v) >= x.minus_k);
                (want ? nt : nf)++;
                if ((bool)out[i] != want) { char key[120]; snprintf(key, sizeof key, "integral %s %d %llx %d.%d", fn, x.ex, (unsigned long long)in[i], j.what, j.kind); violation(key, "%s exponent field %d: %llx * 2^%d * 10^%d %s an integer, the test says otherwise [%s]", fn, x.ex, (unsigned long long)in[i], x.e + dbl, -x.minus_k, want ? "is" : "is not", s.cfg.c_str()); if (stopped()) return; }
            }
        };
        u64 total = 0; const bool full = x.fmt == 4 && (thorough() || s.cfg == "gcc-O2");
        if (full) {
            u64 lo = x.ex ? u64(1) << p : 1, hi = x.ex ? u64(1) << (p + 1) : u64(1) << p; bool over = j.what == 1 && j.kind == 1;
            for (u64 f = lo; f < hi + (over ? 1 : 0) && !stopped(); f += 4096) { int n = (int)std::min<u64>(4096, hi + (over ? 1 : 0) - f); for (int i = 0; i < n; ++i) in[i] = scaled(f + i) & 0xffffffffu; block(n); total += n; }
        } else {
            std::vector<u64> v; if (x.fmt == 8) v = near_integers(x.ex, x.minus_k, thorough() ? 512 : 128, thorough() ? 4096 : 1024); else for (u64 i = 0; i < 8192; ++i) v.push_back((x.ex ? u64(1) << p : 1) + (i * 1021) % ((u64(1) << p) - 1));
            // multiples of 5^minus_k and their neighbours, from both ends (also of odd multiples for half units)
            if (x.minus_k > 0 && x.minus_k <= 23) { u64 pw = 1; for (int i = 0; i < x.minus_k; ++i) pw *= 5; u64 lo = x.ex ? u64(1) << p : 1, hi = x.ex ? u64(1) << (p + 1) : u64(1) << p;
                for (u64 m = 0; m < 512; ++m) { u64 c[] = { (lo / pw + m) * pw, (hi / pw - m) * pw, (lo / pw + m) * pw + pw / 2, (hi / pw - m) * pw - pw / 2 }; for (u64 f : c) for (int d = -1; d <= 1; ++d) if (f + d >= lo && f + d < hi) v.push_back(f + d); } }
            if (j.what == 1 && j.kind == 1 && x.ex) v.push_back(u64(1) << (p + 1));
            for (size_t i = 0; i < v.size() && !stopped(); i += 4096) { int n = (int)std::min<size_t>(4096, v.size() - i); for (int k = 0; k < n; ++k) { in[k] = scaled(v[i + k]); if (x.fmt == 4) in[k] &= 0xffffffffu; } block(n); total += n; }
        }
        add(CS, total); add(CT, total); add(CJ, total); add(c_true, nt); add(c_false, nf);
        if (want_sample()) sample("%s exponent field %d kind %d.%d: %llu arguments, %llu integral", fn, x.ex, j.what, j.kind, (unsigned long long)total, (unsigned long long)nt);
        ++me->beat;
    });
}
// ------------------------------------------------------------------------------------------------ is this still the documented function?
// A seam judges the helper by the meaning documented at the pinned commit.  Should a later tree reorganise its internals and
// keep a name for something else, the helper disagrees with that meaning almost everywhere (while the project's own tests, which
// run the same helper, pass); the seam is then left out with a note.  Only the configuration that the project's tests also run
// is asked; a helper that is right most of the time is the documented one, and then every disagreement is a violation.
struct Tally { u64 ok[2] = {}, bad[2] = {}; void see(bool good, int cls = 0) { (good ? ok : bad)[cls]++; } bool same() const { for (int c = 0; c < 2; ++c) if (bad[c] > ok[c]) return false; return true; } };
static bool offers(const Seam& s) {
    pid_t pid = fork(); if (pid < 0) exit(3);
    if (pid == 0) {
        freopen("/dev/null", "w", stderr); alarm(60); Tally t; bool same = true;
        auto close = [&]() { same = same && t.same(); t = Tally(); };
        if (s.kind == "log") { auto fn = s.fn<int (*)(int, int)>("mc_log");
            for (int w = 0; w < 6; ++w) { int R = w % 3 == 1 ? 320 : 600; for (int e = -R; e <= R; e += 7) { int want = w % 3 == 0 ? floor_log10_2(e) : w % 3 == 1 ? floor_log2_10(e) : 0;
                if (w % 3 == 2) { int a = std::abs(e), n = 0; while (bitlen(p5(n + 1)) <= a) ++n; want = e < 0 ? -n - 1 : n; }
                t.see(fn(w, e) == want); } close(); } }
        else if (s.kind == "cache") { auto info = s.fn<int (*)(int, int)>("mc_info"); auto get = s.fn<void (*)(int, int, u64*, u64*)>("mc_cache");
            if (prop == "C18") for (int f = 4; f <= 8; f += 4) { int mn = info(f, 2), mx = info(f, 3), Q = info(f, 4); if (Q != (f == 4 ? 64 : 128)) same = false; for (int k = mn; same && k <= mx; k += 3) { u64 h = 0, l = 0; get(f, k, &h, &l); Z g = h; if (f == 8) { g <<= 64; g += l; } t.see(g == cache_exact(k, Q)); } close(); }
            else for (int f = 4; f <= 8; f += 4) same = same && info(f, 0) <= 0 && info(f, 0) > -200; }
        else if (s.kind == "umul") { auto f128 = s.fn<void (*)(u64, u64, u64*, u64*, u64*)>("mc_umul128"); auto f192 = s.fn<u64 (*)(u64, u64, u64)>("mc_umul192"); auto f96 = s.fn<u32 (*)(u32, u64)>("mc_umul96"); u64 x = 1, y = 2, z = 3;
            for (int i = 0; i < 300; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; y = (y ^ x >> 9) * 0x9e3779b97f4a7c15ull; z = z * 25214903917ull + y; u64 h, l, up; f128(x, y, &h, &l, &up); u128 w = (u128)x * y; t.see(h == (u64)(w >> 64) && l == (u64)w && up == h); } close();
            for (int i = 0; i < 300; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; y = (y ^ x >> 9) * 0x9e3779b97f4a7c15ull; z = z * 25214903917ull + y; u128 m = (u128)x * y + (((u128)x * z) >> 64); t.see(f192(x, y, z) == (u64)(m >> 64)); } close();
            for (int i = 0; i < 300; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; y = (y ^ x >> 9) * 0x9e3779b97f4a7c15ull; u32 a = (u32)(x >> 32); t.see(f96(a, y) == (u32)(((u128)a * y) >> 64)); } close(); }
        else if (s.kind == "div") { auto sz = s.fn<int (*)(int)>("mc_div5_size"); auto d5 = s.fn<int (*)(int, u64, unsigned)>("mc_div5"); auto d2 = s.fn<int (*)(int, u64, int)>("mc_div2");
            for (int b = 32; b <= 64; b += 32) { u64 pw = 5; for (int k = 1; k < sz(b) && k <= (b == 32 ? 10 : 23); ++k, pw *= 5) { u64 mx = b == 32 ? 0xffffffffu : ~u64(0); for (u64 i = 1; i < 40; ++i) { u64 v = mx / pw / i * pw; t.see(d5(b, v, (unsigned)k) == 1, 1); t.see(d5(b, v - 1, (unsigned)k) == 0, 0); } } close();
                for (int k = 1; k < b; ++k) for (int i = 0; i < b; ++i) { u64 v = u64(1) << i | u64(1) << (b - 1); int w = i >= k; t.see(d2(b, v, k) == w, w); } close(); } }
        else {
            const Seam* c = nullptr; for (auto& q : seams) if (q.kind == "cache" && q.cfg == s.cfg) c = &q; if (!c) _exit(0);
            auto xs = exps(*c); auto mul = (void (*)(int, int, int, const u64*, u64*, size_t))dlsym(s.h, "mc_mul"); auto eq = (void (*)(int, int, int, int, const u64*, unsigned char*, size_t))dlsym(s.h, s.kind == "eqfrac" ? "mc_eqfrac" : "mc_intcheck");
            for (int f = 4; f <= 8; f += 4) for (int kind = 0; kind < (s.kind == "mul" ? 1 : s.kind == "intcheck" && f == 4 ? 3 : 2); ++kind) {
                for (auto& x : xs) { if (x.fmt != f) continue; const int p = f == 4 ? 23 : 52, sh = f * 8 - p - 1; Frac fr = frac_of(x.e, x.minus_k);
                    for (int i = 0; i < 12; ++i) { u64 sig = (x.ex ? u64(1) << p : 0) | ((0x9e3779b97f4a7c15ull * (x.ex * 31 + i + 1)) & ((u64(1) << p) - 1)); if (i & 1 && x.minus_k > 0 && x.minus_k < 20) { u64 pw = 1; for (int k = 0; k < x.minus_k; ++k) pw *= 5; if (pw < (u64(1) << p)) sig = sig / pw * pw; }
                        if (i % 4 == 2) sig &= ~((u64(1) << (p - 8)) - 1); if (!sig) sig = 1; if (x.ex && sig < (u64(1) << p)) sig += u64(1) << p; if (sig == u64(1) << p && x.ex) sig += 2;
                        if (mul) { u64 in = sig << sh, out = 0; mul(f, -x.minus_k, x.minus_beta, &in, &out, 1); t.see(floor_mul(fr, Z(in)) == out); }
                        else if (eq) { u64 in = s.kind == "eqfrac" && kind == 0 ? (sig << sh) - (u64(1) << (sh - 1)) : s.kind == "intcheck" && kind == 0 ? (sig << sh) + (u64(1) << (sh - 1)) : sig << sh; if (f == 4) in &= 0xffffffffu; unsigned char out = 0; eq(f, kind, x.e, x.minus_k, &in, &out, 1);
                            u128 v = in ? (u128)in : (u128)1 << f * 8; int want = v2of(v) + x.e - x.minus_k + (s.kind == "intcheck" && kind == 2) >= 0 && (x.minus_k <= 0 || v5of(v) >= x.minus_k); t.see((bool)out == (bool)want, want); } } }
                close(); }
            if (mul) { auto delta = s.fn<u32 (*)(int, int, int, int, int)>("mc_delta"); for (auto& x : xs) { const int p = x.fmt == 4 ? 23 : 52, sh = x.fmt * 8 - p - 1; if (x.ex > 1) t.see(floor_mul(frac_of(x.e, x.minus_k), Z(1) << sh) == delta(x.fmt, 0, 0, -x.minus_k, x.minus_beta)); } close(); }
        }
        _exit(same ? 0 : 1);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void keep_documented() {
    std::vector<std::string> gone;
    for (auto& s : seams) if (s.cfg == "gcc-O2" && !offers(s)) gone.push_back(s.kind);
    for (auto& k : gone) { note("the helper behind seam '%s' no longer has the documented meaning in this tree: left out", k.c_str()); seams.erase(std::remove_if(seams.begin(), seams.end(), [&](const Seam& s) { return s.kind == k; }), seams.end()); }
    std::string left; for (auto& s : seams) if ((" " + left + " ").find(" " + s.kind + " ") == std::string::npos) left += (left.empty() ? "" : " ") + s.kind;
    extra["seams_explored"] = "\"" + left + "\"";
}
int main(int argc, char** argv) {
    double t0 = now(); if (argc < 4) return 3;
    prop = argv[1]; tier = argv[2]; init(); base_counters(); p5(1);
    for (int i = 4; i < argc; ++i) { std::string a = argv[i]; size_t e = a.find('='), c = a.find(':'); if (e == std::string::npos || c > e) return 3; Seam s{ a.substr(0, c), a.substr(c + 1, e - c - 1), dlopen(a.substr(e + 1).c_str(), RTLD_NOW | RTLD_LOCAL) }; if (!s.h) { fprintf(stderr, "%s\n", dlerror()); return 3; } seams.push_back(s); }
    c_log = counter("logarithm_values"); c_cache = counter("cache_entries"); c_lookup = counter("exponent_fields_looked_up"); c_mul = counter("scaled_products"); c_delta = counter("interval_widths"); c_umul = counter("wide_products");
    c_true = counter("integral_arguments"); c_false = counter("non_integral_arguments"); c_div = counter("divisibility_answers");
    keep_documented();
    if (prop == "C17") logs(); else if (prop == "C18") caches(); else if (prop == "C19") muls(); else ints();
    return finish(argv[3], t0);
}
