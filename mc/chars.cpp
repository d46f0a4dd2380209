// Printing properties C08, C09, C10, C11 on the real printer.
//   chars <property> <tier> <result.json> gcc-O2=lib.so [seam=lib.so]
#include "alpha.hpp"
#include "lib.hpp"
using namespace ref; using namespace core;
static std::string prop; static Lib lib;
typedef char* (*seam32)(u32, int, char*); typedef char* (*seam64)(u64, int, char*);
static seam32 s32 = nullptr; static seam64 s64 = nullptr;
struct Combo { int m, c; };
static int c_len, c_special, c_seam, c_full, c_alpha, c_rot;
template <class F> const char* fname() { return sizeof(F) == 4 ? "float" : "double"; }
template <class F> constexpr int MAXLEN = sizeof(F) == 4 ? 15 : 24;

// canonical text of s * 10^k (reference printer)
static int canon(bool neg, u64 s, int k, char* o) {
    char d[24]; int n = 0, p = 0; for (u64 t = s; t; t /= 10) d[n++] = (char)('0' + t % 10);
    if (neg) o[p++] = '-';
    o[p++] = d[n - 1];
    if (n > 1) { o[p++] = '.'; for (int i = n - 2; i >= 0; --i) o[p++] = d[i]; }
    o[p++] = 'E';
    int e = k + n - 1; if (e < 0) { o[p++] = '-'; e = -e; }
    char x[8]; int m = 0; do { x[m++] = (char)('0' + e % 10); e /= 10; } while (e);
    while (m) o[p++] = x[--m];
    return p;
}
// strict reader of the same grammar: false if the text is not of the form -?D(.D+)?E-?N
static bool parse(const char* p, const char* e, bool& neg, u64& s, int& k) {
    neg = false; s = 0; k = 0; int nd = 0, frac = 0;
    if (p < e && *p == '-') { neg = true; ++p; }
    if (p >= e || *p < '0' || *p > '9') return false;
    s = (u64)(*p++ - '0'); nd = 1;
    if (p < e && *p == '.') {
        ++p; while (p < e && *p >= '0' && *p <= '9') { if (nd >= 19) return false; s = s * 10 + (u64)(*p++ - '0'); ++nd; ++frac; }
        if (!frac) return false;
    }
    if (p >= e || *p++ != 'E') return false;
    bool en = false; if (p < e && *p == '-') { en = true; ++p; }
    if (p >= e) return false;
    int x = 0, xd = 0; while (p < e && *p >= '0' && *p <= '9' && xd < 4) { x = x * 10 + (*p++ - '0'); ++xd; }
    if (!xd || p != e) return false;
    k = (en ? -x : x) - frac; return true;
}
static void bad(const char* fmtname, u64 bits, const Combo& cb, const char* got, int n, const char* why) {
    char key[160]; snprintf(key, sizeof key, "%s %s %s 0x%llx", fmtname, mode_name[cb.m], crs_name[cb.c], (unsigned long long)bits);
    char t[64]; int m = n < 0 ? 0 : n > 40 ? 40 : n; memcpy(t, got, (size_t)m); t[m] = 0;
    violation(key, "%s bits 0x%llx mode %s policy %s: printed \"%s\" (length %d): %s", fmtname, (unsigned long long)bits, mode_name[cb.m], crs_name[cb.c], t, n, why);
}
static void lenstat(int n) { if (n >= 1 && n <= 24) add(c_len + n - 1, 1); }

// two guarded regions: [none][page][none]; text may be placed flush against either guard
static char* page; static const size_t PG = 4096;
static void mkpage() { page = (char*)mmap(nullptr, 3 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(page + PG, PG, PROT_READ | PROT_WRITE); page += PG; }

template <class F> struct Work {
    typedef typename fmt<F>::U U; static constexpr int N = 512; Out out[N];
    void c08(const U* in, int n, const Combo& cb) {
        { Inside x; lib.batch<F>(cb.m, cb.c, 1)(in, out, n, &me->cursor); }
        for (int i = 0; i < n; ++i) {
            char w[64]; me->cursor = in[i];
            int wl = canon(in[i] >> (fmt<F>::p + fmt<F>::eb), out[i].sig, out[i].exp, w), len = 0; char b[64];
            for (int z = 1; z >= 0; --z) {       // with and without terminator
            memset(b, 1, sizeof b);
            char* e; { me->phase = 1; e = lib.chars<F>(cb.m, cb.c, z)(in[i], b); me->phase = 0; }
            len = (int)(e - b);
            if (len != wl || memcmp(b, w, (size_t)wl)) { w[wl] = 0; char why[120]; snprintf(why, sizeof why, "canonical form of %llue%d is \"%s\"", (unsigned long long)out[i].sig, out[i].exp, w); bad(fname<F>(), in[i], cb, b, len, why); if (stopped()) return; break; }
            }
            if (i == 0) { lenstat(len); if (want_sample()) sample("%s 0x%llx %s %s -> %.*s", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], crs_name[cb.c], len, b); }
        }
        ++me->beat; add(CT, 3 * (u64)n); add(CJ, 2 * (u64)n);
    }
    void c09(const U* in, int n, const Combo& cb) {
        for (int i = 0; i < n; ++i) {
            char b[64]; me->cursor = in[i];
            char* e; { me->phase = 1; e = lib.chars<F>(cb.m, cb.c, i & 1)(in[i], b); me->phase = 0; }
            bool neg; u64 s; int k; int len = (int)(e - b);
            if (len < 0 || len > 60 || !parse(b, e, neg, s, k)) { bad(fname<F>(), in[i], cb, b, len, "not of the form -D.DE-N"); if (stopped()) return; continue; }
            Geo g = geo<F>(in[i]); Interval iv = interval_of(cb.m, g);
            if (neg != g.neg || s == 0 || !::ref::in((int8_t)cmp10(s, k, left_of(g, iv.kind), g.q), (int8_t)cmp10(s, k, right_of(g, iv.kind), g.q), iv)) { bad(fname<F>(), in[i], cb, b, len, "does not read back to the same number"); if (stopped()) return; }
            if (i == 0) { lenstat(len); if (want_sample()) sample("%s 0x%llx %s %s -> %.*s reads back", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], crs_name[cb.c], len, b); }
        }
        ++me->beat; add(CT, n); add(CJ, n);
    }
    char last[32] = { 0 }; int last_len = 0;
    void c11(const U* in, int n, const Combo& cb) {
        if (!page) mkpage();
        auto call = [&](int z, U x, char* b) { me->phase = 1; char* e = lib.chars<F>(cb.m, cb.c, z)(x, b); me->phase = 0; return e; };
        u64 calls = 0;
        for (int i = 0; i < n; ++i) {
            me->cursor = in[i];
            char ref_[64]; memset(ref_, 0x7e, sizeof ref_);
            char* e0 = call(0, in[i], ref_ + 16); int len = (int)(e0 - (ref_ + 16)); ++calls;
            if (len < 1 || len > MAXLEN<F>) { bad(fname<F>(), in[i], cb, ref_ + 16, len, "length out of bounds"); if (stopped()) return; continue; }
            // canaries all around, different previous contents of the buffer: zeros, ones, a ramp, the text of the previous
            // input, its own text shifted by one, one rotating byte value, and on every 256th input all 256 byte values
            const int nf = (i & 255) == (n > 255 ? 77 : 0) ? 6 + 256 : 6;
            for (int z = 0; z < 2; ++z) for (int f = 0; f < nf; ++f) {
                unsigned char buf[96], was[96];
                for (int j = 0; j < 96; ++j) was[j] = (unsigned char)(f == 0 ? 0 : f == 1 ? 0xff : f == 2 || f == 3 || f == 4 ? 0x35 + 7 * j : f == 5 ? (me->cursor * 0x9e3779b97f4a7c15ull) >> 56 : f - 6);
                if (f == 3) memcpy(was + 32, last, (size_t)last_len);
                if (f == 4) memcpy(was + 33, ref_ + 16, (size_t)len);
                memcpy(buf, was, 96);
                char* b = (char*)buf + 32; char* e = call(z, in[i], b); ++calls;
                const char* why = nullptr;
                if (e - b != len) why = "returned end differs between calls";
                else if (memcmp(b, ref_ + 16, (size_t)len)) why = "text depends on the form of the call or on previous buffer contents";
                else if (z && b[len] != 0) why = "not NUL-terminated at the returned pointer";
                else for (int j = 0; j < 96 && !why; ++j) { int q = j - 32; if (q >= 0 && q < len + z) continue; if (buf[j] != was[j]) why = q < 0 ? "wrote before the buffer" : "wrote behind the text"; }
                if (why) { bad(fname<F>(), in[i], cb, b, (int)(e - b), why); if (stopped()) return; break; }
            }
            memcpy(last, ref_ + 16, (size_t)len); last_len = len;
            for (int z = 0; z < 2; ++z) {           // flush against unmapped pages on either side
                char* b = page + PG - (len + z); if (call(z, in[i], b) - b != len || memcmp(b, ref_ + 16, (size_t)len)) { bad(fname<F>(), in[i], cb, b, len, "differs at the end of a mapping"); if (stopped()) return; }
                b = page; if (call(z, in[i], b) - b != len || memcmp(b, ref_ + 16, (size_t)len)) { bad(fname<F>(), in[i], cb, b, len, "differs at the start of a mapping"); if (stopped()) return; }
                calls += 2;
            }
            lenstat(len);
            if (i == 0 && want_sample()) sample("%s 0x%llx %s %s -> %.*s: %d bytes, 17 placements", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], crs_name[cb.c], len, ref_ + 16, len);
        }
        ++me->beat; add(CT, calls); add(CJ, n);
    }
    void special(const U* in, int n, const Combo& cb) {
        const U inf = (U)((U(1) << fmt<F>::eb) - 1) << fmt<F>::p, sb = U(1) << (fmt<F>::p + fmt<F>::eb);
        for (int i = 0; i < n; ++i) {
            me->cursor = in[i]; bool neg = in[i] & sb; U mag = in[i] & ~sb;
            const char* w = mag == 0 ? (neg ? "-0E0" : "0E0") : mag == inf ? (neg ? "-Infinity" : "Infinity") : "NaN"; int wl = (int)strlen(w);
            for (int z = 0; z < 2; ++z) {
                char b[48]; memset(b, 0x55, sizeof b);
                me->phase = 1; char* e = lib.chars<F>(cb.m, cb.c, z)(in[i], b + 8); me->phase = 0;
                int len = (int)(e - (b + 8)); bool ok = len == wl && !memcmp(b + 8, w, (size_t)wl) && (!z || b[8 + wl] == 0);
                for (int j = 0; j < 48 && ok; ++j) if ((j < 8 || j >= 8 + wl + z) && b[j] != 0x55) ok = false;
                if (!ok) { char why[80]; snprintf(why, sizeof why, "expected \"%s\" and nothing else written", w); bad(fname<F>(), in[i], cb, b + 8, len, why); if (stopped()) return; }
            }
            if (i == n / 2 && want_sample()) sample("%s 0x%llx %s %s -> %s", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], crs_name[cb.c], w);
        }
        ++me->beat; add(CT, 2 * (u64)n); add(CJ, 2 * (u64)n); add(c_special, n);
    }
    void run(const U* in, int n, const std::vector<Combo>& cs, bool sp = false) {
        for (auto& cb : cs) {
            if (stopped()) return;
            what("print %s %s %s", fname<F>(), mode_name[cb.m], crs_name[cb.c]);
            if (sp && prop != "C11") special(in, n, cb); else if (prop == "C08") c08(in, n, cb); else if (prop == "C09") c09(in, n, cb); else c11(in, n, cb);
        }
    }
};
template <class F> Work<F>& work() { static Work<F> w; return w; }
template <class F> void run_all(const std::vector<typename fmt<F>::U>& v, const std::vector<Combo>& cs, bool both, bool sp = false) {
    typedef typename fmt<F>::U U; constexpr int N = Work<F>::N; static U buf[N];
    for (int sg = 0; sg <= (both ? 1 : 0); ++sg) for (size_t i = 0; i < v.size() && !stopped(); i += N) {
        int n = (int)std::min<size_t>(N, v.size() - i);
        for (int j = 0; j < n; ++j) buf[j] = v[i + j] | (sg ? U(1) << (fmt<F>::p + fmt<F>::eb) : U(0));
        work<F>().run(buf, n, cs, sp);
    }
}
template <class F> std::vector<typename fmt<F>::U> specials(int depth) {
    typedef fmt<F> T; typedef typename T::U U; std::vector<U> v, w; const U inf = (U)((U(1) << T::eb) - 1) << T::p;
    v.push_back(0); v.push_back(inf);
    std::vector<U> t; gen::twobits<F>(1, t, depth); gen::windows<F>(1, 4096, t); gen::narrow<F>(1, 14, t);
    for (U x : t) { U f = x & ((U(1) << T::p) - 1); if (f) v.push_back(inf | f); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    for (U x : v) { w.push_back(x); w.push_back(x | (U(1) << (T::p + T::eb))); }
    return w;
}
// the digit printer on its own: every significand of a block, against the reference printer
template <class F> void seam_block(u64 lo, u64 hi, u64 mul, u64 addend, int k) {
    u64 n = 0;
    what("digit printer %s", fname<F>());
    for (u64 i = lo; i < hi; ++i) {
        u64 s = i * mul + addend; if (s % 10 == 0) continue;
        char b[64], w[64]; me->cursor = s; me->phase = 1; char* e;
        if constexpr (sizeof(F) == 4) e = s32((u32)s, k, b); else e = s64(s, k, b);
        me->phase = 0;
        int wl = canon(false, s, k, w); ++n;
        if (e - b != wl || memcmp(b, w, (size_t)wl)) {
            char key[160]; snprintf(key, sizeof key, "digits %s %llue%d", fname<F>(), (unsigned long long)s, k); w[wl] = 0; *(e - b > 0 && e - b < 60 ? e : b + 40) = 0;
            violation(key, "%s significand %llu exponent %d printed as \"%s\", expected \"%s\"", fname<F>(), (unsigned long long)s, k, b, w); if (stopped()) return;
        }
        if (i == lo && want_sample()) sample("digits %llue%d -> %.*s", (unsigned long long)s, k, wl, w);
    }
    ++me->beat; add(CT, n); add(CJ, n); add(CS, n); add(c_seam, n);
}
template <class U> std::vector<U> thin(const std::vector<U>& v, size_t k) { std::vector<U> r; for (size_t i = 0; i < v.size(); i += k) r.push_back(v[i]); return r; }
int main(int argc, char** argv) {
    double t0 = now(); if (argc < 5) return 3;
    prop = argv[1]; tier = argv[2]; init(); base_counters();
    std::string only; u64 one = 0;
    for (int i = 4; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--one" && i + 2 < argc) { only = argv[i + 1]; one = strtoull(argv[i + 2], 0, 16); i += 2; continue; }
        size_t e = a.find('='); std::string n = a.substr(0, e), p = a.substr(e + 1);
        if (n == "seam") { void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (h) { s32 = (seam32)dlsym(h, "mc_print_float"); s64 = (seam64)dlsym(h, "mc_print_double"); } }
        else if (!lib.load(n, p)) return 3;
    }
    c_len = counter("text_length_01"); for (int i = 2; i <= 24; ++i) { char b[32]; snprintf(b, sizeof b, "text_length_%02d", i); counter(b); }
    c_special = counter("special_value_calls"); c_seam = counter("digit_printer_states"); c_full = counter("floats_in_complete_sweep"); c_alpha = counter("inputs_in_alphabets"); if (prop != "C10") c_rot = counter("inputs_in_rotation_each_under_one_combination");
    std::vector<Combo> all, nearest;
    for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) { all.push_back({ m, c }); if (!is_directed(m)) nearest.push_back({ m, c }); }
    if (prop == "C09") all = nearest;
    // C11 quick: six combinations on every input of the alphabet, the other 64 on every 16th
    const bool split = prop == "C11" && !thorough(); std::vector<Combo> few, rest;
    for (auto& cb : all) { bool f = (cb.m == M_EVEN && cb.c == C_EVEN) || (cb.m == M_ODD && cb.c == C_NONE) || (cb.m == M_MINF_S && cb.c == C_UP) || (cb.m == M_D_PINF && cb.c == C_DOWN) || (cb.m == M_D_ZERO && cb.c == C_ODD) || (cb.m == M_D_AWAY && cb.c == C_NONE); (f ? few : rest).push_back(cb); }
    if (!only.empty()) {
        run_units(1, [&](u64) {
            if (only == "float") { std::vector<u32> v{ (u32)one }; run_all<float>(v, all, false, !is_finite_nonzero<float>((u32)one)); }
            else { std::vector<u64> v{ one }; run_all<double>(v, all, false, !is_finite_nonzero<double>(one)); }
        });
        return finish(argv[3], t0);
    }
    alpha::Level L = alpha::level(prop == "C11" ? (thorough() ? "small" : "tiny") : thorough() ? "quick" : "small");
    struct T { int kind, ex; u64 a, b, c, d; };
    std::vector<T> ts;
    if (prop == "C10") {
        for (u64 b = 0; b < 2; ++b) for (u64 p = 0; p < (1u << 23); p += 1 << 16) ts.push_back({ 3, 0, (b << 31) | 0x7f800000u | p, 1 << 16, 0, 0 });
        ts.push_back({ 4, 0, 0, 0, 0, 0 });
    } else {
        for (int ex = 0; ex < alpha::NEXD; ++ex) ts.push_back({ 2, ex, 0, 0, 0, 0 });
        for (int ex = 0; ex < alpha::NEXF; ++ex) ts.push_back({ 1, ex, 0, 0, 0, 0 });
        if (prop != "C08") ts.push_back({ 4, 0, 0, 0, 0, 0 });
        if (prop == "C09") for (u64 b = 0; b < 0x7f800000u; b += 1 << 18) ts.push_back({ 0, 0, b, 0, 0, 0 });
        if (prop == "C08" && s32 && s64) {
            u64 fend = thorough() ? 1000000000ull : 100000000ull;
            for (u64 a = 1; a < fend; a += 1000000) ts.push_back({ 5, -1, a, std::min<u64>(a + 1000000, fend), 1, 0 });
            if (!thorough()) for (u64 a = 100000; a < 1000000; a += 10000) ts.push_back({ 5, -1, a, a + 10000, 1000, 1 }), ts.push_back({ 5, -1, a, a + 10000, 1000, 999 });
            for (u64 a = 1; a < 100000000ull; a += 1000000) {      // every low half below fixed high halves, and the reverse
                ts.push_back({ 6, -3, a, a + 1000000, 1, 12345678900000000ull }); ts.push_back({ 6, 2, a, a + 1000000, 1, 4300000000ull });
                if (thorough()) ts.push_back({ 6, -200, a, a + 1000000, 1, 99999999900000000ull });
                ts.push_back({ 6, 150, a * 10, a * 10 + 1000000, 100000000ull, 10203047 });
            }
            for (int e = -324; e <= 308; ++e) ts.push_back({ 7, e, 0, 0, 0, 0 });      // every scientific exponent x every digit count
        } else if (prop == "C08") note("the digit printer is not reachable on its own in this tree; only whole calls were explored");
    }
    if (prop == "C08") {        // integers as doubles: their digits are known, so the printer is swept through whole calls as well
        u64 top = s64 && !thorough() ? 10000000 : 100000000;
        for (u64 a = 1; a < top; a += 100000) { u64 b = a + 100000; ts.push_back({ 8, 0, a, b, 1, 0 }); ts.push_back({ 8, 0, a, b, 1, 1234567800000000ull }); if (a < 80000000) ts.push_back({ 8, 0, a, b, 100000000ull, 10203047 }); }
    }
    // rotation: floats once more, each under one combination and sign (C11: one in 64), and a finer lattice of doubles likewise
    const u64 rot_d = u64(1) << (prop == "C11" ? 11 : 15) << (thorough() ? 2 : 0);
    if (prop != "C10") {
        for (u64 b = 0; b < 0x7f800000u; b += 1 << 18) ts.push_back({ 9, 0, b, 0, 0, 0 });
        for (int ex = 0; ex < alpha::NEXD; ++ex) ts.push_back({ 10, ex, 0, 0, 0, 0 });
    }
    auto mix = [](u64 x) { x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ x >> 32; };
    auto rotate = [&](auto tag, const auto& v, u64 mask) {
        typedef decltype(tag) F; typedef typename fmt<F>::U U; constexpr U sb = U(1) << (fmt<F>::p + fmt<F>::eb); u64 n = 0;
        std::vector<std::vector<U>> w(all.size());
        for (U x : v) { u64 h = mix(x); if (h >> 48 & mask) continue; w[h % all.size()].push_back(x | (h >> 40 & 1 ? sb : U(0))); ++n; }
        for (size_t c = 0; c < all.size() && !stopped(); ++c) if (!w[c].empty()) run_all<F>(w[c], { all[c] }, false);
        add(c_rot, n); return n;
    };
    run_units(ts.size(), [&](u64 i) {
        T& t = ts[i];
        switch (t.kind) {
        case 9: { std::vector<u32> v; for (u64 b = t.a; b < t.a + (1 << 18); ++b) if (is_finite_nonzero<float>((u32)b)) v.push_back((u32)b); u64 n = rotate(float(), v, prop == "C11" ? 63 : 0); if (prop != "C09") add(CS, n); } break;
        case 10: { std::vector<u64> v; for (u64 k = 1; k <= rot_d; ++k) v.push_back(u64(t.ex) << 52 | (k * 0x9e3779b97f4a7c15ull >> 12 & ((u64(1) << 52) - 1))); add(CS, rotate(double(), v, 0)); } break;
        case 0: { std::vector<u32> v; for (u64 b = t.a; b < t.a + (1 << 18); ++b) if (is_finite_nonzero<float>((u32)b)) v.push_back((u32)b); if (v.empty()) return; run_all<float>(v, { { M_EVEN, C_EVEN } }, false); add(CS, v.size()); add(c_full, v.size()); } break;
        case 1: { auto v = alpha::binade<float>(t.ex, L); if (split) { run_all<float>(v, few, true); run_all<float>(thin(v, 24), rest, true); } else run_all<float>(v, all, true); add(CS, prop == "C09" ? v.size() : v.size() * 2); add(c_alpha, v.size() * 2); } break;
        case 2: { auto v = alpha::binade<double>(t.ex, L); if (split) { run_all<double>(v, few, true); run_all<double>(thin(v, 40), rest, true); } else run_all<double>(v, all, true); add(CS, v.size() * 2); add(c_alpha, v.size() * 2); } break;
        case 3: { std::vector<u32> v; for (u64 b = 0; b < t.b; ++b) v.push_back((u32)(t.a + b)); run_all<float>(v, all, false, true); add(CS, v.size()); } break;
        case 4: { auto v = specials<double>(3); auto w = specials<float>(2); run_all<double>(v, all, false, true); add(CS, v.size());
                  if (prop == "C10") { w = { 0u, 0x80000000u }; } run_all<float>(w, all, false, true); add(CS, w.size()); } break;
        case 5: seam_block<float>(t.a, t.b, t.c, t.d, t.ex); break;
        case 6: seam_block<double>(t.a, t.b, t.c, t.d, t.ex); break;
        case 8: { std::vector<u64> v; for (u64 q = t.a; q < t.b; ++q) { double x = (double)(q * t.c + t.d); u64 w; memcpy(&w, &x, 8); v.push_back(w); } run_all<double>(v, { { M_EVEN, C_EVEN } }, false); add(CS, v.size()); add(c_alpha, v.size()); } break;
        case 7: {
            u64 p = 1; for (int d = 1; d <= 17; ++d, p *= 10) { int k = t.ex - d + 1;
                u64 c[] = { p, p + 1, p * 9 + p - 1, p * 5 + 3, p / 9 * 8 + p + 1, p * 3 + p / 7 };
                for (u64 s : c) { if (s % 10 == 0) ++s; seam_block<double>(s, s + 1, 1, 0, k); if (d <= 9 && t.ex >= -45 && t.ex <= 38) seam_block<float>(s, s + 1, 1, 0, k); } }
        } break;
        }
    });
    return finish(argv[3], t0);
}
