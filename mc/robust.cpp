// C16: no undefined behaviour, failed assertion, endless search or floating-point exception.
//   robust C16 <tier> <result.json> native=lib.so name=!server ...
// Sanitized builds run in child processes (server.cpp); any report ends the child and is traced to one input.
#include "alpha.hpp"
#include "lib.hpp"
#include "server.hpp"
#include <xmmintrin.h>
using namespace ref; using namespace core;
static std::vector<Server> servers; static Lib native;
static int c_full, c_fp, c_special;
static std::string last_line(Server& s) {
    std::string e = s.errors(), best;
    for (size_t p = 0; p < e.size(); ) { size_t q = e.find('\n', p); if (q == std::string::npos) q = e.size(); std::string l = e.substr(p, q - p); p = q + 1; if (best.empty() && (l.find("runtime error") != std::string::npos || l.find("ssertion") != std::string::npos || l.find("ERROR: ") != std::string::npos || l.find("WARNING: MemorySanitizer") != std::string::npos)) best = l; }
    return best.substr(0, 300);
}
template <class F> static void one_server(Server& s, const typename fmt<F>::U* x, int n, int m, int c, bool text) {
    static Out o[512]; static Txt t[512];
    const char* fn = sizeof(F) == 4 ? "float" : "double";
    what("%s %s %s %s %s", s.name.c_str(), text ? "text" : "conversion", fn, mode_name[m], crs_name[c]);
    me->cursor = x[0]; me->phase = 1;
    int r = text ? s.text<F>(m, c, x, t, n, &me->cursor) : s.run<F>(m, c, x, o, n, &me->cursor);
    me->phase = 0; ++me->beat;
    if (r == 0) { fprintf(stderr, "combination not built: %s\n", me->what); _exit(3); }
    if (r < 0) {
        char key[160]; snprintf(key, sizeof key, "%s %s %s %s 0x%llx", text ? "text" : "conversion", fn, mode_name[m], crs_name[c], (unsigned long long)me->cursor);
        violation(key, "%s of %s bits 0x%llx, rounding %s, policy %s [%s]: %s", text ? "printing" : "conversion", fn, (unsigned long long)me->cursor, mode_name[m], crs_name[c], s.name.c_str(), s.hung ? "does not return" : (last_line(s).empty() ? "the process died" : last_line(s).c_str()));
        return;
    }
    add(CT, (u64)n); add(CJ, (u64)n);
    if (want_sample()) { if (text && t[0].len < 31) sample("%s %s 0x%llx %s %s -> %.*s, no report", s.name.c_str(), fn, (unsigned long long)x[0], mode_name[m], crs_name[c], (int)t[0].len, t[0].t); else if (!text) sample("%s %s 0x%llx %s %s -> %llue%d, no report", s.name.c_str(), fn, (unsigned long long)x[0], mode_name[m], crs_name[c], (unsigned long long)o[0].sig, o[0].exp); }
}
// native code with every floating-point exception unmasked: raising one ends the worker (a violation)
template <class F> static void trapping(const typename fmt<F>::U* x, int n, int m, int c, int text) {
    static Out o[4096]; const char* fn = sizeof(F) == 4 ? "float" : "double";
    what("floating-point exceptions trapped, %s %s %s", fn, mode_name[m], crs_name[c]);
    unsigned mx = _mm_getcsr(); unsigned short cw, cw1 = 0x340; asm volatile("fnclex\n fnstcw %0\n fldcw %1" : "=m"(cw) : "m"(cw1));
    me->cursor = x[0]; me->phase = 1;
    _mm_setcsr(0x0000);
    if (text) for (int i = 0; i < n; ++i) { char b[64]; me->cursor = x[i]; native.chars<F>(m, c, 1)(x[i], b); }
    else { native.batch<F>(m, c, 1)(x, o, (size_t)n, &me->cursor); native.batch<F>(m, c, 0)(x, o, (size_t)n, &me->cursor); }
    unsigned st = _mm_getcsr() & 0x3f; _mm_setcsr(mx);
    asm volatile("fwait\n fldcw %0" :: "m"(cw));
    me->phase = 0; ++me->beat;
    if (st) { char key[160]; snprintf(key, sizeof key, "fpexc %s %s %s", fn, mode_name[m], crs_name[c]); violation(key, "%s %s %s raised floating-point flags %02x among inputs 0x%llx..0x%llx", fn, mode_name[m], crs_name[c], st, (unsigned long long)x[0], (unsigned long long)x[n - 1]); }
    add(CT, (u64)n * (text ? 1 : 2)); add(CJ, (u64)n); add(c_fp, (u64)n);
}
template <class F> static void alphabet(int ex, const alpha::Level& L, int thin) {
    typedef fmt<F> T; typedef typename T::U U;
    auto v = alpha::binade<F>(ex, L); std::vector<U> w; size_t n = v.size();
    for (size_t i = 0; i < n; ++i) { w.push_back(v[i]); if (i % 3 == 0) w.push_back((U)(v[i] | U(1) << (T::p + T::eb))); }
    add(CS, w.size());
    int salt = 0;
    for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) {
        bool main_ = (m == M_EVEN && (c == C_EVEN || c == C_NONE)) || (m == M_D_ZERO && c == C_EVEN) || (m == M_D_AWAY && c == C_EVEN) || (m == M_PINF && c == C_UP);
        int step = main_ ? 1 : thin; ++salt;
        for (int text = 0; text < 2; ++text) for (size_t s = 0; s < servers.size(); ++s) {
            std::vector<U> q; for (size_t i = step > 1 ? (size_t)(salt * 7 + (int)s + text) % (size_t)step : 0; i < w.size(); i += (size_t)step * (text ? 3 : 1)) q.push_back(w[i]);
            for (size_t i = 0; i < q.size(); i += 512) { if (stopped()) return; one_server<F>(servers[s], q.data() + i, (int)std::min<size_t>(512, q.size() - i), m, c, text); }
        }
        for (size_t i = 0; i < w.size(); i += 4096) { int k = (int)std::min<size_t>(4096, w.size() - i); if (stopped()) return; trapping<F>(w.data() + i, k, m, c, 0); if (main_) trapping<F>(w.data() + i, k, m, c, 1); }
    }
}
int main(int argc, char** argv) {
    if (argc < 6) return 3;
    double t0 = now(); tier = argv[2]; init(); base_counters();
    c_full = counter("floats_swept_completely"); c_fp = counter("runs_with_trapping_floating_point"); c_special = counter("special_patterns_printed");
    setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1", 1); setenv("UBSAN_OPTIONS", "print_stacktrace=0", 1);
    for (int i = 4; i < argc; ++i) { std::string a = argv[i]; size_t q = a.find('='); if (a[q + 1] == '!') { Server s; s.name = a.substr(0, q); s.path = a.substr(q + 2); s.timeout = 30; servers.push_back(s); } else if (!native.load(a.substr(0, q), a.substr(q + 1))) return 3; }
    // the sanitizers themselves must work here, or their silence means nothing
    run_units(1, [&](u64) { for (auto& s : servers) { int r = s.selftest(); if (r != 0) { fprintf(stderr, "sanitizer self-test of %s: fault %d not reported\n", s.name.c_str(), r); _exit(3); } } });
    alpha::Level A = alpha::level(thorough() ? "small" : "tiny");
    struct T { int kind, ex; u64 base; };
    std::vector<T> ts; ts.push_back({ 3, 0, 0 });
    for (int ex = 0; ex < alpha::NEXD; ++ex) ts.push_back({ 2, ex, 0 });
    for (int ex = 0; ex < alpha::NEXF; ++ex) ts.push_back({ 1, ex, 0 });
    for (u64 b = 0; b < (thorough() ? u64(1) << 32 : u64(0x7f800000)); b += 1 << 18) ts.push_back({ 0, 0, b });
    // thorough: every float through the sanitized builds as well, for four combinations
    if (thorough()) for (u64 b = 0; b < u64(0x7f800000); b += 1 << 18) ts.push_back({ 4, 0, b });
    static const int deep[][2] = { { M_EVEN, C_EVEN }, { M_EVEN, C_NONE }, { M_D_ZERO, C_EVEN }, { M_D_AWAY, C_EVEN } };
    run_units(ts.size(), [&](u64 u) {
        T& t = ts[u];
        if (t.kind == 2) alphabet<double>(t.ex, A, thorough() ? 8 : 16);
        else if (t.kind == 1) alphabet<float>(t.ex, A, thorough() ? 4 : 8);
        else if (t.kind == 0) {
            std::vector<u32> v; for (u64 b = t.base; b < t.base + (1 << 18); ++b) if (is_finite_nonzero<float>((u32)b)) v.push_back((u32)b);
            for (auto& d : deep) { if (!thorough() && (d[0] != M_EVEN || d[1] != C_EVEN) && d[0] != M_D_ZERO) continue; for (size_t i = 0; i < v.size(); i += 4096) { if (stopped()) return; trapping<float>(v.data() + i, (int)std::min<size_t>(4096, v.size() - i), d[0], d[1], 0); } }
            add(CS, v.size()); add(c_full, v.size());
        } else if (t.kind == 4) {
            std::vector<u32> v; for (u64 b = t.base; b < t.base + (1 << 18); ++b) if (is_finite_nonzero<float>((u32)b)) v.push_back((u32)b);
            for (auto& d : deep) for (size_t i = 0; i < v.size(); i += 512) { if (stopped()) return; one_server<float>(servers[0], v.data() + i, (int)std::min<size_t>(512, v.size() - i), d[0], d[1], false); }
        } else {
            std::vector<u32> f; std::vector<u64> d;
            for (u32 s : { 0u, 0x80000000u }) { f.push_back(s); f.push_back(s | 0x7f800000u); for (int b = 0; b < 23; ++b) for (int q = 0; q < 23; ++q) f.push_back(s | 0x7f800000u | 1u << b | 1u << q); f.push_back(s | 0x7fffffffu); }
            for (u64 s : { u64(0), u64(1) << 63 }) { d.push_back(s); d.push_back(s | u64(0x7ff) << 52); for (int b = 0; b < 52; ++b) for (int q = 0; q < 52; ++q) d.push_back(s | u64(0x7ff) << 52 | u64(1) << b | u64(1) << q); d.push_back(s | ~u64(0) >> 1); }
            for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) {
                for (auto& s : servers) { for (size_t i = 0; i < f.size(); i += 512) { if (stopped()) return; one_server<float>(s, f.data() + i, (int)std::min<size_t>(512, f.size() - i), m, c, true); } for (size_t i = 0; i < d.size(); i += 512) { if (stopped()) return; one_server<double>(s, d.data() + i, (int)std::min<size_t>(512, d.size() - i), m, c, true); } }
                for (size_t i = 0; i < f.size(); i += 4096) trapping<float>(f.data() + i, (int)std::min<size_t>(4096, f.size() - i), m, c, 1);
                for (size_t i = 0; i < d.size(); i += 4096) trapping<double>(d.data() + i, (int)std::min<size_t>(4096, d.size() - i), m, c, 1);
            }
            add(CS, f.size() + d.size()); add(c_special, f.size() + d.size());
        }
    }, 150);
    return finish(argv[3], t0);
}
