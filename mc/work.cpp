// C28: every call does a bounded amount of work, whatever the input and whatever was converted before.
//   work C28 <tier> <result.json> name=lib.so ...        (libraries compiled with -fsanitize-coverage=trace-pc)
#include "alpha.hpp"
#include "lib.hpp"
#include "picked.hpp"
#include <sys/prctl.h>
#include <signal.h>
using namespace ref; using namespace core;
constexpr unsigned long MAX_BLOCKS = 4000; constexpr long MAX_STACK = 8192;
struct Worst { std::atomic<u64> blocks, stack; u64 x_blocks, x_stack; };
struct Shown { Worst w[4]; };
static Shown* worst;                                            // per format and kind
static const char* wname[] = { "float conversion", "float text", "double conversion", "double text" };
static struct { unsigned long n; char *low, *top; } m;
static volatile char selector;                                  // 1: a system call now is reported instead of made
static bool dispatch;
static std::string call_name; static u64 call_x;
static int c_alpha, c_sweep, c_special, c_self, c_long;
static bool selftest; static volatile int fired;
static __attribute__((noinline)) void over(const char* why, const char* fmt_, long v) {
    selector = 0;
    if (selftest) { fired = 1; _exit(7); }
    char k[160]; snprintf(k, sizeof k, "%s %s", why, call_name.c_str());
    char t[200]; snprintf(t, sizeof t, fmt_, v);
    violation(k, "%s of 0x%llx %s", call_name.c_str(), (unsigned long long)call_x, t);
    _exit(0);
}
extern "C" __attribute__((visibility("default"), noinline)) void __sanitizer_cov_trace_pc() {
    char* p = (char*)__builtin_frame_address(0); if (p < m.low) m.low = p;
    if (++m.n > MAX_BLOCKS) { m.n = 0; over("unbounded", "goes on after %ld basic blocks", (long)MAX_BLOCKS); }
    if (m.top - m.low > MAX_STACK) { char* t = m.top; m.top = m.low; over("stack", "uses more than %ld bytes of stack", (long)MAX_STACK + 0 * (t == nullptr)); }
}
static void on_sys(int, siginfo_t* i, void*) { selector = 0; over("system call", "makes system call %ld", (long)i->si_syscall); }
static void install() {
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = on_sys; a.sa_flags = SA_SIGINFO; sigaction(SIGSYS, &a, nullptr);
    selector = 0; dispatch = prctl(59 /* PR_SET_SYSCALL_USER_DISPATCH */, 1, 0, 0, &selector) == 0;
}
static void begin(const Lib& L, int f, int mo, int c, int kind) {
    static const char* kinds[] = { "unsigned conversion", "signed conversion", "text_n", "text" };
    call_name = std::string("[") + L.name + "] " + kinds[kind] + " (" + (f == 4 ? "float" : "double") + ", " + mode_name[mo] + ", " + crs_name[c] + ")"; what("%s", call_name.c_str());
}
template <class F> static inline void tally(u64 x, bool text) {
    Worst& w = worst->w[(sizeof(F) == 4 ? 0 : 2) + text]; u64 s = (u64)(m.top - m.low);
    if (m.n > w.blocks.load(std::memory_order_relaxed)) { w.blocks = m.n; w.x_blocks = x; }
    if (s > w.stack.load(std::memory_order_relaxed)) { w.stack = s; w.x_stack = x; }
}
template <class F, class Fn> static __attribute__((noinline)) void conv(Fn fn, typename fmt<F>::U x) {
    Out o; me->cursor = call_x = x; m.top = m.low = (char*)__builtin_frame_address(0); m.n = 0;
    selector = 1; fn(&x, &o, 1, nullptr); selector = 0; tally<F>(x, false);
}
template <class F, class Fn> static __attribute__((noinline)) void text(Fn fn, typename fmt<F>::U x) {
    char b[64]; me->cursor = call_x = x; m.top = m.low = (char*)__builtin_frame_address(0); m.n = 0;
    selector = 1; fn(x, b); selector = 0; tally<F>(x, true);
}
template <class F> static void inputs(const Lib& L, const std::vector<typename fmt<F>::U>& v, size_t every_text) {
    typedef typename fmt<F>::U U; const U sign = U(1) << (fmt<F>::p + fmt<F>::eb); u64 n = 0, salt = 0;
    for (int mo = 0; mo < N_MODES; ++mo) for (int c = 0; c < N_CRS; ++c) {
        if (stopped() || !L.mode[mo]) return;
        me->phase = 1; ++me->beat; ++salt;
        begin(L, sizeof(F), mo, c, 1); auto fn = L.batch<F>(mo, c, 1);
        for (U x : v) { conv<F>(fn, x); conv<F>(fn, x | sign); } n += 2 * v.size();
        begin(L, sizeof(F), mo, c, 3); auto ft = L.chars<F>(mo, c, 1);
        for (size_t i = salt % every_text; i < v.size(); i += every_text) { text<F>(ft, v[i]); ++n; }
        me->phase = 0;
    }
    add(CS, v.size()); add(CT, n); add(CJ, n); add(c_alpha, n);
    if (want_sample()) sample("[%s] 0x%llx and %zu others x %d modes x %d policies: at most %llu basic blocks, %llu bytes of stack so far", L.name.c_str(), (unsigned long long)v[0], v.size() - 1, N_MODES, N_CRS, (unsigned long long)worst->w[sizeof(F) == 4 ? 0 : 2].blocks.load(), (unsigned long long)worst->w[sizeof(F) == 4 ? 0 : 2].stack.load());
}
static __attribute__((noinline)) void deep(int n) { volatile char a[512]; a[0] = (char)n; __sanitizer_cov_trace_pc(); if (n) deep(n - 1); a[1] = a[0]; }
static bool self_case(int k) {                                  // must each be noticed (or not)
    fflush(stdout); pid_t p = fork();
    if (!p) {
        install(); selftest = true; me->phase = 1; m.top = m.low = (char*)__builtin_frame_address(0); m.n = 0; selector = 1;
        if (k == 0) for (int i = 0; i < 30000; ++i) __sanitizer_cov_trace_pc();
        if (k == 1) deep(100);
        if (k == 2) { if (dispatch) (void)getppid(); else { selector = 0; _exit(7); } }
        if (k == 3) { for (int i = 0; i < 3000; ++i) __sanitizer_cov_trace_pc(); deep(10); }
        selector = 0; _exit(0);
    }
    int st; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 7;
}
int main(int argc, char** argv) {
    if (argc < 5) return 3;
    double t0 = now(); tier = argv[2]; init(); base_counters();
    c_alpha = counter("calls_over_alphabets"); c_sweep = counter("calls_of_the_complete_float_sweep"); c_special = counter("calls_on_special_values"); c_self = counter("engine_self_tests"); c_long = counter("calls_of_long_histories");
    worst = (Shown*)mmap(nullptr, sizeof(Shown), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Lib> libs;
    for (int i = 4; i < argc; ++i) { std::string a = argv[i]; size_t q = a.find('='); Lib L; if (!L.load(a.substr(0, q), a.substr(q + 1))) return 3; libs.push_back(L); }
    for (int k = 0; k < 4; ++k) { if (self_case(k) != (k < 3)) { fprintf(stderr, "engine self-test %d misjudged\n", k); return 3; } add(c_self, 1); }
    { char* d = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fflush(stdout); pid_t p = fork(); if (!p) { install(); d[0] = dispatch; selector = 0; _exit(0); } int st; waitpid(p, &st, 0); dispatch = d[0]; }
    // the alphabets
    alpha::Level A = alpha::level(thorough() ? "quick" : "small");
    const u64 nb = alpha::NEXF + alpha::NEXD;
    run_units(nb * libs.size() + 1, [&](u64 u) {
        install();
        if (u == 0) {                                           // zeros, infinities, NaNs, subnormal ends, picked inputs: every kind of call
            std::vector<u32> f; std::vector<u64> d; u64 n = 0;
            for (u32 s : { 0u, 0x80000000u }) for (u32 b : { 0u, 0x7f800000u, 0x7f800001u, 0x7fc00000u, 0x7fffffffu, 1u, 0x7fffffu, 0x800000u, 0x7f7fffffu }) f.push_back(b | s);
            for (u64 s : { u64(0), u64(1) << 63 }) for (u64 b : { u64(0), u64(0x7ff0000000000000), u64(0x7ff0000000000001), u64(0x7ff8000000000000), u64(0x7fffffffffffffff), u64(1), u64(0xfffffffffffff), u64(0x10000000000000), u64(0x7fefffffffffffff) }) d.push_back(b | s);
            f.insert(f.end(), picked_f, picked_f + N_PICKED); d.insert(d.end(), picked_d, picked_d + N_PICKED);
            for (auto& L : libs) for (int mo = 0; mo < N_MODES; ++mo) for (int c = 0; c < N_CRS; ++c) for (int k = 0; k < 4; ++k) {
                if (!L.mode[mo]) continue;
                me->phase = 1; ++me->beat;
                begin(L, 4, mo, c, k); for (u32 x : f) { if (k < 2 && !is_finite_nonzero<float>(x)) continue; if (k < 2) conv<float>(L.batch<float>(mo, c, k), x); else text<float>(L.chars<float>(mo, c, k - 2), x); ++n; }
                begin(L, 8, mo, c, k); for (u64 x : d) { if (k < 2 && !is_finite_nonzero<double>(x)) continue; if (k < 2) conv<double>(L.batch<double>(mo, c, k), x); else text<double>(L.chars<double>(mo, c, k - 2), x); ++n; }
                me->phase = 0;
            }
            add(CS, f.size() + d.size()); add(CT, n); add(CJ, n); add(c_special, n);
            return;
        }
        u64 e = (u - 1) % nb; const Lib& L = libs[(u - 1) / nb];
        if (e < alpha::NEXD) inputs<double>(L, alpha::binade<double>((int)e, A), 8); else inputs<float>(L, alpha::binade<float>((int)(e - alpha::NEXD), A), 8);
    });
    // long histories of distinct numbers of one kind in one process
    const u64 H = thorough() ? 1 << 20 : 1 << 17;
    if (!stopped()) run_units(2 * 24, [&](u64 u) {
        install(); const Lib& L = libs[0]; const int c = (int)(u / 2); if (!L.mode[M_EVEN]) return;
        static const int ed[24] = { 0, 0, 1, 52, 300, 600, 900, 970, 1000, 1015, 1022, 1023, 1024, 1030, 1050, 1070, 1075, 1076, 1080, 1100, 1300, 1600, 1900, 2046 };
        me->phase = 1;
        begin(L, u & 1 ? 4 : 8, M_EVEN, C_EVEN, 3);
        auto fd = L.chars<double>(M_EVEN, C_EVEN, 1); auto ff = L.chars<float>(M_EVEN, C_EVEN, 1); auto gd = L.batch<double>(M_EVEN, C_EVEN, 1); auto gf = L.batch<float>(M_EVEN, C_EVEN, 1);
        for (u64 i = 1; i <= H && !stopped(); ++i) {
            if (!(i & 4095)) ++me->beat;
            // alternately consecutive and spread significands; multiples of large powers of two too, which are special in more ways
            const u64 s = i & 1 ? i : (i * 0x9e3779b97f4a7c15ull) >> 12; const int sh = i % 8 == 3 ? 20 : i % 8 == 7 ? 35 : 0;
            if (u & 1) { u32 x = (u32)(ed[c] / 8) << 23 | ((u32)(s << (sh / 4)) & 0x7fffff); if (!is_finite_nonzero<float>(x)) continue; text<float>(ff, x); conv<float>(gf, x); }
            else { u64 x = (u64)ed[c] << 52 | ((s << sh) & ((u64(1) << 52) - 1)); if (!is_finite_nonzero<double>(x)) continue; text<double>(fd, x); conv<double>(gd, x); }
        }
        me->phase = 0; add(CS, H); add(CT, 2 * H); add(CJ, 2 * H); add(c_long, 2 * H);
    });
    // every float (zeros, infinities and NaNs too), printed
    const int sweeps = thorough() ? 4 : 1; static const int cm[4][2] = { { M_EVEN, C_EVEN }, { M_D_ZERO, C_EVEN }, { M_EVEN_S, C_ODD }, { M_AWAY, C_NONE } };
    if (!stopped()) run_units(2048 * sweeps, [&](u64 u) {
        install(); const Lib& L = libs[0]; const int* q = cm[u / 2048]; u %= 2048; if (!L.mode[q[0]]) return;
        begin(L, 4, q[0], q[1], 2); auto ft = L.chars<float>(q[0], q[1], 0); me->phase = 1;
        const u32 a = (u32)(u << 20);
        for (u32 i = 0; i < (1u << 20); ++i) { text<float>(ft, a + i); if (!(i & 65535)) { ++me->beat; if (stopped()) break; } }
        me->phase = 0; add(CS, 1 << 20); add(CT, 1 << 20); add(CJ, 1 << 20); add(c_sweep, 1 << 20);
    });
    std::string w = "{";
    for (int i = 0; i < 4; ++i) { char t[240]; snprintf(t, sizeof t, "%s\"%s\":{\"basic_blocks\":%llu,\"input\":\"0x%llx\",\"bytes_of_stack\":%llu}", i ? "," : "", wname[i], (unsigned long long)worst->w[i].blocks.load(), (unsigned long long)worst->w[i].x_blocks, (unsigned long long)worst->w[i].stack.load()); w += t; }
    extra["largest_amounts_seen"] = w + "}"; extra["system_calls_watched"] = dispatch ? "true" : "false";
    if (!dispatch) note("the kernel offers no system call dispatch here: system calls were not watched");
    return finish(argv[3], t0);
}
