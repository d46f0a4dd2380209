// Ways of using scratch memory, three of them not reentrant: the engine must tell them apart before it explores anything.
#include "impl.hpp"
#include <cstring>
static char shared_buf[32]; static thread_local char tls_buf[32];
static thread_local bool busy;
template <class B> static inline __attribute__((always_inline)) char* digits(uint32_t v, char* out, B* s) {
    volatile char* p = s; int n = 0; do { p[n++] = (char)('0' + v % 10); v /= 10; } while (v);
    for (int i = 0; i < n; ++i) out[i] = p[n - 1 - i];
    return out + n;
}
static char* f_stack(uint32_t v, char* o) { char s[32]; return digits(v, o, s); }                 // good
static char* f_static(uint32_t v, char* o) { return digits(v, o, shared_buf); }                   // bad
static char* f_tls(uint32_t v, char* o) { return digits(v, o, tls_buf); }                         // bad: safe with threads, not here
static char* f_stuck(uint32_t v, char* o) {                                                       // bad: left busy when abandoned
    char s[32]; volatile bool* b = &busy; if (*b) { *o = '?'; return o + 1; }
    *b = true; char* e = digits(v, o, s); *b = false; return e;
}
static char* f_pair(uint32_t v, char* o) {                                                        // good: a cache checked by its key, written key last
    static thread_local struct { volatile uint32_t key, val; } c;
    char s[32]; uint32_t t = v * 3; c.val = t; c.key = v; (void)c.key; return digits(v, o, s);
}
extern "C" const ModeTable mc_mode_0;
extern "C" __attribute__((visibility("default"))) const ModeTable mc_mode_0 = { {}, {}, { { f_stack, f_stack }, { f_static, f_static }, { f_tls, f_tls }, { f_stuck, f_stuck }, { f_pair, f_pair } }, {} };
