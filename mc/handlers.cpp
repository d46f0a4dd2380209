// C21: the case handler is called exactly once with the argument's bits before any result; library handlers stop on
// exactly the non-finite inputs.   handlers C21 <tier> <result.json> gcc-O2=lib.so
#include "alpha.hpp"
#include "handlers_unit.hpp"
#include <dlfcn.h>
#include <setjmp.h>
using namespace ref; using namespace core;
static const HTable* tab[14]; static int c_rec, c_thr, c_stop, c_pass, c_ign;
static sigjmp_buf jb; static volatile int armed; static char asserted[200];
extern "C" void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept {       // intercepts the assertions of the code under test
    if (!armed) { fprintf(stderr, "assertion outside the code under test: %s\n", e); _exit(3); }
    snprintf(asserted, sizeof asserted, "%s", e); siglongjmp(jb, 1);
}
static void on_abort(int) { if (armed) { snprintf(asserted, sizeof asserted, "abort"); siglongjmp(jb, 1); } _exit(3); }
template <class F> const char* fname() { return sizeof(F) == 4 ? "float" : "double"; }
// runs fn; true if it stopped (assertion or abort)
template <class Fn> bool stops(Fn fn) { armed = 1; bool s = false; if (sigsetjmp(jb, 0) == 0) { me->phase = 1; fn(); } else s = true; me->phase = 0; armed = 0; return s; }
template <class F> void one(typename fmt<F>::U x, bool rich) {
    typedef fmt<F> T; bool finite = ((x >> T::p) & ((1u << T::eb) - 1)) != ((1u << T::eb) - 1), conv = is_finite_nonzero<F>(x);
    me->cursor = x; u64 n = 0;
    auto bad = [&](int m, int c, int s, int form, const char* why) { char key[150]; snprintf(key, sizeof key, "%s %s %s sign%d form%d 0x%llx", fname<F>(), mode_name[m], crs_name[c], s, form, (unsigned long long)x);
        violation(key, "%s bits 0x%llx mode %s policy %s, sign %srequested, handler form %d: %s%s%s", fname<F>(), (unsigned long long)x, mode_name[m], crs_name[c], s ? "" : "not ", form, why, asserted[0] ? "; stopped by: " : "", asserted); };
    auto call = [&](int m, int c, int s, int form, HOut* o) { if constexpr (sizeof(F) == 4) tab[m]->f[c][s][form](x, o); else tab[m]->d[c][s][form](x, o); };
    for (int m = 0; m < 14; ++m) for (int c = 0; c < 5; ++c) for (int s = 0; s < 2; ++s) {
        if (!rich && (m * 5 + c) % 7 != (int)(x % 7)) continue;
        HOut base{}; bool have = false;
        for (int form = 0; form < H_FORMS; ++form) {
            if (stopped()) return;
            bool throwing = form == 3 || form == 4, lib = form >= 5;
            if (!throwing && !conv) { if (!(lib && form != 7 && !finite)) continue; }      // converting a special value has no result: only handlers that stop are run
            static HOut o; memset(&o, 0, sizeof o); asserted[0] = 0; what("%s %s form %d", mode_name[m], crs_name[c], form);
            bool st = stops([&] { call(m, c, s, form, &o); }); ++n;
            if (throwing) { add(c_thr, 1); if (st) bad(m, c, s, form, "stopped before the handler's exception arrived"); else if (o.thrown != 1) bad(m, c, s, form, o.thrown == 0 ? "the handler's exception did not reach the caller" : "another exception reached the caller"); else if (o.rec.calls != 1) bad(m, c, s, form, "the handler was not called exactly once"); continue; }
            if (lib && !finite) { add(c_stop, 1); if (!st) bad(m, c, s, form, "the finiteness handler let a non-finite number pass"); else if (!strstr(asserted, "finite") && 0) bad(m, c, s, form, "stopped elsewhere"); continue; }
            if (st) { bad(m, c, s, form, "a finite number was stopped"); continue; }
            if (lib) add(form == 7 ? c_ign : c_pass, 1);
            else { add(c_rec, 1); if (o.rec.calls != 1) { bad(m, c, s, form, o.rec.calls ? "the handler was called more than once" : "the handler was not called"); continue; } if (o.rec.bits != x) { bad(m, c, s, form, "the handler saw other bits than the argument's"); continue; } if (o.rec.copies != 1) { bad(m, c, s, form, "the named handler itself was not the one called (its own state did not change exactly once)"); continue; } }
            if (!have) { base = o; have = true; }
            else if (o.sig != base.sig || o.exp != base.exp || o.neg != base.neg) bad(m, c, s, form, "the result depends on the handler");
        }
        if (have && want_sample()) sample("%s 0x%llx %s %s: handler called once with the bits, 6 handler forms agree on %llue%d", fname<F>(), (unsigned long long)x, mode_name[m], crs_name[c], (unsigned long long)base.sig, base.exp);
    }
    asserted[0] = 0;
    // the handlers by themselves
    bool a = stops([&] { if constexpr (sizeof(F) == 4) tab[0]->ignore32(x); else tab[0]->ignore64(x); }); if (a) bad(0, 0, 0, 7, "the ignoring handler stopped");
    bool b = stops([&] { if constexpr (sizeof(F) == 4) tab[0]->finite32(x); else tab[0]->finite64(x); }); if (b == finite) bad(0, 0, 0, 5, finite ? "the finiteness handler stopped a finite number" : "the finiteness handler let a non-finite number pass");
    n += 2; add(CS, 1); add(CT, n); add(CJ, n); ++me->beat;
}
template <class F> void fields(int ex, int depth) {
    typedef fmt<F> T; typedef typename T::U U; std::vector<U> v; gen::twobits<F>(1, v, depth); gen::windows<F>(1, 8, v); gen::narrow<F>(1, 4, v); v.push_back(U(1) << T::p);
    std::vector<U> w; for (U x : v) for (int sg = 0; sg < 2; ++sg) w.push_back((x & ((U(1) << T::p) - 1)) | (U)ex << T::p | (U)sg << (T::p + T::eb));
    std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end());
    size_t i = 0; for (U x : w) { if (stopped()) return; one<F>(x, ex == 0 || ex >= (1 << T::eb) - 2 || i % 64 == 0); ++i; }
}
int main(int argc, char** argv) {
    double t0 = now(); if (argc < 5) return 3;
    tier = argv[2]; init(); base_counters();
    std::string a = argv[4]; void* h = dlopen(a.substr(a.find('=') + 1).c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    for (int m = 0; m < 14; ++m) { char b[32]; snprintf(b, sizeof b, "mc_handlers_%d", m); tab[m] = (const HTable*)dlsym(h, b); if (!tab[m]) return 3; }
    { struct sigaction sa{}; sa.sa_handler = on_abort; sa.sa_flags = SA_NODEFER; sigaction(SIGABRT, &sa, nullptr); }
    c_rec = counter("recording_handler_calls"); c_thr = counter("throwing_handler_calls"); c_stop = counter("library_handler_stops"); c_pass = counter("library_handler_passes"); c_ign = counter("ignoring_handler_passes");
    run_units(256 + 2048, [&](u64 u) { if (u < 2048) fields<double>((int)u, thorough() || u == 2047 || u == 0 ? 2 : 1); else fields<float>((int)(u - 2048), 2); });
    return finish(argv[3], t0);
}
