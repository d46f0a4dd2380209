// C22: omitted arguments and every argument form give the result of the explicit temporaries.
//   forms C22 <tier> <result.json> forms=lib.so gcc-O2=lib.so
#include "alpha.hpp"
#include "lib.hpp"
#include "forms_unit.hpp"
using namespace ref; using namespace core;
static const FormTable* tab[14]; static Lib lib; static int c_conv, c_print, c_def;
template <class F> void chunk(const typename fmt<F>::U* in, int n, int m, int c, bool special = false) {
    const char* fn = sizeof(F) == 4 ? "float" : "double"; static Out o[256], us[256], g; static char txt[256][40]; static int len[256]; u64 calls = 0, cmp = 0;
    what("%s %s %s", fn, mode_name[m], crs_name[c]);
    if (!special) { Inside x; lib.batch<F>(m, c, 1)(in, o, n, &me->cursor); lib.batch<F>(m, c, 0)(in, us, n, &me->cursor); }
    for (int i = 0; i < n; ++i) { me->cursor = in[i]; me->phase = 1; len[i] = (int)(lib.chars<F>(m, c, 0)(in[i], txt[i]) - txt[i]); me->phase = 0; }
    calls += 3 * n;
    for (int k = 0; k < (special ? 0 : FORMS); ++k) {
        auto fp = [&] { if constexpr (sizeof(F) == 4) return tab[m]->f[c][k]; else return tab[m]->d[c][k]; }(); if (!fp) continue;
        bool uns = k == 6 || k == 7 || k == 12 || k == 13;
        for (int i = 0; i < n; ++i) { me->cursor = in[i]; me->phase = 1; fp(in[i], &g); me->phase = 0; ++calls; ++cmp; const Out& w = uns ? us[i] : o[i];
            if (g.sig != w.sig || g.exp != w.exp || g.neg != w.neg) { char key[160]; snprintf(key, sizeof key, "%s %s %s form%d 0x%llx", fn, mode_name[m], crs_name[c], k, (unsigned long long)in[i]);
                violation(key, "%s bits 0x%llx mode %s policy %s: passing the arguments as \"%s\" gives %llue%d sign %u, explicitly %llue%d sign %u", fn, (unsigned long long)in[i], mode_name[m], crs_name[c], tab[m]->name[k], (unsigned long long)g.sig, g.exp, g.neg, (unsigned long long)w.sig, w.exp, w.neg); if (stopped()) return; } }
        if (k >= 10 && k != 14) add(c_def, n);
    }
    for (int k = 0; k < CFORMS; ++k) {
        auto fp = [&] { if constexpr (sizeof(F) == 4) return tab[m]->cf[c][k]; else return tab[m]->cd[c][k]; }(); if (!fp) continue;
        for (int i = 0; i < n; ++i) { char b[48]; memset(b, 1, sizeof b); me->cursor = in[i]; me->phase = 1; char* e = fp(in[i], b); me->phase = 0; ++calls; ++cmp;
            if (e - b != len[i] || memcmp(b, txt[i], (size_t)len[i]) || (k >= 9 ? b[len[i]] != 0 : b[len[i]] != 1)) { char key[160]; snprintf(key, sizeof key, "%s %s %s text form%d 0x%llx", fn, mode_name[m], crs_name[c], k, (unsigned long long)in[i]); b[40] = 0; txt[i][len[i]] = 0;
                violation(key, "%s bits 0x%llx mode %s policy %s: printing with arguments \"%s\" gives \"%s\", explicitly \"%s\"", fn, (unsigned long long)in[i], mode_name[m], crs_name[c], tab[m]->cname[k], b, txt[i]); if (stopped()) return; } }
    }
    if (!special && want_sample()) sample("%s 0x%llx %s %s -> %llue%d in every form", fn, (unsigned long long)in[n / 2], mode_name[m], crs_name[c], (unsigned long long)o[n / 2].sig, o[n / 2].exp);
    add(CT, calls); add(CJ, cmp); add(c_conv, cmp); ++me->beat;
}
template <class F> void binade(int ex, const alpha::Level& L, u64 thin) {
    typedef typename fmt<F>::U U; auto v = alpha::binade<F>(ex, L); static U in[256];
    for (int sg = 0; sg < 2; ++sg) for (int m = 0; m < 14; ++m) for (int c = 0; c < 5; ++c) {
        u64 step = (m == M_EVEN && c == C_EVEN) ? 1 : thin; int n = 0;
        for (u64 i = (u64)(m * 5 + c) % step; i < v.size(); i += step) { in[n++] = v[i] | (sg ? U(1) << (fmt<F>::p + fmt<F>::eb) : U(0)); if (n == 256) { chunk<F>(in, n, m, c); n = 0; } if (stopped()) return; }
        if (n) chunk<F>(in, n, m, c);
    }
    add(CS, 2 * v.size());
}
template <class F> void specials() {
    typedef typename fmt<F>::U U; const U inf = (U)((U(1) << fmt<F>::eb) - 1) << fmt<F>::p, sb = U(1) << (fmt<F>::p + fmt<F>::eb), q = U(1) << (fmt<F>::p - 1);
    U in[16]; int n = 0; for (U s : { U(0), sb }) for (U x : { U(0), inf, (U)(inf | 1), (U)(inf | q), (U)(inf | q | 1), (U)(inf | (q - 1)), (U)(inf | (q + q - 1)) }) in[n++] = x | s;
    for (int m = 0; m < 14; ++m) for (int c = 0; c < 5; ++c) { if (stopped()) return; chunk<F>(in, n, m, c, true); }
    add(CS, n);
}
int main(int argc, char** argv) {
    double t0 = now(); if (argc < 6) return 3;
    tier = argv[2]; init(); base_counters();
    for (int i = 4; i < argc; ++i) { std::string a = argv[i]; size_t e = a.find('='); std::string n = a.substr(0, e), p = a.substr(e + 1);
        if (n == "forms") { void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; } for (int m = 0; m < 14; ++m) { char b[32]; snprintf(b, sizeof b, "mc_forms_%d", m); tab[m] = (const FormTable*)dlsym(h, b); if (!tab[m]) return 3; } }
        else if (!lib.load(n, p)) return 3; }
    c_conv = counter("comparisons"); c_def = counter("calls_with_omitted_arguments");
    alpha::Level L = alpha::level(thorough() ? "small" : "tiny");
    run_units(alpha::NEXD + alpha::NEXF + 1, [&](u64 u) { if (u == alpha::NEXD + alpha::NEXF) { specials<float>(); specials<double>(); } else if (u < alpha::NEXD) binade<double>((int)u, L, thorough() ? 8 : 64); else binade<float>((int)(u - alpha::NEXD), L, thorough() ? 8 : 64); });
    return finish(argv[3], t0);
}
