// Conversion properties: every (input, rounding mode, tie policy) of the bounded spaces is run through the real
// code and each outcome is decided by the exact reference model.
//   conv <property> <tier> <result.json> name=lib.so [name=lib.so|name=!server ...]
#include "alpha.hpp"
#include "lib.hpp"
#include "server.hpp"
using namespace ref; using namespace core;

struct Combo { int m, c; };
static std::string prop;
static std::vector<Lib> libs;
static std::vector<Server> servers;
static int c_tie, c_lend, c_rend, c_edge, c_sub, c_one, c_dig, c_neg, c_full, c_alpha, c_rot, c_cmp, c_dec, c_policy, c_big, c_len, c_text;

template <class F> const char* fname() { return sizeof(F) == 4 ? "float" : "double"; }
static bool wants(int m, int c) {           // which combinations the property quantifies over
    if (prop == "C03" || prop == "C04") return !is_directed(m) && c != C_NONE;
    if (prop == "C05") return is_directed(m);
    return true;
}
// does this outcome break the property? (the verdict is not V_OK, or the tie was resolved wrongly)
static bool breaks(int verdict, const Geo& g, const Interval& iv, int c, u64 s, int k) {
    if (verdict == V_OK) return false;
    if (prop == "C01") return verdict & V_OUTSIDE;
    if (prop == "C02") {
        if (verdict & V_NOT_SHORTEST) return true;
        if (!(verdict & V_OUTSIDE)) return false;
        Dec d = reference(g, iv, c);        // outside the interval: wrong number of digits?
        auto len = [](u64 v) { int n = 0; while (v) { ++n; v /= 10; } return n; };
        return len(s) != len(d.s) || s % 10 == 0;
    }
    if (prop == "C03") return verdict & (V_OUTSIDE | V_NOT_SHORTEST | V_NOT_CLOSEST);
    if (prop == "C04") {
        if (verdict & V_TIE) return true;
        Dec a = reference(g, iv, C_UP), b = reference(g, iv, C_DOWN);   // a tie exists and the result is neither...
        if (a.s == b.s && a.k == b.k) return false;
        Dec w = reference(g, iv, c); return !(w.s == s && w.k == k);
    }
    return true;                            // C05, ANY
}
template <class F> struct Work {
    typedef typename fmt<F>::U U;
    static constexpr int N = 512;
    Geo g[N]; Rel ra[3][N], rb[3][N]; Out out[N], o2[N];
    void chunk(const U* in, int n, const std::vector<Combo>& combos, bool stat) {
        u64 trans = 0, judged = 0;
        for (int i = 0; i < n; ++i) g[i] = geo<F>(in[i]);
        for (int k = 0; k < 3; ++k) for (int i = 0; i < n; ++i) { ra[k][i].s = rb[k][i].s = ~u64(0); }
        for (auto& cb : combos) {
            if (stopped()) return;
            what("%s %s %s", fname<F>(), mode_name[cb.m], crs_name[cb.c]);
            { Inside x; libs[0].batch<F>(cb.m, cb.c, 1)(in, out, n, &me->cursor); }
            trans += n;
            for (int i = 0; i < n; ++i) {
                Interval iv = interval_of(cb.m, g[i]);
                Rel& r = (cb.c == C_NONE ? rb : ra)[iv.kind][i];
                if (r.s != out[i].sig || r.k != out[i].exp) ++judged;
                int v = judge(g[i], iv, cb.c, out[i].sig, out[i].exp, &r);
                if (v != V_OK && breaks(v, g[i], iv, cb.c, out[i].sig, out[i].exp)) {
                    Dec d = reference(g[i], iv, cb.c);
                    char key[160]; snprintf(key, sizeof key, "%s %s %s 0x%llx", fname<F>(), mode_name[cb.m], crs_name[cb.c], (unsigned long long)in[i]);
                    violation(key, "%s bits 0x%llx, rounding %s, policy %s: got %llue%d, expected %llue%d (%s)", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], crs_name[cb.c],
                        (unsigned long long)out[i].sig, out[i].exp, (unsigned long long)d.s, d.k,
                        v & V_OUTSIDE ? "outside the rounding interval" : v & V_NOT_SHORTEST ? "not shortest" : v & V_NOT_CLOSEST ? "not closest" : "tie resolved wrongly");
                    if (stopped()) return;
                }
            }
        }
        if (stat) {
            u64 tie = 0, le = 0, re = 0, edge = 0, sub = 0, one = 0, neg = 0, big = 0;
            for (int i = 0; i < n; ++i) {
                bool t = false, l = false, rr = false, o = false;
                for (int k = 0; k < 3; ++k) { Rel& r = ra[k][i].s != ~u64(0) ? ra[k][i] : rb[k][i]; if (r.s == ~u64(0)) continue;
                    l |= r.L == 0; rr |= r.R == 0; o |= r.s == 1; if (r.filled_close && k == NEAREST) t |= (r.mlo == 0 && r.nL >= 0) || (r.mhi == 0 && r.pR <= 0);
                    if (r.s >= (sizeof(F) == 4 ? 100000000u : 10000000000000000ull)) ++big; }
                tie += t; le += l; re += rr; one += o; edge += g[i].edge; sub += (in[i] & ~(U(1) << (fmt<F>::p + fmt<F>::eb))) < (U(1) << fmt<F>::p); neg += g[i].neg;
            }
            add(c_tie, tie); add(c_lend, le); add(c_rend, re); add(c_one, one); add(c_edge, edge); add(c_sub, sub); add(c_neg, neg); add(c_big, big);
            if (n > 0 && want_sample()) { int i = (int)(me->beat % n); sample("%s 0x%llx %s %s -> %llue%d", fname<F>(), (unsigned long long)in[i], mode_name[combos.back().m], crs_name[combos.back().c], (unsigned long long)out[i].sig, out[i].exp); }
        }
        add(CT, trans); add(CJ, judged);
    }
    // C06: outcome for -x under the mirrored mode; sign reporting
    void signs(const U* in, int n, const std::vector<Combo>& combos) {
        static const int mirror[] = { 0, 1, 3, 2, 4, 5, 6, 7, 9, 8, 11, 10, 12, 13 };
        U neg[N]; const U sb = U(1) << (fmt<F>::p + fmt<F>::eb);
        for (int i = 0; i < n; ++i) neg[i] = in[i] | sb;
        u64 cmp = 0;
        for (auto& cb : combos) {
            if (stopped()) return;
            what("%s %s %s", fname<F>(), mode_name[cb.m], crs_name[cb.c]);
            static Out a[4][N];
            { Inside x;
              libs[0].batch<F>(cb.m, cb.c, 1)(in, a[0], n, &me->cursor);
              libs[0].batch<F>(mirror[cb.m], cb.c, 1)(neg, a[1], n, &me->cursor);
              libs[0].batch<F>(cb.m, cb.c, 0)(in, a[2], n, &me->cursor);
              libs[0].batch<F>(mirror[cb.m], cb.c, 0)(neg, a[3], n, &me->cursor); }
            add(CT, 4 * (u64)n);
            for (int i = 0; i < n; ++i) {
                ++cmp;
                const char* w = nullptr;
                if (a[0][i].neg != 0) w = "a positive input is reported negative";
                else if (a[1][i].neg != 1) w = "a negative input is not reported negative";
                else if (a[0][i].sig != a[1][i].sig || a[0][i].exp != a[1][i].exp) w = "-x under the mirrored mode differs from x";
                else if (a[0][i].sig != a[2][i].sig || a[0][i].exp != a[2][i].exp) w = "result differs when the sign is not requested (x > 0)";
                else if (a[1][i].sig != a[3][i].sig || a[1][i].exp != a[3][i].exp) w = "result differs when the sign is not requested (x < 0)";
                if (w) {
                    char key[160]; snprintf(key, sizeof key, "%s %s %s 0x%llx", fname<F>(), mode_name[cb.m], crs_name[cb.c], (unsigned long long)in[i]);
                    violation(key, "%s |x| bits 0x%llx mode %s/%s policy %s: %s (x: %llue%d neg=%u; -x mirrored: %llue%d neg=%u; unsigned: %llue%d, %llue%d)", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], mode_name[mirror[cb.m]], crs_name[cb.c], w,
                        (unsigned long long)a[0][i].sig, a[0][i].exp, a[0][i].neg, (unsigned long long)a[1][i].sig, a[1][i].exp, a[1][i].neg, (unsigned long long)a[2][i].sig, a[2][i].exp, (unsigned long long)a[3][i].sig, a[3][i].exp);
                    if (stopped()) return;
                }
            }
            if (n && want_sample()) { int i = (int)(me->beat % n); sample("%s +-0x%llx %s/%s %s -> %llue%d", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], mode_name[mirror[cb.m]], crs_name[cb.c], (unsigned long long)a[0][i].sig, a[0][i].exp); }
        }
        add(CJ, cmp);
    }
    // C07: static-boundary modes against their counterparts
    void statics(const U* in, int n) {
        for (int m = 0; m < 4; ++m) for (int c = 0; c < 5; ++c) {
            if (stopped()) return;
            what("%s %s/%s %s", fname<F>(), mode_name[m], mode_name[m + 6], crs_name[c]);
            { Inside x; libs[0].batch<F>(m, c, 1)(in, out, n, &me->cursor); libs[0].batch<F>(m + 6, c, 1)(in, o2, n, &me->cursor); }
            static Out o3[N];                       // the static mode when the sign is not requested
            { Inside x; libs[0].batch<F>(m + 6, c, 0)(in, o3, n, &me->cursor); }
            add(CT, 3 * (u64)n); add(CJ, 2 * (u64)n);
            for (int i = 0; i < n; ++i) if (out[i].sig != o3[i].sig || out[i].exp != o3[i].exp) {
                char key[160]; snprintf(key, sizeof key, "unsigned %s %s %s 0x%llx", fname<F>(), mode_name[m + 6], crs_name[c], (unsigned long long)in[i]);
                violation(key, "%s bits 0x%llx policy %s: %s gives %llue%d, %s without the sign gives %llue%d", fname<F>(), (unsigned long long)in[i], crs_name[c], mode_name[m], (unsigned long long)out[i].sig, out[i].exp, mode_name[m + 6], (unsigned long long)o3[i].sig, o3[i].exp);
                if (stopped()) return;
            }
            for (int i = 0; i < n; ++i) if (out[i].sig != o2[i].sig || out[i].exp != o2[i].exp || out[i].neg != o2[i].neg) {
                char key[160]; snprintf(key, sizeof key, "%s %s %s 0x%llx", fname<F>(), mode_name[m + 6], crs_name[c], (unsigned long long)in[i]);
                violation(key, "%s bits 0x%llx policy %s: %s gives %llue%d, %s gives %llue%d", fname<F>(), (unsigned long long)in[i], crs_name[c], mode_name[m], (unsigned long long)out[i].sig, out[i].exp, mode_name[m + 6], (unsigned long long)o2[i].sig, o2[i].exp);
                if (stopped()) return;
            }
            if (n && want_sample()) { int i = (int)(me->beat % n); sample("%s 0x%llx %s = %s %s -> %llue%d", fname<F>(), (unsigned long long)in[i], mode_name[m], mode_name[m + 6], crs_name[c], (unsigned long long)out[i].sig, out[i].exp); }
        }
    }
    // C13: printed text of every configuration against the first
    void texts(const U* in, int n, const Combo& cb) {
        static Txt a[N], b[N]; bool first = true; const char* ref_ = "";
        auto compare = [&](const char* nm) {
            add(CT, n); add(c_text, n);
            if (first) { memcpy(a, b, sizeof(Txt) * (size_t)n); first = false; ref_ = nm; return; }
            add(CJ, n);
            for (int i = 0; i < n; ++i) if (memcmp(&a[i], &b[i], sizeof(Txt))) {
                char key[160]; snprintf(key, sizeof key, "%s text %s %s %s 0x%llx", nm, fname<F>(), mode_name[cb.m], crs_name[cb.c], (unsigned long long)in[i]);
                violation(key, "%s bits 0x%llx mode %s policy %s: configuration %s prints \"%s\", configuration %s prints \"%s\"", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], crs_name[cb.c], ref_, a[i].t, nm, b[i].t);
                if (stopped()) return;
            }
        };
        for (auto& l : libs) {
            auto fp = l.mode[cb.m] ? l.chars<F>(cb.m, cb.c, 0) : nullptr; if (!fp) continue;
            what("print %s %s %s [%s]", fname<F>(), mode_name[cb.m], crs_name[cb.c], l.name.c_str());
            { Inside x; for (int i = 0; i < n; ++i) { char t[64]; me->cursor = in[i]; char* e = fp(in[i], t); set_txt(b[i], t, e); } }
            compare(l.name.c_str()); if (stopped()) return;
        }
        for (auto& sv : servers) {
            what("print %s %s %s [%s]", fname<F>(), mode_name[cb.m], crs_name[cb.c], sv.name.c_str());
            me->phase = 1; me->cursor = in[0]; int r = sv.text<F>(cb.m, cb.c, in, b, n, &me->cursor); me->phase = 0; ++me->beat;
            if (r == 0) continue;
            if (r < 0) { char key[160]; snprintf(key, sizeof key, "crash %s %s 0x%llx", sv.name.c_str(), me->what, (unsigned long long)me->cursor); violation(key, "configuration %s died on input 0x%llx [%s]", sv.name.c_str(), (unsigned long long)me->cursor, me->what); return; }
            compare(sv.name.c_str()); if (stopped()) return;
        }
    }
    // C13: every configuration against the first
    void configs(const U* in, int n, const std::vector<Combo>& combos) {
        for (auto& cb : combos) {
            if (stopped()) return;
            what("%s %s %s [%s]", fname<F>(), mode_name[cb.m], crs_name[cb.c], libs[0].name.c_str());
            { Inside x; libs[0].batch<F>(cb.m, cb.c, 1)(in, out, n, &me->cursor); }
            add(CT, n);
            auto compare = [&](const char* nm) {
                add(CJ, n);
                for (int i = 0; i < n; ++i) if (out[i].sig != o2[i].sig || out[i].exp != o2[i].exp || out[i].neg != o2[i].neg) {
                    char key[160]; snprintf(key, sizeof key, "%s %s %s %s 0x%llx", nm, fname<F>(), mode_name[cb.m], crs_name[cb.c], (unsigned long long)in[i]);
                    violation(key, "%s bits 0x%llx mode %s policy %s: configuration %s gives %llue%d, configuration %s gives %llue%d", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], crs_name[cb.c], libs[0].name.c_str(), (unsigned long long)out[i].sig, out[i].exp, nm, (unsigned long long)o2[i].sig, o2[i].exp);
                    if (stopped()) return;
                }
            };
            for (size_t l = 1; l < libs.size(); ++l) if (libs[l].has(cb.m, cb.c)) {
                what("%s %s %s [%s]", fname<F>(), mode_name[cb.m], crs_name[cb.c], libs[l].name.c_str());
                { Inside x; libs[l].batch<F>(cb.m, cb.c, 1)(in, o2, n, &me->cursor); }
                add(CT, n); compare(libs[l].name.c_str());
            }
            for (auto& sv : servers) {
                what("%s %s %s [%s]", fname<F>(), mode_name[cb.m], crs_name[cb.c], sv.name.c_str());
                me->phase = 1; me->cursor = in[0];
                int r = sv.run<F>(cb.m, cb.c, in, o2, n, &me->cursor);
                me->phase = 0; ++me->beat;
                if (r == 0) continue;          // combination not compiled there
                if (r < 0) { char key[160]; snprintf(key, sizeof key, "crash %s %s 0x%llx", sv.name.c_str(), me->what, (unsigned long long)me->cursor);
                    violation(key, "configuration %s died on input 0x%llx [%s]", sv.name.c_str(), (unsigned long long)me->cursor, me->what); return; }
                add(CT, n); compare(sv.name.c_str());
            }
            if (cb.m == M_EVEN && cb.c <= C_EVEN) texts(in, n, cb);
            if (n && want_sample()) { int i = (int)(me->beat % n); sample("%s 0x%llx %s %s -> %llue%d in %zu configurations", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], crs_name[cb.c], (unsigned long long)out[i].sig, out[i].exp, libs.size() + servers.size()); }
        }
    }
    // C24: range of the result
    void ranges(const U* in, int n, const std::vector<Combo>& combos) {
        constexpr bool f4 = sizeof(F) == 4; constexpr u64 top = f4 ? 1000000000ull : 100000000000000000ull;
        for (auto& cb : combos) {
            if (stopped()) return;
            what("%s %s %s", fname<F>(), mode_name[cb.m], crs_name[cb.c]);
            { Inside x; libs[0].batch<F>(cb.m, cb.c, 1)(in, out, n, &me->cursor); }
            add(CT, n); add(CJ, n);
            u64 digs[18] = {};
            for (int i = 0; i < n; ++i) {
                int len = 0; for (u64 t = out[i].sig; t; t /= 10) ++len;
                int sci = out[i].exp + len - 1;
                ++digs[len < 18 ? len : 17];
                if (out[i].sig == 0 || out[i].sig >= top || sci < (f4 ? -45 : -324) || sci > (f4 ? 38 : 308)) {
                    char key[160]; snprintf(key, sizeof key, "%s %s %s 0x%llx", fname<F>(), mode_name[cb.m], crs_name[cb.c], (unsigned long long)in[i]);
                    violation(key, "%s bits 0x%llx mode %s policy %s: %llue%d is outside the printable range", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], crs_name[cb.c], (unsigned long long)out[i].sig, out[i].exp);
                    if (stopped()) return;
                }
            }
            for (int d = 1; d < 18; ++d) if (digs[d]) add(c_len + d - 1, digs[d]);
            if (n && want_sample()) { int i = (int)(me->beat % n); sample("%s 0x%llx %s %s -> %llue%d", fname<F>(), (unsigned long long)in[i], mode_name[cb.m], crs_name[cb.c], (unsigned long long)out[i].sig, out[i].exp); }
        }
    }
    // C25: in increasing magnitude, the largest outcome (over the policies) of an input lies below the smallest one of the next
    struct Pos { int sci; u64 s; bool operator<(const Pos& o) const { return sci != o.sci ? sci < o.sci : s < o.s; } };
    static Pos pos(const Out& o) {
        Pos p; p.s = o.sig; int len = 0; for (u64 t = o.sig; t; t /= 10) ++len;
        p.sci = o.sig ? o.exp + len - 1 : -100000; for (int l = len; l && l < 19; ++l) p.s *= 10;
        return p;
    }
    void ordered(const U* in, int n, const std::vector<Combo>& combos) {
        static Pos lo[N], hi[N]; static int plo[N], phi[N]; static Out olo[N], ohi[N];
        for (size_t b = 0, e; b < combos.size(); b = e) {
            for (e = b; e < combos.size() && combos[e].m == combos[b].m; ++e) {
                if (stopped()) return;
                const Combo& cb = combos[e];
                what("%s %s %s", fname<F>(), mode_name[cb.m], crs_name[cb.c]);
                { Inside x; libs[0].batch<F>(cb.m, cb.c, 1)(in, out, n, &me->cursor); }
                for (int i = 0; i < n; ++i) {
                    Pos p = pos(out[i]);
                    if (e == b || p < lo[i]) { lo[i] = p; plo[i] = cb.c; olo[i] = out[i]; }
                    if (e == b || hi[i] < p) { hi[i] = p; phi[i] = cb.c; ohi[i] = out[i]; }
                }
                add(CT, n);
            }
            const int m = combos[b].m; u64 differ = 0;
            for (int i = 0; i < n; ++i) differ += lo[i] < hi[i];
            add(c_policy, differ); add(CJ, n - 1);
            for (int i = 0; i + 1 < n; ++i) if (!(hi[i] < lo[i + 1])) {
                char key[160]; snprintf(key, sizeof key, "%s %s %s 0x%llx", fname<F>(), mode_name[m], crs_name[phi[i]], (unsigned long long)in[i]);
                violation(key, "%s mode %s: bits 0x%llx (policy %s) give %llue%d, the next larger magnitude 0x%llx (policy %s) gives %llue%d", fname<F>(), mode_name[m], (unsigned long long)in[i], crs_name[phi[i]], (unsigned long long)ohi[i].sig, ohi[i].exp,
                    (unsigned long long)in[i + 1], crs_name[plo[i + 1]], (unsigned long long)olo[i + 1].sig, olo[i + 1].exp);
                if (stopped()) return;
            }
            if (n > 1 && want_sample()) { int i = (int)(me->beat % (n - 1)); sample("%s 0x%llx -> %llue%d < %llue%d <- 0x%llx (%s)", fname<F>(), (unsigned long long)in[i], (unsigned long long)ohi[i].sig, ohi[i].exp, (unsigned long long)olo[i + 1].sig, olo[i + 1].exp, (unsigned long long)in[i + 1], mode_name[m]); }
        }
    }
    void run(const U* in, int n, const std::vector<Combo>& combos, bool stat) {
        if (prop == "C25") { ordered(in, n, combos); return; }
        if (prop == "C24") { ranges(in, n, combos); return; }
        if (prop == "C06") signs(in, n, combos);
        else if (prop == "C07") statics(in, n);
        else if (prop == "C13") configs(in, n, combos);
        else chunk(in, n, combos, stat);
    }
};
template <class F> Work<F>& work() { static Work<F> w; return w; }
// both signs: 0 no, otherwise every both_signs-th input is run with its sign set as well
template <class F> u64 run_all(std::vector<typename fmt<F>::U> v, const std::vector<Combo>& combos, int both_signs, bool stat) {
    typedef typename fmt<F>::U U; constexpr int N = Work<F>::N; static U buf[N]; u64 done = 0;
    if (prop == "C25") {                        // consecutive inputs, the neighbours of the first and the last included; chunks overlap by one
        if (v.empty()) return 0;
        const U sb = U(1) << (fmt<F>::p + fmt<F>::eb);
        if (is_finite_nonzero<F>(v[0] - 1) && (v[0] & ~sb) > 1) v.insert(v.begin(), v[0] - 1);
        if (is_finite_nonzero<F>(v.back() + 1)) v.push_back(v.back() + 1);
        for (int sg = 0; sg <= (both_signs ? 1 : 0); ++sg) for (size_t i = 0; i < v.size() && !stopped(); i += N - 1) {
            int n = (int)std::min<size_t>(N, v.size() - i); for (int k = 0; k < n; ++k) buf[k] = v[i + k] | (sg ? sb : U(0));
            work<F>().run(buf, n, combos, stat); done += n;
        }
        return done;
    }
    for (int sg = 0; sg <= (both_signs ? 1 : 0); ++sg) {
        const size_t step = sg ? (size_t)both_signs : 1; int n = 0;
        for (size_t i = sg && v.size() ? (size_t)(v[0] >> fmt<F>::p) % step : 0; i < v.size() && !stopped(); i += step) {
            buf[n++] = v[i] | (sg ? U(1) << (fmt<F>::p + fmt<F>::eb) : U(0));
            if (n == N) { work<F>().run(buf, n, combos, stat); done += n; n = 0; }
        }
        if (n && !stopped()) { work<F>().run(buf, n, combos, stat); done += n; }
    }
    return done;
}
// ---- C23: short decimals survive decimal -> binary -> decimal
template <class F> void shortdec(int m, u64 lo, u64 hi, u64 step, const std::vector<Combo>& combos, bool fresh = true) {
    typedef typename fmt<F>::U U; constexpr int N = 512; static U in[N], low[N], use[N]; static bool tie[N]; static u64 ds[N]; static Out o[N]; int n = 0;
    auto flush = [&]() {
        for (auto& cb : combos) {
            if (stopped()) return;
            what("%s %s %s", fname<F>(), mode_name[cb.m], crs_name[cb.c]);
            int md = cb.m >= M_EVEN_S ? cb.m - M_EVEN_S : cb.m; u64 ties = 0;
            for (int i = 0; i < n; ++i) {            // the reader resolves its ties by the same rounding mode
                use[i] = in[i];
                if (tie[i]) { ++ties; bool odd = low[i] & 1;
                    bool up = md == M_EVEN ? odd : md == M_ODD ? !odd : md == M_PINF || md == M_AWAY; use[i] = up ? low[i] + 1 : low[i]; }
            }
            { Inside x; libs[0].batch<F>(cb.m, cb.c, 1)(use, o, n, &me->cursor); }
            add(CT, n); add(CJ, n); add(c_tie, ties);
            for (int i = 0; i < n; ++i) {
                u64 s = ds[i]; int k = m; while (s % 10 == 0) { s /= 10; ++k; }
                if (o[i].sig != s || o[i].exp != k || o[i].neg) {
                    char key[160]; snprintf(key, sizeof key, "%s %s %s 0x%llx", fname<F>(), mode_name[cb.m], crs_name[cb.c], (unsigned long long)use[i]);
                    violation(key, "decimal %llue%d reads as %s 0x%llx, which prints as %llue%d (mode %s policy %s)", (unsigned long long)s, k, fname<F>(), (unsigned long long)use[i], (unsigned long long)o[i].sig, o[i].exp, mode_name[cb.m], crs_name[cb.c]);
                    if (stopped()) return;
                }
            }
            if (n && want_sample()) { int i = (int)(me->beat % n); sample("%llue%d -> %s 0x%llx -> %llue%d (%s)", (unsigned long long)ds[i], m, fname<F>(), (unsigned long long)use[i], (unsigned long long)o[i].sig, o[i].exp, mode_name[cb.m]); }
        }
        if (fresh) add(CS, n);
        n = 0;
    };
    const Geo gmin = geo<F>(U(1) << fmt<F>::p);
    for (u64 d = lo; d < hi && !stopped(); d += step) {
        if (d % 10 == 0) continue;
        if (!gen::nearest_to<F>(d, m, in[n], &tie[n], &low[n])) continue;
        if (cmp10(d, m, gmin.X, gmin.q) < 0) continue;           // the guarantee starts at the normal range
        if (tie[n] && !is_finite_nonzero<F>(low[n] + 1)) continue;
        ds[n] = d; if (++n == N) flush();
    }
    if (n) flush();
}

int main(int argc, char** argv) {
    double t0 = now();
    if (argc < 5) return 3;
    prop = argv[1]; tier = argv[2]; const char* result = argv[3];
    init(); base_counters();
    std::string only; // replay: --one <fmt> <hexbits>
    u64 one = 0;
    for (int i = 4; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--one" && i + 2 < argc) { only = argv[i + 1]; one = strtoull(argv[i + 2], 0, 16); i += 2; continue; }
        size_t e = a.find('='); std::string n = a.substr(0, e), p = a.substr(e + 1);
        if (p[0] == '!') { Server s; s.name = n; s.path = p.substr(1); servers.push_back(s); }
        else { Lib l; if (!l.load(n, p)) return 3; libs.push_back(l); }
    }
    c_tie = counter("inputs_with_exact_tie"); c_lend = counter("inputs_with_result_on_left_endpoint"); c_rend = counter("inputs_with_result_on_right_endpoint");
    c_edge = counter("binade_minimum_inputs"); c_sub = counter("subnormal_inputs"); c_one = counter("one_digit_results_1"); c_neg = counter("negative_inputs");
    c_big = counter("full_length_results"); c_text = counter("texts_printed"); c_full = counter("floats_in_complete_sweeps"); c_alpha = counter("inputs_in_alphabets"); if (prop != "C13" && prop != "C23") c_rot = counter("inputs_in_rotation_each_under_one_combination");
    if (prop == "C24") { c_len = counter("results_with_01_digits"); for (int d = 2; d < 18; ++d) { char b[40]; snprintf(b, sizeof b, "results_with_%02d_digits", d); counter(b); } }
    std::vector<Combo> all, full;
    for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) if (wants(m, c) && libs[0].has(m, c)) all.push_back({ m, c });
    // combinations swept over every positive float in the quick tier
    if (prop == "C01") full = { { M_EVEN, C_NONE } };
    if (prop == "C02") full = { { M_ZERO, C_NONE } };
    if (prop == "C03") full = { { M_EVEN, C_EVEN } };
    if (prop == "C04") full = { { M_AWAY, C_ODD } };
    if (prop == "C24") full = { { M_EVEN, C_EVEN } };
    if (prop == "C25") { full = { { M_ODD, C_UP }, { M_ODD, C_DOWN } }; c_policy = counter("inputs_whose_policies_differ"); }
    if (prop == "C05") full = { { M_D_ZERO, C_EVEN }, { M_D_AWAY, C_EVEN } };
    if (thorough() && prop != "C13") full = all;
    if (prop == "C06") { all.clear(); for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) all.push_back({ m, c }); full.clear(); if (thorough()) full = { { M_EVEN, C_EVEN }, { M_PINF, C_NONE }, { M_D_PINF, C_EVEN }, { M_D_MINF, C_NONE } }; }
    if (prop == "C13" && thorough()) full = { { M_EVEN, C_EVEN }, { M_D_ZERO, C_EVEN } };
    if (prop == "C07") { full.clear(); if (thorough()) full.push_back({ 0, 0 }); }
    if (prop == "C23") full.clear();

    if (!only.empty()) {              // replay of one input through every combination of the property
        run_units(1, [&](u64) {
            for (auto& s : servers) s.start();
            if (only == "float") { std::vector<u32> v{ (u32)one }; run_all<float>(v, all, false, false); }
            else { std::vector<u64> v{ one }; run_all<double>(v, all, false, false); }
        });
        return finish(result, t0);
    }
    if (prop == "C23") {
        std::vector<Combo> cs, cs1;
        for (int m = 0; m < M_D_PINF; ++m) for (int c = 0; c < N_CRS; ++c) if (libs[0].has(m, c)) cs.push_back({ m, c });
        cs1 = cs;
        struct T { int f, m; u64 lo, hi, step; bool wide; };
        std::vector<T> ts;
        // every decimal of at most 6 digits that is a normal float
        for (int m = -43; m <= 38; ++m) for (u64 b = 0; b < 10; ++b) ts.push_back({ 4, m, b ? b * 100000 : 1, (b + 1) * 100000, 1, true });
        // doubles: every decimal of at most 4 (6) digits, and a lattice of 15-digit ones
        u64 dm = thorough() ? 1000000 : 100000, stp = thorough() ? 99999999989ull / 40 : 99999999989ull;
        for (int m = -322; m <= 308; ++m) ts.push_back({ 8, m, 1, dm, 1, true });
        // and of every length between: a lattice, the smallest and the largest
        u64 p10 = dm; for (int len = thorough() ? 7 : 6; len < 15; ++len, p10 *= 10) {
            u64 st = p10 * 9 / (thorough() ? 20011 : 1009); if (st % 2 == 0) ++st; if (st % 5 == 0) st += 2;
            for (int m = -322; m <= 308 - len; ++m) { ts.push_back({ 8, m, p10 + 1, p10 * 10, st, true }); ts.push_back({ 8, m, p10 + 1, p10 + 40, 1, true }); ts.push_back({ 8, m, p10 * 10 - 40, p10 * 10, 1, true }); }
        }
        for (int m = -322; m <= 294; ++m) ts.push_back({ 8, m, 100000000000000ull, 1000000000000000ull, stp, true });
        for (int m = -322; m <= 294; ++m) { ts.push_back({ 8, m, 100000000000001ull, 100000000000001ull + 200, 1, true }); ts.push_back({ 8, m, 999999999999800ull, 1000000000000000ull, 1, true }); }
        run_units(ts.size(), [&](u64 i) {
            T& t = ts[i];
            if (t.f == 4) shortdec<float>(t.m, t.lo, t.hi, t.step, t.wide ? cs1 : cs, t.wide);
            else shortdec<double>(t.m, t.lo, t.hi, t.step, t.wide ? cs1 : cs);
        });
        return finish(result, t0);
    }
    alpha::Level L = alpha::level(thorough() ? "deep" : prop == "C13" ? "small" : "quick");
    if (thorough() && prop == "C13") L = alpha::level("quick");
    if (thorough()) { L.latD = 1 << 13; L.decmax = 99999; L.narD = 12; L.latF = 4096; L.narF = 12; }   // keeps the deep tier within an hour
    const int signs = prop == "C06" ? 0 : thorough() || prop == "C13" ? 1 : 3;      // C06 runs every input with both signs itself
    // units: first the long ones
    struct T { int kind, ex; u64 base; };
    std::vector<T> ts;
    for (int ex = 0; ex < alpha::NEXD; ++ex) ts.push_back({ 2, ex, 0 });
    for (int ex = 0; ex < alpha::NEXF; ++ex) ts.push_back({ 1, ex, 0 });
    const bool fullneg = thorough() && (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C04" || prop == "C05" || prop == "C07");
    const u64 fullend = fullneg ? u64(1) << 32 : u64(0x7f800000);
    if (!full.empty()) for (u64 b = 0; b < fullend; b += 1 << 18) ts.push_back({ 0, 0, b });
    // rotation: every float once more, each under one combination and sign, and a finer lattice of doubles likewise
    const u64 rot_d = prop == "C13" ? 0 : thorough() ? 1 << 19 : 1 << 17;
    if (prop != "C13") {
        for (u64 b = 0; b < 0x7f800000u; b += 1 << 18) ts.push_back({ 3, 0, b });
        for (int ex = 0; ex < alpha::NEXD; ++ex) ts.push_back({ 4, ex, 0 });
    }
    auto mix = [](u64 x) { x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ x >> 32; };
    auto rotate = [&](auto tag, const auto& v) {                // v ascending
        typedef decltype(tag) F; typedef typename fmt<F>::U U; constexpr U sb = U(1) << (fmt<F>::p + fmt<F>::eb); u64 n = 0;
        if (prop == "C25") {                                    // runs of 128 neighbours under one mode, all its policies
            for (size_t i = 0; i < v.size() && !stopped(); i += 128) {
                u64 h = mix(v[i]); int mo = (int)(h % N_MODES); std::vector<Combo> cs; for (auto& c : all) if (c.m == mo) cs.push_back(c);
                std::vector<U> w(v.begin() + i, v.begin() + std::min(v.size(), i + 128)); if (h >> 40 & 1) for (auto& x : w) x |= sb;
                if (sizeof(F) == 8) { U x = w[0]; w.clear(); for (U k = 0; k < 128 && is_finite_nonzero<F>(x + k); ++k) w.push_back(x + k); }
                n += run_all<F>(w, cs, false, false);
            }
            return n;
        }
        std::vector<std::vector<U>> w(all.size());
        for (U x : v) { u64 h = mix(x); if (prop == "C07" && (h >> 48 & 15)) continue; w[h % all.size()].push_back(x | (prop != "C06" && (h >> 40 & 1) ? sb : U(0))); }
        for (size_t c = 0; c < all.size() && !stopped(); ++c) n += run_all<F>(w[c], { all[c] }, false, false);
        return n;
    };
    run_units(ts.size(), [&](u64 i) {
        for (auto& s : servers) s.start();
        T& t = ts[i];
        if (t.kind == 3) {
            std::vector<u32> v; for (u64 b = t.base; b < t.base + (1 << 18); ++b) if (is_finite_nonzero<float>((u32)b)) v.push_back((u32)b);
            u64 n = rotate(float(), v); add(c_rot, n); if (full.empty()) add(CS, n);
        } else if (t.kind == 4) {
            std::vector<u64> v; const u64 F52 = u64(1) << 52;   // a lattice: multiples of the golden section of the binade
            for (u64 k = 1; k <= rot_d; ++k) v.push_back(u64(t.ex) << 52 | (k * 0x9e3779b97f4a7c15ull >> 12 & (F52 - 1)));
            u64 n = rotate(double(), v); add(c_rot, n); add(CS, n);
        } else if (t.kind == 0) {
            std::vector<u32> v; v.reserve(1 << 18);
            for (u64 b = t.base; b < t.base + (1 << 18); ++b) if (is_finite_nonzero<float>((u32)b)) v.push_back((u32)b);
            if (v.empty()) return;
            run_all<float>(v, full, false, fullneg);
            add(CS, v.size()); add(c_full, v.size());
        } else if (t.kind == 1) {
            auto v = alpha::binade<float>(t.ex, L);
            u64 n = run_all<float>(v, all, signs, true); add(c_alpha, n);
            if (full.empty()) add(CS, n); else if (!fullneg) add(CS, n > v.size() ? n - v.size() : 0);      // the positive ones are in the complete sweep
        } else {
            auto v = alpha::binade<double>(t.ex, L);
            u64 n = run_all<double>(v, all, signs, true); add(CS, n); add(c_alpha, n);
        }
    });
    return finish(result, t0);
}
