// C14: conversions are pure functions of their arguments, explored over histories, environments and memory contents.
//   purity C14 <tier> <result.json> name=lib.so ...
#include "alpha.hpp"
#include "lib.hpp"
#include "picked.hpp"
#include <link.h>
#include <cfenv>
#include <cerrno>
#include <clocale>
#include <locale>
#include <filesystem>
#include <xmmintrin.h>
#include <set>
using namespace ref; using namespace core;
static std::vector<Lib> libs;
static int c_env, c_paint, c_pair, c_triple, c_chain, c_rel, c_state;
struct Op { uint8_t f, m, c, kind; u64 x; };            // kind 0 unsigned, 1 signed, 2 printed without, 3 with terminator
struct Res { unsigned char b[40]; bool operator==(const Res& o) const { return !memcmp(b, o.b, sizeof b); } };

// ---- the memory a call could keep something in: writable segments and thread-local block of the library ----
extern "C" void* __tls_get_addr(void*);
struct Seg { unsigned char* p; size_t n; };
struct Mem {
    std::vector<Seg> segs; std::string path; size_t bytes = 0;
    static int cb(dl_phdr_info* i, size_t, void* q) {
        Mem* m = (Mem*)q; if (!i->dlpi_name || m->path != i->dlpi_name) return 0;
        size_t rel_lo = 0, rel_hi = 0;
        for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rel_lo = i->dlpi_phdr[k].p_vaddr; rel_hi = (rel_lo + i->dlpi_phdr[k].p_memsz) & ~size_t(4095); }
        for (int k = 0; k < i->dlpi_phnum; ++k) {
            auto& h = i->dlpi_phdr[k];
            if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) {
                size_t a = h.p_vaddr, e = h.p_vaddr + h.p_memsz; if (rel_lo <= a && a < rel_hi) a = rel_hi;
                if (a < e) m->segs.push_back({ (unsigned char*)(i->dlpi_addr + a), e - a });
            }
            if (h.p_type == PT_TLS && h.p_memsz) {
                struct { unsigned long mod, off; } ti{ i->dlpi_tls_modid, 0 };
                m->segs.push_back({ (unsigned char*)__tls_get_addr(&ti), h.p_memsz });
            }
        }
        return 1;
    }
};

struct State {
    std::vector<unsigned char> v;
    void save(const Mem& m) { v.resize(m.bytes); size_t o = 0; for (auto& s : m.segs) { memcpy(v.data() + o, s.p, s.n); o += s.n; } }
    bool same(const Mem& m) const { size_t o = 0; for (auto& s : m.segs) { if (memcmp(v.data() + o, s.p, s.n)) return false; o += s.n; } return true; }
    void put(const Mem& m) const { size_t o = 0; for (auto& s : m.segs) { if (memcmp(v.data() + o, s.p, s.n)) memcpy(s.p, v.data() + o, s.n); o += s.n; } }
};
template <class F> static inline void run(const Lib& L, const Op& o, unsigned char prefill, Res& r) {
    memset(r.b, 0, sizeof r.b);
    if (o.kind < 2) {
        Out x; memset(&x, prefill, sizeof x); typename fmt<F>::U in = (typename fmt<F>::U)o.x;
        L.batch<F>(o.m, o.c, o.kind)(&in, &x, 1, nullptr);
        memcpy(r.b, &x.sig, 8); memcpy(r.b + 8, &x.exp, 4); memcpy(r.b + 12, &x.neg, 4);
    } else {
        char b[64]; memset(b, prefill, sizeof b);
        char* e = L.chars<F>(o.m, o.c, o.kind - 2)((typename fmt<F>::U)o.x, b);
        long n = e - b; if (n < 0 || n > 38) n = 39; r.b[39] = (unsigned char)n; if (n < 39) memcpy(r.b, b, (size_t)n);
    }
}
static __attribute__((noinline)) void exec(const Lib& L, const Op& o, Res& r, unsigned char prefill = 0x11) {
    me->phase = 1; if (o.f == 4) run<float>(L, o, prefill, r); else run<double>(L, o, prefill, r); me->phase = 0;
}
static __attribute__((noinline)) void paint(unsigned char c) { volatile unsigned char a[12288]; for (size_t i = 0; i < sizeof a; i += 1) a[i] = c; }
static __attribute__((noinline)) void exec_painted(const Lib& L, const Op& o, Res& r, unsigned char c) {
    paint(c);
    asm volatile("mov %0, %%r8\n mov %0, %%r9\n mov %0, %%r10\n mov %0, %%r11\n mov %0, %%rax" :: "r"(0x0101010101010101ull * c) : "r8", "r9", "r10", "r11", "rax");
    exec(L, o, r, c);
}
static std::string show(const Op& o, const Res& r) {
    char t[160];
    if (o.kind < 2) { u64 s; int e; u32 n; memcpy(&s, r.b, 8); memcpy(&e, r.b + 8, 4); memcpy(&n, r.b + 12, 4); snprintf(t, sizeof t, "%llue%d/%u", (unsigned long long)s, e, n); }
    else { char b[40]; int n = r.b[39] < 39 ? r.b[39] : 0; memcpy(b, r.b, (size_t)n); b[n] = 0; snprintf(t, sizeof t, "\"%s\"", b); }
    return t;
}
static const char* kinds[] = { "unsigned", "signed", "text_n", "text" };
static std::string name(const Op& o) { char t[160]; snprintf(t, sizeof t, "%s(%s 0x%llx, %s, %s)", kinds[o.kind], o.f == 4 ? "float" : "double", (unsigned long long)o.x, mode_name[o.m], crs_name[o.c]); return t; }
static void bad(const char* why, const std::string& hist, const Op& o, const Res& want, const Res& got) {
    char key[160]; snprintf(key, sizeof key, "%s %s", why, name(o).c_str());
    violation(key, "%s: %s gives %s, but %s %s", why, name(o).c_str(), show(o, want).c_str(), show(o, got).c_str(), hist.c_str());
}
static bool ok_input(int f, u64 x, int kind) { return kind >= 2 || (f == 4 ? is_finite_nonzero<float>((u32)x) : is_finite_nonzero<double>(x)); }

// operations of the history exploration
static std::vector<Op> history_ops(int per, bool allcombos) {
    // pairs of neighbours, equal exponents, the two formats sharing values, extremes, specials
    static const u32 xf[] = { 0x3f800000, 0x3f800001, 0x3dcccccd, 0x00000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xbf800000, 0xbdcccccd, 0x4b800000, 0x4b7fffff, 0x3f7fffff, 0x5d5e0b6b, 0x0da24260, 0xff7fffff, 0x80000001, 0x00000000, 0x7f800000, 0xff800000, 0x7fc00001, 0x80000000 };
    static const u64 xd[] = { 0x3ff0000000000000, 0x3ff0000000000001, 0x3fb999999999999a, 1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0xbff0000000000000, 0xbfb999999999999a, 0x4340000000000000, 0x433fffffffffffff, 0x3fefffffffffffff, 0x44b52d02c7e14af6, 0x3fb99999a0000000, 0xffefffffffffffff, 0x8000000000000001, 0, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x8000000000000000 };
    std::vector<Op> v;
    auto combos = [&](int f, u64 x) {
        for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) for (int k = 0; k < 4; ++k) {
            if (!allcombos && !((m == 0 && c == 1) || (m == 4 && c == 2) || (m == 12 && c == 1) || (m == 0 && c == 0))) continue;
            if (!allcombos && (k == 0 || k == 3)) continue;
            if (ok_input(f, x, k)) v.push_back({ (uint8_t)f, (uint8_t)m, (uint8_t)c, (uint8_t)k, x });
        }
    };
    for (int i = 0; i < per; ++i) { combos(4, xf[i]); combos(8, xd[i]); }
    if (allcombos) for (int i = 16; i < 21; ++i) for (int k = 2; k < 4; ++k) { v.push_back({ 4, 0, 1, (uint8_t)k, xf[i] }); v.push_back({ 8, 0, 1, (uint8_t)k, xd[i] }); }
    return v;
}
static void add_picked(std::vector<Op>& v) {               // inputs that take every branch direction of every instantiation
    for (int i = 0; i < N_PICKED; ++i) for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) for (int k = 0; k < 4; ++k) {
        if (ok_input(4, picked_f[i], k)) v.push_back({ 4, (uint8_t)m, (uint8_t)c, (uint8_t)k, picked_f[i] });
        if (ok_input(8, picked_d[i], k)) v.push_back({ 8, (uint8_t)m, (uint8_t)c, (uint8_t)k, picked_d[i] });
    }
}
static void fp_set(int rc, int ftz, int daz, int pc) {
    unsigned mx = 0x1f80u | (unsigned)rc << 13 | (ftz ? 0x8000u : 0) | (daz ? 0x40u : 0);
    _mm_setcsr(mx); unsigned short cw = (unsigned short)(0x7f | rc << 10 | pc << 8); asm volatile("fnclex\n fldcw %0" :: "m"(cw));
}
struct Fp { unsigned mx; unsigned short cw, sw; };
static Fp fp_get() { Fp f; f.mx = _mm_getcsr(); asm volatile("fnstcw %0" : "=m"(f.cw)); asm volatile("fnstsw %0" : "=m"(f.sw)); return f; }

// A locale that writes numbers in its own way (compiled into a scratch directory, loaded, directory removed again).
static locale_t foreign; static std::locale* foreign_cpp;
static void load_locale() {
    for (const char* src : { "de_DE", "fr_FR" }) {
        char dir[] = "/tmp/mc-locale-XXXXXX"; if (!mkdtemp(dir)) return;
        std::string nm = std::string(src) + ".UTF-8", cmd = std::string("localedef -i ") + src + " -f UTF-8 " + dir + "/" + nm + " >/dev/null 2>&1";
        if (system(cmd.c_str()) != -1) {
            setenv("LOCPATH", dir, 1);
            if (locale_t l = newlocale(LC_ALL_MASK, nm.c_str(), (locale_t)0)) {
                foreign = l; try { foreign_cpp = new std::locale(nm); } catch (...) {}
                locale_t old = uselocale(l); bool other = strcmp(localeconv()->decimal_point, ".") != 0; uselocale(old);
                if (!other) { foreign = nullptr; foreign_cpp = nullptr; }
            }
            unsetenv("LOCPATH");
        }
        std::error_code ec; std::filesystem::remove_all(dir, ec);
        if (foreign) return;
    }
}
// further environments: errno and locale
static const struct { const char* what; int err, loc; } other_env[] = { { "errno ERANGE", ERANGE, 0 }, { "errno 0 and a locale with a decimal comma for the thread", 0, 1 }, { "errno EINVAL and a locale with a decimal comma for the process", EINVAL, 2 } };

// every environment x the alphabet x every combination, in blocks; reference: the default environment
template <class F> static void envs(const Lib& L, const std::vector<typename fmt<F>::U>& v, bool text) {
    static const int N = 512; static Out a[N], b[N]; static Res ra[N], rb;
    typedef typename fmt<F>::U U;
    for (size_t i0 = 0; i0 < v.size(); i0 += N) for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) {
        if (stopped()) return;
        size_t n = std::min<size_t>(N, v.size() - i0); const U* x = v.data() + i0;
        what("%s %s %s %s", L.name.c_str(), sizeof(F) == 4 ? "float" : "double", mode_name[m], crs_name[c]);
        fp_set(0, 0, 0, 3);
        Op o{ (uint8_t)sizeof(F), (uint8_t)m, (uint8_t)c, (uint8_t)(text ? 2 : 1), 0 };
        if (text) for (size_t i = 0; i < n; ++i) { o.x = x[i]; me->cursor = x[i]; exec(L, o, ra[i]); }
        else { Inside q; L.batch<F>(m, c, 1)(x, a, n, &me->cursor); }
        for (int e = 1; e < 21; ++e) {
            const auto* oe = e >= 18 ? &other_env[e - 18] : nullptr; if (oe && ((oe->loc == 1 && !foreign) || (oe->loc == 2 && !foreign_cpp))) continue;
            int rc = e & 3, fz = e >> 2 & 1, dz = e >> 3 & 1, pc = 3; if (oe) rc = fz = dz = 0; if (e == 16 || e == 17) { rc = e == 17 ? 3 : 0; fz = dz = e == 17; pc = e == 16 ? 0 : 2; }
            fp_set(rc, fz, dz, pc); Fp p0 = fp_get();
            std::locale keep; locale_t keep_thread = uselocale((locale_t)0); int err = oe ? oe->err : 0, err_after; u64 err_at = x[0]; bool err_changed = false;
            if (oe && oe->loc == 1) uselocale(foreign);
            if (oe && oe->loc == 2) std::locale::global(*foreign_cpp);
            errno = err;
            size_t badi = n; Res got, want;
            if (text) { for (size_t i = 0; i < n && badi == n; ++i) { o.x = x[i]; me->cursor = x[i]; exec(L, o, rb); if (!(rb == ra[i])) { badi = i; got = rb; want = ra[i]; } } }
            else { { Inside q; L.batch<F>(m, c, 1)(x, b, n, &me->cursor); } for (size_t i = 0; i < n; ++i) if (a[i].sig != b[i].sig || a[i].exp != b[i].exp || a[i].neg != b[i].neg) { badi = i; memset(&got, 0, sizeof got); want = got; memcpy(got.b, &b[i], 16); memcpy(want.b, &a[i], 16); break; } }
            err_after = errno; Fp p1 = fp_get(); fp_set(0, 0, 0, 3);
            if (err_after != err) {                              // narrow down to one input
                err_changed = true; for (size_t i = 0; i < n; ++i) { errno = err; o.x = x[i]; exec(L, o, rb); if (errno != err) { err_at = x[i]; break; } }
            }
            if (oe && oe->loc == 1) uselocale(keep_thread);
            if (oe && oe->loc == 2) std::locale::global(keep);
            char h[300]; if (oe) snprintf(h, sizeof h, "under %s [%s]", oe->what, L.name.c_str()); else snprintf(h, sizeof h, "under rounding control %d, flush-to-zero %d, denormals-are-zero %d, x87 precision %d [%s]", rc, fz, dz, pc, L.name.c_str());
            if (badi < n) { o.x = x[badi]; bad("environment", h, o, want, got); if (stopped()) return; }
            else if (err_changed) {
                o.x = err_at; char key[160]; snprintf(key, sizeof key, "errno %s", name(o).c_str());
                violation(key, "%s changes errno from %d to %d (%s)", name(o).c_str(), err, err_after, h);
                if (stopped()) return;
            }
            else if (p0.mx != p1.mx || p0.cw != p1.cw || (p0.sw & 0x3f3f) != (p1.sw & 0x3f3f)) {
                u64 at = x[0];                                   // narrow down to one input
                for (size_t i = 0; i < n; ++i) { fp_set(rc, fz, dz, pc); o.x = x[i]; exec(L, o, rb); Fp p2 = fp_get(); if (p2.mx != p0.mx || p2.cw != p0.cw || (p2.sw & 0x3f3f) != (p0.sw & 0x3f3f)) { at = x[i]; p1 = p2; break; } }
                fp_set(0, 0, 0, 3); o.x = at; char key[160]; snprintf(key, sizeof key, "fpenv %s", name(o).c_str());
                violation(key, "%s changes the floating-point environment: MXCSR %04x -> %04x, x87 control %04x -> %04x, status %04x -> %04x (%s)", name(o).c_str(), p0.mx, p1.mx, p0.cw, p1.cw, p0.sw, p1.sw, h);
                if (stopped()) return;
            }
            add(CT, n); add(CJ, n); add(c_env, n);
        }
        ++me->beat;
        if (want_sample()) { if (text) { o.x = x[0]; sample("%s -> %s under 20 environments", name(o).c_str(), show(o, ra[0]).c_str()); } }
    }
}
// what the stack, the caller-saved registers, the result and the buffer held before
template <class F> static void paints(const Lib& L, const std::vector<typename fmt<F>::U>& v, int stride) {
    static const unsigned char pat[] = { 0x00, 0xff, 0xa5, 0x01 };
    int salt = 0;
    for (auto x : v) for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) {
        if ((salt++ % stride) != 0) continue;
        if (stopped()) return;
        what("%s %s %s %s", L.name.c_str(), sizeof(F) == 4 ? "float" : "double", mode_name[m], crs_name[c]); me->cursor = x;
        for (int k = 0; k < 4; k += 1) {
            Op o{ (uint8_t)sizeof(F), (uint8_t)m, (uint8_t)c, (uint8_t)k, x }; Res r0, r;
            exec_painted(L, o, r0, pat[0]);
            for (int p = 1; p < 4; ++p) { exec_painted(L, o, r, pat[p]); if (!(r == r0)) { char h[160]; snprintf(h, sizeof h, "with the stack, registers and buffer holding 0x%02x before [%s]", pat[p], L.name.c_str()); bad("memory", h, o, r0, r); if (stopped()) return; } }
            add(CT, 4); add(CJ, 3); add(c_paint, 4);
        }
        ++me->beat;
    }
}
int main(int argc, char** argv) {
    if (argc < 5) return 3;
    double t0 = now(); tier = argv[2]; const char* result = argv[3];
    load_locale(); init(); base_counters(); if (!foreign || !foreign_cpp) note("no locale with a decimal comma could be built here; locales were not explored");
    c_env = counter("environment_runs"); c_paint = counter("memory_prefill_runs"); c_pair = counter("histories_of_length_2"); c_triple = counter("histories_of_length_3"); c_rel = counter("histories_of_related_arguments"); c_chain = counter("operations_in_long_histories"); c_state = counter("reachable_global_states");
    for (int i = 4; i < argc; ++i) { std::string a = argv[i]; size_t q = a.find('='); Lib L; if (!L.load(a.substr(0, q), a.substr(q + 1))) return 3; libs.push_back(L); }

    // --- histories ---
    std::vector<Mem> mem(libs.size()); std::vector<State> s0(libs.size());
    for (size_t i = 0; i < libs.size(); ++i) {
        mem[i].path = libs[i].path; dl_iterate_phdr(Mem::cb, &mem[i]); for (auto& s : mem[i].segs) mem[i].bytes += s.n; s0[i].save(mem[i]);
    }
    const Lib& L = libs[0]; const Mem& M = mem[0];
    std::vector<Op> ops = history_ops(16, true), small = history_ops(16, false); small.resize(std::min<size_t>(small.size(), thorough() ? 260 : 220));
    const size_t base = ops.size(); add_picked(ops);          // base: every ordered pair; the others: pairs related by combination or by input
    std::vector<Res> ref1(ops.size()), ref2(small.size());
    Res* shr = (Res*)mmap(nullptr, sizeof(Res) * (ops.size() + small.size()), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char* fix = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // first: the state graph itself.  Every operation from every reachable state, to a fixpoint or the bound.
    run_units(1, [&](u64) {
        for (size_t i = 0; i < ops.size(); ++i) { s0[0].put(M); what("%s", name(ops[i]).c_str()); me->cursor = ops[i].x; exec(L, ops[i], ref1[i]); ++me->beat; }
        for (size_t i = 0; i < small.size(); ++i) { s0[0].put(M); what("%s", name(small[i]).c_str()); me->cursor = small[i].x; exec(L, small[i], ref2[i]); }
        memcpy(shr, ref1.data(), sizeof(Res) * ops.size()); memcpy(shr + ops.size(), ref2.data(), sizeof(Res) * small.size());
        std::set<std::vector<unsigned char>> seen; std::vector<std::vector<unsigned char>> todo; seen.insert(s0[0].v); todo.push_back(s0[0].v);
        size_t expanded = 0; const size_t CAP = thorough() ? 4000 : 600; bool fixpoint = true;
        while (expanded < todo.size()) {
            if (expanded >= CAP) { fixpoint = false; break; }
            State cur; cur.v = todo[expanded++];
            for (size_t i = 0; i < ops.size() && !stopped(); ++i) {
                cur.put(M); what("%s", name(ops[i]).c_str()); me->cursor = ops[i].x; Res r; exec(L, ops[i], r); ++me->beat; add(CT, 1); add(CJ, 1);
                if (!(r == ref1[i])) bad("history", "after other operations changed global state", ops[i], ref1[i], r);
                if (!cur.same(M) && todo.size() < CAP + 1) { State n; n.save(M); if (seen.insert(n.v).second) todo.push_back(n.v); }
            }
        }
        add(c_state, seen.size()); add(CS, seen.size());
        snprintf(fix, 4000, "{\"bytes_of_global_state\":%zu,\"operations\":%zu,\"states_expanded\":%zu,\"fixpoint\":%s}", M.bytes, ops.size(), expanded, fixpoint ? "true" : "false");
    });
    extra["global_state_graph"] = fix[0] ? fix : "null";
    memcpy(ref1.data(), shr, sizeof(Res) * ops.size()); memcpy(ref2.data(), shr + ops.size(), sizeof(Res) * small.size());
    // all histories of length 2 (and 3 over fewer operations), whatever the state graph says: state may hide elsewhere
    if (!stopped()) run_units(base + 2 * small.size() + (ops.size() - base + 63) / 64, [&](u64 u) {
        Res r;
        if (u < base) {
            size_t i = u;
            for (size_t j = 0; j < base && !stopped(); ++j) {
                s0[0].put(M); me->cursor = ops[j].x; exec(L, ops[i], r); exec(L, ops[j], r);
                if (!(r == ref1[j])) { what("%s", name(ops[i]).c_str()); bad("history", "after " + name(ops[i]), ops[j], ref1[j], r); }
                if ((j & 1023) == 0) ++me->beat;
            }
            ++me->beat; add(CS, base); add(CT, 2 * base); add(CJ, base); add(c_pair, base);
            if (want_sample()) { size_t j = (i * 7 + 3) % base; sample("%s then %s -> %s", name(ops[i]).c_str(), name(ops[j]).c_str(), show(ops[j], ref1[j]).c_str()); }
        } else if (u < base + small.size()) {
            size_t i = u - base, n = small.size();
            for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n && !stopped(); ++k) {
                s0[0].put(M); me->cursor = small[k].x; exec(L, small[i], r); exec(L, small[j], r); exec(L, small[k], r);
                if (!(r == ref2[k])) bad("history", "after " + name(small[i]) + ", " + name(small[j]), small[k], ref2[k], r);
                if (k == 0) ++me->beat;
            }
            ++me->beat; add(CS, n * n); add(CT, 3 * n * n); add(CJ, n * n); add(c_triple, n * n);
        } else if (u >= base + 2 * small.size()) {
            const size_t from = base + (u - base - 2 * small.size()) * 64; u64 n = 0;
            for (size_t i = from; i < std::min(from + 64, ops.size()) && !stopped(); ++i) {
                const Op& a = ops[i]; what("%s", name(a).c_str()); ++me->beat;
                for (size_t j = 0; j < ops.size() && !stopped(); ++j) {
                    const Op& b = ops[j];
                    if (!((a.f == b.f && a.m == b.m && a.c == b.c && a.kind == b.kind) || (a.f == b.f && a.x == b.x) || (a.kind == 3 && j % 61 == i % 61))) continue;
                    s0[0].put(M); me->cursor = b.x; exec(L, a, r); exec(L, b, r); ++n; if (!(r == ref1[j])) bad("history", "after " + name(a), b, ref1[j], r);
                    s0[0].put(M); me->cursor = a.x; exec(L, b, r); exec(L, a, r); ++n; if (!(r == ref1[i])) bad("history", "after " + name(b), a, ref1[i], r);
                }
            }
            add(CS, n); add(CT, 2 * n); add(CJ, n); add(c_pair, n);
        } else {                               // one operation over and over, then every operation
            size_t i = u - base - small.size(); const int N = thorough() ? 1 << 20 : 1 << 17; s0[0].put(M);
            what("%s repeated", name(small[i]).c_str()); me->cursor = small[i].x;
            for (int t = 0; t < N && !stopped(); ++t) { exec(L, small[i], r); if (!(r == ref2[i])) { char h[60]; snprintf(h, sizeof h, "after %d calls of the same", t); bad("history", h, small[i], ref2[i], r); } if (!(t & 4095)) ++me->beat; }
            for (size_t j = 0; j < ops.size() && !stopped(); ++j) { exec(L, ops[j], r); if (!(r == ref1[j])) bad("history", "after many calls of " + name(small[i]), ops[j], ref1[j], r); }
            ++me->beat; add(CS, 1); add(CT, (u64)N + ops.size()); add(CJ, (u64)N + ops.size()); add(c_chain, (u64)N + ops.size());
        }
    });
    // related arguments: histories (b,a), (a,b,a) where b is a with one or two bits flipped, sign, halves or format swapped; a
    // remembered result keyed by part of its argument is found this way
    if (!stopped()) run_units(4 * 2 * 40, [&](u64 u) {
        static const int cm[4][2] = { { M_EVEN, C_EVEN }, { M_ZERO, C_NONE }, { M_D_ZERO, C_EVEN }, { M_EVEN_S, C_UP } };
        const int f = u / 4 % 2 ? 8 : 4, bits = f * 8, m = cm[u % 4][0], c = cm[u % 4][1]; const u64 id = u / 8;
        if (!L.mode[m]) return;
        const u64 mix = (id + 1) * 0x9e3779b97f4a7c15ull;
        u64 x = f == 8 ? (id < 20 ? (u64)(1 + id * 102) << 52 | (mix >> 12 & ((id & 1) ? ~u64(0) : u64(0xfff) << 40)) : mix ^ mix >> 29) : (id < 20 ? (u64)(1 + id * 12) << 23 | (mix & 0x7fffff) : (mix >> 32));
        if (!ok_input(f, x, 0)) x ^= f == 8 ? u64(1) << 62 : u64(1) << 30;
        std::vector<u64> y; const u64 all = f == 8 ? ~u64(0) : 0xffffffffull;
        for (int i = 0; i < bits; ++i) { y.push_back(x ^ u64(1) << i); for (int j = 0; j < i; ++j) y.push_back(x ^ u64(1) << i ^ u64(1) << j); }
        for (int i = 1; i < bits; ++i) { y.push_back(x ^ (mix << i & all)); y.push_back(x ^ ((mix ^ mix >> 7) & (all >> i))); y.push_back((x + (u64(1) << i)) & all); y.push_back((x - (u64(1) << i)) & all); y.push_back((x << i | x >> (bits - i)) & all); }
        for (u64 n : { 3, 5, 7, 10, 13, 16, 17, 31, 61, 97, 100, 101, 127, 251, 257, 509, 1000, 1009, 1021, 4093, 8191, 65521, 65537 }) for (int i = 0; i < bits - 17; i += 4) { y.push_back((x + (n << i)) & all); y.push_back((x - (n << i)) & all); }
        for (int k = 1; k < 4; k += 2) {
            Op o{ (uint8_t)f, (uint8_t)m, (uint8_t)c, (uint8_t)k, x }, q = o; Res r0, r1, r; what("%s", name(o).c_str()); me->cursor = x;
            s0[0].put(M); exec(L, o, r0); u64 n = 0;
            for (u64 b : y) {
                if (stopped()) return;
                if (!ok_input(f, b, k)) continue;
                q.x = b; s0[0].put(M); exec(L, q, r1); exec(L, o, r); ++n; if (!(r == r0)) bad("history", "after " + name(q), o, r0, r);
                exec(L, q, r); if (!(r == r1)) bad("history", "after itself and " + name(o), q, r1, r);
                if (k == 1) { Op t = q; t.kind = 3; Res rt; exec(L, t, rt); exec(L, o, r); if (!(r == r0)) bad("history", "after " + name(t), o, r0, r); }
            }
            s0[0].put(M);                                       // and all of them in one history, asking for x again every time
            for (u64 b : y) { if (stopped()) return; if (!ok_input(f, b, k)) continue; q.x = b; exec(L, q, r1); exec(L, o, r); ++n; if (!(r == r0)) bad("history", "late, after " + name(q), o, r0, r); }
            ++me->beat; add(CS, n); add(CT, 5 * n); add(CJ, 3 * n); add(c_rel, n);
        }
    });
    // --- environments and previous contents of memory ---
    alpha::Level A = alpha::level(thorough() ? "small" : "tiny");
    if (!stopped()) run_units(alpha::NEXF + alpha::NEXD + 1, [&](u64 u) {
        auto both = [&](auto tag, int ex) {
            typedef decltype(tag) F; typedef typename fmt<F>::U U;
            auto v = alpha::binade<F>(ex, A); std::vector<U> w; size_t n = v.size();
            for (size_t i = 0; i < n; ++i) { w.push_back(v[i]); if ((i & 3) == 0) w.push_back((U)(v[i] | U(1) << (fmt<F>::p + fmt<F>::eb))); }
            for (size_t l = 0; l < libs.size(); ++l) {
                if (l < 2) envs<F>(libs[l], w, false);
                std::vector<U> t; for (size_t i = l % 8; i < w.size(); i += 8) t.push_back(w[i]);
                if (l < 2) envs<F>(libs[l], t, true);
                paints<F>(libs[l], w, thorough() ? 40 + 3 : 300 + 7);
            }
            add(CS, w.size());
        };
        if (u == 0) {
            std::vector<u32> f; std::vector<u64> d;
            for (u32 s : { 0u, 0x80000000u }) { for (u32 b : { 0u, 0x7f800000u, 0x7f800001u, 0x7fc00000u, 0x7fffffffu }) f.push_back(b | s); }
            for (u64 s : { u64(0), u64(1) << 63 }) for (u64 b : { u64(0), u64(0x7ff0000000000000), u64(0x7ff0000000000001), u64(0x7ff8000000000000), u64(0x7fffffffffffffff) }) d.push_back(b | s);
            for (size_t l = 0; l < 2 && l < libs.size(); ++l) { envs<float>(libs[l], f, true); envs<double>(libs[l], d, true); }
        } else if (u <= alpha::NEXD) both(double(), (int)u - 1);
        else both(float(), (int)(u - 1 - alpha::NEXD));
    });
    return finish(result, t0);
}
