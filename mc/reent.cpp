// C26: a conversion may be interrupted at any machine instruction by another conversion on the same thread (a signal
// handler), nested, or be abandoned there for good; every instruction of the real, uninstrumented code is tried.
//   reent C26 <tier> <result.json> selftest=lib.so name=lib.so ...
#include "alpha.hpp"
#include "lib.hpp"
#include "picked.hpp"
#include <link.h>
#include <csetjmp>
#include <sys/ucontext.h>
#include <map>
using namespace ref; using namespace core;
struct Op { uint8_t f, m, c, kind; u64 x; };            // kind 0 unsigned, 1 signed, 2 printed without, 3 with terminator
struct Res { unsigned char b[40]; bool operator==(const Res& o) const { return !memcmp(b, o.b, sizeof b); } };
static int c_single, c_nested, c_abandon, c_fresh, c_every, c_missed, c_points, c_pairs;

// ---- the library's code
struct Code {
    unsigned char* lo = nullptr; size_t n = 0; std::string path;
    static int cb(dl_phdr_info* i, size_t, void* q) {
        Code* c = (Code*)q; if (!i->dlpi_name || c->path != i->dlpi_name) return 0;
        for (int k = 0; k < i->dlpi_phnum; ++k) { auto& h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) { c->lo = (unsigned char*)(i->dlpi_addr + h.p_vaddr); c->n = h.p_memsz; } }
        return 1;
    }
    bool find(const std::string& p) { path = p; dl_iterate_phdr(cb, this); return n; }
    bool has(const void* a) const { return (unsigned char*)a >= lo && (unsigned char*)a < lo + n; }
    bool writable() const { uintptr_t a = (uintptr_t)lo & ~uintptr_t(4095), e = ((uintptr_t)lo + n + 4095) & ~uintptr_t(4095); return mprotect((void*)a, e - a, PROT_READ | PROT_WRITE | PROT_EXEC) == 0; }
};
struct Range { unsigned char *lo, *hi; };
static Range sys_code[8]; static int n_sys;                     // the C and C++ run-time libraries the code may call
static int sys_cb(dl_phdr_info* i, size_t, void*) {
    if (!i->dlpi_name || !(strstr(i->dlpi_name, "libc.so") || strstr(i->dlpi_name, "libstdc++") || strstr(i->dlpi_name, "libm.so") || strstr(i->dlpi_name, "libpthread"))) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) { auto& h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_X) && n_sys < 8) { sys_code[n_sys].lo = (unsigned char*)(i->dlpi_addr + h.p_vaddr); sys_code[n_sys].hi = sys_code[n_sys].lo + h.p_memsz; ++n_sys; } }
    return 0;
}
static bool in_sys(const void* a) { for (int i = 0; i < n_sys; ++i) if ((unsigned char*)a >= sys_code[i].lo && (unsigned char*)a < sys_code[i].hi) return true; return false; }
struct Subject { Lib lib; Code code; };
static Subject* cur;
template <class F> static inline void run(const Op& o, Res& r) {
    memset(r.b, 0, sizeof r.b);
    if (o.kind < 2) {
        Out x; memset(&x, 0, sizeof x); typename fmt<F>::U in = (typename fmt<F>::U)o.x;
        cur->lib.batch<F>(o.m, o.c, o.kind)(&in, &x, 1, nullptr);
        memcpy(r.b, &x.sig, 8); memcpy(r.b + 8, &x.exp, 4); memcpy(r.b + 12, &x.neg, 4);
    } else {
        char b[64]; memset(b, 0x11, sizeof b);
        char* e = cur->lib.chars<F>(o.m, o.c, o.kind - 2)((typename fmt<F>::U)o.x, b);
        long n = e - b; if (n < 0 || n > 38) n = 39; r.b[39] = (unsigned char)n; if (n < 39) memcpy(r.b, b, (size_t)n);
    }
}
static __attribute__((noinline)) void exec(const Op& o, Res& r) { if (o.f == 4) run<float>(o, r); else run<double>(o, r); }
static const char* kinds[] = { "unsigned", "signed", "text_n", "text" };
static std::string name(const Op& o) { char t[160]; snprintf(t, sizeof t, "%s(%s 0x%llx, %s, %s)", kinds[o.kind], o.f == 4 ? "float" : "double", (unsigned long long)o.x, mode_name[o.m], crs_name[o.c]); return t; }
static std::string show(const Op& o, const Res& r) {
    char t[160];
    if (o.kind < 2) { u64 s; int e; u32 n; memcpy(&s, r.b, 8); memcpy(&e, r.b + 8, 4); memcpy(&n, r.b + 12, 4); snprintf(t, sizeof t, "%llue%d/%u", (unsigned long long)s, e, n); }
    else { char b[40]; int n = r.b[39] < 39 ? r.b[39] : 0; memcpy(b, r.b, (size_t)n); b[n] = 0; snprintf(t, sizeof t, "\"%s\"", b); }
    return t;
}
static bool ok_input(int f, u64 x, int kind) { return kind >= 2 || (f == 4 ? is_finite_nonzero<float>((u32)x) : is_finite_nonzero<double>(x)); }

// ---- interruption at a chosen instruction: a breakpoint there, whose signal handler is the interrupting call
enum What { OFF, TRACE, EVERY, POINT };
static volatile What mode = OFF;
constexpr u32 MAXT = 1 << 16;
static u32* tr; static volatile u32 ntr;                        // trace: offsets of the instructions executed in the library
static struct { unsigned char* at; unsigned char orig; u32 hits; bool stepping, armed; } bp;
struct Point { u32 off, hits; };
static struct { Op op[3]; Res res[3]; bool ran[3]; Point pt[2]; int depth; bool abandon; Op eop; Res ewant; u64 ebad, eruns; Res egot; } job;
static sigjmp_buf away;
static void arm(const Point& p) { bp.at = cur->code.lo + p.off; bp.orig = *bp.at; bp.hits = p.hits; bp.stepping = false; bp.armed = true; *(volatile unsigned char*)bp.at = 0xCC; }
static void disarm() { if (bp.armed) { *(volatile unsigned char*)bp.at = bp.orig; bp.armed = false; } }
static int level;
static void fire() {
    int d = ++level;                                            // the d-th call interrupts the (d-1)-th
    if (job.abandon) { level = 0; siglongjmp(away, 1); }
    if (d < job.depth) arm(job.pt[d]);
    exec(job.op[d], job.res[d]); job.ran[d] = true;
    disarm();
    level = d - 1;
}
static void on_trap(int, siginfo_t*, void* q) {
    ucontext_t* u = (ucontext_t*)q; greg_t& ip = u->uc_mcontext.gregs[REG_RIP]; greg_t& fl = u->uc_mcontext.gregs[REG_EFL];
    int keep = errno;
    if (mode == TRACE) { if (cur->code.has((void*)ip) && ntr < MAXT) tr[ntr++] = (u32)((unsigned char*)ip - cur->code.lo); }
    else if (mode == EVERY) { if (cur->code.has((void*)ip) || in_sys((void*)ip)) { ++job.eruns; Res r; exec(job.eop, r); if (!(r == job.ewant)) { ++job.ebad; job.egot = r; } } }
    else if (bp.stepping) { bp.stepping = false; *(volatile unsigned char*)bp.at = 0xCC; fl &= ~0x100L; }
    else if (bp.armed && (unsigned char*)ip - 1 == bp.at) {
        --ip; *(volatile unsigned char*)bp.at = bp.orig;
        if (--bp.hits == 0) { bp.armed = false; fire(); }
        else { bp.stepping = true; fl |= 0x100; }
    }
    errno = keep;
}
static inline void step_on() { asm volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "cc", "memory"); }
static inline void step_off() { asm volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "cc", "memory"); }
static void install() { struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &a, nullptr); }
static void trace(const Op& o, Res& r) { ntr = 0; mode = TRACE; step_on(); exec(o, r); step_off(); mode = OFF; }
static std::vector<Point> points() {                            // instruction executions of the last trace
    std::vector<Point> v; std::map<u32, u32> seen; v.reserve(ntr);
    for (u32 i = 0; i < ntr; ++i) v.push_back({ tr[i], ++seen[tr[i]] });
    return v;
}
static void go(bool* landed) {                                  // runs job.op[0] with its first point armed
    for (auto& x : job.ran) x = false;
    level = 0; mode = POINT; *landed = true;
    if (sigsetjmp(away, 0) == 0) { arm(job.pt[0]); exec(job.op[0], job.res[0]); job.ran[0] = true; }
    disarm(); mode = OFF;
}

// ---- expectations: each call alone
static std::map<std::string, Res> alone_;
static std::string id(const Op& o) { return std::string((const char*)&o, 4) + std::string((const char*)&o.x, 8); }
static const Res& alone(const Op& o) { auto i = alone_.find(id(o)); if (i == alone_.end()) { fprintf(stderr, "no expectation for %s\n", name(o).c_str()); _exit(3); } return i->second; }
static void expect(const std::vector<Op>& ops) {                // in a process of its own, so that this one has run nothing
    Res* out = (Res*)mmap(nullptr, sizeof(Res) * ops.size() + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    run_units(1, [&](u64) { for (size_t i = 0; i < ops.size(); ++i) { what("%s", name(ops[i]).c_str()); me->cursor = ops[i].x; Inside x; exec(ops[i], out[i]); } });
    for (size_t i = 0; i < ops.size(); ++i) alone_[id(ops[i])] = out[i];
    munmap(out, sizeof(Res) * ops.size() + 4096);
}
static void bad(const char* why, u32 off, const Op& who, const Res& got, const std::string& story) {
    char key[160]; snprintf(key, sizeof key, "%s %s", why, name(who).c_str());
    violation(key, "[%s] %s: %s gives %s instead of %s when %s (code offset 0x%x)", cur->lib.name.c_str(), why, name(who).c_str(), show(who, got).c_str(), show(who, alone(who)).c_str(), story.c_str(), off);
}
static void check_job(u32 off) {
    for (int d = 0; d <= job.depth; ++d) {
        if (!job.ran[d]) continue;
        add(CJ, 1);
        if (!(job.res[d] == alone(job.op[d]))) {
            std::string s = d == 0 ? "interrupted by " + name(job.op[1]) : "run in the middle of " + name(job.op[0]);
            if (job.depth > 1) s += d == 2 ? " interrupted by " + name(job.op[1]) : ", itself interrupted by " + name(job.op[2]);
            bad("interruption", off, job.op[d], job.res[d], s);
        }
    }
}
static void begin(const Op& a, const Op& b, const char* how) { what("[%s] %s %s %s", cur->lib.name.c_str(), name(a).c_str(), how, name(b).c_str()); me->cursor = a.x; }
// b in the middle of a, at each instruction of a
static void interrupt(const Op& a, const Op& b, const std::vector<Point>& pts) {
    begin(a, b, "interrupted by"); me->phase = 1; u64 n = 0;
    for (auto& p : pts) {
        if (stopped()) break;
        job.op[0] = a; job.op[1] = b; job.depth = 1; job.abandon = false; job.pt[0] = p; bool l;
        go(&l); ++n; if (!job.ran[1]) add(c_missed, 1); check_job(p.off);
    }
    me->phase = 0; ++me->beat; add(c_single, n); add(CS, n); add(CT, 2 * n); add(c_pairs, 1);
    if (want_sample()) sample("%s interrupted at each of %zu instructions by %s", name(a).c_str(), pts.size(), name(b).c_str());
}
static void nested(const Op& a, const Op& b, const Op& c, const std::vector<Point>& pa, const std::vector<Point>& pb, size_t step) {
    begin(a, b, "nested with"); me->phase = 1; u64 n = 0;
    for (size_t i = 0; i < pa.size(); i += step) { ++me->beat; for (size_t j = 0; j < pb.size(); ++j) {
        if (stopped()) break;
        job.op[0] = a; job.op[1] = b; job.op[2] = c; job.depth = 2; job.abandon = false; job.pt[0] = pa[i]; job.pt[1] = pb[j]; bool l;
        go(&l); ++n; if (!job.ran[2]) add(c_missed, 1); check_job(pa[i].off);
    } }
    me->phase = 0; ++me->beat; add(c_nested, n); add(CS, n); add(CT, 3 * n);
    if (want_sample()) sample("%s interrupted at each of %zu instructions by %s interrupted at each of %zu by %s", name(a).c_str(), pa.size(), name(b).c_str(), pb.size(), name(c).c_str());
}
// a is given up at each instruction; b and a itself afterwards
static void abandon(const Op& a, const Op& b, const std::vector<Point>& pts) {
    begin(a, b, "abandoned, then"); me->phase = 1; u64 n = 0;
    for (auto& p : pts) {
        if (stopped()) break;
        job.op[0] = a; job.op[1] = b; job.depth = 1; job.abandon = true; job.pt[0] = p; bool l;
        go(&l); ++n; if (job.ran[0]) add(c_missed, 1);
        Res r; exec(b, r); if (!(r == alone(b))) bad("after an abandoned call", p.off, b, r, name(a) + " was left before its end");
        exec(a, r); if (!(r == alone(a))) bad("after an abandoned call", p.off, a, r, "it was left before its end the time before");
        add(CJ, 2);
    }
    me->phase = 0; ++me->beat; add(c_abandon, n); add(CS, n); add(CT, 3 * n);
}
// b after every single instruction of a, in one run
static void every(const Op& a, const Op& b) {
    begin(a, b, "interrupted after every instruction by"); me->phase = 1; Res r;
    job.eop = b; job.ewant = alone(b); job.ebad = job.eruns = 0; mode = EVERY; step_on(); exec(a, r); step_off(); mode = OFF;
    me->phase = 0; ++me->beat; add(c_every, job.eruns); add(CS, job.eruns + 1); add(CT, job.eruns + 1); add(CJ, job.eruns + 1);
    if (job.ebad) bad("interruption", 0, b, job.egot, "run after each instruction of " + name(a));
    if (!(r == alone(a))) bad("interruption", 0, a, r, "interrupted after each instruction by " + name(b));
}
// the very first calls of a process: one process per instruction of a
static void fresh(const Op& a, const Op& b) {
    begin(a, b, "in a fresh process interrupted by");
    struct Sh { u32 n; u32 off[MAXT]; Res r[2]; int ran; }; static Sh* sh;
    if (!sh) sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->n = 0;
    auto child = [&](const std::function<void()>& f) {
        for (int again = 0; ; ++again) {
        pid_t p = fork();
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(10); f(); _exit(0); }
        int st; if (p < 0 || waitpid(p, &st, 0) != p) { fprintf(stderr, "fork failed\n"); _exit(3); }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && !again) continue;      // twice, in case the machine stood still
        return st;
        }
    };
    int st = child([&] { Res r; trace(a, r); sh->n = ntr; memcpy(sh->off, tr, ntr * sizeof(u32)); });
    if (st) { char k[160]; snprintf(k, sizeof k, "first call %s", name(a).c_str()); violation(k, "[%s] the first call %s of a process died (status %x)", cur->lib.name.c_str(), name(a).c_str(), st); return; }
    ntr = sh->n; memcpy(tr, sh->off, ntr * sizeof(u32)); auto pts = points(); u64 n = 0;
    for (auto& p : pts) {
        if (stopped()) break;
        sh->ran = 0; ++me->beat; ++n;
        st = child([&] { job.op[0] = a; job.op[1] = b; job.depth = 1; job.abandon = false; job.pt[0] = p; bool l; go(&l); sh->r[0] = job.res[0]; sh->r[1] = job.res[1]; sh->ran = job.ran[1]; });
        if (st) { char k[160]; snprintf(k, sizeof k, "stuck %s", name(a).c_str()); violation(k, "[%s] in a fresh process, %s interrupted by %s at code offset 0x%x %s", cur->lib.name.c_str(), name(a).c_str(), name(b).c_str(), p.off, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "never returns" : "dies"); return; }
        if (!sh->ran) { add(c_missed, 1); continue; }
        if (!(sh->r[0] == alone(a))) bad("interruption in a fresh process", p.off, a, sh->r[0], "interrupted by " + name(b));
        if (!(sh->r[1] == alone(b))) bad("interruption in a fresh process", p.off, b, sh->r[1], "run in the middle of " + name(a));
        add(CJ, 2);
    }
    add(c_fresh, n); add(CS, n); add(CT, 2 * n);
    if (want_sample()) sample("first call of a process %s interrupted at each of %zu instructions by %s", name(a).c_str(), pts.size(), name(b).c_str());
}

static const u32 xf[] = { 0x3f800001, 0x4b800000, 0x00000001, 0x7f7fffff, 0xbdcccccd, 0x5d5e0b6b, 0x0da24260, 0x00800000, 0x3dcccccd, 0x80000001, 0x4b7fffff, 0x42c80000 };
static const u64 xd[] = { 0x3ff0000000000001, 0x4340000000000000, 1, 0x7fefffffffffffff, 0xbfb999999999999a, 0x44b52d02c7e14af6, 0x0010000000000000, 0x3e60000000000000, 0x3fb999999999999a, 0x8000000000000001, 0x433fffffffffffff, 0x4059000000000000 };
static std::vector<Op> ops_all(int per, int picked) {
    std::vector<Op> v;
    for (int i = 0; i < per; ++i) for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) for (int k = 0; k < 4; ++k) {
        if (ok_input(4, xf[i], k)) v.push_back({ 4, (uint8_t)m, (uint8_t)c, (uint8_t)k, xf[i] });
        if (ok_input(8, xd[i], k)) v.push_back({ 8, (uint8_t)m, (uint8_t)c, (uint8_t)k, xd[i] });
    }
    for (int i = 0; i < picked; ++i) for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) for (int k = 0; k < 4; ++k) {
        v.push_back({ 4, (uint8_t)m, (uint8_t)c, (uint8_t)k, picked_f[i] }); v.push_back({ 8, (uint8_t)m, (uint8_t)c, (uint8_t)k, picked_d[i] });
    }
    return v;
}
static std::vector<Op> ops_few(int per, bool specials) {
    std::vector<Op> v; static const struct { int m, c; } cb[] = { { M_EVEN, C_EVEN }, { M_EVEN, C_NONE }, { M_D_ZERO, C_EVEN }, { M_AWAY, C_ODD } };
    for (int i = 0; i < per; ++i) for (int q = 0; q < 4; ++q) for (int k = 0; k < 4; ++k) {
        if ((q == 1 || q == 3) && (k == 0 || k == 2)) continue;
        v.push_back({ 4, (uint8_t)cb[q].m, (uint8_t)cb[q].c, (uint8_t)k, xf[i] });
        v.push_back({ 8, (uint8_t)cb[q].m, (uint8_t)cb[q].c, (uint8_t)k, xd[i] });
    }
    if (specials) for (u64 x : { u64(0), u64(0x7ff0000000000000), u64(0xfff8000000000001) }) for (int k = 2; k < 4; ++k) {
        v.push_back({ 8, 0, 1, (uint8_t)k, x }); v.push_back({ 4, 0, 1, (uint8_t)k, x ? x >> 32 == 0x7ff00000 ? u64(0x7f800000) : u64(0xffc00001) : 0 });
    }
    return v;
}
static u64 judge_selftest(Subject& s) {                          // known-good and known-bad ways of keeping scratch memory
    cur = &s; std::string wrong;
    for (int k = 0; k < 5; ++k) {
        Op a{ 4, 0, (uint8_t)k, 2, 123456 }, b{ 4, 0, (uint8_t)k, 2, 98765432 };
        alone_.clear(); expect({ a, b });
        u64 before = S->nviol.load();
        run_units(1, [&](u64) { if (!s.code.writable()) _exit(3); install(); Res r; trace(a, r); auto p = points(); if (p.size() < 20) _exit(3); interrupt(a, b, p); S->stop = 0; abandon(a, b, p); S->stop = 0; every(a, b); }, 30);
        bool found = S->nviol.load() != before, want = k != 0 && k != 4;
        S->nviol = before; S->stop = 0;
        if (found != want) wrong += " pattern " + std::to_string(k);
    }
    if (!wrong.empty()) { fprintf(stderr, "engine self-test misjudged:%s\n", wrong.c_str()); exit(3); }
    return 5;
}

int main(int argc, char** argv) {
    double t0 = now();
    if (argc < 6) return 3;
    tier = argv[2]; init(); base_counters();
    c_single = counter("interruptions_at_one_instruction"); c_nested = counter("nested_interruptions"); c_abandon = counter("calls_abandoned_at_one_instruction"); c_fresh = counter("interruptions_of_the_first_call_of_a_process");
    c_every = counter("interruptions_in_runs_interrupted_everywhere"); c_missed = counter("points_not_reached_again"); c_points = counter("instructions_traced"); c_pairs = counter("ordered_pairs_of_calls");
    tr = (u32*)mmap(nullptr, sizeof(u32) * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    dl_iterate_phdr(sys_cb, nullptr);
    std::vector<Subject> subs;
    for (int i = 4; i < argc; ++i) {
        std::string a = argv[i]; size_t e = a.find('='); Subject s;
        if (!s.lib.load(a.substr(0, e), a.substr(e + 1)) || !s.code.find(a.substr(e + 1))) { fprintf(stderr, "no code in %s\n", a.c_str()); return 3; }
        subs.push_back(s);
    }
    judge_selftest(subs[0]);
    for (auto& c : S->cnt) c = 0;
    S->nsample = 0;
    // every instruction of a hundred and more pairs of first calls
    for (size_t q = 1; q < subs.size() && !stopped(); ++q) {
        cur = &subs[q]; alone_.clear();
        const bool first = q == 1;
        auto all = ops_all(first ? thorough() ? 12 : 8 : 2, first ? N_PICKED : 0), few = ops_few(first ? thorough() ? 8 : 4 : 2, true);
        std::vector<Op> both = all; both.insert(both.end(), few.begin(), few.end());
        expect(both); if (stopped()) break;
        // 1. in a fresh process: these workers run nothing themselves
        auto start = ops_few(1, false);
        std::vector<std::pair<Op, Op>> fr; for (auto& a : start) for (auto& b : start) if (thorough() || (a.kind == b.kind && a.f == b.f) || (a.x == start[0].x && b.kind == 3 && b.f == a.f)) fr.push_back({ a, b });
        run_units(fr.size(), [&](u64 i) { if (!cur->code.writable()) _exit(3); install(); fresh(fr[i].first, fr[i].second); }, 30);
        if (stopped()) break;
        // 2. pairs, in both roles
        run_units(few.size(), [&](u64 i) {
            if (!cur->code.writable()) _exit(3); install(); Res r; trace(few[i], r); auto p = points(); add(c_points, p.size());
            for (auto& b : few) { if (stopped()) return; interrupt(few[i], b, p); }
            abandon(few[i], few[(i + 1) % few.size()], p); abandon(few[i], few[i], p);
        }, 30);
        if (stopped()) break;
        // 3. every combination and kind of call, with another input, and with other kinds of call
        const u64 B = 20;
        run_units((all.size() + B - 1) / B, [&](u64 u) {
            if (!cur->code.writable()) _exit(3); install();
            for (u64 i = u * B; i < std::min<u64>(all.size(), (u + 1) * B); ++i) {
                if (stopped()) return;
                const Op& a = all[i]; Res r; trace(a, r); auto p = points(); add(c_points, p.size());
                Op b = a; const size_t per = first ? thorough() ? 12 : 8 : 2; size_t w = 0;
                while (w < per && (a.f == 4 ? xf[w] : xd[w]) != a.x) ++w;
                b.x = a.f == 4 ? xf[(w + 1) % per] : xd[(w + 1) % per];           // a picked input (w == per) meets the second of them
                interrupt(a, b, p); b.x = a.x; b.kind = (uint8_t)((a.kind + 1) % 4); interrupt(a, b, p); interrupt(a, few[i % few.size()], p); interrupt(a, a, p);
                abandon(a, few[(i * 7 + 1) % few.size()], p); every(a, few[(i * 5 + 3) % few.size()]);
            }
        }, 30);
        if (stopped()) break;
        // 4. nested: each instruction of the first, each of the second
        std::vector<Op> nest; for (auto& o : ops_few(first ? 3 : 1, false)) if (o.kind == 1 || o.kind == 3) nest.push_back(o);
        const size_t T = nest.size(), rounds = !first ? 1 : thorough() ? 12 : 3;
        run_units(T * rounds, [&](u64 u) {
            if (!cur->code.writable()) _exit(3); install(); u64 i = u % T, k = u / T + 1;
            const Op &a = nest[i], &b = nest[(i + k) % T], &c = nest[(i + 3 * k) % T]; Res r;
            trace(a, r); auto pa = points(); trace(b, r); auto pb = points(); nested(a, b, c, pa, pb, 1);
        }, 30);
    }
    note("engine self-test: 5 sharing patterns judged correctly");
    return finish(argv[3], t0);
}
