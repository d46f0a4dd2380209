// One-off: picks from the alphabets a few inputs that together execute every branch direction of every instantiation
// (used to choose the operations of the history, schedule, interruption and life explorations).
//   pick lib-O0.so per-format
#include "alpha.hpp"
#include "lib.hpp"
#include <link.h>
#include <sys/ucontext.h>
#include <set>
#include <unordered_map>
using namespace ref; using namespace core;
static Lib L; static unsigned char* lo; static size_t len; static std::string path;
static int cb(dl_phdr_info* i, size_t, void*) { if (!i->dlpi_name || path != i->dlpi_name) return 0; for (int k = 0; k < i->dlpi_phnum; ++k) { auto& h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) { lo = (unsigned char*)(i->dlpi_addr + h.p_vaddr); len = h.p_memsz; } } return 1; }
static u32 buf[1 << 20]; static volatile u32 nb; static u32 prev;
static void on(int, siginfo_t*, void* q) { auto* u = (ucontext_t*)q; unsigned char* ip = (unsigned char*)u->uc_mcontext.gregs[REG_RIP]; u32 o = ip >= lo && ip < lo + len ? (u32)(ip - lo) : 0; u32 d = o - prev; if (o && prev && (d > 15)) { if (nb < (1 << 20) - 2) { buf[nb++] = prev; buf[nb++] = o; } } else if (o && prev && nb < (1 << 20) - 2) { buf[nb++] = prev; buf[nb++] = o; } prev = o; }
template <class F> std::vector<u64> cands() {
    std::vector<u64> v; alpha::Level l = alpha::level("small"); u64 st = sizeof(F) == 4 ? 23 : 97;
    int n = sizeof(F) == 4 ? alpha::NEXF : alpha::NEXD, step = sizeof(F) == 4 ? 3 : 29;
    for (int ex = 0; ex < n; ex += (ex > n / 2 - (sizeof(F) == 4 ? 20 : 40) && ex < n / 2 + (sizeof(F) == 4 ? 60 : 130)) ? 1 : step) { auto b = alpha::binade<F>(ex, l); for (size_t i = (size_t)ex % st; i < b.size(); i += b.size() / 12 + 1) v.push_back(b[i] | (i % 5 == 0 ? u64(1) << (fmt<F>::p + fmt<F>::eb) : 0)); }
    return v;
}
template <class F> void go(int want) {
    typedef typename fmt<F>::U U; auto c = cands<F>(); fprintf(stderr, "%zu candidates\n", c.size());
    const size_t CAP = 60000; u64* e = (u64*)mmap(nullptr, c.size() * CAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); u32* ne = (u32*)mmap(nullptr, c.size() * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    run_units(c.size(), [&](u64 i) {
        struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = on; a.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &a, nullptr);
        std::set<u64> s;
        for (int m = 0; m < 14; ++m) for (int k = 0; k < 5; ++k) {
            Out o; U x = (U)c[i]; auto f = L.batch<F>(m, k, 1); nb = 0; prev = 0;
            asm volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "cc", "memory"); f(&x, &o, 1, nullptr); asm volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "cc", "memory");
            for (u32 j = 0; j < nb; j += 2) s.insert((u64)buf[j] << 32 | buf[j + 1]);
        }
        u32 n = 0; for (u64 q : s) if (n < CAP) e[i * CAP + n++] = q; ne[i] = n;
    });
    std::set<u64> have, all; for (size_t i = 0; i < c.size(); ++i) for (u32 j = 0; j < ne[i]; ++j) all.insert(e[i * CAP + j]);
    printf("%s: %zu edges\n", sizeof(F) == 4 ? "float" : "double", all.size());
    for (int w = 0; w < want; ++w) {
        size_t best = 0, bi = 0; for (size_t i = 0; i < c.size(); ++i) { size_t g = 0; for (u32 j = 0; j < ne[i]; ++j) g += !have.count(e[i * CAP + j]); if (g > best) { best = g; bi = i; } }
        if (!best) break;
        for (u32 j = 0; j < ne[bi]; ++j) have.insert(e[bi * CAP + j]);
        printf("0x%llx, // %zu new, %zu missing\n", (unsigned long long)c[bi], best, all.size() - have.size()); fflush(stdout);
    }
}
int main(int, char** v) { init(); base_counters(); path = v[1]; L.load("O0", v[1]); dl_iterate_phdr(cb, nullptr); go<float>(atoi(v[2])); go<double>(atoi(v[2])); }
