// C27: a program that runs the same conversions in the phases of its life named on its command line:
//   prog <fd of the shared Life> <phase bits, hex> <library to load or ->
// Compiled with -DLIFE_SO it is the library that the program loads, unloads and loads again.
#include "life.hpp"
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pthread.h>
#include <dlfcn.h>
#define T(n) extern "C" const ModeTable mc_mode_##n;
T(0) T(1) T(2) T(3) T(4) T(5) T(6) T(7) T(8) T(9) T(10) T(11) T(12) T(13)
static const ModeTable* const tables[MC_MODES] = { &mc_mode_0, &mc_mode_1, &mc_mode_2, &mc_mode_3, &mc_mode_4, &mc_mode_5, &mc_mode_6, &mc_mode_7, &mc_mode_8, &mc_mode_9, &mc_mode_10, &mc_mode_11, &mc_mode_12, &mc_mode_13 };
static Life* life; static unsigned long phases; static const char* library;         // no initialisers: valid at any time
static bool alloc_fails; static int loaded_before;
static void run_phase(int p) {
    if (!life || !(phases >> p & 1)) return;
    life->now = 1 + p;
    for (int i = 0; i < NOPS; ++i) {
        int f, m, c, kind; uint64_t x; life_op(i, f, m, c, kind, x); Res r; memset(r.b, 0, sizeof r.b);
        const ModeTable& t = *tables[m];
        if (kind < 2) {
            Out o; memset(&o, 0, sizeof o); uint32_t xf = (uint32_t)x;
            if (f == 4) t.f[c][kind](&xf, &o, 1, nullptr); else t.d[c][kind](&x, &o, 1, nullptr);
            memcpy(r.b, &o.sig, 8); memcpy(r.b + 8, &o.exp, 4); memcpy(r.b + 12, &o.neg, 4);
        } else {
            char b[64]; memset(b, 0x11, sizeof b);
            char* e = f == 4 ? t.cf[c][kind - 2]((uint32_t)x, b) : t.cd[c][kind - 2](x, b);
            long n = e - b; if (n < 0 || n > 38) n = 39; r.b[39] = (unsigned char)n; if (n < 39) memcpy(r.b, b, (size_t)n);
        }
        memcpy(&life->r[p][i], &r, sizeof r);
    }
    life->done[p] = life->done[p] + 1; life->now = 0;
}
static void setup(int argc, char** argv) {
    if (life || argc < 4) return;
    phases = strtoul(argv[2], nullptr, 16); library = argv[3];
    void* m = mmap(nullptr, sizeof(Life), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(argv[1]), 0);
    if (m == MAP_FAILED) _exit(97);
    life = (Life*)m;
}
#ifndef LIFE_SO
// memory that can run out
alignas(16) static char arena[8 << 20]; static size_t used;
extern "C" void* malloc(size_t n) { if (alloc_fails) return nullptr; n = (n + 31) & ~size_t(15); size_t at = __atomic_fetch_add(&used, n, __ATOMIC_RELAXED); if (at + n > sizeof arena) return nullptr; *(size_t*)(arena + at) = n - 16; return arena + at + 16; }
extern "C" void free(void*) {}
extern "C" void* calloc(size_t a, size_t b) { return malloc(a * b); }       // the arena is never reused
extern "C" void* realloc(void* p, size_t n) { void* q = malloc(n); if (q && p) { size_t o = ((size_t*)p)[-2]; memcpy(q, p, o < n ? o : n); } return q; }
extern "C" int posix_memalign(void** p, size_t a, size_t n) { if (alloc_fails) return 12; char* q = (char*)malloc(n + a); if (!q) return 12; *p = (void*)(((uintptr_t)q + a - 1) & ~(uintptr_t)(a - 1)); return 0; }
extern "C" void* aligned_alloc(size_t a, size_t n) { void* p = nullptr; posix_memalign(&p, a, n); return p; }

static void preinit(int argc, char** argv, char**) { setup(argc, argv); run_phase(PREINIT); }
__attribute__((section(".preinit_array"), used)) static void (*const preinit_entry)(int, char**, char**) = preinit;
struct Early { Early() { run_phase(EARLY_OBJECT); } ~Early() { run_phase(EARLY_DESTRUCTOR); } };
__attribute__((init_priority(101))) static Early early;
struct Object { Object() { run_phase(OBJECT); } ~Object() { run_phase(OBJECT_DESTRUCTOR); } };
static Object object;
__attribute__((constructor)) static void constructor_function() { run_phase(CONSTRUCTOR); }
__attribute__((destructor(101))) static void last_destructor() { run_phase(LAST_DESTRUCTOR); }
struct Local { int v; Local() : v(0) { run_phase(TLS_CONSTRUCTOR); } ~Local() { run_phase(TLS_DESTRUCTOR); } };
static void* thread_body(void*) {
    if (phases & (1ul << TLS_CONSTRUCTOR | 1ul << TLS_DESTRUCTOR)) { static thread_local Local local; local.v++; }
    run_phase(THREAD); return nullptr;
}
static void exit_handler() { run_phase(AT_EXIT); }
static void quick_handler() { run_phase(QUICK_EXIT); }
int main(int argc, char** argv) {
    if (!life) return 97;
    atexit(exit_handler); at_quick_exit(quick_handler);
    run_phase(MAIN);
    if (phases & (1ul << THREAD | 1ul << TLS_CONSTRUCTOR | 1ul << TLS_DESTRUCTOR)) { pthread_t t; if (pthread_create(&t, nullptr, thread_body, nullptr)) return 97; pthread_join(t, nullptr); }
    if (phases >> FORKED & 1) { pid_t p = fork(); if (p == 0) { run_phase(FORKED); _exit(0); } int st; if (p < 0 || waitpid(p, &st, 0) != p) return 97; if (st) return 98; }
    alloc_fails = true; run_phase(NO_MEMORY); alloc_fails = false;
    if (phases >> N_PROGRAM) for (int round = 0; round < 2; ++round) {
        void* h = dlopen(library, RTLD_NOW | RTLD_LOCAL); if (!h) return 97;
        auto call = (void (*)())dlsym(h, "life_call"); if (!call) return 97;
        call(); dlclose(h);
        if (!(phases >> SO_AGAIN_EARLY)) break;
        loaded_before = 1;
    }
    if (phases >> QUICK_EXIT & 1) quick_exit(0);
    return 0;
}
extern "C" __attribute__((visibility("default"))) void life_state(Life** l, unsigned long* p, int* r) { *l = life; *p = phases; *r = loaded_before; }
#else
extern "C" void life_state(Life** l, unsigned long* p, int* round);          // from the program
static void so_phase(int first, int again) { int round; life_state(&life, &phases, &round); run_phase(round ? again : first); }
struct Early { Early() { so_phase(SO_EARLY, SO_AGAIN_EARLY); } ~Early() { so_phase(SO_EARLY_DESTRUCTOR, SO_AGAIN_DESTRUCTOR); } };
__attribute__((init_priority(101))) static Early early;
struct Object { Object() { so_phase(SO_OBJECT, SO_AGAIN_OBJECT); } ~Object() { so_phase(SO_DESTRUCTOR, SO_AGAIN_DESTRUCTOR); } };
static Object object;
extern "C" __attribute__((visibility("default"))) void life_call() { so_phase(SO_CALL, SO_AGAIN_CALL); }
#endif
