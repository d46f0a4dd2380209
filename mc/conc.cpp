// C15: concurrent conversions under a controlled scheduler.
//   conc C15 <tier> <result.json> tsan-instrumented-lib.so selftest.so
// The code under test is compiled with thread-sanitizer instrumentation, but the runtime behind it is this file: every
// memory access and synchronisation operation of the code arrives here, on real threads of which exactly one runs at a
// time.  Accesses are checked for conflicts with vector clocks, and schedules are enumerated depth first up to a
// preemption bound, with scheduling points at synchronisation operations and at accesses to contended locations.
#include "alpha.hpp"
#include "lib.hpp"
#include "picked.hpp"
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <sched.h>
using namespace ref; using namespace core;
static constexpr int MT = 3;                     // threads of a program
static constexpr size_t STK = 256 * 1024;
typedef unsigned Clk[MT];
struct Op { uint8_t f, m, c, kind; u64 x; };
struct Res { unsigned char b[40]; bool operator==(const Res& o) const { return !memcmp(b, o.b, sizeof b); } };

// ---------------------------------------------------------------- threads and schedule
struct Th { std::atomic<int> go; bool done, blocked; uintptr_t waiting; Clk vc; std::vector<Op> prog; std::vector<Res> res; pthread_t h; };
static Th T[MT]; static int NT; static char* stacks;
static thread_local int self = -1;               // index of this thread inside a controlled run, or -1
static std::atomic<int> main_go;
static inline void fwait(std::atomic<int>& a) { while (!a.load(std::memory_order_acquire)) syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0, std::memory_order_relaxed); }
static inline void fwake(std::atomic<int>& a) { a.store(1, std::memory_order_release); syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

struct Choice { int n, chosen; int alt[MT]; bool preempt; };
static std::vector<Choice> trail; static size_t tpos; static int budget;      // schedule being replayed / extended
static bool every_point, aborted; static unsigned long steps, run_length; static bool deadlock;
static std::vector<int> order;                    // thread of every visited scheduling point (for the report)
// ---------------------------------------------------------------- memory model
struct Cell { unsigned w[MT], r[MT], aw[MT], ar[MT]; };
struct Hash { size_t operator()(uintptr_t a) const { return a * 0x9E3779B97F4A7C15ull >> 20; } };
static std::unordered_map<uintptr_t, Cell, Hash> cells;
struct Sync { Clk c; int owner, depth, readers; };
static std::unordered_map<uintptr_t, Sync, Hash> syncs;
static std::unordered_set<uintptr_t, Hash> contended;      // grows while a program is explored
static bool grew;
struct Race { bool hit; uintptr_t a; int t1, t2; const char* kind; void* pc; }; static Race race;
static unsigned long n_access, n_points, n_sync;
struct Range { uintptr_t a, e; }; static std::vector<Range> ro;      // read-only parts of the libraries
static uintptr_t lib_base[2];

static void pick_next(bool cur_can);
static void point() {                             // a place where another thread may be scheduled
    ++n_points; if (++steps > 2000000) aborted = true;
    pick_next(true);
}
static void switch_to(int t, bool wait) { int me_ = self; if (t == me_) return; run_length = 0; fwake(T[t].go); if (wait) fwait(T[me_].go); }
static void pick_next(bool cur_can) {
    int opts[MT], n = 0; bool pre = cur_can;
    // a thread spinning on something for long is descheduled for free, so that spin locks make progress
    bool forced = cur_can && ++run_length > 3000;
    if (cur_can && !forced) opts[n++] = self;
    for (int k = 1; k <= NT; ++k) { int t = (self + k) % NT; if (t == self) continue; if (!T[t].done && !T[t].blocked) opts[n++] = t; }
    if (forced) { if (!n) { run_length = 0; return; } pre = false; n = 1; }
    if (aborted) n = n ? 1 : 0;
    if (!n) { // nobody can run
        bool all = true; for (int t = 0; t < NT; ++t) all &= T[t].done;
        if (!all) { deadlock = true; fwake(main_go); if (!T[self].done) for (;;) pause(); return; }
        fwake(main_go); return;
    }
    int c = 0;
    if (n > 1) {
        if (tpos < trail.size()) { c = trail[tpos].chosen; if (c >= n) c = 0; trail[tpos].n = n; for (int i = 0; i < n; ++i) trail[tpos].alt[i] = opts[i]; trail[tpos].preempt = pre; }
        else { Choice x; x.n = n; x.chosen = 0; x.preempt = pre; for (int i = 0; i < n; ++i) x.alt[i] = opts[i]; trail.push_back(x); }
        ++tpos; if (order.size() < 400) order.push_back(opts[c]);
    }
    int t = opts[c];
    if (t != self) switch_to(t, !T[self].done);
}
static void block_on(uintptr_t a) { T[self].blocked = true; T[self].waiting = a; pick_next(false); }
static void wake_waiters(uintptr_t a) { for (int t = 0; t < NT; ++t) if (T[t].blocked && T[t].waiting == a) T[t].blocked = false; }
static Sync& sync_of(uintptr_t a) { auto it = syncs.find(a); if (it != syncs.end()) return it->second; Sync s; memset(&s, 0, sizeof s); s.owner = -1; return syncs.emplace(a, s).first->second; }
static void acq(uintptr_t a) { Sync& s = sync_of(a); for (int i = 0; i < MT; ++i) if (s.c[i] > T[self].vc[i]) T[self].vc[i] = s.c[i]; }
static void rel(uintptr_t a) { Sync& s = sync_of(a); for (int i = 0; i < MT; ++i) if (T[self].vc[i] > s.c[i]) s.c[i] = T[self].vc[i]; ++T[self].vc[self]; }

static void report_race(uintptr_t a, int other, const char* kind, void* pc) { if (!race.hit) race = { true, a, other, self, kind, pc }; }
static void access(uintptr_t a, size_t n, bool w, bool atomic, void* pc) {
    if (self < 0) return;
    uintptr_t s0 = (uintptr_t)(stacks + STK * (size_t)self);
    if (a >= s0 && a < s0 + STK) return;
    for (auto& r : ro) if (a >= r.a && a < r.e) return;
    ++n_access;
    bool hot = every_point || atomic;
    if (!hot) for (size_t i = 0; i < n; ++i) if (contended.count(a + i)) { hot = true; break; }
    if (hot) point();
    const unsigned* vc = T[self].vc; int me_ = self;
    for (size_t i = 0; i < n; ++i) {
        Cell& c = cells[a + i];
        for (int t = 0; t < NT; ++t) if (t != me_) {
            bool other = c.w[t] || c.aw[t] || (w && (c.r[t] || c.ar[t]));
            if (other && contended.insert(a + i).second) grew = true;
            if (c.w[t] > vc[t]) report_race(a + i, t, w ? "write after write" : "read after write", pc);
            if (w && c.r[t] > vc[t]) report_race(a + i, t, "write after read", pc);
            if (!atomic && c.aw[t] > vc[t]) report_race(a + i, t, "plain access after atomic write", pc);
            if (!atomic && w && c.ar[t] > vc[t]) report_race(a + i, t, "plain write after atomic read", pc);
        }
        (atomic ? (w ? c.aw : c.ar) : (w ? c.w : c.r))[me_] = vc[me_];
    }
}
#define PC __builtin_return_address(0)
#define AD(p) ((uintptr_t)(p))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(AD(p), n, false, false, PC); } void __tsan_write##n(void* p) { access(AD(p), n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(AD(p), n, false, false, PC); } void __tsan_unaligned_write##n(void* p) { access(AD(p), n, true, false, PC); } \
  void __tsan_read_write##n(void* p) { access(AD(p), n, false, false, PC); access(AD(p), n, true, false, PC); } void __tsan_unaligned_read_write##n(void* p) { access(AD(p), n, false, false, PC); access(AD(p), n, true, false, PC); } \
  void __tsan_volatile_read##n(void* p) { access(AD(p), n, false, false, PC); } void __tsan_volatile_write##n(void* p) { access(AD(p), n, true, false, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(AD(p), n, false, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { access(AD(p), n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(AD(p), n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(AD(p), n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { access(AD(p), 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(AD(p), 8, false, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(AD(s), n, false, false, PC); access(AD(d), n, true, false, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(AD(s), n, false, false, PC); access(AD(d), n, true, false, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(AD(d), n, true, false, PC); return memset(d, c, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
void __tsan_atomic_signal_fence(int) {}
static char fence_addr;
void __tsan_atomic_thread_fence(int) { if (self < 0) return; ++n_sync; acq(AD(&fence_addr)); rel(AD(&fence_addr)); }
// sequentially consistent values; happens-before from release stores and read-modify-writes to acquire loads
static bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void a_load(void* p, size_t n, int mo, void* pc) { if (self < 0) return; ++n_sync; access(AD(p), n, false, true, pc); if (is_acq(mo)) acq(AD(p)); else acq(AD(&fence_addr)); }
static void a_store(void* p, size_t n, int mo, void* pc) { if (self < 0) return; ++n_sync; access(AD(p), n, true, true, pc); if (is_rel(mo)) { Sync& s = sync_of(AD(p)); memset(s.c, 0, sizeof s.c); rel(AD(p)); } else { Sync& s = sync_of(AD(p)); memset(s.c, 0, sizeof s.c); } }
static void a_rmw(void* p, size_t n, int mo, void* pc) { if (self < 0) return; ++n_sync; access(AD(p), n, true, true, pc); if (is_acq(mo)) acq(AD(p)); if (is_rel(mo)) rel(AD(p)); }
#define ATOM(bits, T_) \
  T_ __tsan_atomic##bits##_load(const volatile T_* p, int mo) { a_load((void*)p, sizeof(T_), mo, PC); return *p; } \
  void __tsan_atomic##bits##_store(volatile T_* p, T_ v, int mo) { a_store((void*)p, sizeof(T_), mo, PC); *p = v; } \
  T_ __tsan_atomic##bits##_exchange(volatile T_* p, T_ v, int mo) { a_rmw((void*)p, sizeof(T_), mo, PC); T_ o = *p; *p = v; return o; } \
  T_ __tsan_atomic##bits##_fetch_add(volatile T_* p, T_ v, int mo) { a_rmw((void*)p, sizeof(T_), mo, PC); T_ o = *p; *p = (T_)(o + v); return o; } \
  T_ __tsan_atomic##bits##_fetch_sub(volatile T_* p, T_ v, int mo) { a_rmw((void*)p, sizeof(T_), mo, PC); T_ o = *p; *p = (T_)(o - v); return o; } \
  T_ __tsan_atomic##bits##_fetch_and(volatile T_* p, T_ v, int mo) { a_rmw((void*)p, sizeof(T_), mo, PC); T_ o = *p; *p = o & v; return o; } \
  T_ __tsan_atomic##bits##_fetch_or(volatile T_* p, T_ v, int mo) { a_rmw((void*)p, sizeof(T_), mo, PC); T_ o = *p; *p = o | v; return o; } \
  T_ __tsan_atomic##bits##_fetch_xor(volatile T_* p, T_ v, int mo) { a_rmw((void*)p, sizeof(T_), mo, PC); T_ o = *p; *p = o ^ v; return o; } \
  T_ __tsan_atomic##bits##_fetch_nand(volatile T_* p, T_ v, int mo) { a_rmw((void*)p, sizeof(T_), mo, PC); T_ o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* p, T_* e, T_ v, int mo, int) { a_rmw((void*)p, sizeof(T_), mo, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* p, T_* e, T_ v, int mo, int f) { a_rmw((void*)p, sizeof(T_), mo, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* p, T_ e, T_ v, int mo, int) { a_rmw((void*)p, sizeof(T_), mo, PC); T_ o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t) ATOM(128, unsigned __int128)
// blocking primitives (linked in with --wrap)
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (self < 0) return 0; ++n_sync; point(); uintptr_t a = AD(m);
    while (sync_of(a).depth && sync_of(a).owner != self) block_on(a);
    Sync& s = sync_of(a); s.owner = self; ++s.depth; acq(a); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (self < 0) return 0; ++n_sync; point(); Sync& s = sync_of(AD(m)); if (s.depth) return 16; s.owner = self; s.depth = 1; acq(AD(m)); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (self < 0) return 0; ++n_sync; uintptr_t a = AD(m); rel(a); Sync& s = sync_of(a); if (s.depth) --s.depth; if (!s.depth) { s.owner = -1; wake_waiters(a); } point(); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (self < 0) return 0; ++n_sync; point(); uintptr_t a = AD(m); while (sync_of(a).depth || sync_of(a).readers) block_on(a); Sync& s = sync_of(a); s.owner = self; s.depth = 1; acq(a); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (self < 0) return 0; ++n_sync; point(); uintptr_t a = AD(m); while (sync_of(a).depth) block_on(a); ++sync_of(a).readers; acq(a); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (self < 0) return 0; ++n_sync; uintptr_t a = AD(m); rel(a); Sync& s = sync_of(a); if (s.depth) { s.depth = 0; s.owner = -1; } else if (s.readers) --s.readers; wake_waiters(a); point(); return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return __wrap_pthread_mutex_lock((pthread_mutex_t*)m); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { return __wrap_pthread_mutex_unlock((pthread_mutex_t*)m); }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (self < 0) { if (!*o) { f(); *o = 2; } return 0; }
    ++n_sync; point(); uintptr_t a = AD(o);
    while (*(volatile int*)o == 1) block_on(a);
    if (*(volatile int*)o == 2) { acq(a); return 0; }
    *(volatile int*)o = 1; f(); *(volatile int*)o = 2; rel(a); wake_waiters(a); point(); return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g) {
    volatile char* c = (volatile char*)g; uintptr_t a = AD(g);
    if (self < 0) { if (*c) return 0; return 1; }
    ++n_sync; point();
    while (c[1]) block_on(a);
    if (c[0]) { acq(a); return 0; }
    c[1] = 1; return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) { volatile char* c = (volatile char*)g; c[1] = 0; c[0] = 1; if (self < 0) return; ++n_sync; rel(AD(g)); wake_waiters(AD(g)); point(); }
void __wrap___cxa_guard_abort(uint64_t* g) { volatile char* c = (volatile char*)g; c[1] = 0; if (self < 0) return; wake_waiters(AD(g)); point(); }
// memory is never reused within one schedule, so that reuse is not taken for sharing
static char* arena; static size_t arena_n; static const size_t ARENA = 64u << 20;
void* __wrap_malloc(size_t n) { n = (n + 31) & ~size_t(31); if (self < 0 || arena_n + n > ARENA) return malloc(n); void* p = arena + arena_n; arena_n += n; return p; }
void __wrap_free(void* p) { if ((char*)p >= arena && (char*)p < arena + ARENA) return; free(p); }
void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) { if ((char*)p >= arena && (char*)p < arena + ARENA) { void* q = __wrap_malloc(n); size_t m = (size_t)(arena + arena_n - (char*)p); memcpy(q, p, n < m ? n : m); return q; } if (!p) return __wrap_malloc(n); return realloc(p, n); }
void* __wrap__Znwm(size_t n) { return __wrap_malloc(n); } void* __wrap__Znam(size_t n) { return __wrap_malloc(n); }
void __wrap__ZdlPv(void* p) { __wrap_free(p); } void __wrap__ZdaPv(void* p) { __wrap_free(p); }
void __wrap__ZdlPvm(void* p, size_t) { __wrap_free(p); } void __wrap__ZdaPvm(void* p, size_t) { __wrap_free(p); }
}
// ---------------------------------------------------------------- programs
extern "C" void* __tls_get_addr(void*);
struct Seg { unsigned char* p; size_t n; };
static std::vector<Seg> segs; static std::vector<unsigned char> s0;
static std::string cur_path;
static int phdr(dl_phdr_info* i, size_t, void*) {
    if (!i->dlpi_name || cur_path != i->dlpi_name) return 0;
    lib_base[0] = i->dlpi_addr;
    size_t rl = 0, rh = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rl = i->dlpi_phdr[k].p_vaddr; rh = (rl + i->dlpi_phdr[k].p_memsz) & ~size_t(4095); }
    if (rh > rl) ro.push_back({ i->dlpi_addr + rl, i->dlpi_addr + rh });
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        auto& h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD) continue;
        size_t a = h.p_vaddr, e = a + h.p_memsz;
        if (!(h.p_flags & PF_W)) { ro.push_back({ i->dlpi_addr + a, i->dlpi_addr + e }); continue; }
        if (rl <= a && a < rh) a = rh;
        if (a < e) segs.push_back({ (unsigned char*)(i->dlpi_addr + a), e - a });
    }
    return 1;
}
static void save() { s0.clear(); for (auto& s : segs) s0.insert(s0.end(), s.p, s.p + s.n); }
static void restore() { size_t o = 0; for (auto& s : segs) { if (memcmp(s.p, s0.data() + o, s.n)) memcpy(s.p, s0.data() + o, s.n); o += s.n; } arena_n = 0; }

static Lib lib; typedef int (*selfop)(int op, int arg); static selfop st_fn;
static char* bufs;                               // one buffer per thread and operation, outside the stacks
static void exec(const Op& o, Res& r, char* b) {
    memset(r.b, 0, sizeof r.b);
    if (st_fn) { int v = st_fn(o.m, (int)o.x); memcpy(r.b, &v, 4); return; }
    auto go = [&](auto tag) {
        typedef decltype(tag) F; typedef typename fmt<F>::U U;
        if (o.kind < 2) { U* in = (U*)b; Out* x = (Out*)(b + 64); *in = (U)o.x; memset(x, 0, sizeof *x); lib.batch<F>(o.m, o.c, o.kind)(in, x, 1, nullptr); memcpy(r.b, &x->sig, 8); memcpy(r.b + 8, &x->exp, 4); memcpy(r.b + 12, &x->neg, 4); }
        else { memset(b, 0x11, 64); char* e = lib.chars<F>(o.m, o.c, o.kind - 2)((U)o.x, b); long n = e - b; if (n < 0 || n > 38) n = 39; r.b[39] = (unsigned char)n; if (n < 39) memcpy(r.b, b, (size_t)n); }
    };
    if (o.f == 4) go(float()); else go(double());
}
static const char* kinds[] = { "unsigned", "signed", "text_n", "text" };
static std::string name(const Op& o) { char t[160]; if (st_fn) { snprintf(t, sizeof t, "selftest(%d,%d)", o.m, (int)o.x); return t; } snprintf(t, sizeof t, "%s(%s 0x%llx, %s, %s)", kinds[o.kind], o.f == 4 ? "float" : "double", (unsigned long long)o.x, mode_name[o.m], crs_name[o.c]); return t; }
static void* body(void* q) {
    int id = (int)(intptr_t)q; fwait(T[id].go); self = id;
    for (size_t i = 0; i < T[id].prog.size(); ++i) exec(T[id].prog[i], T[id].res[i], bufs + ((size_t)id * 8 + i) * 256);
    T[id].done = true; wake_waiters(AD(&T[id]));
    pick_next(false);
    self = -1; return nullptr;
}
// one complete execution of the program under the current trail; false on deadlock
static bool once() {
    restore(); cells.clear(); syncs.clear(); race.hit = false; steps = 0; run_length = 0; tpos = 0; deadlock = false; order.clear(); main_go = 0;
    for (int t = 0; t < NT; ++t) { T[t].go = 0; T[t].done = T[t].blocked = false; memset(T[t].vc, 0, sizeof T[t].vc); T[t].vc[t] = 1; T[t].res.assign(T[t].prog.size(), Res()); }
    for (int t = 0; t < NT; ++t) {
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stacks + STK * (size_t)t, STK);
        if (pthread_create(&T[t].h, &at, body, (void*)(intptr_t)t)) { perror("pthread_create"); _exit(3); }
        pthread_attr_destroy(&at);
    }
    me->phase = 1;
    fwake(T[0].go); fwait(main_go);
    if (deadlock) return false;                  // the threads stay behind; the worker ends
    for (int t = 0; t < NT; ++t) pthread_join(T[t].h, nullptr);
    me->phase = 0; ++me->beat;
    return true;
}
static bool next_schedule() {
    trail.resize(std::min(trail.size(), tpos));
    while (!trail.empty()) {
        Choice& c = trail.back();
        if (c.chosen + 1 < c.n) {
            int used = 0; for (size_t i = 0; i + 1 < trail.size(); ++i) used += trail[i].preempt && trail[i].chosen > 0;
            if (!(c.preempt && c.chosen == 0 && used >= budget) ) { ++c.chosen; return true; }
        }
        trail.pop_back();
    }
    return false;
}
static std::unordered_map<std::string, Res> solo;
static const Res& alone(const Op& o) {
    std::string k((const char*)&o, sizeof o); auto it = solo.find(k); if (it != solo.end()) return it->second;
    auto keep = T[0].prog; auto kt = trail; int nt = NT; bool ev = every_point; NT = 1; every_point = false; T[0].prog = { o }; trail.clear(); once(); T[0].prog = keep; trail = kt; NT = nt; every_point = ev;
    return solo.emplace(k, T[0].res[0]).first->second;
}
struct Stat { unsigned long schedules, classes; std::string bad, key; bool capped; };
static double t_end;
// all schedules of the program within the preemption bound
static Stat explore(const std::vector<std::vector<Op>>& prog, int bound, bool every, unsigned long cap) {
    Stat st{ 0, 0, "", "", false };
    std::vector<std::vector<Res>> want;
    for (auto& p : prog) { want.emplace_back(); for (auto& o : p) want.back().push_back(alone(o)); }
    NT = (int)prog.size(); for (int t = 0; t < NT; ++t) T[t].prog = prog[t];
    budget = bound; every_point = every; contended.clear(); aborted = false;
    std::string ps; for (size_t t = 0; t < prog.size(); ++t) { ps += t ? " || " : ""; for (size_t i = 0; i < prog[t].size(); ++i) ps += (i ? "; " : "") + name(prog[t][i]); }
    what("%s", ps.c_str());
    auto sched = [&] { std::string s; for (size_t i = 0; i < order.size(); ++i) s += (char)('0' + order[i]); return s; };
  again:
    trail.clear(); grew = false;
    do {
        bool fine = once(); ++st.schedules;
        if (!fine) { st.key = "deadlock " + ps; st.bad = "deadlock in " + ps + " under schedule " + sched(); return st; }
        if (race.hit) {
            char b[200]; Dl_info di; bool in = dladdr(race.pc, &di) && di.dli_fname;
            snprintf(b, sizeof b, "threads %d and %d: %s at address %p%s, unordered (code offset 0x%lx)", race.t1, race.t2, race.kind, (void*)race.a, race.a >= (uintptr_t)segs[0].p && !segs.empty() && race.a < (uintptr_t)segs[0].p + segs[0].n ? " (static data of the library)" : "", in ? (unsigned long)((char*)race.pc - (char*)di.dli_fbase) : 0ul);
            st.key = "race " + ps; st.bad = std::string("data race: ") + b + " in " + ps + " under schedule " + sched(); return st;
        }
        for (int t = 0; t < NT; ++t) for (size_t i = 0; i < T[t].prog.size(); ++i) if (!(T[t].res[i] == want[t][i])) {
            auto sh = [&](const Res& r) { char x[120]; const Op& o = T[t].prog[i]; if (o.kind < 2) { u64 s; int e; memcpy(&s, r.b, 8); memcpy(&e, r.b + 8, 4); snprintf(x, sizeof x, "%llue%d", (unsigned long long)s, e); } else { char z[40]; int n = r.b[39] < 39 ? r.b[39] : 0; memcpy(z, r.b, (size_t)n); z[n] = 0; snprintf(x, sizeof x, "\"%s\"", z); } return std::string(x); };
            st.key = "result " + ps; st.bad = "thread " + std::to_string(t) + ": " + name(T[t].prog[i]) + " gives " + sh(T[t].res[i]) + " instead of " + sh(want[t][i]) + " in " + ps + " under schedule " + sched(); return st;
        }
        if (grew && !every) goto again;          // a location turned out to be shared: make it a scheduling point
        if (st.schedules >= cap || now() > t_end) { st.capped = true; return st; }
    } while (next_schedule());
    return st;
}
static std::vector<Op> ops_of(bool all, int per) {
    static const u32 xf[] = { 0x3dcccccd, 0x3f800001, 0x7f7fffff, 0x00000001, 0x4b800000, 0x5d5e0b6b, 0x00800000, 0x0da24260, 0xbdcccccd, 0x007fffff, 0x3f7fffff, 0x4b7fffff };
    static const u64 xd[] = { 0x3fb999999999999a, 0x3ff0000000000001, 0x7fefffffffffffff, 1, 0x4340000000000000, 0x44b52d02c7e14af6, 0x0010000000000000, 0x3fb99999a0000000, 0xbfb999999999999a, 0x000fffffffffffff, 0x3fefffffffffffff, 0x433fffffffffffff };
    std::vector<Op> v;
    for (int i = 0; i < per + (all ? N_PICKED : 0); ++i) for (int f = 4; f <= 8; f += 4) for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) for (int k = 0; k < 4; ++k) {
        if (!all) { if (!((m == 0 && c == 1) || (m == 4 && c == 2) || (m == 12 && c == 1))) continue; if (k == 0 || k == 3) continue; if (k == 1 && m == 4) continue; }
        v.push_back({ (uint8_t)f, (uint8_t)m, (uint8_t)c, (uint8_t)k, i >= per ? (f == 4 ? u64(picked_f[i - per]) : picked_d[i - per]) : f == 4 ? xf[i] : xd[i] });
    }
    return v;
}
static void setup(const char* path) {
    cur_path = path; segs.clear(); ro.clear(); dl_iterate_phdr(phdr, nullptr); if (segs.empty()) segs.push_back({ (unsigned char*)&fence_addr, 0 }); save();
    // the runtime's own read-only data is never shared state either
    solo.clear();
}
int main(int argc, char** argv) {
    if (argc < 6) return 3;
    double t0 = now(); tier = argv[2]; init(); base_counters();
    int c_prog = counter("programs"), c_sched = counter("schedules"), c_acc = counter("shared_accesses_checked"), c_sync = counter("synchronisation_operations"), c_pts = counter("scheduling_points"), c_cap = counter("programs_cut_at_the_schedule_cap"), c_self = counter("selftest_schedules");
    stacks = (char*)mmap(nullptr, STK * MT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    bufs = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    t_end = now() + (thorough() ? 3000 : 240);

    // the engine must see seeded races and stay quiet on correct synchronisation, or its silence means nothing
    void* h = dlopen(argv[5], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    struct { int op; bool bad; const char* what; } self_[] = { { 0, true, "unsynchronised cache" }, { 1, false, "mutex" }, { 2, false, "thread-local cache" }, { 3, false, "function-local static" }, { 4, false, "call_once" }, { 5, true, "atomics with an atomicity violation" }, { 6, false, "spin lock" }, { 7, false, "atomic publication" }, { 8, false, "heap memory" }, { 9, true, "lock-order deadlock" }, { 10, true, "double-checked flag without release" } };
    int* okp = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto& s : self_) {
        fflush(stdout); pid_t p = fork();
        if (!p) {
            st_fn = (selfop)dlsym(h, "selftest"); setup(argv[5]); if (!st_fn) _exit(3); alarm(60);
            int n = 0; std::string why; bool bad_ = false;
            for (int a = 0; a < 2 && !bad_; ++a) for (int b = 0; b < 2 && !bad_; ++b) { Stat r = explore({ { { 4, (uint8_t)s.op, 0, 0, (u64)a } }, { { 4, (uint8_t)s.op, 0, 0, (u64)(b + (s.op == 9 ? 0 : 2)) } } }, 2, false, 20000); n += (int)r.schedules; if (!r.bad.empty()) bad_ = true, why = r.bad; }
            okp[0] += n; if (bad_ != s.bad) { fprintf(stderr, "engine self-test \"%s\": expected %s, got %s\n", s.what, s.bad ? "an alarm" : "silence", bad_ ? why.c_str() : "silence"); _exit(3); }
            _exit(0);
        }
        int w; waitpid(p, &w, 0); if (w) { fprintf(stderr, "engine self-test failed: %s (%x)\n", s.what, w); return 3; }
    }
    add(c_self, (u64)okp[0]); st_fn = nullptr;
    if (!lib.load("tsan", argv[4])) return 3;
    setup(argv[4]);
    std::vector<Op> all = ops_of(true, thorough() ? 12 : 8), few = ops_of(false, 6), tiny; for (size_t i = 0; i < few.size() && tiny.size() < (thorough() ? 16u : 12u); i += few.size() / (thorough() ? 16 : 12)) tiny.push_back(few[i]);
    struct U { int kind; size_t i; };
    std::vector<U> us;
    for (size_t i = 0; i < few.size(); ++i) us.push_back({ 0, i });
    for (size_t i = 0; i < all.size(); i += 16) us.push_back({ 1, i });
    for (size_t i = 0; i < tiny.size() * tiny.size(); ++i) us.push_back({ 2, i });
    for (size_t i = 0; i < tiny.size(); ++i) us.push_back({ 3, i });
    for (size_t i = 0; i < tiny.size() * tiny.size(); ++i) us.push_back({ 4, i });
    const unsigned long CAP = thorough() ? 200000 : 20000;
    run_units(us.size(), [&](u64 u) {
        U& q = us[u];
        auto go = [&](const std::vector<std::vector<Op>>& p, int bound, bool every) {
            if (stopped() || now() > t_end) { if (!stopped()) add(c_cap, 1); return; }
            n_access = n_points = n_sync = 0; me->cursor = p[0][0].x;
            Stat s = explore(p, bound, every, CAP);
            add(CS, s.schedules); add(c_sched, s.schedules); add(c_prog, 1); add(CT, n_access + n_points); add(CJ, s.schedules); add(c_acc, n_access); add(c_sync, n_sync); add(c_pts, n_points);
            if (s.capped) add(c_cap, 1);
            if (!s.bad.empty()) { violation(s.key.substr(0, 150).c_str(), "%s", s.bad.c_str()); if (deadlock) _exit(0); }
            if (want_sample()) sample("%s || %s%s: %lu schedules, %lu accesses", name(p[0][0]).c_str(), name(p[1][0]).c_str(), every ? " (every access a scheduling point)" : "", s.schedules, n_access);
        };
        const int PB = thorough() ? 3 : 2;
        if (q.kind == 0) for (size_t j = q.i; j < few.size(); ++j) go({ { few[q.i] }, { few[j] } }, PB, false);
        else if (q.kind == 1) for (size_t i = q.i; i < q.i + 16 && i < all.size(); ++i) { go({ { all[i] }, { all[i] } }, PB, false); go({ { all[i] }, { all[(i + 37) % all.size()] } }, PB, false); }
        else if (q.kind == 2) for (size_t j = 0; j < tiny.size(); ++j) for (size_t k = 0; k < tiny.size(); ++k) go({ { tiny[q.i / tiny.size()], tiny[q.i % tiny.size()] }, { tiny[j], tiny[k] } }, PB, false);
        else if (q.kind == 3) for (size_t j = q.i; j < tiny.size(); ++j) for (size_t k = j; k < tiny.size(); ++k) go({ { tiny[q.i] }, { tiny[j] }, { tiny[k] } }, PB, false);
        else go({ { tiny[q.i / tiny.size()] }, { tiny[q.i % tiny.size()] } }, PB, true);
    }, 120);
    extra["preemption_bound"] = thorough() ? "3" : "2";
    return finish(argv[3], t0);
}
