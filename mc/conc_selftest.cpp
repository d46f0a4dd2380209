// Known-bad and known-good sharing patterns for the C15 engine (see conc.cpp); nothing of the library under test.
#include <atomic>
#include <mutex>
#include <string>
#include <vector>
static int key, val; static std::mutex mu, mu2;
static int slow(int x) { int r = x; for (int i = 0; i < 3; ++i) r = r * 7 + 1; return r; }
static std::atomic<int> akey{ -1 }, aval{ 0 }; static std::atomic_flag spin = ATOMIC_FLAG_INIT;
static std::atomic<int*> pub{ nullptr }; static int store[8]; static std::once_flag once; static int once_v;
static std::atomic<int> ready{ 0 }; static int table_[4];
extern "C" __attribute__((visibility("default"))) int selftest(int op, int x) {
    switch (op) {
    case 0: if (key != x + 1) { val = slow(x); key = x + 1; } return val;
    case 1: { std::lock_guard<std::mutex> l(mu); if (key != x + 1) { key = x + 1; val = slow(x); } return val; }
    case 2: { static thread_local int k = -1, v; if (k != x) { k = x; v = slow(x); } return v; }
    case 3: { static int z = slow(3); return z + x; }
    case 4: { std::call_once(once, [] { once_v = slow(5); }); return once_v + x; }
    case 5: { if (akey.load() != x) { akey.store(x); aval.store(slow(x)); } return aval.load(); }
    case 6: { while (spin.test_and_set(std::memory_order_acquire)) {} int r; if (key != x + 1) { key = x + 1; val = slow(x); } r = val; spin.clear(std::memory_order_release); return r; }
    case 7: { int* p = pub.load(std::memory_order_acquire); if (!p) { int* n = &store[x & 7]; *n = slow(9); int* e = nullptr; if (pub.compare_exchange_strong(e, n, std::memory_order_acq_rel)) p = n; else p = e; } return *p + x; }
    case 8: { std::vector<int> v; for (int i = 0; i < 5; ++i) v.push_back(x + i); int s = 0; for (int i : v) s += i; return s; }
    case 9: { std::mutex& a = x ? mu : mu2; std::mutex& b = x ? mu2 : mu; std::lock_guard<std::mutex> l(a); std::lock_guard<std::mutex> m(b); return x; }
    case 10: { if (!ready.load(std::memory_order_relaxed)) { table_[0] = 7; ready.store(1, std::memory_order_relaxed); } return table_[0] + x; }
    }
    return 0;
}
