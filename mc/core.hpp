// Exploration engine: forked workers over a shared queue of work units, crash/hang containment,
// measured counters, violation records.  Knows nothing about the code under test.
#pragma once
#include "oracle.hpp"
#include <atomic>
#include <string>
#include <vector>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <map>

namespace core {
using ref::u64; using ref::u32;

struct Viol { char key[160]; char msg[600]; };
struct Slot {                       // what a worker is doing right now: survives its death
    volatile u64 cursor;            // input being processed
    volatile u64 beat;              // progress counter
    volatile int phase;             // 1 inside the code under test
    char what[160];                 // human readable: configuration being run
    volatile int pid; volatile int samples;   // samples this unit may still contribute
};
constexpr int MAXC = 256, MAXV = 64, MAXW = 64, MAXS = 48;
struct Shared {
    std::atomic<u64> next; std::atomic<int> stop; std::atomic<u64> nviol, nsample;
    Viol v[MAXV]; std::atomic<u64> knownhit[MAXV]; char sample[MAXS][240];
    std::atomic<u64> cnt[MAXC];
    Slot slot[MAXW];
};
inline Shared* S = nullptr;
inline Slot* me = nullptr;
inline std::vector<std::string> cnames;
inline std::map<std::string, int> cidx;
inline std::vector<std::string> notes;
inline std::map<std::string, std::string> extra;    // extra raw JSON members of the result
inline std::string tier = "quick";
inline bool thorough() { return tier == "thorough"; }
inline int max_viol = 4;

inline void load_known();
inline void init() {
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    me = &S->slot[MAXW - 1];
    load_known();
    ref::P5();
}
inline int counter(const char* n) {      // register before forking
    auto it = cidx.find(n); if (it != cidx.end()) return it->second;
    int i = (int)cnames.size(); if (i >= MAXC) { fprintf(stderr, "too many counters\n"); exit(3); }
    cnames.push_back(n); cidx[n] = i; return i;
}
inline int CS, CT, CJ;                   // states, transitions, judged
inline void add(int c, u64 n) { S->cnt[c].fetch_add(n, std::memory_order_relaxed); }

inline std::vector<std::string> known;   // keys of recorded findings of this property (MC_KNOWN: one per line)
inline void load_known() {
    const char* p = getenv("MC_KNOWN"); if (!p) return;
    FILE* f = fopen(p, "r"); if (!f) return;
    char b[400]; while (fgets(b, sizeof b, f) && known.size() < MAXV) { b[strcspn(b, "\n")] = 0; if (*b) known.push_back(b); }
    fclose(f);
}
inline void violation(const char* key, const char* fmt_, ...) {
    for (size_t k = 0; k < known.size(); ++k) if (known[k] == key) { ++S->knownhit[k]; return; }
    u64 i = S->nviol++;
    if (i < MAXV) {
        snprintf(S->v[i].key, sizeof S->v[i].key, "%s", key);
        va_list ap; va_start(ap, fmt_); vsnprintf(S->v[i].msg, sizeof S->v[i].msg, fmt_, ap); va_end(ap);
    }
    if ((int)S->nviol.load() >= max_viol) S->stop = 1;
}
inline bool stopped() { return S->stop.load(std::memory_order_relaxed) != 0; }
inline void sample(const char* fmt_, ...) {
    u64 i = S->nsample.load(); if (i >= MAXS) return; i = S->nsample++; if (i >= MAXS) return;
    va_list ap; va_start(ap, fmt_); vsnprintf(S->sample[i], sizeof S->sample[i], fmt_, ap); va_end(ap);
}
inline bool want_sample() { if (me->samples <= 0 || S->nsample.load(std::memory_order_relaxed) >= MAXS) return false; me->samples = me->samples - 1; return true; }
inline void what(const char* fmt_, ...) { va_list ap; va_start(ap, fmt_); vsnprintf(me->what, sizeof me->what, fmt_, ap); va_end(ap); }

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline int nworkers() { int n = (int)sysconf(_SC_NPROCESSORS_ONLN); if (const char* e = getenv("MC_JOBS")) n = atoi(e); return n < 1 ? 1 : n > MAXW - 1 ? MAXW - 1 : n; }

// Runs f(unit) for every unit in [0,n) on forked workers. A worker that dies, or that stays inside the code under
// test without progress for `hang` seconds, is a violation of the property being explored.
inline void run_units(u64 n, const std::function<void(u64)>& f, double hang = 60) {
    fflush(stdout); fflush(stderr);
    S->next = 0;
    int W = nworkers(); if ((u64)W > n) W = (int)n;
    std::vector<pid_t> pid(W, 0); std::vector<u64> seen(W, 0); std::vector<double> since(W, 0); std::vector<char> hung(W, 0);
    double clock_ = 0, last = now();                // time as this process saw it pass: a machine that was stopped for a while stopped the workers too
    for (int w = 0; w < W; ++w) {
        S->slot[w].phase = 0; S->slot[w].beat = 0; S->slot[w].what[0] = 0;
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(3); }
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            me = &S->slot[w]; me->pid = getpid();
            for (u64 u; !stopped() && (u = S->next++) < n; ) { me->samples = n < 40 || u % (n / 30) == (n / 30) / 2 ? 2 : 0; f(u); }
            fflush(stdout);
            _exit(0);
        }
        pid[w] = p;
    }
    int alive = W;
    while (alive) {
        bool any = false; double t = now(); clock_ += std::min(t - last, 0.05); last = t;
        for (int w = 0; w < W; ++w) {
            if (!pid[w]) continue;
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            Slot& s = S->slot[w];
            if (r == pid[w]) {
                any = true; pid[w] = 0; --alive;
                if (hung[w]) continue;
                if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "engine error in worker\n"); exit(3); }
                    // killed from outside (memory guard), or died before it ever called the code: not a verdict
                    if ((WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (!s.phase && !s.beat)) {
                        fprintf(stderr, "worker died outside the code under test (status %x, %s)\n", st, s.what);
                        for (int k = 0; k < W; ++k) if (pid[k]) kill(pid[k], SIGKILL);
                        exit(3);
                    }
                    char k[160]; snprintf(k, sizeof k, "crash %s 0x%llx", s.what, (unsigned long long)s.cursor);
                    if (WIFSIGNALED(st)) violation(k, "the call died with signal %d (%s) on input 0x%llx [%s]", WTERMSIG(st), strsignal(WTERMSIG(st)), (unsigned long long)s.cursor, s.what);
                    else violation(k, "the call ended the process with status %d on input 0x%llx [%s]", WEXITSTATUS(st), (unsigned long long)s.cursor, s.what);
                    S->stop = 1;
                }
                continue;
            }
            u64 b = s.beat ^ (s.cursor * 0x9E3779B97F4A7C15ull);
            if (b != seen[w] || !s.phase) { seen[w] = b; since[w] = clock_; }
            else if (!hung[w] && clock_ - since[w] > hang) {
                char k[160]; snprintf(k, sizeof k, "hang %s 0x%llx", s.what, (unsigned long long)s.cursor);
                violation(k, "the call did not return within %.0f s on input 0x%llx [%s]", hang, (unsigned long long)s.cursor, s.what);
                S->stop = 1; hung[w] = 1; kill(pid[w], SIGKILL);
            }
        }
        if (!any) usleep(5000);
    }
}
struct Inside { Inside() { me->phase = 1; } ~Inside() { me->phase = 0; ++me->beat; } };

inline std::string jstr(const char* s) {
    std::string o = "\"";
    for (; *s; ++s) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
    return o + "\"";
}
inline void note(const char* fmt_, ...) { char b[400]; va_list ap; va_start(ap, fmt_); vsnprintf(b, sizeof b, fmt_, ap); va_end(ap); notes.push_back(b); }
inline int finish(const char* path, double t0) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); return 3; }
    fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"judged\":%llu,\"wall\":%.2f,\n\"counters\":{", (unsigned long long)S->cnt[CS].load(), (unsigned long long)S->cnt[CT].load(), (unsigned long long)S->cnt[CJ].load(), now() - t0);
    bool first = true;
    for (size_t i = 0; i < cnames.size(); ++i) if ((int)i != CS && (int)i != CT && (int)i != CJ && S->cnt[i].load()) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(cnames[i].c_str()).c_str(), (unsigned long long)S->cnt[i].load()); first = false; }
    fprintf(f, "},\n\"samples\":[");
    for (u64 i = 0; i < std::min<u64>(S->nsample, MAXS); ++i) fprintf(f, "%s%s", i ? ",\n" : "", jstr(S->sample[i]).c_str());
    fprintf(f, "],\n\"notes\":[");
    for (size_t i = 0; i < notes.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jstr(notes[i].c_str()).c_str());
    fprintf(f, "],\n");
    for (auto& e : extra) fprintf(f, "%s:%s,\n", jstr(e.first.c_str()).c_str(), e.second.c_str());
    fprintf(f, "\"known\":["); first = true;
    for (size_t k = 0; k < known.size(); ++k) if (S->knownhit[k].load()) { fprintf(f, "%s%s", first ? "" : ",", jstr(known[k].c_str()).c_str()); first = false; }
    fprintf(f, "],\n\"nviol\":%llu,\"violations\":[", (unsigned long long)S->nviol.load());
    for (u64 i = 0; i < std::min<u64>(S->nviol, MAXV); ++i) fprintf(f, "%s{\"key\":%s,\"msg\":%s}", i ? ",\n" : "", jstr(S->v[i].key).c_str(), jstr(S->v[i].msg).c_str());
    fprintf(f, "]}\n"); fclose(f);
    return S->nviol.load() ? 1 : 0;
}
inline void base_counters() { CS = counter("states"); CT = counter("transitions"); CJ = counter("judged"); }
} // namespace core
