// Runs a configuration that cannot be loaded into this process (real 32-bit builds) in a child over pipes.
#pragma once
#include "impl.hpp"
#include <string>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <poll.h>
#include <cstdlib>
#include <sys/prctl.h>
#include <signal.h>
#include <cstdio>
#include <cstring>
struct Txt { char t[31]; unsigned char len; };
struct Req { int32_t fmt, mode, crs, n; };
inline bool io_all(int fd, void* p, size_t n, bool wr) {
    char* c = (char*)p;
    while (n) { ssize_t r = wr ? ::write(fd, c, n) : ::read(fd, c, n); if (r <= 0) return false; c += r; n -= (size_t)r; }
    return true;
}
inline void set_txt(Txt& t, const char* b, const char* e) { memset(&t, 0, sizeof t); long n = e - b; t.len = (unsigned char)(n < 0 || n > 30 ? 255 : n); if (t.len != 255) memcpy(t.t, b, (size_t)n); }
struct Server {
    std::string name, path; int in = -1, out = -1, err = -1; pid_t pid = 0; int timeout = 0; bool hung = false;
    bool get(void* p, size_t n) {               // read the answer, giving up after `timeout` seconds without any
        char* c = (char*)p; hung = false;
        while (n) {
            if (timeout) { bool any = false; for (int i = 0; i < timeout * 4 && !any; ++i) { pollfd f{ in, POLLIN, 0 }; any = poll(&f, 1, 250) != 0; } if (!any) { hung = true; return false; } }   // in slices: a machine that stood still meanwhile costs one
            ssize_t r = ::read(in, c, n); if (r <= 0) return false; c += r; n -= (size_t)r;
        }
        return true;
    }
    std::string errors() { std::string s; if (err < 0) return s; char b[4096]; ssize_t r; lseek(err, 0, SEEK_SET); while (s.size() < 65536 && (r = ::read(err, b, sizeof b)) > 0) s.append(b, (size_t)r); return s; }
    // 0: every seeded fault was reported, otherwise the number of the first one that was not
    int selftest() {
        static const int faults = 4;
        for (int k = 1; k <= faults; ++k) {
            start(); Req r{ 64, k, 0, 0 }; int32_t a = 0;
            if (!io_all(out, &r, sizeof r, true)) return -k;
            bool survived = get(&a, sizeof a); bool na = survived && a == 77; stop();
            if (survived && !na) return k;
        }
        return 0;
    }
    void start() {
        if (pid) return;
        signal(SIGPIPE, SIG_IGN);
        int a[2], b[2]; if (pipe(a) || pipe(b)) { perror("pipe"); _exit(3); }
        if (timeout) { if (err >= 0) close(err); err = memfd_create("mc", MFD_CLOEXEC); }
        pid = fork();
        if (pid < 0) { perror("fork"); _exit(3); }
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            dup2(a[0], 0); dup2(b[1], 1); if (err >= 0) dup2(err, 2); close(a[0]); close(a[1]); close(b[0]); close(b[1]);
            execl(path.c_str(), path.c_str(), (char*)nullptr); _exit(3);
        }
        close(a[0]); close(b[1]); in = b[0]; out = a[1];
    }
    void stop() { if (!pid) return; close(in); close(out); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); pid = 0; }
    template <class F, class U> int once(int m, int c, const U* x, Out* o, int n) {
        start();
        Req r{ (int32_t)sizeof(F), m, c, n };
        static uint64_t w[4096]; for (int i = 0; i < n; ++i) w[i] = x[i];
        int32_t ok = -1;
        if (!io_all(out, &r, sizeof r, true) || !io_all(out, w, sizeof(uint64_t) * (size_t)n, true) || !get(&ok, sizeof ok)) return -1;
        if (ok == 0) return 0;
        if (!get(o, sizeof(Out) * (size_t)n)) return -1;
        return 1;
    }
    // printed text; same return values as once()
    template <class F, class U> int text_once(int m, int c, const U* x, Txt* o, int n) {
        start();
        Req r{ (int32_t)sizeof(F) | 16, m, c, n };
        static uint64_t w[4096]; for (int i = 0; i < n; ++i) w[i] = x[i];
        int32_t ok = -1;
        if (!io_all(out, &r, sizeof r, true) || !io_all(out, w, sizeof(uint64_t) * (size_t)n, true) || !get(&ok, sizeof ok)) return -1;
        if (ok == 0) return 0;
        return get(o, sizeof(Txt) * (size_t)n) ? 1 : -1;
    }
    template <class F, class U> int text(int m, int c, const U* x, Txt* o, int n, volatile uint64_t* cursor) {
        int r = text_once<F>(m, c, x, o, n);
        if (r >= 0) return r;
        stop();
        for (int i = 0; i < n; ++i) { *cursor = x[i]; if (text_once<F>(m, c, x + i, o, 1) < 0) { stop(); return -1; } }
        return -1;
    }
    // 1 done, 0 combination not available, -1 the code died (cursor = the input)
    template <class F, class U> int run(int m, int c, const U* x, Out* o, int n, volatile uint64_t* cursor) {
        int r = once<F>(m, c, x, o, n);
        if (r >= 0) return r;
        stop();
        for (int i = 0; i < n; ++i) { *cursor = x[i]; if (once<F>(m, c, x + i, o, 1) < 0) { stop(); return -1; } }
        return -1;
    }
};
