// C27: conversions give the same results at every time of a program's life, in every link order.
//   life C27 <tier> <result.json> name=program:library ...
#include "oracle.hpp"
#include "core.hpp"
#include "life.hpp"
#include <fcntl.h>
using namespace ref; using namespace core;
struct Subject { std::string name, prog, lib; };
static std::vector<Subject> subs;
static int c_runs, c_ph[N_PHASES];
static std::string name(int i) {
    static const char* kinds[] = { "unsigned", "signed", "text_n", "text" };
    int f, m, c, k; u64 x; life_op(i, f, m, c, k, x); char t[160]; snprintf(t, sizeof t, "%s(%s 0x%llx, %s, %s)", kinds[k], f == 4 ? "float" : "double", (unsigned long long)x, mode_name[m], crs_name[c]); return t;
}
static std::string show(int i, const Res& r) {
    int f, m, c, k; u64 x; life_op(i, f, m, c, k, x); char t[160];
    if (k < 2) { u64 s; int e; u32 n; memcpy(&s, r.b, 8); memcpy(&e, r.b + 8, 4); memcpy(&n, r.b + 12, 4); snprintf(t, sizeof t, "%llue%d/%u", (unsigned long long)s, e, n); }
    else { char b[40]; int n = r.b[39] < 39 ? r.b[39] : 0; memcpy(b, r.b, (size_t)n); b[n] = 0; snprintf(t, sizeof t, "\"%s\"", b); }
    return t;
}
static std::string story(u64 bits) { std::string s; for (int p = 0; p < N_PHASES; ++p) if (bits >> p & 1) s += (s.empty() ? "" : ", then ") + std::string(phase_name[p]); return s; }
// one life; returns the wait status, -1 when it never ended
static int live(const Subject& s, u64 bits, int fd, Life* l) {
    for (int again = 0; ; ++again) {
    memset((void*)l->done, 0, sizeof l->done); l->now = 0;
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(40);
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
        char a[32], b[32]; snprintf(a, sizeof a, "%d", fd); snprintf(b, sizeof b, "%llx", (unsigned long long)bits);
        setenv("LD_BIND_NOW", "1", 1);
        execl(s.prog.c_str(), s.prog.c_str(), a, b, s.lib.c_str(), (char*)nullptr); _exit(97);
    }
    int st; if (p < 0 || waitpid(p, &st, 0) != p) { fprintf(stderr, "fork failed\n"); _exit(3); }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { fprintf(stderr, "%s: cannot be run\n", s.prog.c_str()); _exit(3); }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && !again) continue;     // twice, in case the machine stood still
    return st;
    }
}
int main(int argc, char** argv) {
    double t0 = now();
    if (argc < 5) return 3;
    tier = argv[2]; init(); base_counters(); c_runs = counter("lives");
    for (int p = 0; p < N_PHASES; ++p) { static char b[N_PHASES][120]; snprintf(b[p], sizeof b[p], "calls %s", phase_name[p]); c_ph[p] = counter(b[p]); }
    for (int i = 4; i < argc; ++i) { std::string a = argv[i]; size_t e = a.find('='), c = a.rfind(':'); subs.push_back({ a.substr(0, e), a.substr(e + 1, c - e - 1), a.substr(c + 1) }); }
    // every phase alone (the first conversions of the process happen there), every two of them, all of them
    std::vector<u64> hist; u64 allp = (u64(1) << N_PHASES) - 1;
    for (int p = 0; p < N_PHASES; ++p) hist.push_back(u64(1) << p);
    for (int p = 0; p < N_PHASES; ++p) for (int q = p + 1; q < N_PHASES; ++q) hist.push_back(u64(1) << p | u64(1) << q);
    if (thorough()) for (int p = 0; p < N_PHASES; ++p) for (int q = p + 1; q < N_PHASES; ++q) for (int r = q + 1; r < N_PHASES; ++r) hist.push_back(u64(1) << p | u64(1) << q | u64(1) << r);
    hist.push_back(allp); hist.push_back(allp & ~(u64(1) << QUICK_EXIT));
    // the reference: main alone, in the first configuration
    Res* want = (Res*)mmap(nullptr, sizeof(Res) * NOPS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto space = [](int& fd) { fd = memfd_create("life", 0); if (fd < 0 || ftruncate(fd, sizeof(Life))) { perror("memfd"); _exit(3); } void* m = mmap(nullptr, sizeof(Life), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m == MAP_FAILED) { perror("mmap"); _exit(3); } return (Life*)m; };
    { int fd; Life* l = space(fd); int st = live(subs[0], u64(1) << MAIN, fd, l);
      if (st || !l->done[MAIN]) { char k[64]; snprintf(k, sizeof k, "main"); violation(k, "[%s] a program converting in main dies (status %x) at the phase: %s", subs[0].name.c_str(), st, l->now ? phase_name[l->now - 1] : "none"); return finish(argv[3], t0); }
      memcpy(want, l->r[MAIN], sizeof(Res) * NOPS); munmap(l, sizeof(Life)); close(fd); }
    const u64 n = subs.size() * hist.size();
    run_units(n, [&](u64 u) {
        static int fd = -1; static Life* l; if (!l) l = space(fd);
        const Subject& s = subs[u / hist.size()]; u64 bits = hist[u % hist.size()];
        what("[%s] %s", s.name.c_str(), story(bits).c_str()); ++me->beat;
        int st = live(s, bits, fd, l); add(c_runs, 1);
        char key[160];
        if (st) {
            const char* at = l->now ? phase_name[l->now - 1] : "outside the conversions";
            snprintf(key, sizeof key, "dies %s", at);
            violation(key, "[%s] a program that converts %s %s (%s)", s.name.c_str(), story(bits).c_str(), WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "never ends" : "dies", at); return;
        }
        u64 calls = 0; const bool quick_ = bits >> QUICK_EXIT & 1;
        for (int p = 0; p < N_PHASES; ++p) if (bits >> p & 1) {
            if (quick_ && (p == AT_EXIT || p == OBJECT_DESTRUCTOR || p == EARLY_DESTRUCTOR || p == LAST_DESTRUCTOR)) continue;     // not reached by quick_exit
            if (!l->done[p]) { snprintf(key, sizeof key, "not reached %s", phase_name[p]); violation(key, "[%s] a program that converts %s never gets to convert %s", s.name.c_str(), story(bits).c_str(), phase_name[p]); return; }
            for (int i = 0; i < NOPS; ++i) if (memcmp(&l->r[p][i], &want[i], sizeof(Res))) {
                snprintf(key, sizeof key, "%d %s", p, name(i).c_str());
                violation(key, "[%s] %s %s gives %s instead of %s (program converting %s)", s.name.c_str(), phase_name[p], name(i).c_str(), show(i, l->r[p][i]).c_str(), show(i, want[i]).c_str(), story(bits).c_str());
                if (stopped()) return; break;
            }
            calls += NOPS; add(c_ph[p], NOPS);
        }
        add(CS, 1); add(CT, calls); add(CJ, calls);
        if (want_sample()) sample("[%s] %d calls each: %s", s.name.c_str(), NOPS, story(bits).c_str());
    }, 60);
    extra["operations"] = std::to_string(NOPS); extra["phases"] = std::to_string(N_PHASES);
    return finish(argv[3], t0);
}
