// Runner: a zygote process forks one child per run, so that every run starts from the same memory image.
#include "rt.h"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
using namespace rt;

struct Wl { const char* prop; const char* name; Workload w; double weight; };
static Wl g_wl[256];
static int g_nwl = 0;
Registration::Registration(const char* p, const char* n, Workload w, double weight) { g_wl[g_nwl++] = Wl{p, n, w, weight}; }

static char line[1 << 16];
static char inbuf[1 << 16];
static size_t in_n = 0, in_p = 0;
static int getch()
{
    if (in_p == in_n) {
        ssize_t r = read(0, inbuf, sizeof inbuf);
        if (r <= 0) return -1;
        in_n = r;
        in_p = 0;
    }
    return (unsigned char)inbuf[in_p++];
}
static bool getline_()
{
    size_t n = 0;
    for (;;) {
        int c = getch();
        if (c < 0) return false;
        if (c == '\n') break;
        if (n + 1 < sizeof line) line[n++] = (char)c;
    }
    line[n] = 0;
    return true;
}

// run <property> <workload> <seed> [replay] [verbose] [trace] [key=value ...]     then, for replay, lines "s i v" and "."
static void child()
{
    static RunCfg cfg;
    char* sv = nullptr;
    char* tok = strtok_r(line, " ", &sv); // "run"
    char* prop = strtok_r(nullptr, " ", &sv);
    char* name = strtok_r(nullptr, " ", &sv);
    char* seed = strtok_r(nullptr, " ", &sv);
    (void)tok;
    if (!seed) _exit(98);
    cfg.seed = strtoull(seed, nullptr, 10);
    while (char* o = strtok_r(nullptr, " ", &sv)) {
        if (!strcmp(o, "replay")) cfg.replay = true;
        else if (!strcmp(o, "verbose")) cfg.verbose = true;
        else if (!strcmp(o, "trace")) cfg.want_trace = true;
        else if (char* e = strchr(o, '=')) { *e = 0; cfg.params[o] = atof(e + 1); }
    }
    Wl* w = nullptr;
    for (int i = 0; i < g_nwl; ++i)
        if (!strcmp(g_wl[i].prop, prop) && !strcmp(g_wl[i].name, name)) w = &g_wl[i];
    if (!w) _exit(98);
    cfg.out_fd = 1;
    start_run(cfg);
    w->w();
    finish("ok", "", "");
}

int main(int, char**)
{
    struct rlimit rl{8 << 20, 8 << 20};
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE)) {
        personality(pers | ADDR_NO_RANDOMIZE);
        setrlimit(RLIMIT_STACK, &rl);
        static char scratch[256] = "FMQSIM_SCRATCH=/nonexistent";
        if (const char* d = getenv("FMQSIM_SCRATCH")) snprintf(scratch, sizeof scratch, "FMQSIM_SCRATCH=%s", d);
        char* av[] = {(char*)"sim", nullptr};
        char* ev[] = {(char*)"PATH=/usr/bin:/bin", (char*)"HOME=/nonexistent", (char*)"LC_ALL=C", scratch, nullptr};
        execve("/proc/self/exe", av, ev);
        _exit(99);
    }
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    while (getline_()) {
        if (!strcmp(line, "list")) {
            char b[512];
            for (int i = 0; i < g_nwl; ++i) {
                int n = snprintf(b, sizeof b, "%s %s %g\n", g_wl[i].prop, g_wl[i].name, g_wl[i].weight);
                if (write(1, b, n) < 0) return 1;
            }
            if (write(1, ".\n", 2) < 0) return 1;
            continue;
        }
        if (!strncmp(line, "t ", 2)) { // replay table entry
            char* e;
            long s = strtol(line + 2, &e, 10);
            unsigned long long i = strtoull(e, &e, 10), v = strtoull(e, &e, 10);
            table_add((int)s, i, v);
            continue;
        }
        if (!strcmp(line, "clear")) { table_clear(); continue; }
        if (strncmp(line, "run ", 4)) continue;
        int limit = 60;
        pid_t p = fork();
        if (p == 0) {
            struct rlimit cpu{(rlim_t)limit, (rlim_t)limit + 5};
            setrlimit(RLIMIT_CPU, &cpu);
            struct rlimit mem{3ull << 30, 3ull << 30};
            setrlimit(RLIMIT_DATA, &mem);
            signal(SIGXCPU, SIG_DFL);
            child();
            _exit(96);
        }
        int st = 0;
        rt::watch_child(p, limit * 3, &st);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            char b[200];
            int n = snprintf(b, sizeof b, "\n{\"status\":\"error\",\"class\":\"%s\",\"msg\":\"run ended abnormally: wait status 0x%x\",\"hash\":\"0\"}\n",
                             WIFSIGNALED(st) ? "killed" : "exit", st);
            if (write(1, b, n) < 0) return 1;
        }
    }
    return 0;
}

namespace rt {
void watch_child(int pid, int seconds, int* st)
{
    // waits for the child; a child that hangs in real time is killed
    sigset_t m, o;
    sigemptyset(&m);
    sigaddset(&m, SIGCHLD);
    sigprocmask(SIG_BLOCK, &m, &o);
    timespec t{1, 0};
    int waited = 0;
    for (;;) {
        int r = waitpid(pid, st, WNOHANG);
        if (r == pid) break;
        if (sigtimedwait(&m, nullptr, &t) < 0 && ++waited > seconds) kill(pid, SIGKILL);
    }
    sigprocmask(SIG_SETMASK, &o, nullptr);
}
} // namespace rt
} // namespace sim
