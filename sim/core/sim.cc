// Scheduler, virtual time, choices, memory-access instrumentation runtime.
#include "rt.h"
#include "heap.h"

#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <limits.h>
#include <malloc.h>
#include <queue>
#include <set>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>

namespace sim::rt {

bool active = false;
int in_rt = 0;
Thr* cur = nullptr;

// ---------------------------------------------------------------------------------------------------------------------
static RunCfg g_cfg;
static Faults g_faults;
static Policy g_policy;
static std::vector<Thr*> g_threads;
static std::vector<Proc*> g_procs;
static ns_t g_now = 0, g_wall_off = 0, g_stall_total = 0;
static ns_t g_limit = 3600 * sec;
static uint64_t g_limit_steps = 30000000;
static uint64_t g_steps = 0, g_switches = 0, g_hash = 1469598103934665603ull;
static ns_t g_next_due = INT64_MAX;
static int g_nopreempt = 0;
static std::function<std::string()> g_on_stuck;
static std::vector<std::function<void(int)>> g_on_crash;
static pthread_key_t g_key;
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;

struct Ev
{
    ns_t t;
    uint64_t seq;
    std::function<void()> f;
};
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::priority_queue<Ev, std::vector<Ev>, EvCmp> g_events;
static uint64_t g_ev_seq = 0;

struct Line { ns_t t; int tid; std::string s; };
static std::deque<Line> g_log;
static size_t g_log_max = 4000;
static std::deque<Line> g_history;
static std::map<std::string, uint64_t> g_fault_counts, g_probe_counts;

std::vector<Thr*>& threads() { return g_threads; }
std::vector<Proc*>& procs() { return g_procs; }

void hash_mix(uint64_t v)
{
    g_hash ^= v;
    g_hash *= 1099511628211ull;
    g_hash ^= g_hash >> 29;
}

// ---- PRNG and choice streams ----------------------------------------------------------------------------------------
struct Rng
{
    uint64_t s[4];
    static uint64_t splitmix(uint64_t& x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void seed(uint64_t x) { for (auto& v : s) v = splitmix(x); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next()
    {
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    double d() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
static Rng g_rng[NSTREAMS + 2]; // + values for the program (uuids etc.), + scheduling policy
static uint64_t g_idx[NSTREAMS];

// recorded non-default choices; fixed storage, so that recording and replaying do not change the heap of the code under test
struct Rec
{
    static constexpr size_t CAP = 1 << 18;
    size_t n = 0;
    uint64_t e[CAP][2];
    void add(uint64_t i, uint64_t v) { if (n < CAP) { e[n][0] = i; e[n][1] = v; } ++n; }
};
static Rec g_rec[NSTREAMS];
static Rec g_tab[NSTREAMS]; // replay table, sorted by index

uint64_t rnd(int s) { return g_rng[s].next(); }
double rnd_double(int s) { return g_rng[s].d(); }

static uint64_t table_get(Stream s, uint64_t idx)
{
    const Rec& t = g_tab[s];
    size_t lo = 0, hi = t.n;
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        if (t.e[m][0] < idx) lo = m + 1; else hi = m;
    }
    return lo < t.n && t.e[lo][0] == idx ? t.e[lo][1] : 0;
}
void table_clear() { for (auto& t : g_tab) t.n = 0; }
void table_add(int s, uint64_t idx, uint64_t v) { if (s >= 0 && s < NSTREAMS) g_tab[s].add(idx, v); }

static uint64_t choice(Stream s, uint64_t n, double p_nonzero) // p_nonzero < 0: uniform
{
    Guard g;
    uint64_t idx = g_idx[s]++;
    if (n <= 1) return 0;
    uint64_t v;
    if (g_cfg.replay) {
        v = table_get(s, idx) % n;
    } else if (p_nonzero < 0) {
        v = g_rng[s].next() % n;
    } else {
        v = g_rng[s].d() < p_nonzero ? 1 + g_rng[s].next() % (n - 1) : 0;
    }
    if (v) g_rec[s].add(idx, v);
    return v;
}

// geometric countdown with mean m (0: never)
static uint64_t countdown(Stream s, double m)
{
    if (m <= 0) return UINT64_MAX / 2;
    double u = g_rng[s].d();
    double k = -std::log(1 - u) * m;
    return 1 + (uint64_t)k;
}

// ---- futex hand-off -------------------------------------------------------------------------------------------------
static void futex_wait(uint32_t* w, uint32_t v) { syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(uint32_t* w) { syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void park(Thr* me)
{
    while (__atomic_load_n(&me->go, __ATOMIC_ACQUIRE) == 0) futex_wait(&me->go, 0);
    __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
}
static void unpark(Thr* t)
{
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    futex_wake(&t->go);
}

// ---- scheduling -----------------------------------------------------------------------------------------------------
static uint64_t g_spt = 0, g_next_spt = UINT64_MAX / 2; // sync points
static uint64_t g_apt = 0, g_next_apt = UINT64_MAX / 2; // memory-access points (global so that tsan hooks can see it)
static uint64_t g_apt_last = 0;
static uint64_t g_run_len = 0;
static bool g_resched = false;
static int g_low_prio = 0;
static std::vector<uint64_t> g_pct_points;
static size_t g_rep_i[2] = {0, 0};
static constexpr uint64_t FAIR = 4000;
static ns_t g_tick = 40;

static ns_t mono_deadline(const Thr* t) { return t->clk == CLK_WALL ? t->dl - g_wall_off : t->dl; }

static bool runnable(const Thr* t) { return t->st == RUN && t->stalled_until <= g_now; }

static void note_due(ns_t t) { if (t < g_next_due) g_next_due = t; }

static void recompute_due()
{
    ns_t d = g_events.empty() ? INT64_MAX : g_events.top().t;
    for (auto* t : g_threads) {
        if (t->st == BLK && t->has_dl) d = std::min(d, mono_deadline(t));
        if (t->st == RUN && t->stalled_until > g_now) d = std::min(d, t->stalled_until);
    }
    g_next_due = d;
}

bool wake_thr(Thr* t, int reason)
{
    if (t->st != BLK) return false;
    t->st = RUN;
    t->wake = reason;
    t->key = 0;
    t->has_dl = false;
    g_resched = true;
    return true;
}

static void fire_due()
{
    Guard g;
    for (;;) {
        if (!g_events.empty() && g_events.top().t <= g_now) {
            auto f = std::move(const_cast<Ev&>(g_events.top()).f);
            g_events.pop();
            f();
            continue;
        }
        break;
    }
    for (auto* t : g_threads) {
        if (t->st == BLK && t->has_dl && mono_deadline(t) <= g_now) wake_thr(t, W_TIMEOUT);
        if (t->st == RUN && t->stalled_until && t->stalled_until <= g_now) { t->stalled_until = 0; g_resched = true; }
    }
    recompute_due();
}

static void check_limits()
{
    if (g_now > g_limit) {
        std::string d = g_on_stuck ? g_on_stuck() + "\n" : "";
        finish("violation", "no-progress", "virtual time limit reached without completion\n" + d + thread_dump());
    }
    if (g_steps > g_limit_steps) {
        std::string d = g_on_stuck ? g_on_stuck() + "\n" : "";
        finish("violation", "livelock", "step limit reached without completion\n" + d + thread_dump());
    }
}

static Thr* cyc_next(int after, bool skip_after)
{
    int n = g_threads.size();
    for (int k = 1; k <= n; ++k) {
        Thr* t = g_threads[(after + k) % n];
        if (runnable(t) && !(skip_after && t->id == after)) return t;
    }
    return nullptr;
}

static Thr* best_prio(Thr* except)
{
    Thr* b = nullptr;
    for (auto* t : g_threads)
        if (t != except && runnable(t) && (!b || t->prio > b->prio)) b = t;
    return b;
}

// called when the current thread cannot continue; returns the thread to run next (possibly cur itself)
static Thr* pick()
{
    for (;;) {
        if (g_next_due <= g_now) fire_due();
        int cnt = 0;
        for (auto* t : g_threads) cnt += runnable(t);
        if (cnt) {
            Thr* def = cyc_next(cur->id, false);
            uint64_t idx = g_idx[B]++;
            Thr* r = def;
            if (cnt > 1) {
                if (g_cfg.replay) {
                    uint64_t v = table_get(B, idx);
                    if (v && v - 1 < g_threads.size() && runnable(g_threads[v - 1])) r = g_threads[v - 1];
                } else if (g_policy.kind == 1) {
                    r = best_prio(nullptr);
                } else {
                    int k = g_rng[B].next() % cnt;
                    for (auto* t : g_threads)
                        if (runnable(t) && k-- == 0) { r = t; break; }
                }
                if (r != def) g_rec[B].add(idx, r->id + 1);
            }
            return r;
        }
        recompute_due();
        if (g_next_due == INT64_MAX) {
            std::string d = g_on_stuck ? g_on_stuck() + "\n" : "";
            finish("violation", "deadlock", "no thread can ever run again\n" + d + thread_dump());
        }
        if (g_next_due > g_now) g_now = g_next_due;
        check_limits();
        fire_due();
    }
}

static void hand_over(Thr* me, Thr* next)
{
    if (me == next) { g_run_len = 0; return; }
    ++g_switches;
    g_run_len = 0;
    hash_mix((uint64_t)me->id * 1000003u + next->id);
    hash_mix(g_spt);
    int save_rt = in_rt, save_np = g_nopreempt;
    g_nopreempt = 0;
    cur = next;
    unpark(next);
    park(me);
    in_rt = save_rt;
    g_nopreempt = save_np;
}

static void run_signals()
{
    while (!cur->pending_sigs.empty()) {
        int s = cur->pending_sigs.front();
        cur->pending_sigs.erase(cur->pending_sigs.begin());
        auto& h = g_procs[cur->proc]->handlers;
        auto it = h.find(s);
        if (it != h.end() && it->second && it->second != SIG_IGN) {
            int save = in_rt;
            in_rt = 0;
            it->second(s);
            in_rt = save;
        }
    }
}

int block(uint64_t key, const char* what, bool has_dl, int clk, ns_t dl, bool interruptible)
{
    Guard g;
    Thr* me = cur;
    for (;;) {
        if (!me->pending_sigs.empty()) { run_signals(); return interruptible ? W_INTERRUPTED : W_SIGNALLED; }
        me->st = BLK;
        me->key = key;
        me->what = what;
        me->has_dl = has_dl;
        me->clk = clk;
        me->dl = dl;
        me->interruptible = interruptible;
        if (has_dl) note_due(mono_deadline(me));
        int save = in_rt;
        Thr* n = pick();
        hand_over(me, n);
        in_rt = save;
        me->what = "";
        if (me->wake == W_INTERRUPTED) {
            run_signals();
            if (interruptible) return W_INTERRUPTED;
            return W_SIGNALLED; // a spurious wakeup: all callers check what they wait for
        }
        return me->wake;
    }
}

int wake_all(uint64_t key)
{
    int n = 0;
    for (auto* t : g_threads)
        if (t->st == BLK && t->key == key) { wake_thr(t, W_SIGNALLED); ++n; }
    return n;
}

bool wake_one_chosen(uint64_t key)
{
    int n = 0;
    for (auto* t : g_threads) n += (t->st == BLK && t->key == key);
    if (!n) return false;
    int k = n > 1 ? (int)choice(C, n, -1) : 0;
    for (auto* t : g_threads)
        if (t->st == BLK && t->key == key && k-- == 0) { wake_thr(t, W_SIGNALLED); return true; }
    return false;
}

static ns_t g_stall_unit = us;

static void preempt_to(Thr* target, uint64_t stall_us)
{
    Thr* me = cur;
    if (stall_us) {
        me->stalled_until = g_now + (ns_t)stall_us * g_stall_unit;
        g_stall_total += (ns_t)stall_us * g_stall_unit;
        note_due(me->stalled_until);
        ++g_fault_counts["stall"];
    }
    if (!target || target == me || !runnable(target)) {
        if (!stall_us) return;
        target = pick();
    }
    hand_over(me, target);
}

// A preemption opportunity has come up (stream S or A at counter value idx)
static void slow_point(Stream s, uint64_t idx)
{
    Guard g;
    Thr* me = cur;
    uint64_t v = 0; // (target tid + 1) | stall_us << 12
    if (g_cfg.replay) {
        auto& tab = g_tab[s];
        auto& i = g_rep_i[s == S ? 0 : 1];
        while (i < tab.n && tab.e[i][0] < idx) ++i;
        if (i < tab.n && tab.e[i][0] == idx) v = tab.e[i++][1];
        uint64_t nx = i < tab.n ? tab.e[i][0] : UINT64_MAX / 2;
        (s == S ? g_next_spt : g_next_apt) = nx;
    } else if (g_policy.kind == 1 && s == S) { // PCT
        while (!g_pct_points.empty() && g_pct_points.back() <= idx) {
            g_pct_points.pop_back();
            me->prio = --g_low_prio;
        }
        Thr* b = best_prio(nullptr);
        if (b && b != me) v = b->id + 1;
        g_next_spt = g_pct_points.empty() ? UINT64_MAX / 2 : g_pct_points.back();
    } else {
        double mean = s == S ? (g_policy.sync_p > 0 ? 1 / g_policy.sync_p : 0) : g_policy.access_mean;
        (s == S ? g_next_spt : g_next_apt) = idx + countdown(s, mean);
        int cnt = 0;
        for (auto* t : g_threads) cnt += (t != me && runnable(t));
        bool stall = g_faults.stall > 0 && g_faults.stall_max > 0 && g_rng[s].d() < g_faults.stall;
        if (cnt) {
            int k = g_rng[s].next() % cnt;
            for (auto* t : g_threads)
                if (t != me && runnable(t) && k-- == 0) { v = t->id + 1; break; }
        }
        if (stall) {
            // log-uniform between 1us and stall_max
            double l = g_rng[s].d() * std::log((double)g_faults.stall_max / us);
            v |= ((uint64_t)std::max(1.0, std::exp(l))) << 12;
        }
    }
    if (!v) return;
    g_rec[s].add(idx, v);
    uint64_t tid = v & 0xfff;
    Thr* t = tid && tid - 1 < g_threads.size() ? g_threads[tid - 1] : nullptr;
    preempt_to(t, v >> 12);
}

void point(const char* what)
{
    (void)what;
    if (!active || in_rt || g_nopreempt) return;
    ++g_spt;
    ++g_steps;
    ++g_run_len;
    g_now += g_tick;
    g_apt_last = g_apt;
    if (g_next_due <= g_now) fire_due();
    if ((g_steps & 0xfff) == 0) check_limits();
    if (!cur->pending_sigs.empty()) { Guard g; run_signals(); }
    if (!g_cfg.replay && g_policy.kind == 1 && g_resched) {
        g_resched = false;
        slow_point(S, g_spt);
    } else if (g_spt >= g_next_spt) {
        slow_point(S, g_spt);
    }
    if (g_run_len > FAIR) {
        Guard g;
        g_run_len = 0;
        Thr* t = cyc_next(cur->id, true);
        if (t) {
            if (g_policy.kind == 1) cur->prio = --g_low_prio;
            hand_over(cur, t);
        } else if (g_next_due != INT64_MAX && g_next_due > g_now) {
            // a spinning thread alone: let time pass, otherwise a wait by spinning would take forever
            g_now = std::min(g_next_due, g_now + 100 * us);
            if (g_next_due <= g_now) fire_due();
        }
    }
}

static void access_slow()
{
    if (!active || in_rt || g_nopreempt) { g_next_apt = g_apt + 1000; return; }
    if (g_apt - g_apt_last > 400000000ull)
        finish("violation", "livelock", "endless loop without any synchronisation\n" + thread_dump());
    if (g_apt >= g_next_apt) slow_point(A, g_apt);
}

static int g_lone_yields = 0; // consecutive ones while no other thread could run

void yield_hint(ns_t d)
{
    if (!active || in_rt) return;
    point("yield");
    Guard g;
    g_now += d;
    if (g_next_due <= g_now) fire_due();
    Thr* t = cyc_next(cur->id, true);
    if (t) {
        g_lone_yields = 0;
        if (g_policy.kind == 1) cur->prio = --g_low_prio;
        hand_over(cur, t);
    } else if (g_next_due != INT64_MAX) {
        // nobody else can run: a yield loop waits for time to pass
        // (longer and longer, so that waiting like that for minutes does not take all the steps of a run)
        ns_t d = (10 * us) << std::min(10, ++g_lone_yields / 64);
        g_now = std::max(g_now, std::min(g_next_due, g_now + d));
        if (g_next_due <= g_now) fire_due();
    }
}

// ---- threads --------------------------------------------------------------------------------------------------------
static void thread_finish(Thr* me)
{
    Guard g;
    me->st = FIN;
    hash_mix(0xf1f1 + me->id);
    wake_all((uint64_t)(uintptr_t)me);
    Thr* n = pick();
    hand_over(me, n); // never comes back: the OS thread stays parked, so that its exit cannot disturb anything
    abort();
}

static void key_dtor(void* p)
{
    Thr* me = static_cast<Thr*>(p);
    if (++me->dtor_round < 4 /* PTHREAD_DESTRUCTOR_ITERATIONS */) {
        pthread_setspecific(g_key, p);
        return;
    }
    thread_finish(me);
}

static void* trampoline(void* p)
{
    Thr* me = static_cast<Thr*>(p);
    park(me);
    in_rt = 0;
    g_nopreempt = 0;
    pthread_setspecific(g_key, me);
    if (me->fn) {
        me->fn();
        me->fn = nullptr;
        return nullptr;
    }
    return me->ret = me->start(me->arg);
}

Thr* create_thread(const std::string& name, int proc, void* (*start)(void*), void* arg, std::function<void()> fn, const pthread_attr_t* attr, pthread_t* out)
{
    Guard g;
    auto* t = new Thr;
    t->id = g_threads.size();
    t->proc = proc;
    t->name = name;
    t->start = start;
    t->arg = arg;
    t->fn = std::move(fn);
    if (!g_cfg.replay) t->prio = 1 + g_rng[NSTREAMS + 1].next() % 1000000;
    g_threads.push_back(t);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1024 * 1024);
    (void)attr;
    int rc = real_pthread_create(&t->pt, &a, &trampoline, t);
    pthread_attr_destroy(&a);
    if (rc != 0) finish("error", "thread-create", "pthread_create failed");
    if (out) *out = t->pt;
    g_resched = true;
    return t;
}

// ---- finishing ------------------------------------------------------------------------------------------------------
// No heap use here: the heap may be broken when a run ends.
static struct Writer
{
    char b[65536];
    size_t n = 0;
    void flush()
    {
        const char* p = b;
        while (n) {
            ssize_t w = write(g_cfg.out_fd, p, n);
            if (w <= 0) break;
            p += w;
            n -= w;
        }
        n = 0;
    }
    void c(char x) { if (n == sizeof b) flush(); b[n++] = x; }
    void raw(const char* s) { while (*s) c(*s++); }
    void u(uint64_t v) { char t[24]; snprintf(t, sizeof t, "%lu", v); raw(t); }
    void esc(const char* s)
    {
        for (; *s; ++s) {
            unsigned char x = *s;
            if (x == '"' || x == '\\') { c('\\'); c(x); }
            else if (x == '\n') raw("\\n");
            else if (x < 32 || x >= 127) { char t[8]; snprintf(t, sizeof t, "\\u%04x", x); raw(t); }
            else c(x);
        }
    }
    void str(const char* s) { c('"'); esc(s); c('"'); }
} W;
static bool g_finishing = false;

void finish_raw(const char* status, const char* cls, const char* msg)
{
    ++in_rt;
    if (g_finishing) _exit(97);
    g_finishing = true;
    active = false;
    bool bad = strcmp(status, "ok") != 0;
    W.raw("{\"status\":"); W.str(status);
    W.raw(",\"class\":"); W.str(cls);
    W.raw(",\"msg\":"); W.str(msg);
    char b[512];
    snprintf(b, sizeof b, ",\"hash\":\"%016lx\",\"steps\":%lu,\"accesses\":%lu,\"switches\":%lu,\"vtime_ns\":%ld,\"stall_ns\":%ld,\"threads\":%zu,\"policy\":%d",
             g_hash, g_steps, g_apt, g_switches, g_now, g_stall_total, g_threads.size(), g_policy.kind);
    W.raw(b);
    for (auto* m : {&g_fault_counts, &g_probe_counts}) {
        W.raw(m == &g_fault_counts ? ",\"faults\":{" : ",\"probes\":{");
        bool first = true;
        for (auto& [k, v] : *m) {
            if (!first) W.c(',');
            first = false;
            W.str(k.c_str());
            W.c(':');
            W.u(v);
        }
        W.c('}');
    }
    if (bad || g_cfg.want_trace) {
        W.raw(",\"trace\":[");
        bool first = true;
        for (int s = 0; s < NSTREAMS; ++s)
            for (size_t i = 0; i < g_rec[s].n && i < Rec::CAP; ++i) {
                snprintf(b, sizeof b, "%s[%d,%lu,%lu]", first ? "" : ",", s, g_rec[s].e[i][0], g_rec[s].e[i][1]);
                first = false;
                W.raw(b);
            }
        W.raw("]");
    }
    if (bad || g_cfg.verbose) {
        size_t maxh = g_cfg.verbose ? 20000 : 400, maxl = g_cfg.verbose ? 20000 : 200;
        W.raw(",\"history\":[");
        bool first = true;
        size_t i = g_history.size() > maxh ? g_history.size() - maxh : 0;
        for (; i < g_history.size(); ++i) {
            auto& l = g_history[i];
            if (!first) W.c(',');
            first = false;
            snprintf(b, sizeof b, "\"%12.6f ms T%d ", l.t / 1e6, l.tid);
            W.raw(b); W.esc(l.s.c_str()); W.c('"');
        }
        W.raw("],\"log\":[");
        first = true;
        i = g_log.size() > maxl ? g_log.size() - maxl : 0;
        for (; i < g_log.size(); ++i) {
            auto& l = g_log[i];
            if (!first) W.c(',');
            first = false;
            snprintf(b, sizeof b, "\"%12.6f ms T%d(", l.t / 1e6, l.tid);
            W.raw(b); W.esc(l.tid < (int)g_threads.size() ? g_threads[l.tid]->name.c_str() : ""); W.raw(") "); W.esc(l.s.c_str()); W.c('"');
        }
        W.raw("]");
    }
    W.raw("}\n");
    W.flush();
    _exit(0);
}
void finish(const char* status, const std::string& cls, const std::string& msg) { finish_raw(status, cls.c_str(), msg.c_str()); }

static std::function<void(const std::string&)> g_on_log;
void log_line(int sev, const std::string& text)
{
    if (!active && !g_cfg.verbose) return;
    Guard g;
    (void)sev;
    g_log.push_back({g_now, cur ? cur->id : 0, text});
    if (g_log.size() > g_log_max) g_log.pop_front();
    if (g_on_log) g_on_log(text);
}

// ---- crash handlers -------------------------------------------------------------------------------------------------
static void fatal_signal(int sig, siginfo_t* si, void* ctx)
{
    signal(sig, SIG_DFL);
    auto* uc = static_cast<ucontext_t*>(ctx);
    static char m[12000], cls[64];
    snprintf(cls, sizeof cls, "crash.SIG%s", sigabbrev_np(sig) ? sigabbrev_np(sig) : "");
    int n = snprintf(m, sizeof m, "signal %d addr %p pc %p in thread %d %s", sig, si->si_addr,
                     (void*)uc->uc_mcontext.gregs[REG_RIP], cur ? cur->id : -1, cur ? cur->name.c_str() : "");
    static void* bt[40];
    int k = backtrace(bt, 40);
    for (int i = 0; i < k; ++i) {
        Dl_info di{};
        dladdr(bt[i], &di);
        n += snprintf(m + n, sizeof m - n, "\n  #%d %.200s+0x%lx", i, di.dli_sname ? di.dli_sname : "?",
                      di.dli_saddr ? (char*)bt[i] - (char*)di.dli_saddr : (char*)bt[i] - (char*)di.dli_fbase);
        if (n > 11000) break;
    }
    finish_raw("violation", cls, m);
}

static void on_terminate()
{
    ++in_rt;
    std::string what = "std::terminate called without an active exception";
    std::string type = "none";
    if (auto e = std::current_exception()) {
        if (auto* ti = abi::__cxa_current_exception_type()) {
            int st = 0;
            char* dn = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
            type = dn ? dn : ti->name();
        }
        try {
            std::rethrow_exception(e);
        } catch (std::exception& x) {
            what = std::string("uncaught exception: ") + x.what();
        } catch (...) {
            what = "uncaught non-standard exception";
        }
    }
    finish("violation", "terminate." + type, what + " in thread " + std::to_string(cur ? cur->id : -1) + " " + (cur ? cur->name : ""));
}

// ---- run set-up -----------------------------------------------------------------------------------------------------
void start_run(const RunCfg& cfg)
{
    g_cfg = cfg;
    heap::setup();
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_PERTURB, 0x5a);
    { void* bt[2]; backtrace(bt, 2); }
    install_stdin();
    for (int i = 0; i <= NSTREAMS + 1; ++i) g_rng[i].seed(cfg.seed * 1000003 + i * 7919 + 17);
    real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    pthread_key_create(&g_key, &key_dtor);
    struct sigaction sa{};
    sa.sa_sigaction = &fatal_signal;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) ::sigaction(s, &sa, nullptr);
    std::set_terminate(&on_terminate);
    auto* p = new Proc;
    p->id = 0;
    p->name = "main";
    g_procs.push_back(p);
    auto* t = new Thr;
    t->id = 0;
    t->name = "main";
    t->pt = pthread_self();
    t->prio = 1 + g_rng[NSTREAMS + 1].next() % 1000000;
    g_threads.push_back(t);
    cur = t;
    if (cfg.replay) {
        g_next_spt = g_tab[S].n ? g_tab[S].e[0][0] : UINT64_MAX / 2;
        g_next_apt = g_tab[A].n ? g_tab[A].e[0][0] : UINT64_MAX / 2;
    } else {
        Rng& r = g_rng[NSTREAMS + 1];
        // scheduling policy of this run (swarm)
        g_policy.kind = r.d() < 0.3 ? 1 : 0;
        static const double ps[] = {0.003, 0.01, 0.03, 0.1, 0.3};
        g_policy.sync_p = ps[r.next() % 5];
        static const double am[] = {0, 0, 20000, 3000, 500, 120};
        g_policy.access_mean = am[r.next() % 6];
        if (g_policy.kind == 1) {
            int d = 1 + r.next() % 5;
            double k = std::exp(std::log(100.0) + r.d() * std::log(300.0));
            for (int i = 0; i < d; ++i) g_pct_points.push_back(1 + (uint64_t)(r.d() * k));
            std::sort(g_pct_points.rbegin(), g_pct_points.rend());
            g_next_spt = g_pct_points.empty() ? UINT64_MAX / 2 : g_pct_points.back();
        } else {
            g_next_spt = countdown(S, 1 / g_policy.sync_p);
        }
        g_next_apt = countdown(A, g_policy.access_mean);
    }
    active = true;
}

void crash_hooks(int proc)
{
    for (auto& f : g_on_crash) f(proc);
}

void retire_thread(int id)
{
    for (auto* t : g_threads) if (t->id == id) t->retired = true;
}
} // namespace sim::rt

// =====================================================================================================================
namespace sim {
using namespace rt;

uint32_t choose(Stream s, uint32_t n) { return (uint32_t)choice(s, n, -1); }
uint32_t choose_p(Stream s, uint32_t n, double p) { return (uint32_t)choice(s, n, p); }
bool fault(const char* kind, double p)
{
    if (p <= 0) return false;
    if (choice(F, 2, p) == 0) return false;
    Guard g;
    ++g_fault_counts[kind];
    return true;
}
void count_fault(const char* kind) { Guard g; ++g_fault_counts[kind]; }
uint64_t fault_count(const char* kind) { Guard g; auto it = g_fault_counts.find(kind); return it == g_fault_counts.end() ? 0 : it->second; }
void probe(const char* name) { Guard g; ++g_probe_counts[name]; }
bool param(const char* name, double* out)
{
    auto it = g_cfg.params.find(name);
    if (it == g_cfg.params.end()) return false;
    *out = it->second;
    return true;
}

ns_t now() { return g_now; }
static constexpr ns_t WALL0 = 1700000000ll * sec;
ns_t wall() { return g_now + WALL0 + g_wall_off; }
void wall_jump(ns_t d)
{
    Guard g;
    g_wall_off += d;
    ++g_fault_counts["wall-clock-jump"];
    recompute_due();
    if (g_next_due <= g_now) fire_due();
}
ns_t stall_total() // stall time that has passed so far, summed over threads
{
    ns_t t = g_stall_total;
    for (auto& x : g_threads) if (x->stalled_until > g_now) t -= x->stalled_until - g_now;
    return t;
}
int self() { return cur ? cur->id : 0; }
int self_proc() { return cur ? cur->proc : 0; }
int new_proc(const std::string& name)
{
    Guard g;
    auto* p = new Proc;
    p->id = g_procs.size();
    p->name = name;
    g_procs.push_back(p);
    return p->id;
}
Thread spawn(const std::string& name, std::function<void()> fn, int proc)
{
    Thr* t = create_thread(name, proc < 0 ? cur->proc : proc, nullptr, nullptr, std::move(fn), nullptr, nullptr);
    rt::point("spawn");
    return Thread{t->id};
}
void Thread::join()
{
    if (id < 0) return;
    rt::point("join");
    Thr* t = g_threads[id];
    while (t->st != FIN && t->st != DEAD) block((uint64_t)(uintptr_t)t, "join");
}
bool Thread::done() const { return id >= 0 && (g_threads[id]->st == FIN || g_threads[id]->st == DEAD); }
void nap(ns_t d)
{
    rt::point("sleep");
    ns_t end = g_now + d;
    while (g_now < end) block(0, "sleep", true, CLK_MONO, end);
}
void yield() { yield_hint(us); }
void step(const char* what) { rt::point(what); }
std::string scratch_dir()
{
    Guard g;
    static std::string dir;
    if (dir.empty()) {
        const char* e = getenv("FMQSIM_SCRATCH");
        if (!e) finish("error", "harness", "no scratch directory");
        dir = std::string(e) + "/";
        if (DIR* d = opendir(dir.c_str())) { // files of the previous run
            while (dirent* f = readdir(d))
                if (f->d_name[0] != '.') unlinkat(dirfd(d), f->d_name, 0);
            closedir(d);
        } else finish("error", "harness", "no scratch directory " + dir);
    }
    return dir;
}
bool crashed(int proc) { return g_procs[proc]->dead; }
void on_crash(std::function<void(int)> f) { g_on_crash.push_back(std::move(f)); }
void crash(int proc)
{
    Guard g;
    if (g_procs[proc]->dead) return;
    g_procs[proc]->dead = true;
    ++g_fault_counts["process-crash"];
    bool self_dead = false;
    for (auto* t : g_threads) {
        if (t->proc != proc || t->st == FIN) continue;
        if (t == cur) self_dead = true;
        t->st = DEAD;
        t->key = 0;
        t->has_dl = false;
        wake_all((uint64_t)(uintptr_t)t);
    }
    // owners of robust mutexes died: waiters must notice
    for (auto* t : g_threads)
        if (t->st == BLK && t->what && strcmp(t->what, "mutex") == 0) wake_thr(t, W_SIGNALLED);
    crash_hooks(proc);
    if (self_dead) {
        Thr* me = cur;
        Thr* n = pick();
        hand_over(me, n); // never returns: nobody will ever hand the baton to a dead thread
        abort();
    }
}
void at(ns_t when, std::function<void()> f)
{
    Guard g;
    g_events.push(Ev{when, g_ev_seq++, std::move(f)});
    note_due(when);
}
bool deliver_signal(int proc, int sig)
{
    Guard g;
    if (g_procs[proc]->dead || !g_procs[proc]->handlers.count(sig)) return false; // without a handler it would end the process
    std::vector<Thr*> c;
    for (auto* t : g_threads)
        if (t->proc == proc && t->st != FIN && t->st != DEAD && t->name != "zmq-io") c.push_back(t); // the library blocks signals in its threads
    if (c.empty()) return false;
    ++g_fault_counts["signal"];
    Thr* t = c[choice(C, c.size(), 0.3)];
    t->pending_sigs.push_back(sig);
    if (t->st == BLK) wake_thr(t, W_INTERRUPTED);
    return true;
}
int live_threads(int proc)
{
    int n = 0;
    for (auto* t : g_threads) n += (t->proc == proc && t->st != FIN && t->st != DEAD && !t->retired);
    return n;
}
std::string thread_dump()
{
    std::string o;
    char b[300];
    for (auto* t : g_threads) {
        if (t->st == FIN) continue;
        snprintf(b, sizeof b, "  T%d %s proc %d: %s %s%s\n", t->id, t->name.c_str(), t->proc,
                 t->st == RUN ? "runnable" : t->st == DEAD ? "crashed" : "blocked in", t->st == BLK ? t->what : "",
                 t->st == BLK && t->has_dl ? " (timed)" : "");
        o += b;
    }
    return o;
}
NoPreempt::NoPreempt() { ++g_nopreempt; }
NoPreempt::~NoPreempt() { --g_nopreempt; }
EnterProc::EnterProc(int p) : old(cur->proc) { cur->proc = p; }
EnterProc::~EnterProc() { cur->proc = old; }

void violation(const std::string& cls, const std::string& msg) { finish("violation", cls, msg); }
void check(bool ok, const char* cls, const std::string& msg) { if (!ok) finish("violation", cls, msg); }
void event(const std::string& text)
{
    Guard g;
    g_history.push_back({g_now, cur ? cur->id : 0, text});
    if (g_history.size() > 20000) g_history.pop_front();
    for (char c : text) hash_mix((unsigned char)c);
}
void limit_time(ns_t l) { g_limit = l; }
void limit_steps(uint64_t s) { g_limit_steps = s; }
void on_stuck(std::function<std::string()> d) { Guard g; g_on_stuck = std::move(d); }
Faults& faults() { return g_faults; }
void fail_shm_here(double p, int count) { if (cur) { cur->shm_fail = p; cur->shm_fails = count; } }
Policy& policy() { return g_policy; }
std::string log_text(size_t max)
{
    Guard g;
    std::string o;
    size_t skip = g_log.size() > max ? g_log.size() - max : 0;
    for (auto& l : g_log) {
        if (skip) { --skip; continue; }
        o += l.s + "\n";
    }
    return o;
}
void on_log(std::function<void(const std::string&)> f) { Guard g; rt::g_on_log = std::move(f); }
void stdin_push(int proc, const std::string& chars)
{
    Guard g;
    for (char c : chars) g_procs[proc]->in.push_back(c);
    wake_all(0x57d1000000ull + proc);
}
void stdin_eof(int proc)
{
    Guard g;
    g_procs[proc]->in_eof = true;
    wake_all(0x57d1000000ull + proc);
}

} // namespace sim

// ---- checked heap ---------------------------------------------------------------------------------------------------
namespace sim::rt {
static int stack_text(char* m, int n, int cap)
{
    static void* bt[40];
    int k = backtrace(bt, 40);
    for (int i = 2; i < k && n < cap; ++i) {
        Dl_info di{};
        dladdr(bt[i], &di);
        n += snprintf(m + n, cap + 400 - n, "\n  #%d %.200s+0x%lx", i, di.dli_sname ? di.dli_sname : "?",
                      di.dli_saddr ? (char*)bt[i] - (char*)di.dli_saddr : (char*)bt[i] - (char*)di.dli_fbase);
    }
    return n;
}
namespace heap {
void too_big(size_t n)
{
    ++in_rt;
    static char m[12000];
    int k = snprintf(m, sizeof m, "allocation of %zu bytes in thread %d %s", n, cur ? cur->id : -1, cur ? cur->name.c_str() : "");
    stack_text(m, k, 11000);
    finish_raw("violation", "memory.huge-allocation", m);
}
void bad_free(void*, bool twice)
{
    ++in_rt;
    static char m[12000];
    int n = snprintf(m, sizeof m, "%s in thread %d %s", twice ? "object deleted twice" : "deletion of something that is not an object", cur ? cur->id : -1, cur ? cur->name.c_str() : "");
    stack_text(m, n, 11000);
    finish_raw("violation", twice ? "memory.double-delete" : "memory.bad-delete", m);
}
void bad_access(uintptr_t a, size_t n, bool write)
{
    if (in_rt || !active) return;
    ++in_rt;
    uintptr_t o = (a - BASE) / 16;
    // the faulty granule
    for (uintptr_t l = (a + n - 1 - BASE) / 16; o < l && shadow[o] == 16; ++o) {}
    bool freed = shadow[o] == FREED;
    static char m[12000];
    int k = snprintf(m, sizeof m, "%s of %zu bytes %s in thread %d %s", write ? "write" : "read", n, freed ? "in a deleted object" : "outside of any object", cur ? cur->id : -1, cur ? cur->name.c_str() : "");
    uintptr_t q = o;
    while (q > 0 && shadow[q - 1] && (shadow[q - 1] == FREED || !freed)) --q;
    Head* h = (Head*)(BASE + q * 16) - 1;
    if (q > 0 && freed && h->magic == GONE) k += snprintf(m + k, sizeof m - k, " (offset %zu of %zu bytes, deleted by thread %u)", (size_t)(a - (BASE + q * 16)), (size_t)h->size, h->thread);
    stack_text(m, k, 11000);
    finish_raw("violation", freed ? "memory.use-after-delete" : "memory.out-of-bounds", m);
}
} // namespace heap
} // namespace sim::rt

using namespace sim::rt;
static void* new_impl(size_t n, size_t align)
{
    if (active && !in_rt) {
        if (void* p = heap::get(n, align)) return p;
        if (n >= 256u << 20) heap::too_big(n);
    }
    if (align > 16) return aligned_alloc(align, (n + align - 1) & ~(align - 1));
    return malloc(n ? n : 1);
}
static inline void delete_impl(void* p)
{
    if (!p) return;
    if (heap::in(p)) heap::put(p, cur ? cur->id : 0);
    else free(p);
}
#define NEW(args, al) { void* p = new_impl(n, al); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) NEW(, 0)
void* operator new[](size_t n) NEW(, 0)
void* operator new(size_t n, std::align_val_t a) NEW(, (size_t)a)
void* operator new[](size_t n, std::align_val_t a) NEW(, (size_t)a)
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 0); }
void operator delete(void* p) noexcept { delete_impl(p); }
void operator delete[](void* p) noexcept { delete_impl(p); }
void operator delete(void* p, size_t) noexcept { delete_impl(p); }
void operator delete[](void* p, size_t) noexcept { delete_impl(p); }
void operator delete(void* p, std::align_val_t) noexcept { delete_impl(p); }
void operator delete[](void* p, std::align_val_t) noexcept { delete_impl(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { delete_impl(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { delete_impl(p); }

// ---- instrumentation runtime (replaces libtsan): every atomic operation and memory access is a scheduling point -----
#define ACC() do { if (__builtin_expect(++g_apt >= g_next_apt || (g_apt & 0xffffff) == 0, 0)) access_slow(); } while (0)
#define ACCM(p, n, w) do { ACC(); heap::check((const void*)(p), n, w); } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { ACCM(p, n, false); } \
    void __tsan_write##n(void* p) { ACCM(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { ACCM(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { ACCM(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { ACCM(p, n, false); } \
    void __tsan_volatile_write##n(void* p) { ACCM(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { ACCM(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { ACCM(p, n, true); } \
    void __tsan_read##n##_pc(void* p, void*) { ACCM(p, n, false); } \
    void __tsan_write##n##_pc(void* p, void*) { ACCM(p, n, true); } \
    void __tsan_read_write##n(void* p) { ACCM(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { ACCM(p, 8, true); }
void __tsan_vptr_read(void** p) { ACCM(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { ACCM(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { ACCM(p, n, true); }

#define ATOMICS(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point("atomic"); heap::check((const void*)a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) { point("fence"); }
void __tsan_atomic_signal_fence(int) {}
}
