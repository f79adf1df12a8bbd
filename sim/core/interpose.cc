// The operating system seam: threads, locks, clocks, shared memory, signals, randomness and standard input of the
// simulated processes. Every function here replaces the libc one for FairMQ, boost and libstdc++.
#include "rt.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <poll.h>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <streambuf>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

using namespace sim;
using namespace sim::rt;

namespace {
constexpr ns_t MONO0 = 1000ll * sec;
constexpr ns_t WALL0 = 1700000000ll * sec;
constexpr uint64_t STDIN_KEY = 0x57d1000000ull;

ns_t ts_ns(const timespec& t) { return (ns_t)t.tv_sec * sec + t.tv_nsec; }
timespec ns_ts(ns_t n) { timespec t; t.tv_sec = n / sec; t.tv_nsec = n % sec; return t; }
// absolute deadline on clock `clk` -> internal deadline
int clk_of(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? CLK_WALL : CLK_MONO; }
ns_t dl_of(int clk, const timespec* t) { return clk == CLK_WALL ? ts_ns(*t) - WALL0 : ts_ns(*t) - MONO0; }
ns_t now_on(int clk) { return clk == CLK_WALL ? sim::wall() - WALL0 : sim::now(); }

Thr* by_pthread(pthread_t p)
{
    for (auto* t : threads())
        if (pthread_equal(t->pt, p)) return t;
    return nullptr;
}

// ---- mutexes: all state lives in the pthread_mutex_t itself, so that shared memory and crashes behave naturally ------
struct Mx { int lock; unsigned count; int owner; unsigned nusers; int kind; };
static_assert(sizeof(Mx) <= sizeof(pthread_mutex_t));
// values of Mx::lock: 0 free, 1 locked, 2 locked after its owner died (inconsistent), 3 not recoverable
Mx* mx(pthread_mutex_t* m) { return reinterpret_cast<Mx*>(m); }
int me_id() { return cur ? cur->id + 1 : 1; }
bool owner_dead(const Mx* m)
{
    int o = m->owner - 1;
    return o >= 0 && o < (int)threads().size() && threads()[o]->st == DEAD;
}

void note_shared(pthread_mutex_t* p, bool locked); // mutexes in shared memory held by each thread

int lock_impl(pthread_mutex_t* p, bool try_only, const timespec* abs, int clk)
{
    Mx* m = mx(p);
    point("mutex");
    Guard g;
    for (;;) {
        if (m->lock == 0) {
            m->lock = 1;
            m->owner = me_id();
            m->count = 1;
            note_shared(p, true);
            return 0;
        }
        if (m->lock == 3) return ENOTRECOVERABLE;
        if (m->owner == me_id()) {
            int type = m->kind & 3;
            if (type == PTHREAD_MUTEX_RECURSIVE) { ++m->count; return 0; }
            if (type == PTHREAD_MUTEX_ERRORCHECK) return try_only ? EBUSY : EDEADLK;
            if (try_only) return EBUSY;
            // relocking a normal mutex: the thread blocks forever (reported as deadlock)
        }
        if ((m->kind & 0x10) && owner_dead(m)) { // robust
            m->lock = 2;
            m->owner = me_id();
            m->count = 1;
            note_shared(p, true);
            return EOWNERDEAD;
        }
        if (try_only) return EBUSY;
        if (!active) { fprintf(stderr, "sim: mutex contention outside a run\n"); abort(); }
        if (abs) {
            ns_t dl = dl_of(clk, abs);
            if (dl <= now_on(clk)) return ETIMEDOUT;
            if (block(canon(p), "mutex", true, clk, dl) == W_TIMEOUT && m->lock != 0) return ETIMEDOUT;
        } else {
            block(canon(p), "mutex");
        }
    }
}
int unlock_impl(pthread_mutex_t* p)
{
    Mx* m = mx(p);
    Guard g;
    int type = m->kind & 3;
    if (type != 0 && m->owner != me_id()) return EPERM;
    if (type == PTHREAD_MUTEX_RECURSIVE && --m->count > 0) return 0;
    note_shared(p, false);
    m->lock = m->lock == 2 ? 3 : 0;
    m->owner = 0;
    m->count = 0;
    if (active) wake_all(canon(p));
    return 0;
}

struct Cv { int inited; int clk; };
int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, int clk, const timespec* abs)
{
    point("cond");
    int r = 0;
    {
        Guard g;
        if (!active) { fprintf(stderr, "sim: condition wait outside a run\n"); abort(); }
        ns_t dl = abs ? dl_of(clk, abs) : 0;
        bool timed_out = abs && dl <= now_on(clk);
        Mx* x = mx(m);
        unsigned cnt = x->count;
        int owner = x->owner;
        x->lock = x->lock == 2 ? 3 : 0;
        x->owner = 0;
        x->count = 0;
        (void)owner;
        wake_all(canon(m));
        if (timed_out) {
            r = ETIMEDOUT;
        } else {
            bool spurious = fault("spurious-wakeup", faults().spurious_wakeup);
            if (spurious) {
                ns_t t = sim::now() + 1 + choose(F, 1000) * us;
                bool use = !abs || t < (clk == CLK_WALL ? dl - (sim::wall() - WALL0 - sim::now()) : dl);
                if (use) block(canon(c), "condition variable", true, CLK_MONO, t);
                else if (block(canon(c), "condition variable", true, clk, dl) == W_TIMEOUT) r = ETIMEDOUT;
            } else if (abs) {
                if (block(canon(c), "condition variable", true, clk, dl) == W_TIMEOUT) r = ETIMEDOUT;
            } else {
                block(canon(c), "condition variable");
            }
        }
        // re-acquire
        int l;
        for (;;) {
            if (x->lock == 0) { x->lock = 1; x->owner = me_id(); x->count = cnt ? cnt : 1; l = 0; break; }
            if (x->lock == 3) { l = ENOTRECOVERABLE; break; }
            if ((x->kind & 0x10) && owner_dead(x)) { x->lock = 2; x->owner = me_id(); x->count = 1; l = EOWNERDEAD; break; }
            block(canon(m), "mutex");
        }
        if (l) return l;
    }
    point("cond");
    return r;
}

// ---- shared memory objects -------------------------------------------------------------------------------------------
struct Obj { uint64_t id; std::string name; int fd; };
struct Map { size_t len; Obj* o; off_t off; };
std::map<std::string, Obj*> g_names;
std::map<int, Obj*> g_fds;
std::map<uintptr_t, Map> g_maps;
uint64_t g_obj_id = 0;

struct Sem { unsigned value; unsigned magic; };
struct NamedSem { sem_t sem; std::string name; };
std::map<std::string, NamedSem*> g_sems;

int sem_wait_impl(sem_t* s, const timespec* abs, int clk)
{
    point("sem");
    Guard g;
    auto* v = reinterpret_cast<Sem*>(s);
    while (v->value == 0) {
        if (!active) abort();
        if (abs) {
            ns_t dl = dl_of(clk, abs);
            if (dl <= now_on(clk)) { errno = ETIMEDOUT; return -1; }
            int w = block(canon(s), "semaphore", true, clk, dl, true);
            if (w == W_INTERRUPTED) { errno = EINTR; return -1; }
        } else if (block(canon(s), "semaphore", false, CLK_MONO, 0, true) == W_INTERRUPTED) {
            errno = EINTR;
            return -1;
        }
    }
    --v->value;
    return 0;
}

int do_sleep(ns_t d)
{
    point("sleep");
    if (!active) return 0;
    if (d <= 0) return 0;
    int w = block(0, "sleep", true, CLK_MONO, sim::now() + d, true);
    if (w == W_INTERRUPTED) { errno = EINTR; return -1; }
    return 0;
}

// One byte of standard input; waits for it, false at the end of input.
bool stdin_wait(Proc* p)
{
    while (p->in.empty()) {
        if (p->in_eof) return false;
        block(STDIN_KEY + p->id, "read from stdin");
    }
    return true;
}

// cin and stdin: like stdio, takes everything there is into its own buffer, where poll() does not see it.
struct StdinBuf : std::streambuf
{
    int fetch(bool consume)
    {
        Guard g;
        Proc* p = procs()[cur->proc];
        if (p->in_buffer.empty()) {
            if (!stdin_wait(p)) return EOF;
            p->in_buffer.swap(p->in);
        }
        int r = (unsigned char)p->in_buffer.front();
        if (consume) p->in_buffer.pop_front();
        return r;
    }
    int underflow() override { int r = fetch(false); return r == EOF ? traits_type::eof() : r; }
    int uflow() override { int r = fetch(true); return r == EOF ? traits_type::eof() : r; }
};

void note_shared(pthread_mutex_t* p, bool locked)
{
    if (!cur || g_maps.empty()) return;
    auto& h = cur->shared_held;
    if (!locked) {
        auto it = std::find(h.begin(), h.end(), p);
        if (it != h.end()) h.erase(it);
    } else if (canon(p) != (uint64_t)(uintptr_t)p) h.push_back(p);
}

} // namespace

namespace sim::rt {

uint64_t canon(const void* p)
{
    auto a = reinterpret_cast<uintptr_t>(p);
    if (!g_maps.empty()) {
        auto it = g_maps.upper_bound(a);
        if (it != g_maps.begin()) {
            --it;
            if (a < it->first + it->second.len && it->second.o)
                return (0x8000ull + it->second.o->id) << 40 | (a - it->first + it->second.off);
        }
    }
    return a;
}

void install_stdin()
{
    static StdinBuf b;
    std::cin.rdbuf(&b);
}

} // namespace sim::rt

namespace sim {
std::vector<std::string> shm_names()
{
    Guard g;
    std::vector<std::string> r;
    for (auto& [n, o] : g_names) r.push_back(n);
    for (auto& [n, o] : g_sems) r.push_back("sem:" + n);
    return r;
}
bool waits_for_crashed(int proc)
{
    Guard g;
    for (auto* t : rt::threads()) {
        if (t->proc != proc || t->st != rt::BLK || strcmp(t->what, "mutex") != 0) continue;
        for (auto* d : rt::threads()) {
            if (d->st != rt::DEAD) continue;
            for (auto* m : d->shared_held)
                if (canon(m) == t->key) return true;
        }
    }
    return false;
}

bool holds_lock_in(int proc, const std::string& name)
{
    Guard g;
    for (auto* t : rt::threads()) {
        if (t->proc != proc) continue;
        for (auto* m : t->shared_held) {
            auto it = g_maps.upper_bound((uintptr_t)m);
            if (it == g_maps.begin()) continue;
            --it;
            if ((uintptr_t)m < it->first + it->second.len && it->second.o && it->second.o->name == name) return true;
        }
    }
    return false;
}
static std::function<void(const std::string&)> g_on_unlink;
void on_unlink(std::function<void(const std::string&)> f) { g_on_unlink = std::move(f); }
bool shm_exists(const std::string& name)
{
    Guard g;
    return g_names.count(name) || g_names.count("/" + name);
}
} // namespace sim

extern "C" {
// ---- threads ---------------------------------------------------------------------------------------------------------
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*start)(void*), void* arg)
{
    if (!active) {
        static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
        return real(out, attr, start, arg);
    }
    create_thread("thread", cur->proc, start, arg, nullptr, attr, out);
    point("pthread_create");
    return 0;
}
int pthread_join(pthread_t p, void** ret)
{
    point("join");
    Guard g;
    Thr* t = by_pthread(p);
    if (!t) return ESRCH;
    if (t == cur) return EDEADLK;
    if (t->joined || t->detached) return EINVAL;
    t->joined = true; // only one thread may wait for it
    while (t->st != FIN) block((uint64_t)(uintptr_t)t, "join");
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p)
{
    Guard g;
    Thr* t = by_pthread(p);
    if (t) t->detached = true;
    return t ? 0 : ESRCH;
}

// ---- mutex / condition variable / rwlock / once ------------------------------------------------------------------------
int pthread_mutex_lock(pthread_mutex_t* m) { return lock_impl(m, false, nullptr, 0); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lock_impl(m, true, nullptr, 0); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return lock_impl(m, false, t, CLK_WALL); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { return lock_impl(m, false, t, clk_of(c)); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = unlock_impl(m);
    point("unlock");
    return r;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_consistent(pthread_mutex_t* m)
{
    if (mx(m)->lock != 2) return EINVAL;
    mx(m)->lock = 1;
    return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
    memset(c, 0, sizeof *c);
    clockid_t id = CLOCK_REALTIME;
    if (a) pthread_condattr_getclock(a, &id);
    reinterpret_cast<Cv*>(c)->clk = clk_of(id) == CLK_MONO ? 1 : 0;
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_impl(c, m, 0, nullptr); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
    return cond_wait_impl(c, m, reinterpret_cast<Cv*>(c)->clk ? CLK_MONO : CLK_WALL, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* t) { return cond_wait_impl(c, m, clk_of(id), t); }
int pthread_cond_signal(pthread_cond_t* c)
{
    point("signal");
    Guard g;
    wake_one_chosen(canon(c));
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    point("broadcast");
    Guard g;
    wake_all(canon(c));
    return 0;
}

struct Rw { int writer; int readers; };
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw_lock(pthread_rwlock_t* l, bool write, bool try_only)
{
    point("rwlock");
    Guard g;
    auto* r = reinterpret_cast<Rw*>(l);
    for (;;) {
        if (!r->writer && (!write || !r->readers)) {
            if (write) r->writer = me_id(); else ++r->readers;
            return 0;
        }
        if (try_only) return EBUSY;
        block(canon(l), "rwlock");
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    {
        Guard g;
        auto* r = reinterpret_cast<Rw*>(l);
        if (r->writer) r->writer = 0; else if (r->readers) --r->readers;
        if (active) wake_all(canon(l));
    }
    point("rwunlock");
    return 0;
}

int pthread_once(pthread_once_t* o, void (*f)())
{
    point("once");
    for (;;) {
        if (*o == 2) return 0;
        if (*o == 1) { Guard g; block(canon(o), "once"); continue; }
        *o = 1;
        struct Reset
        {
            pthread_once_t* o;
            ~Reset()
            {
                Guard g;
                if (*o == 1) *o = 0;
                if (active) wake_all(canon(o));
            }
        } reset{o};
        f();
        *o = 2;
        return 0;
    }
}

int __cxa_guard_acquire(long long* g_)
{
    char* g = reinterpret_cast<char*>(g_);
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
    point("static-init");
    for (;;) {
        if (g[0]) return 0;
        if (!g[1]) { g[1] = 1; return 1; }
        Guard gg;
        if (!active) abort();
        block((uint64_t)(uintptr_t)g, "static initialisation");
    }
}
void __cxa_guard_release(long long* g_)
{
    char* g = reinterpret_cast<char*>(g_);
    Guard gg;
    g[0] = 1;
    g[1] = 0;
    if (active) wake_all((uint64_t)(uintptr_t)g);
}
void __cxa_guard_abort(long long* g_)
{
    char* g = reinterpret_cast<char*>(g_);
    Guard gg;
    g[1] = 0;
    if (active) wake_all((uint64_t)(uintptr_t)g);
}

// ---- semaphores --------------------------------------------------------------------------------------------------------
int sem_init(sem_t* s, int, unsigned v)
{
    memset(s, 0, sizeof *s);
    reinterpret_cast<Sem*>(s)->value = v;
    return 0;
}
int sem_destroy(sem_t*) { return 0; }
int sem_wait(sem_t* s) { return sem_wait_impl(s, nullptr, 0); }
int sem_timedwait(sem_t* s, const timespec* t) { return sem_wait_impl(s, t, CLK_WALL); }
int sem_clockwait(sem_t* s, clockid_t c, const timespec* t) { return sem_wait_impl(s, t, clk_of(c)); }
int sem_trywait(sem_t* s)
{
    point("sem");
    auto* v = reinterpret_cast<Sem*>(s);
    if (v->value == 0) { errno = EAGAIN; return -1; }
    --v->value;
    return 0;
}
int sem_post(sem_t* s)
{
    {
        Guard g;
        ++reinterpret_cast<Sem*>(s)->value;
        if (active) wake_all(canon(s));
    }
    point("sem_post");
    return 0;
}
int sem_getvalue(sem_t* s, int* v) { point("sem"); *v = (int)reinterpret_cast<Sem*>(s)->value; return 0; }
sem_t* sem_open(const char* name, int flags, ...)
{
    unsigned value = 0;
    if (flags & O_CREAT) {
        va_list ap;
        va_start(ap, flags);
        va_arg(ap, int);
        value = va_arg(ap, unsigned);
        va_end(ap);
    }
    point("sem_open");
    Guard g;
    auto it = g_sems.find(name);
    if (it != g_sems.end()) {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
        return &it->second->sem;
    }
    if (!(flags & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    auto* n = new NamedSem;
    n->name = name;
    memset(&n->sem, 0, sizeof n->sem);
    reinterpret_cast<Sem*>(&n->sem)->value = value;
    g_sems[name] = n;
    return &n->sem;
}
int sem_close(sem_t*) { return 0; }
int sem_unlink(const char* name)
{
    point("sem_unlink");
    Guard g;
    if (!g_sems.erase(name)) { errno = ENOENT; return -1; }
    return 0;
}

// ---- time --------------------------------------------------------------------------------------------------------------
int clock_gettime(clockid_t c, timespec* t)
{
    if (!active) { *t = ns_ts(MONO0); if (clk_of(c) == CLK_WALL) *t = ns_ts(WALL0); return 0; }
    point("clock");
    *t = ns_ts(clk_of(c) == CLK_WALL ? sim::wall() : sim::now() + MONO0);
    return 0;
}
int clock_getres(clockid_t, timespec* t) { if (t) *t = ns_ts(1); return 0; }
int gettimeofday(timeval* t, void*)
{
    timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* o)
{
    timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (o) *o = s.tv_sec;
    return s.tv_sec;
}
int nanosleep(const timespec* t, timespec* rem)
{
    ns_t end = sim::now() + ts_ns(*t);
    int r = do_sleep(ts_ns(*t));
    if (r && rem) *rem = ns_ts(std::max<ns_t>(0, end - sim::now()));
    return r;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* rem)
{
    int clk = clk_of(c);
    ns_t d = flags & TIMER_ABSTIME ? dl_of(clk, t) - now_on(clk) : ts_ns(*t);
    ns_t end = sim::now() + d;
    int r = do_sleep(d);
    if (r && rem) *rem = ns_ts(std::max<ns_t>(0, end - sim::now()));
    return r ? EINTR : 0;
}
int usleep(useconds_t u) { return do_sleep((ns_t)u * us); }
unsigned sleep(unsigned s) { do_sleep((ns_t)s * sec); return 0; }
int sched_yield() { yield_hint(us); return 0; }

// ---- stdin, terminal, signals, identity --------------------------------------------------------------------------------
int poll(pollfd* f, nfds_t n, int timeout)
{
    if (active && n == 1 && f[0].fd < 0 && timeout > 0) { f[0].revents = 0; return do_sleep((ns_t)timeout * ms); }
    if (!active || n != 1 || f[0].fd != 0) return syscall(SYS_poll, f, n, active ? 0 : timeout);
    point("poll");
    Guard g;
    Proc* p = procs()[cur->proc];
    ns_t dl = sim::now() + (ns_t)timeout * ms;
    for (;;) {
        f[0].revents = 0;
        if (!p->in.empty() || p->in_eof) { f[0].revents = POLLIN; return 1; }
        if (timeout == 0) return 0;
        int w = block(STDIN_KEY + p->id, "poll(stdin)", timeout > 0, CLK_MONO, dl, true);
        if (w == W_TIMEOUT) return 0;
        if (w == W_INTERRUPTED) { errno = EINTR; return -1; }
    }
}
ssize_t read(int fd, void* buf, size_t n)
{
    if (!active || fd != 0) return syscall(SYS_read, fd, buf, n);
    point("read");
    Guard g;
    Proc* p = procs()[cur->proc];
    if (n == 0 || !stdin_wait(p)) return 0;
    size_t k = 0;
    for (; k < n && !p->in.empty(); ++k, p->in.pop_front()) ((char*)buf)[k] = p->in.front();
    return k;
}
int getchar()
{
    if (!active) return EOF;
    return std::cin.rdbuf()->sbumpc();
}
int getc(FILE*) { return getchar(); }
int fgetc(FILE*) { return getchar(); }
int tcgetattr(int, termios* t) { memset(t, 0, sizeof *t); return 0; }
int tcsetattr(int, int, const termios*) { return 0; }

typedef void (*sighandler_t_)(int);
sighandler_t_ signal(int s, sighandler_t_ h)
{
    if (!active) {
        struct sigaction a{}, o{};
        a.sa_handler = h;
        static auto real = (int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction");
        real(s, &a, &o);
        return o.sa_handler;
    }
    point("signal");
    Guard g;
    auto& m = procs()[cur->proc]->handlers;
    auto it = m.find(s);
    auto old = it == m.end() ? SIG_DFL : it->second;
    m[s] = h;
    return old;
}
int sigaction(int s, const struct sigaction* a, struct sigaction* o)
{
    static auto real = (int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction");
    if (!active || s == SIGSEGV || s == SIGBUS || s == SIGABRT || s == SIGFPE || s == SIGILL) return real(s, a, o);
    if (o) memset(o, 0, sizeof *o);
    if (a) signal(s, a->sa_handler);
    return 0;
}
int raise(int s)
{
    if (!active || s == SIGABRT) {
        static auto real = (int (*)(int))dlsym(RTLD_NEXT, "raise");
        return real(s);
    }
    auto& m = procs()[cur->proc]->handlers;
    auto it = m.find(s);
    if (it != m.end() && it->second && it->second != SIG_IGN) it->second(s);
    else if (it == m.end() || it->second == SIG_DFL) sim::violation("killed-by-signal", "process raised signal " + std::to_string(s) + " without a handler");
    return 0;
}
pid_t getpid() { return active ? 1000 + cur->proc : (pid_t)syscall(SYS_getpid); }
uid_t geteuid() { return 1000; }
uid_t getuid() { return 1000; }
int system(const char*) { return -1; }
pid_t fork()
{
    if (active) { errno = ENOSYS; return -1; }
    static auto real = (pid_t (*)())dlsym(RTLD_NEXT, "fork");
    return real();
}
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
    const char* b = strrchr(file, '/');
    sim::violation("assert", std::string("assertion failed: ") + e + " in " + (fn ? fn : "") + " (" + (b ? b + 1 : file) + ":" + std::to_string(line) + ")");
}

// ---- randomness ----------------------------------------------------------------------------------------------------------
static void fill_random(void* p, size_t n)
{
    Guard g;
    auto* c = static_cast<unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) c[i] = (unsigned char)(rnd(NSTREAMS) >> 11);
}
ssize_t getrandom(void* p, size_t n, unsigned) { fill_random(p, n); return n; }
int getentropy(void* p, size_t n) { fill_random(p, n); return 0; }
int rand() { Guard g; return (int)(rnd(NSTREAMS) >> 33); }
unsigned _ZNSt13random_device9_M_getvalEv(void*) { Guard g; return (unsigned)(rnd(NSTREAMS) >> 32); }
double _ZNKSt13random_device13_M_getentropyEv(void*) { return 32; }
static int open_impl(const char* path, int flags, mode_t mode)
{
    if (active && (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random"))) {
        Guard g;
        int fd = syscall(SYS_memfd_create, "rnd", 0);
        unsigned char b[256];
        fill_random(b, sizeof b);
        if (write(fd, b, sizeof b) < 0) {}
        lseek(fd, 0, SEEK_SET);
        return fd;
    }
    return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t m = va_arg(ap, int);
    va_end(ap);
    return open_impl(path, flags, m);
}
int open64(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t m = va_arg(ap, int);
    va_end(ap);
    return open_impl(path, flags, m);
}

// ---- shared memory ---------------------------------------------------------------------------------------------------------
static bool shm_fault(const char* kind)
{
    if (!active) return false;
    if (cur && cur->shm_fail > 0) {
        if (!fault(kind, cur->shm_fail)) return false;
        if (cur->shm_fails > 0 && --cur->shm_fails == 0) cur->shm_fail = 0;
        return true;
    }
    return fault(kind, faults().shm_fail);
}
int shm_open(const char* name, int flags, mode_t)
{
    point("shm_open");
    Guard g;
    if (shm_fault("shm-open-fails")) { errno = ENFILE; return -1; }
    auto it = g_names.find(name);
    Obj* o;
    if (it != g_names.end()) {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        o = it->second;
    } else {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        o = new Obj{++g_obj_id, name, (int)syscall(SYS_memfd_create, "shm", 0)};
        g_names[name] = o;
    }
    if (flags & O_TRUNC) { if (syscall(SYS_ftruncate, o->fd, 0)) {} }
    int fd = dup(o->fd);
    if (fd < 0) finish("error", "fd", "out of file descriptors");
    g_fds[fd] = o;
    return fd;
}
int shm_unlink(const char* name)
{
    point("shm_unlink");
    { Guard g; if (!g_names.count(name)) { errno = ENOENT; return -1; } }
    if (sim::g_on_unlink) { sim::NoPreempt np; sim::g_on_unlink(name); }
    Guard g;
    auto it = g_names.find(name);
    g_names.erase(it);
    return 0;
}
int close(int fd)
{
    { Guard g; g_fds.erase(fd); }
    return syscall(SYS_close, fd);
}
int ftruncate(int fd, off_t n)
{
    if (g_fds.count(fd)) {
        point("ftruncate");
        if (n > 1 && shm_fault("shm-truncate-fails")) { errno = ENOSPC; return -1; }
    }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int posix_fallocate(int fd, off_t o, off_t n)
{
    if (!g_fds.count(fd)) return (int)-syscall(SYS_fallocate, fd, 0, o, n);
    point("posix_fallocate");
    if (shm_fault("shm-full")) return ENOSPC;
    struct stat st;
    fstat(fd, &st);
    if (st.st_size < o + n && syscall(SYS_ftruncate, fd, o + n)) return errno;
    return 0;
}
int posix_fallocate64(int fd, off_t o, off_t n) { return posix_fallocate(fd, o, n); }
void* mmap(void* a, size_t len, int prot, int flags, int fd, off_t off)
{
    Obj* o = nullptr;
    if (active && fd >= 0 && !in_rt) {
        auto it = g_fds.find(fd);
        if (it != g_fds.end()) {
            o = it->second;
            point("mmap");
            if (shm_fault("mmap-fails")) { errno = ENOMEM; return MAP_FAILED; }
        }
    }
    void* r = (void*)syscall(SYS_mmap, a, len, prot, flags, fd, off);
    if (o && r != MAP_FAILED) { Guard g; g_maps[(uintptr_t)r] = Map{len, o, off}; }
    return r;
}
void* mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return mmap(a, len, prot, flags, fd, off); }
int munmap(void* a, size_t len)
{
    { if (!g_maps.empty()) { point("munmap"); Guard g; g_maps.erase((uintptr_t)a); } }
    return syscall(SYS_munmap, a, len);
}
int mlock(const void*, size_t)
{
    if (active && !in_rt && shm_fault("mlock-fails")) { errno = ENOMEM; return -1; }
    return 0;
}
int munlock(const void*, size_t) { return 0; }
int madvise(void*, size_t, int) { return 0; }
} // extern "C"

// ---- logger ---------------------------------------------------------------------------------------------------------------
#include <fairlogger/Logger.h>
namespace fair {
bool Logger::Logging(Severity s) { return s >= Severity::debug && s != Severity::nolog; }
Logger::~Logger() { sim::rt::log_line((int)fSev, fOs.str()); }
} // namespace fair

// ---- host names -----------------------------------------------------------------------------------------------------
#include <arpa/inet.h>
#include <netdb.h>
extern "C" {
int getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** res)
{
    point("getaddrinfo");
    Guard g;
    (void)service;
    if (sim::fault("resolve-fails", sim::faults().resolve_fail)) return EAI_AGAIN;
    in_addr a{};
    std::string n = node ? node : "";
    if (n == "localhost" || n.rfind("host", 0) == 0) inet_aton("127.0.0.1", &a); // the simulated names
    else if (!inet_aton(n.c_str(), &a)) return EAI_NONAME;
    struct Both { addrinfo i; sockaddr_in s; };
    auto* b = (Both*)calloc(1, sizeof(Both));
    b->s.sin_family = AF_INET;
    b->s.sin_addr = a;
    b->i.ai_family = AF_INET;
    b->i.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
    b->i.ai_protocol = IPPROTO_TCP;
    b->i.ai_addr = (sockaddr*)&b->s;
    b->i.ai_addrlen = sizeof(sockaddr_in);
    *res = &b->i;
    return 0;
}
void freeaddrinfo(struct addrinfo* a) { free(a); }
}
