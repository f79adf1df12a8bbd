// Simulator internals shared between sim.cc, interpose.cc, zmq.cc, run.cc.
#ifndef SIM_RT_H
#define SIM_RT_H
#include "sim.h"
#include <deque>
#include <map>
#include <pthread.h>
#include <string>
#include <vector>

namespace sim::rt {

enum State { RUN, BLK, FIN, DEAD };
enum Wake { W_TIMEOUT = 0, W_SIGNALLED = 1, W_INTERRUPTED = 2 };
constexpr int CLK_MONO = 0, CLK_WALL = 1;

struct Thr
{
    int id = 0, proc = 0;
    std::string name;
    State st = RUN;
    uint32_t go = 0;
    uint64_t key = 0;
    bool has_dl = false;
    int clk = 0;
    ns_t dl = 0;
    int wake = 0;
    bool interruptible = false;
    const char* what = "";
    ns_t stalled_until = 0;
    int prio = 0;
    bool detached = false;
    bool joined = false;
    std::vector<pthread_mutex_t*> shared_held;
    double shm_fail = 0; // probability of failing shared memory calls of this thread
    int shm_fails = 0;   // how many of them, 0: any number
    int dtor_round = 0;
    std::vector<int> pending_sigs;
    bool retired = false;
    std::function<void()> fn;
    void* (*start)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    pthread_t pt{};
    std::vector<pthread_mutex_t*> robust_held; // robust mutexes held
};

struct Proc
{
    int id;
    std::string name;
    bool dead = false;
    std::map<int, void (*)(int)> handlers;
    std::deque<char> in;        // standard input, not read yet
    std::deque<char> in_buffer; // read by stdio/iostream, not consumed yet
    bool in_eof = false;
};

extern bool active;      // simulation running
extern int in_rt;        // inside simulator code: no scheduling points
extern Thr* cur;

struct Guard { Guard() { ++in_rt; } ~Guard() { --in_rt; } };

void point(const char* what);
uint64_t canon(const void* p);                   // address -> identity (shared mappings -> object+offset)
int block(uint64_t key, const char* what, bool has_dl = false, int clk = CLK_MONO, ns_t dl = 0, bool interruptible = false);
int wake_all(uint64_t key);
bool wake_thr(Thr* t, int reason);
bool wake_one_chosen(uint64_t key);              // picks one waiter by choice stream C
std::vector<Thr*>& threads();
std::vector<Proc*>& procs();
Thr* create_thread(const std::string& name, int proc, void* (*start)(void*), void* arg, std::function<void()> fn, const pthread_attr_t* attr, pthread_t* out);
void yield_hint(ns_t d);
[[noreturn]] void finish(const char* status, const std::string& cls, const std::string& msg);
void log_line(int sev, const std::string& text);
void crash_hooks(int proc);
void hash_mix(uint64_t v);
uint64_t rnd(int s);
double rnd_double(int s);

// run set-up
struct RunCfg
{
    uint64_t seed = 1;
    bool replay = false;
    std::map<std::string, double> params;
    bool verbose = false;
    bool want_trace = false;
    int out_fd = 1;
};
void start_run(const RunCfg& cfg);
void table_add(int stream, uint64_t idx, uint64_t v); // replay table, in index order per stream
void table_clear();
void watch_child(int pid, int seconds, int* st);
void install_stdin();
[[noreturn]] void finish_raw(const char* status, const char* cls, const char* msg);

void retire_thread(int id); // a thread of a library that has nothing to do any more
} // namespace sim::rt
#endif
