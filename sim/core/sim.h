// Deterministic simulator: workload-facing interface.
// One seed (or one recorded choice table) decides every scheduling decision, delay and fault.
#ifndef SIM_H
#define SIM_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

using ns_t = int64_t;
constexpr ns_t us = 1000, ms = 1000000, sec = 1000000000;

// ---- choices -------------------------------------------------------------------------------------------------------
// streams: G workload generation, F faults, N network, S sync-point preemption, A memory-access preemption,
//          B who runs when the running thread blocks, C condition-variable/semaphore wake-up choice
enum Stream { G, F, N, S, A, B, C, NSTREAMS };
uint32_t choose(Stream s, uint32_t n);                 // uniform 0..n-1; 0 is the simplest value
uint32_t choose_p(Stream s, uint32_t n, double p);     // 0 with probability 1-p, else uniform 1..n-1
inline uint32_t gen(uint32_t n) { return choose(G, n); }                 // workload generation
inline bool gen_p(double p) { return choose_p(G, 2, p) != 0; }
bool fault(const char* kind, double p);                // draw; counted under `kind` when it fires
void count_fault(const char* kind);
uint64_t fault_count(const char* kind);                // how often it was injected so far in this run
void probe(const char* name);                          // "this condition was reached" counter
bool param(const char* name, double* out);             // overrides given on the command line / in a replay

// ---- threads, processes, time --------------------------------------------------------------------------------------
ns_t now();                                            // virtual monotonic time
ns_t wall();                                           // virtual wall clock
void wall_jump(ns_t delta);                            // fault: step the wall clock
ns_t stall_total();                                    // virtual time injected as stalls of runnable threads so far
int self();                                            // current simulated thread id
int self_proc();                                       // current simulated process id
int new_proc(const std::string& name);
struct Thread { int id = -1; void join(); bool done() const; };
Thread spawn(const std::string& name, std::function<void()> fn, int proc = -1);
void nap(ns_t d);
void yield();
void step(const char* what);                           // explicit scheduling point
void crash(int proc);                                  // the process never runs again; locks stay held, sockets vanish
bool crashed(int proc);
void on_crash(std::function<void(int)> f);             // internal: transports register clean-up
void at(ns_t when, std::function<void()> f);           // scheduler-context callback (must not block)
bool deliver_signal(int proc, int sig);                // runs the process's handler on one of its threads; false: no handler
int live_threads(int proc);                            // threads of that process not finished
std::string thread_dump();

struct NoPreempt { NoPreempt(); ~NoPreempt(); };       // no scheduling points inside (oracle code)
struct EnterProc { int old; explicit EnterProc(int p); ~EnterProc(); }; // act as another process on this thread

// ---- oracles -------------------------------------------------------------------------------------------------------
[[noreturn]] void violation(const std::string& cls, const std::string& msg);
void check(bool ok, const char* cls, const std::string& msg);
void event(const std::string& text);                   // history line, for reports and the run hash
void limit_time(ns_t virtual_limit);                   // exceeding it is a violation of class "no-progress"
void limit_steps(uint64_t steps);
// What a deadlock/limit means for this run may be refined by the workload (e.g. name the blocked operation).
void on_stuck(std::function<std::string()> describe);

// ---- fault configuration (set by workloads, per run) ----------------------------------------------------------------
struct Faults
{
    double spurious_wakeup = 0;     // condition variable waits return without a signal
    double stall = 0;               // a preempted thread is stalled
    ns_t stall_max = 0;
    double eintr = 0;               // waiting zmq calls / poll return EINTR
    double shm_fail = 0;            // shm_open/ftruncate/mmap fail
    ns_t net_delay_max = 200 * us;  // message transmission delay
    ns_t connect_delay_max = 5 * ms;
    double bind_fail = 0;           // bind/connect attempts fail transiently
    double resolve_fail = 0;       // host name look-ups fail for the moment
};
Faults& faults();
void fail_shm_here(double p, int count = 0);           // shm_open/ftruncate/mmap of the calling thread fail (0: any number of times)
// scheduling policy for this run; drawn from the seed if not called
struct Policy { int kind = 0; double sync_p = 0.05; double access_mean = 0; int pct_depth = 3; };
Policy& policy();

// ---- storage -------------------------------------------------------------------------------------------------------
std::vector<std::string> shm_names();                  // named shared memory objects and semaphores that exist now
std::vector<std::string> bound_addresses();
bool shm_exists(const std::string& name);
bool waits_for_crashed(int proc);                          // a thread of the process waits for a mutex held by a crashed one
bool holds_lock_in(int proc, const std::string& name);  // a (maybe crashed) process holds a mutex inside this shared object
void on_unlink(std::function<void(const std::string&)> f); // called before a named object is removed (must not block)
std::string scratch_dir();                                // an empty directory for real files, with a trailing slash
void block_port(int port);                             // somebody else on the host listens there
std::string log_text(size_t max);                      // captured log lines
void on_log(std::function<void(const std::string&)> f); // called for each log line (must not block)
uint64_t zmq_undelivered();

// stdin of a simulated process
void stdin_push(int proc, const std::string& chars);
void stdin_eof(int proc);

// in some runs, somebody sets the system clock now and then
inline void clock_steps(ns_t within = 2 * sec)
{
    if (gen(8)) return;
    int n = 1 + gen(3);
    if (gen(2)) within = within >> gen(12);
    spawn("clock", [=] {
        for (int i = 0; i < n; ++i) {
            nap(within / 1000 * gen(1000));
            static const ns_t by[] = {-5 * ms, 700 * ms, -90 * sec, 90 * sec, -7200 * sec, 7200 * sec};
            wall_jump(by[gen(6)]);
        }
    }, new_proc("clock"));
}

// ---- runner --------------------------------------------------------------------------------------------------------
using Workload = void (*)();
struct Registration { Registration(const char* property, const char* name, Workload w, double weight = 1); };
int main(int argc, char** argv);

} // namespace sim

#define SIM_WORKLOAD(prop, name) SIM_WORKLOAD_W(prop, name, 1)
#define SIM_WORKLOAD_W(prop, name, weight) \
    static void sim_wl_##prop##_##name(); \
    static ::sim::Registration sim_reg_##prop##_##name(#prop, #name, &sim_wl_##prop##_##name, weight); \
    static void sim_wl_##prop##_##name()
#define SIM_CHECK(cond, cls, msg) do { if (!(cond)) ::sim::violation(cls, msg); } while (0)

#endif
