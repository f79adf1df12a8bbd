// C19: a device under the built-in control plugin starts, stops and shuts down gracefully.
// The real DeviceRunner with the real config and control plugins runs in a simulated process.
#include "device.h"
#include <fairmq/DeviceRunner.h>
#include <csignal>
#include <iostream>
using namespace dv;
using namespace std;

namespace {
struct Injected : runtime_error { Injected() : runtime_error("injected") {} };
struct World
{
    string trigger;          // why the device has to come to an end
    ns_t trigger_at = 0, trigger_stall = 0;
    bool error = false, exiting = false, run_over = false, ended = false, threw = false;
    vector<State> hist;
    int counts[64] = {};
    int throw_at = -1, handler = 0, end_run_after = -1, busy = 0;
    ns_t longest = 0;        // time the handlers may take
    void fire(const string& s)
    {
        NoPreempt np;
        event("trigger: " + s);
        if (trigger.empty()) { trigger = s; trigger_at = now(); trigger_stall = stall_total(); }
    }
};
struct D19 : Device
{
    World& w;
    explicit D19(World& w_) : w(w_) {}
    void handler(const char* name)
    {
        ns_t d = 0;
        bool t;
        {
            NoPreempt np;
            t = w.throw_at == w.handler++;
            if (w.busy) d = gen(3) ? 0 : (ns_t)gen(w.busy) * ms;
        }
        if (d) nap(d);
        if (t) { count_fault("exception in handler"); w.fire(string("exception in ") + name); throw Injected(); }
    }
    void Init() override { handler("Init"); }
    void Bind() override { handler("Bind"); }
    void Connect() override { handler("Connect"); }
    void InitTask() override { handler("InitTask"); }
    void PreRun() override { handler("PreRun"); }
    void PostRun() override { handler("PostRun"); }
    void ResetTask() override { handler("ResetTask"); }
    void Reset() override { handler("Reset"); }
    void Run() override
    {
        handler("Run");
        ns_t end = w.end_run_after < 0 ? INT64_MAX : now() + w.end_run_after * ms;
        while (!NewStatePending() && now() < end) WaitFor(chrono::milliseconds(min<ns_t>(100, max<ns_t>(1, (end - now()) / ms))));
        event("run over");
    }
};
} // namespace

SIM_WORKLOAD(C19, control)
{
    World w;
    faults().stall = gen(2) ? 0 : 0.1;
    faults().stall_max = 60 * ms;
    faults().spurious_wakeup = gen(2) ? 0 : 0.2;
    faults().eintr = gen(3) ? 0 : 0.1;
    limit_time(4000 * sec);
    clock_steps();
    cout.setstate(ios::badbit); // the plugin's own output
    static const char* modes[] = {"static", "dynamic", "interactive", "external", "gui", "none"};
    string mode = modes[gen(6)];
    bool interactive = mode == "dynamic" || mode == "interactive" || mode == "external";
    bool shm = gen(3) == 0;
    w.busy = gen(2) ? 0 : 1 + gen(400);
    w.throw_at = gen(4) ? -1 : (int)gen(14);
    w.end_run_after = mode == "static" ? (gen(3) ? (int)gen(500) : -1) : gen(3) ? -1 : (int)gen(500);
    bool bad_channel = gen(8) == 0; // never gets an address: the initialisation times out
    int timeout = 1 + gen(3);
    int pid = new_proc("device");
    vector<string> args{"device", "--id", "dev", "--session", "s", "--transport", shm ? "shmem" : "zeromq", "--control", mode, "--severity", "debug", "--shm-segment-size", "10000000",
                        "--init-timeout", to_string(timeout), "--channel-config", string("name=data,type=push,rateLogging=0,method=") + (bad_channel ? "connect,address=unspecified" : "bind,address=ipc://data")};
    if (gen(2)) args.push_back("name=more,type=pull,rateLogging=0,method=connect,address=tcp://127.0.0.1:7777");
    vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    Device* dev = nullptr;
    int rc = -1;
    string what;
    Thread main = spawn("main", [&] {
        try {
            fair::mq::DeviceRunner runner(argv.size(), argv.data(), false);
            runner.AddHook<fair::mq::hooks::InstantiateDevice>([&](fair::mq::DeviceRunner& r) {
                r.fDevice = make_unique<D19>(w);
                r.fDevice->SubscribeToStateChange("w", [&](State s) {
                    {
                        NoPreempt np;
                        event("state " + nm(s));
                        w.hist.push_back(s);
                        ++w.counts[(int)s];
                        if (s == State::Error) w.error = true;
                        if (s == State::Exiting) w.exiting = true;
                    }
                    if (s == State::Error) w.fire("error state");
                    if (s == State::Ready && mode == "static") { NoPreempt np; if (w.counts[(int)State::Running]) w.fire("end of the run method"); }
                });
                NoPreempt np;
                dev = r.fDevice.get();
            });
            int r = runner.Run();
            NoPreempt np;
            rc = r;
            event("Run() returns " + to_string(r));
        } catch (exception& e) {
            NoPreempt np;
            w.threw = true;
            what = e.what();
            event("exception at the top: " + what);
        }
        NoPreempt np;
        w.ended = true;
        event("runner is gone");
    }, pid);
    auto over = [&] { NoPreempt np; return w.ended; };
    // ---- the user ------------------------------------------------------------------------------------------------------
    int runs_asked = mode == "none" ? 0 : 1;
    bool quit_typed = false, eof = false;
    vector<Thread> ts;
    if (interactive || gen(4) == 0)
        ts.push_back(spawn("user", [&] {
            string keys;
            int n = gen(14);
            static const char ks[] = "rstdijbxch klnm\n?";
            string sensible[] = {"s", "st", "std", "stdi", "stdib", "stdibx", "stdibxj", "stdibxjr", "sr", "stjr"};
            for (int i = 0; i < n; ++i) keys += gen(3) ? string(1, ks[gen(sizeof ks - 1)]) : sensible[gen(10)];
            bool quit = gen(3) != 0;
            if (quit) keys += 'q';
            size_t i = 0;
            while (i < keys.size() && !over()) {
                if (gen(2)) nap(gen(gen(3) ? 60 : 1500) * ms);
                size_t k = gen(3) ? 1 : 1 + gen(4);
                string s = keys.substr(i, k);
                i += s.size();
                {
                    NoPreempt np;
                    for (char c : s) if (c == 'r') ++runs_asked;
                    if (s.find('q') != string::npos) quit_typed = true;
                    string show;
                    for (char c : s) show += c == '\n' ? string("<return>") : string(1, c);
                    event("typed " + show);
                }
                stdin_push(pid, s);
            }
            if (gen(3) == 0) { nap(gen(500) * ms); event("end of input"); stdin_eof(pid); NoPreempt np; eof = true; }
        }, 0));
    // ---- signals and errors from outside -----------------------------------------------------------------------------------
    bool no_end = !(mode == "static" && w.end_run_after >= 0); // somebody has to end it
    ns_t at = (ns_t)(gen(3) ? gen(600) : gen(5000)) * ms;
    if (gen(6) == 0) {
        nap((ns_t)gen(1000) * ms);
        Device* d;
        { NoPreempt np; d = w.ended || w.exiting || w.error ? nullptr : dev; }
        if (d && d->ChangeState(Transition::ErrorFound)) { count_fault("error state"); w.fire("error transition"); }
    }
    bool signalled = false;
    if (no_end || gen(2)) {
        if (gen(3)) nap(at);
        else { // when it arrives at some state, preferably one of the last
            static const State late[] = {State::Ready, State::ResettingTask, State::ResettingDevice, State::Idle, State::Exiting};
            State s = gen(3) ? late[gen(5)] : State(1 + gen(14));
            bool twice = gen(2);
            ns_t until = now() + at;
            auto reached = [&] { NoPreempt np; int n = 0; for (auto h : w.hist) n += h == s; return n > (twice ? 1 : 0); };
            while (!over() && !reached() && now() < until) nap(100 * us);
            if (gen(2)) nap((ns_t)gen(110) * ms);
        }
        int n = gen(3) ? 1 : 2, sig = gen(2) ? SIGINT : SIGTERM;
        if (sig == SIGINT) n = 1; // the second one aborts, on purpose
        for (int i = 0; i < n; ++i) {
            int tries = 0;
            while (!over() && !deliver_signal(pid, sig) && ++tries < 2000) nap(1 * ms); // the handler may not be installed yet
            if (over()) break;
            count_fault(sig == SIGINT ? "sigint" : "sigterm");
            if (!signalled) w.fire("signal");
            signalled = true;
            if (n > 1) nap(gen(300) * ms);
        }
    }
    // ---- the end ---------------------------------------------------------------------------------------------------------
    ns_t allowed = 5 * sec + 20 * (ns_t)w.busy * ms + timeout * sec;
    while (!over()) {
        {
            NoPreempt np;
            if (!w.trigger.empty() && now() - w.trigger_at > allowed + 5 * (stall_total() - w.trigger_stall))
                violation("hangs", "the device is still in state " + nm(w.hist.empty() ? State::Ok : w.hist.back()) + ", " + to_string((now() - w.trigger_at) / ms) + " ms after: " + w.trigger + "\n" + thread_dump());
        }
        nap(5 * ms);
    }
    main.join();
    for (auto& t : ts) t.join();
    NoPreempt np;
    SIM_CHECK(live_threads(pid) == 0, "left-running", to_string(live_threads(pid)) + " threads are left in the process of the device\n" + thread_dump());
    SIM_CHECK(!w.trigger.empty() || quit_typed, "ended-without-reason", "the device ended without being asked to");
    SIM_CHECK(w.counts[(int)State::Running] <= runs_asked, "unrequested", "the device entered running " + to_string(w.counts[(int)State::Running]) + " times, it was asked for " + to_string(runs_asked) + " times");
    SIM_CHECK(w.error || !w.threw, "exception", "the runner ended with an exception without an error of the device: " + what);
    if (!w.error) {
        SIM_CHECK(rc == 0, "exit-code", "the runner returned " + to_string(rc));
        SIM_CHECK(w.hist.size() >= 2 && w.hist.back() == State::Exiting && w.hist[w.hist.size() - 2] == State::Idle, "not-exited", "the device did not end in idle and exiting");
    }
    SIM_CHECK(!(w.error && w.exiting), "exiting-after-error", "exiting after the error state");
}
