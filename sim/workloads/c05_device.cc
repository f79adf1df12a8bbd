// C05: the life cycle of a device
#include "device.h"
#include <deque>
#include <thread>
using namespace tr;
using namespace dv;
using namespace std;

namespace {
struct Injected : runtime_error { Injected() : runtime_error("injected") {} };

struct World;
struct D5 : Device
{
    World& w;
    bool own_loop = false; // Run returns on its own
    explicit D5(World& w_) : w(w_) {}
    void Init() override;
    void Bind() override;
    void Connect() override;
    void InitTask() override;
    void PreRun() override;
    bool ConditionalRun() override;
    void Run() override;
    void PostRun() override;
    void ResetTask() override;
    void Reset() override;
};

struct Ev { bool is_state; string name; State s = State::Ok; };
struct World
{
    deque<Ev> evs;                 // announcements and handler calls on the device thread, in order
    thread::id runner;
    bool has_runner = false;
    int calls = 0, throw_at = -1;
    bool threw = false;
    string thrown_in;
    bool error_requested = false;
    bool failing = false;          // what must not work because of an error
    int cond_left = 0;
    bool cond_ended = false;
    bool transfers = false;
    bool shm = false;
    int cycle = 0, inits = 0;
    string open;                   // handler being run
    D5* d = nullptr;
    int complete = 0, init_entries = 0; // CompleteInit requests accepted or under way, entries of Init

    bool ask(Transition t);

    void state(State s)
    {
        NoPreempt np;
        event("state " + nm(s));
        evs.push_back({true, nm(s), s});
        SIM_CHECK(open.empty() || threw, "handler-overlap", nm(s) + " is announced while " + open + " is running");
        if (s == State::Running) { cond_ended = false; cond_left = gen(4); }
    }
    void enter(const char* name)
    {
        NoPreempt np;
        event(string("handler ") + name);
        evs.push_back({false, name});
        SIM_CHECK(open.empty(), "handler-overlap", string(name) + " is called while " + open + " is running");
        SIM_CHECK(has_runner && this_thread::get_id() == runner, "wrong-thread", string(name) + " is not called by the thread that runs the device");
        open = name;
    }
    void leave()
    {
        bool t = false;
        {
            NoPreempt np;
            if (calls++ == throw_at) { threw = t = true; thrown_in = open; event("injected exception in " + open); count_fault("handler exception"); }
            open.clear();
        }
        if (t) throw Injected();
    }
    void simple(const char* name)
    {
        enter(name);
        if (gen(3) == 0) nap(gen(20) * ms);
        leave();
    }
    // messages pass through the channels of the device
    void transfer(const string& out, const string& in, const string& where)
    {
        int n = 1 + gen(2);
        for (int i = 0; i < n; ++i) {
            if (d->NewStatePending()) return;
            size_t size = 10 * cycle + i + 1;
            auto m = d->NewMessageFor(out, 0, size);
            memset(m->GetData(), cycle, size);
            auto rc = d->Send(m, out, 0, 2000);
            { NoPreempt np; SIM_CHECK(rc == (int64_t)size || d->NewStatePending(), "channel-unusable", where + ": a send on " + out + " returned " + to_string(rc)); }
            if (rc < 0) return;
            auto r = d->NewMessageFor(in, 0);
            ns_t s0 = stall_total();
            rc = d->Receive(r, in, 0, 2000);
            NoPreempt np;
            if (rc < 0) {
                SIM_CHECK(d->NewStatePending() || stall_total() - s0 > 1 * sec, "channel-unusable", where + ": a receive on " + in + " returned " + to_string(rc));
                lost = true;
                return;
            }
            if (!lost) {
                SIM_CHECK(r->GetSize() == size, "stale-message", where + ": received " + to_string(r->GetSize()) + " instead of " + to_string(size) + " bytes");
                SIM_CHECK(((unsigned char*)r->GetData())[size - 1] == (unsigned char)cycle, "stale-message", where + ": wrong content");
            }
        }
    }
    bool lost = false; // a message was sent, but not received in this cycle
};
bool World::ask(Transition t)
{
    { NoPreempt np; if (t == Transition::CompleteInit) ++complete; }
    bool ok = d->ChangeState(t);
    NoPreempt np;
    if (!ok && t == Transition::CompleteInit) --complete;
    return ok;
}
void D5::Init() { { NoPreempt np; ++w.cycle; w.lost = false; SIM_CHECK(++w.init_entries <= w.complete || w.error_requested, "init-too-early", "Init is called before the initialisation was completed"); } w.simple("Init"); }
void D5::Bind() { w.simple("Bind"); }
void D5::Connect() { w.simple("Connect"); }
void D5::InitTask() { w.enter("InitTask"); if (w.transfers && gen(3) == 0) w.transfer("out", "in", "InitTask"); w.leave(); }
void D5::PreRun() { w.simple("PreRun"); }
bool D5::ConditionalRun()
{
    w.enter("ConditionalRun");
    bool go;
    { NoPreempt np; SIM_CHECK(!w.cond_ended, "run-after-end", "ConditionalRun is called again after it returned false"); go = w.cond_left-- > 0; if (!go) w.cond_ended = true; }
    if (w.transfers && gen(4) == 0) w.transfer("out", "in", "ConditionalRun");
    if (gen(4) == 0) nap(gen(5) * ms);
    w.leave();
    return go;
}
void D5::Run()
{
    w.enter("Run");
    if (w.transfers) w.transfer("out", "in", "Run");
    if (w.transfers && gen(2)) w.transfer("out2", "in2", "Run");
    if (!own_loop) while (!NewStatePending()) { if (gen(2)) WaitFor(chrono::milliseconds(gen(50))); else nap(gen(10) * ms); }
    else if (gen(2)) nap(gen(10) * ms);
    w.leave();
}
void D5::PostRun() { w.simple("PostRun"); }
void D5::ResetTask() { w.simple("ResetTask"); }
void D5::Reset() { w.simple("Reset"); }

const map<State, vector<string>>& handlers()
{
    static const map<State, vector<string>> m = {
        {State::InitializingDevice, {"Init"}}, {State::Binding, {"Bind"}}, {State::Connecting, {"Connect"}}, {State::InitializingTask, {"InitTask"}},
        {State::Running, {"PreRun", "ConditionalRun*", "Run", "PostRun"}}, {State::ResettingTask, {"ResetTask"}}, {State::ResettingDevice, {"Reset"}}};
    return m;
}
} // namespace

SIM_WORKLOAD(C05, lifecycle)
{
    World w;
    w.shm = gen(2);
    faults().stall = gen(2) ? 0 : 0.1;
    faults().stall_max = 20 * ms;
    faults().spurious_wakeup = gen(2) ? 0 : 0.2;
    faults().eintr = gen(3) ? 0 : 0.2;
    limit_time(4000 * sec);
    clock_steps();
    w.transfers = gen(3) != 0;
    ProgOptions cfg;
    base_config(cfg, w.shm ? "shmem" : "zeromq");
    int rl = gen(4) == 0 ? 1 + gen(2) : 0;
    if (w.transfers) {
        string a = gen(2) ? "inproc://a" : "ipc://a";
        put(cfg, {"out", "push", "bind", a, "default", 1000, rl});
        put(cfg, {"in", "pull", "connect", a});
        string t2 = gen(3) ? "default" : w.shm ? "zeromq" : "shmem";
        put(cfg, {"out2", "push", "connect", "ipc://b", t2});
        put(cfg, {"in2", "pull", "bind", "ipc://b", t2});
    }
    if (gen(4) == 0) cfg.SetProperty<float>("rate", 10.f + gen(1000));
    int mode = gen(4); // 0, 1: nothing goes wrong, 2: a handler throws, 3: an error is requested
    w.throw_at = mode == 2 ? gen(25) : -1;
    int subs_error = 0;
    bool run_done = false, run_threw = false, injected_surfaced = false;
    string what;
    {
        D5 d(w);
        w.d = &d;
        d.SetConfig(cfg);
        d.own_loop = gen(3) == 0;
        d.SubscribeToStateChange("w", [&](State s) { w.state(s); });
        d.SubscribeToStateChange("e", [&](State s) { NoPreempt np; if (s == State::Error) ++subs_error; });
        Thread run = spawn("device", [&] {
            { NoPreempt np; w.runner = this_thread::get_id(); w.has_runner = true; }
            try { d.RunStateMachine(); }
            catch (Injected& e) { NoPreempt np; run_threw = injected_surfaced = true; what = e.what(); }
            catch (exception& e) { NoPreempt np; run_threw = true; what = e.what(); }
            NoPreempt np;
            run_done = true;
            event(run_threw ? "run call ended with " + what : "run call ended");
        });
        int steps = gen(40);
        auto next = [&](bool home) {
            switch (d.GetCurrentState()) {
                case State::Idle: return home ? Transition::End : Transition::InitDevice;
                case State::InitializingDevice: return Transition::CompleteInit;
                case State::Initialized: return home || gen(6) == 0 ? Transition::ResetDevice : Transition::Bind;
                case State::Bound: return home || gen(6) == 0 ? Transition::ResetDevice : Transition::Connect;
                case State::DeviceReady: return home || gen(4) == 0 ? Transition::ResetDevice : Transition::InitTask;
                case State::Ready: return home || gen(3) == 0 ? Transition::ResetTask : Transition::Run;
                case State::Running: return Transition::Stop;
                default: return Transition::Auto; // passes on its own
            }
        };
        auto over = [&] { NoPreempt np; return run_done; };
        auto failing = [&] { NoPreempt np; return w.threw; };
        vector<Thread> noise;
        int nn = gen(3);
        for (int i = 0; i < nn; ++i)
            noise.push_back(spawn("noise" + to_string(i), [&] {
                int n = gen(20);
                for (int k = 0; k < n && !over() && !failing(); ++k) {
                    nap(gen(2) ? gen(30) * ms : gen(500) * us);
                    Transition t = next(false);
                    if (gen(4) == 0) { static const Transition all[] = {Transition::InitDevice, Transition::CompleteInit, Transition::Bind, Transition::Connect, Transition::InitTask, Transition::Run, Transition::Stop, Transition::ResetTask, Transition::ResetDevice}; t = all[gen(9)]; }
                    if (t == Transition::Auto) continue; // the device does that on its own
                    (void)w.ask(t);
                }
            }, 0));
        Thread err;
        if (mode == 3) err = spawn("error", [&] {
            nap(gen(2) ? gen(300) * ms : gen(3000) * us);
            if (over()) return;
            { NoPreempt np; w.error_requested = true; event("error requested"); }
            (void)d.ChangeState(Transition::ErrorFound);
        }, 0);
        // drives the device
        int refused = 0;
        for (int k = 0; !over();) {
            bool failed;
            { NoPreempt np; failed = w.threw; }
            Transition t = failed ? Transition::Auto : next(k >= steps); // after an exception the run call ends without help
            if (t == Transition::Auto) { nap(1 * ms); ++refused; }
            else {
                if (t == Transition::Stop) nap(gen(3) ? gen(50) * ms : 0);
                if (t == Transition::CompleteInit && gen(4) == 0) nap(gen(200) * ms);
                { NoPreempt np; if (w.threw) continue; }
                if (w.ask(t)) { ++k; refused = 0; { NoPreempt np; event("requested " + nm(t)); } if (t == Transition::End) break; }
                else { nap(1 * ms); ++refused; }
            }
            { NoPreempt np; SIM_CHECK(refused < 200000, "stuck", "the device does not get out of the state " + nm(d.GetCurrentState())); }
        }
        for (auto& n : noise) n.join();
        if (err.id >= 0) err.join();
        run.join();
        State fin = d.GetCurrentState();
        // ---- the recorded history ------------------------------------------------------------------------------------
        bool may_err = w.error_requested;
        if (w.threw) {
            SIM_CHECK(run_threw, "exception-swallowed", "an exception in " + w.thrown_in + " did not surface from the run call");
            SIM_CHECK(injected_surfaced || may_err, "exception-swallowed", "another exception surfaced: " + what);
            SIM_CHECK(fin == State::Error, "no-error-state", "the device is in the state " + nm(fin) + " after an exception in " + w.thrown_in);
        } else if (!may_err) {
            SIM_CHECK(!run_threw, "unexpected-error", "the run call ended with an exception: " + what);
            SIM_CHECK(fin == State::Exiting, "unexpected-error", "the device ended in the state " + nm(fin));
        } else if (fin == State::Error) SIM_CHECK(run_threw, "exception-swallowed", "the run call returned normally from the error state");
        SIM_CHECK(subs_error == (fin == State::Error ? 1 : 0), "error-announcement", "the error state was announced " + to_string(subs_error) + " times");
        size_t n = w.evs.size();
        for (size_t i = 0; i < n;) {
            SIM_CHECK(w.evs[i].is_state, "handler-order", w.evs[i].name + " is called in the wrong state");
            State s = w.evs[i].s;
            size_t j = i + 1;
            vector<string> got;
            for (; j < n && !w.evs[j].is_state; ++j) got.push_back(w.evs[j].name);
            vector<string> want;
            if (handlers().count(s)) want = handlers().at(s);
            size_t g = 0, k = 0;
            for (; k < want.size(); ++k) {
                if (want[k] == "ConditionalRun*") { while (g < got.size() && got[g] == "ConditionalRun") ++g; continue; }
                if (g < got.size() && got[g] == want[k]) ++g;
                else break;
            }
            string text;
            for (auto& x : got) text += " " + x;
            SIM_CHECK(g == got.size(), "handler-order", "in the state " + nm(s) + " the handlers called are" + text);
            // all of them, unless something threw or an error was pending
            bool last = j == n || w.evs[j].s == State::Error;
            bool cut = last && (w.threw || may_err) && fin == State::Error;
            SIM_CHECK(k == want.size() || cut, "handler-missed", "in the state " + nm(s) + " the handlers called are" + text);
            i = j;
        }
    }
    if (w.shm) for (auto& s : shm_names()) violation("left-behind", "shared memory " + s + " exists after the device is gone");
}
