// C18: at most one plugin controls the device; control can be handed over
#include <sim.h>
#include <fairmq/Device.h>
#include <fairmq/PluginServices.h>
#include <fairmq/ProgOptions.h>
#include <deque>
#include <memory>
#include <set>

using namespace sim;
using namespace std;
using fair::mq::PluginServices;
using fair::mq::State;
using fair::mq::Transition;

namespace {
enum Kind { Take, Steal, Release, Change, Get, Wait };
const char* kn[] = {"take", "steal", "release", "change", "get", "wait"};
struct Op
{
    Kind k; int who; uint64_t b = 0, e = 0; bool thrown = false; bool accepted = false; int got = -1;
    string text() const
    {
        string s = string("plugin") + to_string(who) + " " + kn[k];
        if (thrown) s += " refused";
        if (k == Get) s += got < 0 ? " -> nobody" : " -> plugin" + to_string(got);
        if (k == Change && !thrown) s += accepted ? " -> true" : " -> false";
        return s;
    }
};
// sequential model: the current controller, -1 = nobody. Returns false if the operation cannot have had this result.
bool apply(const Op& o, int& c)
{
    switch (o.k) {
        case Take: if (o.thrown) return c != -1 && c != o.who; if (c != -1 && c != o.who) return false; c = o.who; return true;
        case Steal: if (o.thrown) return false; c = o.who; return true;
        case Release: if (c == o.who) { if (o.thrown) return false; c = -1; } return true; // documented to throw for others, shipped not to: both fine
        case Change: if (o.thrown) return c != -1 && c != o.who; if (c != -1 && c != o.who) return false; c = o.who; return true;
        case Get: return o.got == c;
        case Wait: return c == -1;
    }
    return false;
}
struct World
{
    deque<Op> ops;
    uint64_t clock = 0;
    fair::mq::Device* dev;
    PluginServices* svc;
    int tries = 0;
    static string id(int w) { return "plugin" + to_string(w); }
    bool run(Kind k, int who, Transition t = Transition::Auto)
    {
        Op* o;
        { NoPreempt np; ops.push_back(Op{k, who}); o = &ops.back(); o->b = ++clock; }
        try {
            switch (k) {
                case Take: svc->TakeDeviceControl(id(who)); break;
                case Steal: svc->StealDeviceControl(id(who)); break;
                case Release: svc->ReleaseDeviceControl(id(who)); break;
                case Change: o->accepted = svc->ChangeDeviceState(id(who), t); break;
                case Get: { auto g = svc->GetDeviceController(); o->got = g ? stoi(g->substr(6)) : -1; break; }
                case Wait: svc->WaitForReleaseDeviceControl(); break;
            }
        } catch (PluginServices::DeviceControlError&) {
            o->thrown = true;
        }
        NoPreempt np;
        o->e = ++clock;
        event(o->text());
        return !o->thrown;
    }
    bool linearizable(int init, string& why)
    {
        vector<Op> v(ops.begin(), ops.end());
        // operations still running when the run ended do not exist here: every thread was joined
        set<pair<vector<bool>, int>> seen;
        uint64_t steps = 0;
        function<bool(vector<bool>&, size_t, int)> dfs = [&](vector<bool>& done, size_t left, int c) -> bool {
            if (!left) return true;
            if (++steps > 100000) { probe("linearizability check gave up"); return true; }
            if (!seen.insert({done, c}).second) return false;
            uint64_t first_end = UINT64_MAX;
            for (size_t i = 0; i < v.size(); ++i) if (!done[i]) first_end = min(first_end, v[i].e);
            for (size_t i = 0; i < v.size(); ++i) {
                if (done[i] || v[i].b > first_end) continue;
                int n = c;
                if (!apply(v[i], n)) continue;
                done[i] = true;
                if (dfs(done, left - 1, n)) return true;
                done[i] = false;
            }
            return false;
        };
        vector<bool> done(v.size());
        bool ok = dfs(done, v.size(), init);
        if (!ok) { why = "no order of these operations explains their results:"; for (auto& o : v) why += " [" + to_string(o.b) + "," + to_string(o.e) + "] " + o.text() + ";"; }
        return ok;
    }
};
struct Dev : fair::mq::Device
{
    void Run() override { while (!NewStatePending()) WaitFor(chrono::milliseconds(100000)); }
};
void to_ready(fair::mq::Device& d)
{
    using T = Transition; using S = State;
    d.ChangeState(T::InitDevice); d.WaitForState(S::InitializingDevice);
    d.ChangeState(T::CompleteInit); d.WaitForState(S::Initialized);
    d.ChangeState(T::Bind); d.WaitForState(S::Bound);
    d.ChangeState(T::Connect); d.WaitForState(S::DeviceReady);
    d.ChangeState(T::InitTask); d.WaitForState(S::Ready);
}
struct Setup
{
    fair::mq::ProgOptions cfg;
    Dev d;
    unique_ptr<PluginServices> svc;
    World w;
    Thread run;
    int ready = 0, running = 0;
    State last = State::Undefined;
    Setup()
    {
        faults().stall = gen(3) ? 0 : 0.2;
        faults().stall_max = 50 * ms;
        faults().spurious_wakeup = gen(2) ? 0.3 : 0;
        limit_time(600 * sec);
        clock_steps();
        cfg.SetProperty<string>("session", "s");
        cfg.SetProperty<string>("transport", "zeromq");
        d.SetConfig(cfg);
        d.SetTransport("zeromq");
        svc = make_unique<PluginServices>(cfg, d);
        w.dev = &d; w.svc = svc.get();
        d.SubscribeToStateChange("oracle", [this](State s) {
            NoPreempt np;
            if (s == State::Ready) ++ready;
            if (s == State::Running) ++running;
            last = s;
        });
        run = spawn("device", [this] { d.RunStateMachine(); });
    }
    void shutdown()
    {
        // the device is at Ready or Running, or about to be
        d.UnsubscribeFromStateChange("oracle");
        while (d.GetCurrentState() != State::Idle) {
            State s = d.GetCurrentState();
            if (s == State::Running) d.ChangeState(Transition::Stop);
            else if (s == State::Ready) d.ChangeState(Transition::ResetTask);
            else if (s == State::DeviceReady) d.ChangeState(Transition::ResetDevice);
            nap(5 * ms);
        }
        d.ChangeState(Transition::End);
        run.join();
    }
};
} // namespace

// arbitrary concurrent use; the results must be those of some sequential order, refused changes have no effect
SIM_WORKLOAD(C18, rules)
{
    Setup s;
    World& w = s.w;
    bool active = gen(4) != 0; // bring the device to Ready first
    if (active) to_ready(s.d);
    int ready0 = s.ready;
    int plugins = 2 + gen(3), nops = 2 + gen(14 / plugins);
    bool callback = gen(3) == 0; // a plugin uses the control API from its state-change callback
    int cbs = 0;
    if (callback)
        s.svc->SubscribeToDeviceStateChange("p9", [&](State st) {
            if (cbs++ > 4) return;
            w.run(Get, 9);
            if (st == State::Running && gen(2)) w.run(Change, 9, Transition::Stop);
        });
    vector<Thread> ths;
    for (int p = 0; p < plugins; ++p)
        ths.push_back(spawn("plugin" + to_string(p), [&, p] {
            for (int i = 0; i < nops; ++i) {
                int k = gen(10);
                if (k < 2) w.run(Take, p);
                else if (k < 3) w.run(Steal, p);
                else if (k < 5) w.run(Release, p);
                else if (k < 9) w.run(Change, p, active ? (gen(2) ? Transition::Run : Transition::Stop) : Transition::InitTask);
                else w.run(Get, p);
                if (gen_p(0.15)) nap(gen(5) * ms);
            }
        }));
    for (auto& t : ths) t.join();
    if (callback) s.svc->UnsubscribeFromDeviceStateChange("p9");
    nap(5 * sec); // pending requests are carried out
    w.run(Get, 0);
    {
        NoPreempt np;
        string why;
        SIM_CHECK(w.linearizable(-1, why), "control-rules", why);
        int acc = 0;
        for (auto& o : w.ops) if (o.accepted) ++acc;
        int moved = s.ready - ready0 + s.running;
        if (active) SIM_CHECK(moved == acc, "refused-change-effect", to_string(acc) + " state changes were accepted by the device but " + to_string(moved) + " happened");
        else SIM_CHECK(acc == 0 && s.last != State::InitializingTask, "refused-change-effect", "an impossible transition was accepted");
    }
    if (active) s.shutdown();
    else { s.d.ChangeState(Transition::End); s.run.join(); }
}

// handing over: every plugin that keeps trying obtains control, everyone waiting for the release gets to run
SIM_WORKLOAD(C18, handover)
{
    Setup s;
    World& w = s.w;
    int plugins = 2 + gen(3), waiters = gen(3), rounds = 1 + gen(2);
    bool change = gen(2);
    bool others = gen(2); // somebody without control calls release now and then
    if (change) to_ready(s.d);
    int held_by = -1;
    vector<Thread> ths;
    for (int p = 0; p < plugins; ++p)
        ths.push_back(spawn("plugin" + to_string(p), [&, p] {
            for (int r = 0; r < rounds;) {
                if (gen(2)) w.run(Wait, p);
                if (!w.run(Take, p)) { w.run(Wait, p); continue; }
                { NoPreempt np; SIM_CHECK(held_by == -1, "two-controllers", "plugin" + to_string(p) + " took control while plugin" + to_string(held_by) + " had it"); held_by = p; }
                if (change) w.run(Change, p, gen(2) ? Transition::Run : Transition::Stop);
                if (gen(2)) nap(gen(20) * ms);
                { NoPreempt np; held_by = -1; }
                w.run(Release, p);
                ++r;
                if (gen(2)) nap(gen(5) * ms);
            }
        }));
    for (int i = 0; i < waiters; ++i)
        ths.push_back(spawn("waiter" + to_string(i), [&, i] { if (gen(2)) nap(gen(10) * ms); w.run(Wait, 20 + i); }));
    if (others)
        ths.push_back(spawn("other", [&] { for (int i = 0; i < 3; ++i) { w.run(Release, 30); nap(gen(10) * ms); } }));
    on_stuck([&] { return "controller: " + (held_by < 0 ? string("nobody") : "plugin" + to_string(held_by)); });
    for (auto& t : ths) t.join(); // anyone not woken although control was released: deadlock
    {
        NoPreempt np;
        string why;
        SIM_CHECK(w.linearizable(-1, why), "control-rules", why);
    }
    if (change) s.shutdown();
    else { s.d.ChangeState(Transition::End); s.run.join(); }
}

// emergency: control is stolen from a plugin that is using it; it is refused from then on
SIM_WORKLOAD(C18, steal)
{
    Setup s;
    World& w = s.w;
    to_ready(s.d);
    int waiters = 1 + gen(3);
    bool stolen = false;   // set before the steal returned
    bool over = false;
    vector<Thread> ths;
    ths.push_back(spawn("victim", [&] {
        w.run(Take, 0);
        for (int i = 0; i < 6; ++i) {
            bool was;
            { NoPreempt np; was = stolen; }
            bool ok = w.run(Change, 0, i % 2 ? Transition::Stop : Transition::Run);
            SIM_CHECK(!(ok && was), "lost-control-used", "a state change by the previous holder was accepted after control had been stolen");
            if (gen(2)) nap(gen(10) * ms);
            NoPreempt np;
            if (over) break;
        }
    }));
    ths.push_back(spawn("thief", [&] {
        nap(gen(30) * ms);
        w.run(Steal, 1);
        { NoPreempt np; stolen = true; }
        for (int i = 0; i < 2; ++i) {
            bool ok = w.run(Change, 1, gen(2) ? Transition::Stop : Transition::Run);
            SIM_CHECK(ok, "controller-refused", "a state change by the plugin that has stolen control was refused");
            nap(gen(10) * ms);
        }
        // the victim must be gone before control is free again (a change by it would take control implicitly)
        while (!ths[0].done()) nap(5 * ms);
        NoPreempt np;
        over = true;
    }));
    for (int i = 0; i < waiters; ++i)
        ths.push_back(spawn("waiter" + to_string(i), [&, i] { nap(gen(20) * ms); w.run(Wait, 20 + i); }));
    ths[1].join();
    w.run(Release, 1);
    for (auto& t : ths) t.join();
    nap(5 * sec);
    {
        NoPreempt np;
        string why;
        SIM_CHECK(w.linearizable(-1, why), "control-rules", why);
        int acc = 0;
        for (auto& o : w.ops) if (o.accepted) ++acc;
        int moved = s.ready - 1 + s.running;
        SIM_CHECK(moved == acc, "refused-change-effect", to_string(acc) + " state changes were accepted but " + to_string(moved) + " happened");
    }
    s.shutdown();
}
