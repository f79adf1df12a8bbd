// C04: state observers see every state change once, in order
#include <sim.h>
#include <fairmq/StateQueue.h>
#include <fairmq/Device.h>
#include <fairmq/ProgOptions.h>
#include <deque>
#include <map>
#include <memory>

using namespace sim;
using namespace std;
using fair::mq::State;
using fair::mq::Transition;

namespace {
string nm(State s) { return fair::mq::GetStateName(s); }
}

// the queue itself: producers push, one consumer uses every waiting operation
SIM_WORKLOAD(C04, queue)
{
    faults().stall = gen(3) ? 0 : 0.2;
    faults().stall_max = 50 * ms;
    faults().spurious_wakeup = gen(2) ? 0.3 : 0;
    limit_time(600 * sec);
    clock_steps();
    fair::mq::StateQueue q;
    deque<State> model;   // pushed by completed or running pushes, in order
    deque<ns_t> pushed_at;
    size_t taken = 0;
    bool last = false;
    bool custom = false;  // the custom condition of WaitForNextOrCustom
    int n = 1 + gen(12);
    bool with_error = gen(4) == 0;
    size_t total = 0;
    static const State st[] = {State::Idle, State::InitializingDevice, State::Initialized, State::Ready, State::Running, State::DeviceReady};
    auto push = [&](State s) {
        int how = gen(3);
        if (how == 0) {
            { NoPreempt np; model.push_back(s); pushed_at.push_back(0); } // intent; order is that of the single producer
            q.Push(s);
        } else {
            { NoPreempt np; model.push_back(s); pushed_at.push_back(0); }
            q.Push(s, [&] { });
        }
        NoPreempt np;
        pushed_at[model.size() - 1] = now();
        event("pushed " + nm(s));
    };
    bool produced = false;
    Thread prod = spawn("producer", [&] {
        for (int i = 0; i < n; ++i) {
            if (gen_p(0.5)) nap(gen(30) * ms);
            if (gen_p(0.1)) { q.Notify([&] { custom = true; }); event("custom condition set"); }
            push(st[gen(6)]);
        }
        if (with_error) push(State::Error);
        if (gen(2)) nap(gen(40) * ms);
        q.Notify([&] { custom = last = true; });
        event("custom condition set");
        NoPreempt np;
        produced = true;
    });
    auto got = [&](State s) {
        NoPreempt np;
        SIM_CHECK(taken < model.size(), "invented-state", "obtained " + nm(s) + " although nothing was pushed");
        SIM_CHECK(model[taken] == s, "state-order", "obtained " + nm(s) + " but " + nm(model[taken]) + " was next");
        ++taken;
        event("obtained " + nm(s));
    };
    bool error = false;
    (void)total;
    while (!error) {
        size_t before; bool all;
        { NoPreempt np; before = taken; all = produced && taken >= model.size(); }
        if (all) break;
        int op = gen(5);
        try {
            if (op == 0) { // only when something certainly comes
                bool sure;
                { NoPreempt np; sure = taken < model.size() || (int)model.size() < n; }
                if (sure) got(q.WaitForNext());
            } else if (op == 1) {
                int d = gen(40);
                ns_t t0 = now(), s0 = stall_total();
                auto r = q.WaitForNext(chrono::milliseconds(d));
                ns_t el = now() - t0, stall = stall_total() - s0;
                if (r.first) got(r.second);
                else {
                    SIM_CHECK(el >= d * ms, "early-timeout", "a wait of " + to_string(d) + " ms gave up after " + to_string(el / us) + " us");
                    NoPreempt np;
                    // something that was in the queue before the time was up must be returned
                    if (stall == 0 && before < model.size() && pushed_at[before] && pushed_at[before] + ms < t0 + d * ms)
                        violation("missed-state", "a wait timed out although " + nm(model[before]) + " had been pushed");
                }
                SIM_CHECK(el <= d * ms + 10 * ms + stall, "late-timeout", "a wait of " + to_string(d) + " ms lasted " + to_string(el / us) + " us");
            } else if (op == 2) {
                auto r = q.WaitForNextOrCustom([&] { return custom; });
                if (r.first) got(r.second);
                else { NoPreempt np; SIM_CHECK(custom, "early-return", "returned without a state and without the condition"); }
                if (!r.first) { nap(10 * ms); q.Locked([&] { if (!last) custom = false; }); }
            } else if (op == 3) {
                // wait for a particular state that certainly comes
                State want = State::Ok;
                { NoPreempt np; for (size_t i = taken; i < model.size(); ++i) want = model[i]; }
                if (want != State::Ok && want != State::Error) {
                    q.WaitForState(want);
                    NoPreempt np;
                    while (taken < model.size() && model[taken] != want) ++taken;
                    SIM_CHECK(taken < model.size(), "invented-state", "waiting for " + nm(want) + " returned without it");
                    ++taken;
                    event("waited for " + nm(want));
                }
            } else {
                State want = st[gen(6)];
                vector<State> snap; size_t t0;
                { NoPreempt np; t0 = taken; }
                q.WaitForStateOrCustom(want, [&] { return custom; });
                // what is still queued tells how far it went: drain without waiting
                deque<State> rest;
                while (true) {
                    auto r = q.WaitForNext(chrono::milliseconds(0));
                    if (r.first) { rest.push_back(r.second); continue; }
                    bool settled;
                    size_t sz;
                    { NoPreempt np; settled = true; for (auto x : pushed_at) if (!x) settled = false; sz = model.size(); }
                    if (settled) { r = q.WaitForNext(chrono::milliseconds(0)); if (r.first) { rest.push_back(r.second); continue; } }
                    NoPreempt np;
                    if (settled && sz == model.size()) break;
                }
                NoPreempt np;
                SIM_CHECK(t0 + rest.size() <= model.size(), "invented-state", "more states obtained than pushed");
                // consumed: [t0, k), then `rest`
                size_t k = model.size() - rest.size();
                bool ok = true, first_want = k > t0 && model[k - 1] == want, none_want = true;
                for (size_t j = 0; j < rest.size(); ++j) if (model[k + j] != rest[j]) ok = false;
                for (size_t j = t0; j + 1 < k; ++j) if (model[j] == want) none_want = first_want = false;
                if (k > t0 && model[k - 1] == want) none_want = false;
                // stopped at the first occurrence of `want`, or because of the condition
                ok = ok && (first_want || (custom && none_want));
                taken = model.size();
                SIM_CHECK(ok, "state-order", "waiting for " + nm(want) + " consumed the wrong states");
                event("waited for " + nm(want) + " or condition");
            }
        } catch (fair::mq::DeviceErrorState&) {
            NoPreempt np;
            event("error reported");
            SIM_CHECK(!model.empty() && model.back() == State::Error, "invented-state", "an error was reported although none was pushed");
            error = true;
        }
    }
    prod.join();
    if (with_error) {
        // the error stays visible, nothing blocks
        for (int i = 0; i < 2; ++i) {
            bool thrown = false;
            try { q.WaitForState(State::Running); } catch (fair::mq::DeviceErrorState&) { thrown = true; }
            SIM_CHECK(thrown, "error-not-reported", "waiting for a state after the error did not report it");
        }
    } else {
        SIM_CHECK(taken == model.size(), "lost-state", to_string(model.size() - taken) + " states were lost");
    }
}

// two consumers: every state goes to exactly one of them
SIM_WORKLOAD(C04, consumers)
{
    faults().stall = gen(3) ? 0 : 0.2;
    faults().stall_max = 50 * ms;
    faults().spurious_wakeup = gen(2) ? 0.3 : 0;
    limit_time(600 * sec);
    clock_steps();
    fair::mq::StateQueue q;
    int consumers = 2 + gen(2);
    vector<int> want(consumers);
    int total = 0;
    for (auto& w : want) { w = 1 + gen(4); total += w; }
    map<int, int> pushed, obtained;
    vector<Thread> ths;
    bool timed = gen(2);
    for (int c = 0; c < consumers; ++c)
        ths.push_back(spawn("consumer" + to_string(c), [&, c] {
            for (int i = 0; i < want[c];) {
                if (timed) {
                    auto r = q.WaitForNext(chrono::milliseconds(20));
                    if (!r.first) continue;
                    NoPreempt np; ++obtained[(int)r.second]; ++i;
                } else {
                    auto s = q.WaitForNext();
                    NoPreempt np; ++obtained[(int)s]; ++i;
                }
            }
        }));
    static const State st[] = {State::Idle, State::InitializingDevice, State::Initialized, State::Ready, State::Running, State::DeviceReady};
    for (int i = 0; i < total; ++i) {
        if (gen_p(0.4)) nap(gen(10) * ms);
        State s = st[gen(6)];
        ++pushed[(int)s];
        q.Push(s);
    }
    for (auto& t : ths) t.join(); // a state that is lost or a consumer that is not woken: deadlock or no progress
    SIM_CHECK(pushed == obtained, "lost-state", "states obtained differ from states pushed");
}

namespace {
struct Boom : runtime_error { Boom() : runtime_error("boom") {} };
struct Dev : fair::mq::Device
{
    int throw_in = -1;
    void at(State s) { if ((int)s == throw_in) { count_fault("handler exception"); event("handler of " + nm(s) + " throws"); throw Boom(); } }
    void Init() override { at(State::InitializingDevice); }
    void Bind() override { at(State::Binding); }
    void Connect() override { at(State::Connecting); }
    void InitTask() override { at(State::InitializingTask); }
    void Run() override { at(State::Running); while (!NewStatePending()) WaitFor(chrono::milliseconds(500)); }
    void ResetTask() override { at(State::ResettingTask); }
    void Reset() override { at(State::ResettingDevice); }
};
} // namespace

SIM_WORKLOAD(C04, device)
{
    faults().stall = gen(3) ? 0 : 0.2;
    faults().stall_max = 50 * ms;
    faults().spurious_wakeup = gen(2) ? 0.2 : 0;
    limit_time(600 * sec);
    clock_steps();
    fair::mq::ProgOptions cfg;
    cfg.SetProperty<string>("session", "s");
    cfg.SetProperty<string>("transport", "zeromq");
    Dev d;
    d.SetConfig(cfg);
    d.SetTransport("zeromq");
    bool fail = gen(2);
    static const State hs[] = {State::InitializingDevice, State::Binding, State::Connecting, State::InitializingTask, State::Running, State::ResettingTask, State::ResettingDevice};
    int fail_kind = fail ? 1 + gen(2) : 0; // 1: handler throws, 2: error requested
    if (fail_kind == 1) d.throw_in = (int)hs[gen(7)];
    vector<State> announced, seen;
    d.SubscribeToStateChange("w", [&](State s) { NoPreempt np; announced.push_back(s); event("state " + nm(s)); });
    bool ended = false, err_thrown = false;
    Thread run = spawn("device", [&] {
        try { d.RunStateMachine(); } catch (exception& e) { err_thrown = true; event(string("run ended with ") + e.what()); }
        NoPreempt np; ended = true;
    });
    Thread err;
    if (fail_kind == 2) err = spawn("error", [&] { nap(gen(60) * ms); event("error requested"); d.ChangeState(Transition::ErrorFound); });
    bool error = false;
    int style = gen(3);
    auto expect = [&](State s) {
        if (style == 0) { d.WaitForState(s); NoPreempt np; event("waited for " + nm(s)); return; }
        while (true) {
            State got = d.WaitForNextState();
            NoPreempt np;
            seen.push_back(got);
            event("obtained " + nm(got));
            if (got == s) break;
        }
    };
    int cycles = 1 + gen(2);
    auto req = [&](Transition t) { return d.ChangeState(t); };
    try {
        for (int c = 0; c < cycles; ++c) {
            req(Transition::InitDevice); expect(State::InitializingDevice);
            req(Transition::CompleteInit); expect(State::Initialized);
            req(Transition::Bind); expect(State::Bound);
            req(Transition::Connect); expect(State::DeviceReady);
            req(Transition::InitTask); expect(State::Ready);
            req(Transition::Run); expect(State::Running);
            nap(gen(20) * ms);
            req(Transition::Stop); expect(State::Ready);
            req(Transition::ResetTask); expect(State::DeviceReady);
            req(Transition::ResetDevice); expect(State::Idle);
        }
        req(Transition::End); expect(State::Exiting);
    } catch (fair::mq::DeviceErrorState&) {
        error = true;
        event("observer was told of the error");
    }
    run.join();
    if (fail_kind == 2) err.join();
    NoPreempt np;
    if (error) SIM_CHECK(announced.back() == State::Error, "invented-state", "the observer was told of an error that did not happen");
    if (announced.back() == State::Error) SIM_CHECK(err_thrown, "error-exception", "the device run call did not report the error");
    if (fail_kind == 0) SIM_CHECK(!error && announced.back() == State::Exiting, "lost-state", "the device did not end");
    // what was obtained by WaitForNextState is the announced history (IDLE at the start is not a change)
    for (size_t i = 0; i < seen.size(); ++i)
        SIM_CHECK(i + 1 < announced.size() && seen[i] == announced[i + 1], "state-order", "state change number " + to_string(i + 1) + " was " + (i + 1 < announced.size() ? nm(announced[i + 1]) : string("none")) + " but the observer obtained " + nm(seen[i]));
}
