// C01: device state history always follows the documented state graph
// C02: an accepted transition or error request is always carried out
#include <sim.h>
#include <fairmq/StateMachine.h>
#include <memory>
#include <deque>
#include <map>
#include <set>
#include <algorithm>

using namespace sim;
using namespace std;
using fair::mq::State;
using fair::mq::Transition;

namespace {
const map<pair<State, Transition>, State>& graph()
{
    using S = State; using T = Transition;
    static const map<pair<State, Transition>, State> g = {
        {{S::Idle, T::End}, S::Exiting}, {{S::Idle, T::InitDevice}, S::InitializingDevice},
        {{S::InitializingDevice, T::CompleteInit}, S::Initialized},
        {{S::Initialized, T::Bind}, S::Binding}, {{S::Initialized, T::ResetDevice}, S::ResettingDevice},
        {{S::Binding, T::Auto}, S::Bound},
        {{S::Bound, T::Connect}, S::Connecting}, {{S::Bound, T::ResetDevice}, S::ResettingDevice},
        {{S::Connecting, T::Auto}, S::DeviceReady},
        {{S::DeviceReady, T::InitTask}, S::InitializingTask}, {{S::DeviceReady, T::ResetDevice}, S::ResettingDevice},
        {{S::InitializingTask, T::Auto}, S::Ready},
        {{S::Ready, T::Run}, S::Running}, {{S::Ready, T::ResetTask}, S::ResettingTask},
        {{S::Running, T::Stop}, S::Ready},
        {{S::ResettingTask, T::Auto}, S::DeviceReady}, {{S::ResettingDevice, T::Auto}, S::Idle}};
    return g;
}
string nm(State s) { return fair::mq::GetStateName(s); }
string nm(Transition t) { return fair::mq::GetTransitionName(t); }
bool legal(State s, Transition t) { return graph().count({s, t}) != 0; }

struct Req { int id; Transition t; uint64_t b, e = 0; bool ok = false; ns_t tb = 0, te = 0; };
struct Ann { State s; uint64_t tick; };
struct Sub { string key; uint64_t sb = 0, se = 0, ub = 0, ue = 0; vector<Ann> seen; };

struct Injected : runtime_error { Injected() : runtime_error("injected") {} };

struct World
{
    fair::mq::StateMachine sm;
    uint64_t tick = 0;
    deque<Req> reqs;
    deque<Sub> subs;
    vector<Ann> handled, prepared;      // by the state handler / state preparation
    vector<pair<Transition, uint64_t>> trans;
    uint64_t done_tick = 0;
    bool processing_done = false, error_thrown = false, other_thrown = false;
    bool auto_steps = true;
    int throw_at = -1;                  // n-th handler or subscriber call throws
    int throw_where = 0;                // 0 handler, 1 subscriber, 2 preparation
    int calls = 0;
    bool threw = false;
    uint64_t threw_tick = 0;
    bool cb_requests = false;
    int cb_budget = 6;
    function<void(State)> in_handler;

    bool request(Transition t)
    {
        size_t i;
        { NoPreempt np; i = reqs.size(); reqs.push_back({(int)i, t, ++tick}); reqs[i].tb = now(); event("request " + to_string(i) + " " + nm(t)); }
        bool ok = sm.ChangeState(t);
        NoPreempt np;
        reqs[i].e = ++tick;
        reqs[i].te = now();
        reqs[i].ok = ok;
        event("request " + to_string(i) + " " + nm(t) + (ok ? " accepted" : " refused"));
        return ok;
    }
    void maybe_throw(int where)
    {
        {
            NoPreempt np;
            if (where != throw_where || threw || throw_at < 0 || calls++ != throw_at) return;
            threw = true;
            threw_tick = ++tick;
            event(string("injected exception in ") + (where == 0 ? "state handler" : where == 1 ? "subscriber" : "state preparation"));
            count_fault("handler exception");
        }
        throw Injected();
    }
    void announced(size_t k, State s)
    {
        {
            NoPreempt np;
            subs[k].seen.push_back({s, ++tick});
            event("subscriber " + subs[k].key + " told " + nm(s));
            if (!threw && s != State::Error)
                SIM_CHECK(sm.GetCurrentState() == s, "state-query", "current state is " + nm(sm.GetCurrentState()) + " while " + nm(s) + " is being announced");
        }
        if (s != State::Error) maybe_throw(1);
        if (cb_requests && k == 0) {
            bool go;
            { NoPreempt np; go = cb_budget > 0 && gen_p(0.3); if (go) --cb_budget; }
            if (go) { probe("request from a state-change callback"); random_request(); }
        }
    }
    void subscribe(const string& key)
    {
        size_t k;
        { NoPreempt np; k = subs.size(); subs.push_back({key, ++tick}); }
        sm.SubscribeToStateChange(key, [this, k](State s) { announced(k, s); });
        NoPreempt np;
        subs[k].se = ++tick;
    }
    void unsubscribe(size_t k)
    {
        { NoPreempt np; subs[k].ub = ++tick; }
        sm.UnsubscribeFromStateChange(subs[k].key);
        NoPreempt np;
        subs[k].ue = ++tick;
    }
    void random_request()
    {
        static const Transition all[] = {Transition::Auto, Transition::InitDevice, Transition::CompleteInit, Transition::Bind, Transition::Connect, Transition::InitTask,
                                         Transition::Run, Transition::Stop, Transition::ResetTask, Transition::ResetDevice, Transition::End};
        Transition t;
        if (gen_p(0.3)) t = all[gen(11)];
        else {
            State s = sm.GetCurrentState();
            vector<Transition> c;
            for (auto& [k, v] : graph()) if (k.first == s && k.second != Transition::Auto && k.second != Transition::End) c.push_back(k.second);
            if (c.empty()) t = all[gen(11)];
            else t = c[gen(c.size())];
        }
        request(t);
    }
    void start()
    {
        sm.PrepareState([this](State s) {
            { NoPreempt np; prepared.push_back({s, ++tick}); }
            maybe_throw(2);
        });
        sm.HandleStates([this](State s) {
            { NoPreempt np; handled.push_back({s, ++tick}); event("handling " + nm(s)); }
            if (s != State::Error) maybe_throw(0);
            if (in_handler) in_handler(s);
            if (auto_steps && (s == State::Binding || s == State::Connecting || s == State::InitializingTask || s == State::ResettingTask || s == State::ResettingDevice)) {
                if (!sm.NewStatePending()) request(Transition::Auto);
            }
        });
        sm.SubscribeToNewTransition("t", [this](Transition t) { NoPreempt np; trans.push_back({t, ++tick}); });
        sm.Start();
    }
    void process()
    {
        try {
            sm.ProcessWork();
            event("ProcessWork returned");
        } catch (fair::mq::StateMachine::ErrorStateException&) {
            error_thrown = true;
            event("ProcessWork threw ErrorStateException");
        } catch (Injected&) {
            other_thrown = true;
            event("ProcessWork threw the injected exception");
        }
        NoPreempt np;
        processing_done = true;
        done_tick = ++tick;
    }
    bool error_requested(uint64_t before)
    {
        for (auto& r : reqs) if (r.t == Transition::ErrorFound && r.b < before) return true;
        return threw && threw_tick < before;
    }
    void verify()
    {
        NoPreempt np;
        // --- the announced history is a path of the graph -----------------------------------------------------------
        auto& h = subs[0].seen; // permanent subscriber
        SIM_CHECK(!h.empty() && h[0].s == State::Idle, "history", "the first announced state is not IDLE");
        vector<Transition> steps;
        for (size_t i = 1; i < h.size(); ++i) {
            SIM_CHECK(h[i - 1].s != State::Error && (h[i - 1].s != State::Exiting || threw), "state-after-end", nm(h[i].s) + " announced after " + nm(h[i - 1].s));
            bool found = false;
            if (h[i].s == State::Error) { steps.push_back(Transition::ErrorFound); found = true; }
            for (auto& [k, v] : graph()) if (!found && k.first == h[i - 1].s && v == h[i].s) { steps.push_back(k.second); found = true; }
            SIM_CHECK(found, "history", "announced " + nm(h[i].s) + " after " + nm(h[i - 1].s));
        }
        // --- each step is one accepted request, in order of acceptance ---------------------------------------------------
        vector<bool> used(reqs.size());
        vector<int> match(h.size(), -1);
        for (size_t i = 1; i < h.size(); ++i) {
            int best = -1;
            for (auto& r : reqs) {
                if (used[r.id] || !r.ok || r.t != steps[i - 1] || r.b > h[i].tick) continue;
                if (i > 1 && match[i - 1] >= 0 && r.e && r.e < reqs[match[i - 1]].b) continue;
                if (best < 0 || r.e < reqs[best].e) best = r.id;
            }
            if (best < 0 && h[i].s == State::Error && threw) continue;
            SIM_CHECK(best >= 0, "invented-transition", "the change to " + nm(h[i].s) + " was not requested by any accepted request");
            used[best] = true;
            match[i] = best;
        }
        bool in_error = h.back().s == State::Error;
        int leftover = 0;
        for (auto& r : reqs) {
            if (!r.ok || used[r.id]) continue;
            if (r.t == Transition::ErrorFound) continue; // already in, or going to, the Error state
            bool overtaken = in_error && error_requested(UINT64_MAX);
            SIM_CHECK(overtaken && ++leftover <= (threw && throw_where == 2 ? 2 : 1), "lost-transition", "accepted request " + to_string(r.id) + " (" + nm(r.t) + ") was never carried out");
        }
        // --- legal requests with nothing pending are never refused ---------------------------------------------------------
        for (auto& r : reqs) {
            if (r.ok || !r.e) continue;
            if (r.t == Transition::ErrorFound) {
                bool other = threw && threw_tick < r.e;
                for (auto& o : reqs) if (o.id != r.id && o.t == Transition::ErrorFound && o.b < r.e) other = true;
                SIM_CHECK(other, "refused-error", "the error request " + to_string(r.id) + " was refused outside the Error state");
                continue;
            }
            size_t i = 0;
            bool definite = false;
            for (size_t k = 0; k < h.size(); ++k) if (h[k].tick < r.b) { i = k; definite = true; }
            if (!definite || h[i].s == State::Error || !legal(h[i].s, r.t)) continue;
            bool disturbed = threw && threw_tick < r.e;
            for (auto& o : reqs) {
                if (o.id == r.id || !o.ok || o.b > r.e) continue;
                bool consumed = false; // taken over no later than the announcement of state i
                for (size_t k = 1; k <= i; ++k) if (match[k] == o.id) consumed = true;
                if (!consumed) disturbed = true;
            }
            SIM_CHECK(disturbed, "refused-legal", "request " + to_string(r.id) + " (" + nm(r.t) + ") was refused in state " + nm(h[i].s) + " with nothing pending");
        }
        // --- accepted requests were legal where they were accepted (covered by the path check); nothing is accepted after Error
        uint64_t err = 0;
        for (auto& r : reqs) if (r.t == Transition::ErrorFound && r.ok && (!err || r.e < err)) err = r.e;
        if (!err && (other_thrown || error_thrown)) err = done_tick;
        for (auto& r : reqs)
            if (err && r.b > err && r.t != Transition::ErrorFound) SIM_CHECK(!r.ok, "accepted-after-error", "request " + to_string(r.id) + " (" + nm(r.t) + ") reported success after the Error state had been requested");
        // --- other subscribers saw the same history while subscribed --------------------------------------------------------
        for (size_t k = 1; k < subs.size(); ++k) {
            auto& s = subs[k];
            size_t j = 0;
            for (size_t i = 0; i < h.size(); ++i) {
                // announcements of one state to several subscribers lie between the neighbouring ones of subscriber 0
                uint64_t lo = i ? h[i - 1].tick : 0, hi = i + 1 < h.size() ? h[i + 1].tick : UINT64_MAX;
                bool must = s.se && s.se < lo && (!s.ub || s.ub > hi);
                bool must_exact = must && !(threw && throw_where == 1);
                bool mustnot = s.sb > hi || (s.ue && s.ue < lo);
                bool have = j < s.seen.size() && s.seen[j].s == h[i].s && s.seen[j].tick > lo && s.seen[j].tick < hi;
                if (have) { ++j; SIM_CHECK(!mustnot, "told-after-unsubscribe", "subscriber " + s.key + " was told " + nm(h[i].s) + " although it was not subscribed"); }
                else SIM_CHECK(!must_exact, "subscriber-missed", "subscriber " + s.key + " was not told of " + nm(h[i].s));
            }
            if (!(threw && throw_where == 1))
                SIM_CHECK(j == s.seen.size(), "subscriber-extra", "subscriber " + s.key + " was told of " + (j < s.seen.size() ? nm(s.seen[j].s) : "?") + " that others were not told of, or twice");
        }
        // --- the handler saw the same states, once each ---------------------------------------------------------------------
        size_t j = 0;
        for (size_t i = 1; i < h.size(); ++i) {
            if (j < handled.size() && handled[j].s == h[i].s && handled[j].tick > h[i].tick) { ++j; continue; }
            if (threw && throw_where && i + 1 < h.size() && h[i + 1].s == State::Error) continue; // a subscriber or the preparation threw
            SIM_CHECK(h[i].s == State::Error && threw, "handler-missed", "no state handling for " + nm(h[i].s));
        }
        SIM_CHECK(j == handled.size() || (threw && throw_where == 1), "handler-extra", "a state was handled twice or without having been announced");
    }
};
struct Reads { State s; uint64_t b, e; };
} // namespace

SIM_WORKLOAD(C01, requests)
{
    World w;
    faults().stall = gen(3) ? 0 : 0.2;
    faults().stall_max = 50 * ms;
    faults().spurious_wakeup = gen(2) ? 0.2 : 0;
    w.cb_requests = gen(2);
    bool with_error = gen(3) == 0, dynamic = gen(2);
    limit_time(600 * sec);
    clock_steps();
    w.subscribe("permanent");
    if (gen(2)) w.subscribe("second");
    if (gen(2)) w.subscribe("5prio");
    int threads = 1 + gen(4), nops = 3 + gen(12);
    w.start();
    vector<Reads> reads;
    Thread p = spawn("process", [&] { w.process(); });
    vector<Thread> ths;
    for (int i = 0; i < threads; ++i)
        ths.push_back(spawn("requester" + to_string(i), [&] {
            for (int k = 0; k < nops; ++k) {
                if (with_error && gen_p(0.05)) w.request(Transition::ErrorFound);
                else w.random_request();
                if (gen_p(0.3)) nap(gen(3) * ms); else if (gen_p(0.2)) sim::yield();
            }
        }));
    if (gen(2))
        ths.push_back(spawn("reader", [&] {
            for (int k = 0; k < 10; ++k) {
                Reads r;
                { NoPreempt np; r.b = ++w.tick; }
                r.s = w.sm.GetCurrentState();
                { NoPreempt np; r.e = ++w.tick; reads.push_back(r); }
                nap(gen(3) * ms);
            }
        }));
    if (dynamic)
        ths.push_back(spawn("subscriber", [&] {
            for (int k = 0; k < 3; ++k) {
                size_t n;
                string key = "dyn" + to_string(k % 2);
                w.subscribe(key);
                { NoPreempt np; n = w.subs.size() - 1; }
                nap(gen(6) * ms);
                w.unsubscribe(n);
            }
        }));
    for (auto& t : ths) t.join();
    nap(2 * sec); // quiescence: everything accepted is taken over
    State cur = w.sm.GetCurrentState();
    if (!w.processing_done) {
        NoPreempt np;
        SIM_CHECK(!w.sm.NewStatePending(), "pending-flag", "a transition is still pending in a quiescent state machine");
        SIM_CHECK(cur == w.subs[0].seen.back().s, "state-query", "current state is " + nm(cur) + " but " + nm(w.subs[0].seen.back().s) + " was announced last");
    }
    // the pending flag follows accepted requests when nobody processes: drive to the end
    if (!w.processing_done) w.request(Transition::ErrorFound);
    p.join();
    SIM_CHECK(w.error_thrown == (w.subs[0].seen.back().s == State::Error), "error-exception", "processing ended without reporting the Error state");
    w.verify();
    for (auto& r : reads) {
        bool ok = false;
        auto& h = w.subs[0].seen;
        for (size_t i = 0; i < h.size() && !ok; ++i) {
            uint64_t from = i ? h[i - 1].tick : 0;                                 // taken over after the previous announcement
            uint64_t to = i + 1 < h.size() ? h[i + 1].tick : UINT64_MAX;           // the next one is taken over before its announcement
            ok = r.s == h[i].s && from < r.e && to > r.b;
        }
        SIM_CHECK(ok, "state-query", "state query returned " + nm(r.s) + " which was not current then");
    }
}

// C02: waiting threads, errors at any moment, exceptions in handlers and subscribers
SIM_WORKLOAD(C02, errors)
{
    World w;
    faults().stall = gen(3) ? 0 : 0.2;
    faults().stall_max = 50 * ms;
    faults().spurious_wakeup = gen(2) ? 0.2 : 0;
    limit_time(600 * sec);
    clock_steps();
    int mode = gen(4); // 0: error request, 1: handler throws, 2: subscriber throws, 3: preparation throws
    if (mode) { w.throw_where = mode - 1; w.throw_at = gen(14); }
    w.subscribe("permanent");
    w.subscribe("second");
    int after = gen(3);
    w.cb_requests = gen(2);
    w.start();
    Thread waiter; // whatever happens first, a request or an error, releases it
    bool waiting = gen(2) && faults().stall == 0;
    if (waiting) waiter = spawn("waiter", [&] { w.sm.WaitForPendingState(); event("waiter released"); });
    if (waiting) nap(ms); // without stalls it sleeps by now
    Thread p = spawn("process", [&] { w.process(); });
    vector<Thread> ths;
    int threads = 1 + gen(3), nops = 2 + gen(10);
    for (int i = 0; i < threads; ++i)
        ths.push_back(spawn("requester" + to_string(i), [&] {
            for (int k = 0; k < nops; ++k) { w.random_request(); if (gen_p(0.3)) nap(gen(3) * ms); }
        }));
    if (mode == 0) {
        int n = 1 + gen(2);
        for (int i = 0; i < n; ++i)
            ths.push_back(spawn("error" + to_string(i), [&] {
                nap(gen(20) * ms);
                w.request(Transition::ErrorFound);
                for (int k = 0; k < after; ++k) w.random_request();
            }));
    }
    for (auto& t : ths) t.join();
    nap(2 * sec);
    if (mode == 0 || w.threw) {
        SIM_CHECK(w.processing_done, "error-not-processed", "an error was requested or an exception thrown but state processing has not ended");
        SIM_CHECK(w.sm.GetCurrentState() == State::Error || w.subs[0].seen.back().s == State::Exiting, "error-not-reached", "state is " + nm(w.sm.GetCurrentState()) + " after an error");
        if (w.subs[0].seen.back().s != State::Exiting) {
            if (w.threw) SIM_CHECK(w.other_thrown || w.error_thrown, "error-exception", "the exception was swallowed");
            else SIM_CHECK(w.error_thrown, "error-exception", "processing ended without ErrorStateException");
            for (auto& s : w.subs) SIM_CHECK(!s.seen.empty() && s.seen.back().s == State::Error, "error-not-announced", "subscriber " + s.key + " was not told of the Error state");
        }
        for (int k = 0; k < after; ++k) w.random_request();
        nap(sec);
        if (w.subs[0].seen.back().s == State::Error)
            SIM_CHECK(w.sm.GetCurrentState() == State::Error, "left-error", "the Error state was left");
    } else {
        if (!w.processing_done) w.request(Transition::ErrorFound);
    }
    if (waiting) waiter.join();
    p.join();
    w.verify();
}

SIM_WORKLOAD(C02, waiting)
{
    World w;
    faults().stall = gen(3) ? 0 : 0.2;
    faults().stall_max = 50 * ms;
    faults().spurious_wakeup = gen(2) ? 0.3 : 0;
    limit_time(600 * sec);
    clock_steps();
    w.subscribe("permanent");
    struct Wait { int thr; bool timed; int ms_; uint64_t b, e = 0; ns_t tb, te = 0, stall; bool res = true; };
    deque<Wait> waits;
    int threads = 1 + gen(4);
    bool in_handler = gen(2);
    int kind = gen(3);
    auto wait_op = [&](int thr, bool timed, int d) {
        size_t i;
        { NoPreempt np; i = waits.size(); waits.push_back({thr, timed, d, ++w.tick, 0, now(), 0, stall_total()}); event("wait " + to_string(i) + (timed ? " for " + to_string(d) + " ms" : "")); }
        bool r = true;
        if (timed) r = w.sm.WaitForPendingStateFor(d); else w.sm.WaitForPendingState();
        NoPreempt np;
        auto& x = waits[i];
        x.e = ++w.tick; x.te = now(); x.res = r; x.stall = stall_total() - x.stall;
        event("wait " + to_string(i) + (r ? " woken" : " timed out"));
    };
    if (in_handler) // the handler itself waits, as user code does
        w.in_handler = [&](State s) {
            if (s == State::InitializingDevice || s == State::Running) { if (kind == 0) wait_op(-1, false, 0); else if (kind == 1) wait_op(-1, true, gen(30)); else while (!w.sm.NewStatePending()) wait_op(-1, true, 1 + gen(10)); }
        };
    w.start();
    Thread p = spawn("process", [&] { w.process(); });
    vector<Thread> ths;
    int running = threads;
    for (int i = 0; i < threads; ++i)
        ths.push_back(spawn("waiter" + to_string(i), [&, i] {
            int n = 1 + gen(3);
            for (int k = 0; k < n; ++k) {
                bool timed = gen(3);
                wait_op(i, timed, gen(60));
                if (gen_p(0.3)) nap(gen(3) * ms);
            }
            NoPreempt np;
            --running;
        }));
    int nreq = 1 + gen(8);
    ths.push_back(spawn("requester", [&] { for (int k = 0; k < nreq; ++k) { nap(gen(40) * ms); w.random_request(); } }));
    // unbounded waits only end with a request: keep requesting until everybody is out
    while (true) {
        bool done;
        { NoPreempt np; done = running == 0; }
        if (done) break;
        nap(200 * ms);
        bool any;
        { NoPreempt np; any = false; for (auto& x : waits) if (!x.e && !x.timed) any = true; }
        if (any) w.random_request();
        if (w.processing_done) break;
    }
    ths.back().join();
    nap(sec);
    w.request(Transition::ErrorFound); // also releases waiters when processing has ended
    for (auto& t : ths) t.join(); // a waiter that is not woken shows up as a deadlock
    p.join();
    w.verify();
    for (auto& x : waits) {
        // a request accepted entirely within the wait must have ended it; a wait that found none returns false in time
        ns_t el = x.te - x.tb;
        if (x.timed && !x.res) {
            SIM_CHECK(el >= x.ms_ * ms, "early-timeout", "a wait of " + to_string(x.ms_) + " ms gave up after " + to_string(el / us) + " us");
        }
        if (x.timed) SIM_CHECK(el <= x.ms_ * ms + 10 * ms + x.stall, "late-timeout", "a wait of " + to_string(x.ms_) + " ms lasted " + to_string(el / us) + " us");
        bool possible = false, must = false;
        for (auto& r : w.reqs) {
            if (!r.ok) continue;
            if (r.b < x.e) {
                // pending at some time within the wait: not taken over (announced) before the wait began
                bool consumed = false;
                for (size_t k = 1; k < w.subs[0].seen.size(); ++k) (void)k;
                if (r.e > x.b) possible = true;
                else if (!consumed) possible = true; // taken over later: cannot be excluded
            }
            // well inside the wait (the waiter certainly sleeps by then, its time is not up)
            if (x.stall == 0 && r.tb >= x.tb + ms && r.te + ms < x.tb + x.ms_ * ms && x.timed && !x.res) must = true;
        }
        if (x.res) SIM_CHECK(possible, "invented-pending", "a wait for a pending state returned although nothing had been requested");
        if (must) SIM_CHECK(x.res, "missed-pending", "a timed wait of thread " + to_string(x.thr) + " timed out although a request was accepted during the wait");
    }
}
