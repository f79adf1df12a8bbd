// C20: data callbacks
#include "device.h"
#include <deque>
using namespace tr;
using namespace dv;
using namespace std;

namespace {
struct Injected : runtime_error { Injected() : runtime_error("injected") {} };
struct In { string chan; int index; string address, transport; bool multi; };
struct Src { int in; int total; int sent = 0; int got = 0; };
struct Hdr { uint32_t src, seq, part, parts; };
} // namespace

SIM_WORKLOAD(C20, callbacks)
{
    faults().stall = gen(2) ? 0 : 0.1;
    faults().stall_max = 30 * ms;
    faults().spurious_wakeup = gen(2) ? 0 : 0.2;
    faults().eintr = gen(2) ? 0 : 0.2;
    faults().net_delay_max = 20 * us << gen(11);
    limit_time(4000 * sec);
    clock_steps();
    // ---- channels ----------------------------------------------------------------------------------------------------
    string def = gen(2) ? "shmem" : "zeromq";
    int shape = gen(5); // 0, 1: one channel with one subchannel, 2: one channel, 3: several channels, 4: several channels, two transports
    int nch = shape <= 2 ? 1 : 2 + gen(2);
    vector<In> ins;
    ProgOptions cfg;
    base_config(cfg, def);
    for (int c = 0; c < nch; ++c) {
        string t = shape == 4 && (c == 0 || gen(2)) ? (def == "shmem" ? "zeromq" : "shmem") : def;
        bool multi = gen(2);
        int subs = shape <= 1 ? 1 : 1 + gen(3);
        for (int i = 0; i < subs; ++i) {
            ins.push_back({"c" + to_string(c), i, "ipc://c" + to_string(c) + "_" + to_string(i), t, multi});
            put(cfg, {"c" + to_string(c), "pull", "bind", ins.back().address, t, gen(2) ? 1000 : 1 + (int)gen(5)}, i);
        }
    }
    vector<Src> srcs;
    for (size_t i = 0; i < ins.size(); ++i) {
        int n = gen(6) == 0 ? 0 : 1 + gen(2);
        for (int k = 0; k < n; ++k) srcs.push_back({(int)i, gen(3) ? (int)gen(12) : (int)gen(40)});
    }
    // sources with empty messages, told by their position
    vector<bool> empties(srcs.size());
    vector<vector<int>> counts(srcs.size());
    for (size_t k = 0; k < srcs.size(); ++k) {
        int same = 0;
        for (auto& s : srcs) same += s.in == srcs[k].in;
        empties[k] = same == 1 && gen(3) == 0;
    }
    auto hollow = [&](int k, int seq, int part) { return empties[k] && (seq * 31 + part * 17 + k) % 3 == 0; };
    int total = 0;
    for (auto& s : srcs) total += s.total;
    // ---- the device --------------------------------------------------------------------------------------------------
    Device d;
    d.SetConfig(cfg);
    int got = 0, in_cb = 0, rounds_left = gen(4), false_at = gen(2) && total ? (int)gen(total + 1) : -1, throw_at = gen(6) == 0 && total ? (int)gen(total) : -1;
    bool ended = false, threw = false, closing = false;
    int after_request = 0;
    bool requested = false;
    int slow = gen(3) == 0 ? 1 + gen(30) : 0;
    // checks one message; returns the source
    auto look = [&](const In& in, const string& name, int index, vector<fair::mq::Message*> parts) {
        NoPreempt np;
        SIM_CHECK(!parts.empty(), "content", name + ": no part");
        for (size_t p = 0; p < parts.size(); ++p) {
            Hdr h;
            if (parts[p]->GetSize() == 0) {
                int k = -1;
                for (size_t i = 0; i < srcs.size(); ++i) if (empties[i] && ins[srcs[i].in].chan == in.chan && ins[srcs[i].in].index == index) k = i;
                int seq = k < 0 ? -1 : p == 0 ? srcs[k].got : srcs[k].got - 1;
                SIM_CHECK(k >= 0 && seq < (int)counts[k].size() && hollow(k, seq, p), "content", name + ": an empty message in place of another one");
                h = {(uint32_t)k, (uint32_t)seq, (uint32_t)p, (uint32_t)counts[k][seq]};
            } else {
                SIM_CHECK(parts[p]->GetSize() >= sizeof(Hdr), "content", name + ": a message of " + to_string(parts[p]->GetSize()) + " bytes");
                memcpy(&h, parts[p]->GetData(), sizeof h);
                SIM_CHECK(h.src < srcs.size() && !hollow(h.src, h.seq, h.part), "content", name + ": a message that should be empty");
            }
            SIM_CHECK(h.src < srcs.size() && h.part == p && h.parts == parts.size(), "content", name + ": part " + to_string(h.part) + " of " + to_string(h.parts) + " in place of part " + to_string(p) + " of " + to_string(parts.size()));
            auto& s = srcs[h.src];
            SIM_CHECK(ins[s.in].chan == in.chan && ins[s.in].index == index, "wrong-callback", "a message for " + ins[s.in].chan + "[" + to_string(ins[s.in].index) + "] is handed to the callback of " + in.chan + " with index " + to_string(index));
            if (p == 0) {
                SIM_CHECK((int)h.seq == s.got, "order", name + ": message " + to_string(h.seq) + " of source " + to_string(h.src) + " after " + to_string(s.got) + " messages");
                ++s.got;
                ++got;
            }
        }
    };
    auto callback = [&](const In& in, int index, function<void()> take) {
        string name = in.chan + "[" + to_string(index) + "]";
        {
            NoPreempt np;
            event("callback " + name);
            SIM_CHECK(in_cb == 0, "concurrent-callbacks", "the callback for " + name + " is invoked while another one is running");
            SIM_CHECK(!ended, "callback-after-end", "the callback for " + name + " is invoked after a callback returned false");
            if (requested) SIM_CHECK(++after_request <= (int)ins.size(), "callback-after-request", "more than one round of callbacks after the request to leave running");
            in_cb = 1;
        }
        SIM_CHECK(d.GetCurrentState() == State::Running, "callback-not-running", "the callback for " + name + " is invoked in the state " + nm(d.GetCurrentState()));
        take();
        if (slow && gen(3) == 0) nap(gen(slow) * ms);
        bool t = false, r = true;
        {
            NoPreempt np;
            in_cb = 0;
            if (got - 1 == throw_at) { t = threw = true; event("exception in the callback"); count_fault("exception in callback"); }
            else if (got - 1 == false_at || (rounds_left > 0 && gen_p(0.05))) { r = false; ended = true; --rounds_left; event("the callback returns false"); }
        }
        if (t) throw Injected();
        return r;
    };
    for (auto& in : ins)
        if (in.index == 0) {
            if (in.multi) d.OnData(in.chan, [&, in](fair::mq::Parts& p, int index) {
                return callback(in, index, [&] { vector<fair::mq::Message*> v; for (auto& m : p) v.push_back(m.get()); for (auto& m : p) m->GetData(); look(in, in.chan + "[" + to_string(index) + "]", index, v); });
            });
            else d.OnData(in.chan, [&, in](MessagePtr& m, int index) {
                return callback(in, index, [&] { m->GetData(); look(in, in.chan + "[" + to_string(index) + "]", index, {m.get()}); });
            });
        }
    State announced = State::Ok;
    d.SubscribeToStateChange("w", [&](State s) { NoPreempt np; announced = s; event("state " + nm(s)); if (s == State::Running) { ended = false; } });
    bool run_done = false, run_threw = false;
    string what;
    Thread run = spawn("device", [&] {
        try { d.RunStateMachine(); }
        catch (Injected& e) { NoPreempt np; run_threw = true; what = "injected"; }
        catch (exception& e) { NoPreempt np; run_threw = true; what = e.what(); }
        NoPreempt np;
        run_done = true;
        event(run_threw ? "run call ended with " + what : "run call ended");
    });
    // ---- the senders, each a process ---------------------------------------------------------------------------------
    vector<Thread> ts;
    bool all_sent = false;
    for (size_t k = 0; k < srcs.size(); ++k) {
        int pid = new_proc("source" + to_string(k));
        ts.push_back(spawn("source" + to_string(k), [&, k] {
            const In& in = ins[srcs[k].in];
            ProgOptions pc;
            base_config(pc, in.transport);
            if (gen(2)) nap(gen(300) * ms);
            auto f = TransportFactory::CreateTransportFactory(in.transport, "source" + to_string(k), &pc);
            {
                Channel ch("o", "push", f);
                if (gen(2)) ch.GetSocket().SetSndBufSize(1 + gen(5));
                ch.GetSocket().SetLinger(100000);
                ch.Connect(in.address);
                int pace = gen(3) == 0 ? gen(60) : 0;
                for (int i = 0; i < srcs[k].total; ++i) {
                    if (pace) nap(gen(pace) * ms);
                    int n = in.multi ? 1 + gen(3) : 1;
                    fair::mq::Parts p;
                    { NoPreempt np; counts[k].push_back(n); }
                    for (int j = 0; j < n; ++j) {
                        if (hollow(k, i, j)) { p.AddPart(gen(2) ? f->CreateMessage() : f->CreateMessage(0)); continue; }
                        auto m = f->CreateMessage(sizeof(Hdr) + gen(50));
                        Hdr h{(uint32_t)k, (uint32_t)i, (uint32_t)j, (uint32_t)n};
                        memcpy(m->GetData(), &h, sizeof h);
                        p.AddPart(move(m));
                    }
                    int64_t rc;
                    bool stop;
                    do {
                        if (in.multi) rc = ch.Send(p, 200);
                        else rc = ch.Send(p.At(0), 200);
                        NoPreempt np;
                        stop = closing;
                    } while (rc < 0 && !stop);
                    if (stop) { ch.GetSocket().SetLinger(0); break; }
                }
                bool keep = true;
                while (keep) { { NoPreempt np; keep = !closing && !all_sent; } if (keep) nap(20 * ms); } // shared memory stays as long as its sender
                bool c;
                { NoPreempt np; c = closing; }
                if (c) ch.GetSocket().SetLinger(0);
            }
        }, pid));
    }
    auto all = [&] { NoPreempt np; return got == total; };
    auto over = [&] { NoPreempt np; return run_done; };
    try {
        request(d, Transition::InitDevice, over); d.WaitForState(State::InitializingDevice);
        request(d, Transition::CompleteInit, over); d.WaitForState(State::Initialized);
        request(d, Transition::Bind, over); d.WaitForState(State::Bound);
        request(d, Transition::Connect, over); d.WaitForState(State::DeviceReady);
        request(d, Transition::InitTask, over); d.WaitForState(State::Ready);
        int stops = gen(4);
        while (true) {
            { NoPreempt np; requested = false; after_request = 0; }
            if (!request(d, Transition::Run, over)) break;
            bool stop = stops > 0 && gen(2);
            ns_t until = now() + (stop ? gen(400) * ms : INT64_MAX / 4);
            if (stop) --stops;
            ns_t t0 = now(), s0 = stall_total();
            int last = got;
            bool left = false;
            while (!all() && now() < until && !over()) {
                if (!d.NewStatePending() && d.GetCurrentState() != State::Running) { // left on its own
                    bool why;
                    { NoPreempt np; why = ended || threw; }
                    SIM_CHECK(why, "left-running", "the device left running although no callback returned false");
                    left = true;
                    break;
                }
                { NoPreempt np; if (got != last) { last = got; t0 = now(); s0 = stall_total(); } }
                SIM_CHECK(now() - t0 < 60 * sec + 5 * (stall_total() - s0), "not-delivered", to_string(total - got) + " messages are not handed to their callbacks");
                nap(3 * ms);
            }
            if (over()) break;
            bool fin = all();
            if (!left) {
                ns_t s1 = stall_total(), t1 = now();
                bool acc = false;
                while (!over()) {
                    acc = d.ChangeState(Transition::Stop);
                    if (acc) { NoPreempt np; requested = true; event("stop requested"); t1 = now(); break; }
                    if (!d.NewStatePending() && d.GetCurrentState() != State::Running) break; // left on its own
                    nap(1 * ms);
                }
                while (!over() && (d.NewStatePending() || d.GetCurrentState() != State::Ready)) {
                    SIM_CHECK(now() - t1 < 1500 * ms + 4 * (stall_total() - s1), "late-stop", "the device did not leave running in time");
                    nap(1 * ms);
                }
            } else { // to Ready, or into the end of the run after an exception
                ns_t s1 = stall_total(), t1 = now();
                while (!over() && (d.NewStatePending() || d.GetCurrentState() != State::Ready)) {
                    SIM_CHECK(now() - t1 < 60 * sec + 4 * (stall_total() - s1), "late-stop", "the device did not leave running");
                    nap(1 * ms);
                }
            }
            if (over()) break;
            if (fin) {
                nap(gen(2) ? 0 : gen(300) * ms);
                if (gen(2)) { NoPreempt np; all_sent = true; }
                break;
            }
        }
        if (!over()) { request(d, Transition::ResetTask, over); d.WaitForState(State::DeviceReady); }
        if (!over()) { request(d, Transition::ResetDevice, over); d.WaitForState(State::Idle); }
        if (!over()) request(d, Transition::End, over);
    } catch (fair::mq::DeviceErrorState&) {}
    run.join();
    { NoPreempt np; closing = true; }
    for (auto& t : ts) t.join();
    if (threw) SIM_CHECK(run_threw && what.find("injected") != string::npos && d.GetCurrentState() == State::Error, "exception-swallowed", "an exception in a callback: the run call ended " + (run_threw ? "with " + what : string("normally")) + ", state " + nm(d.GetCurrentState()));
    else {
        SIM_CHECK(!run_threw, "unexpected-error", "the run call ended with " + what);
        SIM_CHECK(got == total, "lost", to_string(got) + " of " + to_string(total) + " messages were handed to the callbacks");
    }
}
