// C03: a requested transition ends every blocked transfer and wait
#include "device.h"
using namespace tr;
using namespace dv;
using namespace std;

namespace {
struct D3 : Device
{
    function<void()> body;
    function<void()> pre, post;
    void PreRun() override { if (pre) pre(); }
    void Run() override { body(); }
    void PostRun() override { if (post) post(); }
};
struct Op
{
    int kind = 0; // 0 receive, 1 send, 2 receive parts, 3 send parts, 4 wait
    int timeout = -1;
    string text() const
    {
        static const char* k[] = {"receive", "send", "receive of parts", "send of parts", "wait", "receive (second transport)"};
        return string(k[kind]) + " with timeout " + to_string(timeout);
    }
};
} // namespace

SIM_WORKLOAD(C03, blocked)
{
    bool shm = gen(2);
    bool quiet = gen(3) == 0;
    faults().stall = quiet || gen(2) ? 0 : 0.2;
    faults().stall_max = 50 * ms;
    faults().eintr = quiet || gen(2) ? 0 : 0.3;
    faults().spurious_wakeup = quiet || gen(2) ? 0 : 0.2;
    faults().net_delay_max = 50 * us << gen(8);
    limit_time(4000 * sec);
    clock_steps();
    ProgOptions cfg;
    base_config(cfg, shm ? "shmem" : "zeromq");
    // "in": nothing arrives (or late), "out": nobody takes anything (or late), "lo"/"li": a loop inside of the device
    put(cfg, {"in", "pull", "bind", "ipc://in"});
    put(cfg, {"out", "push", "bind", "ipc://out", "default", 1 + gen(3)});
    string loop = gen(2) ? "inproc://loop" : "ipc://loop";
    put(cfg, {"lo", "push", "bind", loop});
    put(cfg, {"li", "pull", "connect", loop});
    bool second_transport = gen(4) == 0;
    if (second_transport) put(cfg, {"other", "pull", "bind", "ipc://other", shm ? "zeromq" : "shmem"});
    D3 d;
    d.SetConfig(cfg);
    int runs = 1 + gen(3), resets = gen(3) ? 0 : 1;
    ns_t requested = -1, req_stall = 0;   // the request that must end the running state
    string req_what;
    bool open_for_requests = false;       // set once the loop was seen to work
    int in_run = 0;                       // number of the current run
    bool early = false;                   // request right when the state is announced
    int asking = 0; // requests being made right now
    auto make_request = [&](Transition t) {
        ns_t s0 = stall_total();
        { NoPreempt np; ++asking; }
        bool ok = d.ChangeState(t);
        NoPreempt np;
        --asking;
        if (ok) { requested = now(); req_stall = s0; req_what = nm(t); event("requested " + req_what); }
        return ok;
    };
    Transition stop_with = Transition::Stop;
    bool run_error = false;
    auto blocked = [&](Op op, const string& who) {
        ns_t t0 = now(), s0 = stall_total();
        int64_t rc = 0;
        event(who + ": " + op.text());
        auto& f = *d.Transport();
        if (op.kind == 0) { auto m = f.CreateMessage(); rc = d.Receive(m, "in", 0, op.timeout); }
        else if (op.kind == 1) { auto m = f.CreateMessage(100); rc = d.Send(m, "out", 0, op.timeout); }
        else if (op.kind == 2) { fair::mq::Parts p; rc = d.Receive(p, "in", 0, op.timeout); }
        else if (op.kind == 3) { fair::mq::Parts p; p.AddPart(f.CreateMessage(100)); p.AddPart(f.CreateMessage(10)); rc = d.Send(p, "out", 0, op.timeout); }
        else if (op.kind == 5) { fair::mq::MessagePtr m(d.NewMessageFor("other", 0)); rc = d.Receive(m, "other", 0, op.timeout); }
        else rc = d.WaitFor(chrono::milliseconds(op.timeout < 0 ? 1000000 : op.timeout)) ? 0 : (int64_t)TransferCode::interrupted;
        NoPreempt np;
        ns_t el = now() - t0;
        event(who + ": returned " + to_string(rc));
        if (rc == (int64_t)TransferCode::interrupted)
            SIM_CHECK(requested >= 0 || asking || d.NewStatePending() || run_error, "interrupted-without-request", op.text() + " was interrupted although no transition was requested");
        else if (rc == (int64_t)TransferCode::timeout || (op.kind == 4 && rc == 0))
            SIM_CHECK(op.timeout >= 0 && el >= op.timeout * ms, "early-timeout", op.text() + " returned after " + to_string(el / us) + " us");
        else SIM_CHECK(rc >= 0, "transfer-error", op.text() + " failed with code " + to_string(rc));
        if (requested >= 0) {
            ns_t since = now() - max(requested, t0), lim = 150 * ms + 3 * (stall_total() - (requested > t0 ? req_stall : s0));
            SIM_CHECK(since <= lim, "late-interrupt", op.text() + " returned " + to_string(since / us) + " us after the request");
        }
        return rc;
    };
    bool multi_in = gen(2); // shared memory: messages must be received the way they were sent
    auto random_op = [&] { Op o; o.kind = gen(second_transport ? 6 : 5); if (o.kind == 0 && multi_in) o.kind = 2; else if (o.kind == 2 && !multi_in) o.kind = 0; o.timeout = gen(3) ? -1 : gen(2) ? 100000 : gen(300); return o; };
    int helpers = gen(4) == 0 ? 1 + gen(2) : 0; // other threads of the user, one receives, one sends
    Op main_op;
    d.body = [&] {
        int k;
        { NoPreempt np; k = ++in_run; }
        if (!early) { // transfers work in a newly entered state
            for (int i = 0; i < 2; ++i) {
                auto m = d.Transport()->CreateMessage(8 + i);
                ns_t s0 = stall_total();
                auto rc = d.Send(m, "lo", 0, 5000);
                SIM_CHECK(rc == 8 + i, "not-resumed", "run " + to_string(k) + ": a send in the newly entered state returned " + to_string(rc));
                auto r = d.Transport()->CreateMessage();
                rc = d.Receive(r, "li", 0, 5000);
                SIM_CHECK(rc == 8 + i || (rc == (int64_t)TransferCode::timeout && stall_total() - s0 > 1 * sec), "not-resumed", "run " + to_string(k) + ": a receive in the newly entered state returned " + to_string(rc));
            }
        }
        { NoPreempt np; open_for_requests = true; }
        vector<Thread> hs;
        for (int h = 0; h < helpers; ++h)
            hs.push_back(spawn("helper" + to_string(h), [&, h] {
                Op o = random_op();
                if (h == 0) o.kind = main_op.kind == 0 || main_op.kind == 2 ? 1 : multi_in ? 2 : 0;
                else o.kind = 4;
                blocked(o, "helper");
            }, 0));
        int n = 1 + gen(3);
        for (int i = 0; i < n; ++i) {
            bool stop;
            { NoPreempt np; stop = requested >= 0; }
            if (i > 0 && stop) break; // one operation after the request is allowed
            Op o = random_op();
            if (i + 1 == n && o.timeout >= 0 && gen(2)) o.timeout = -1;
            if (i == 0) o = main_op;
            else if (helpers && (o.kind & 1) != (main_op.kind & 1)) o.kind = 4; // sockets are not shared by threads
            if (helpers && main_op.kind == 4) o.kind = 4;
            blocked(o, "run");
        }
        for (auto& h : hs) h.join();
    };
    d.SubscribeToStateChange("w", [&](State s) {
        { NoPreempt np; event("state " + nm(s)); if (s == State::Ready) requested = -1; }
        if (s == State::Running && early) make_request(stop_with);
    });
    Thread run = spawn("device", [&] {
        try { d.RunStateMachine(); } catch (exception& e) { NoPreempt np; run_error = true; event(string("run ended with ") + e.what()); }
    });
    // a peer that shows up late
    Thread peer;
    bool peer_stop = false;
    if (gen(3) == 0) {
        int pid = new_proc("peer");
        peer = spawn("peer", [&] {
            ProgOptions pc;
            base_config(pc, shm ? "shmem" : "zeromq");
            auto f = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "peer", &pc);
            nap(gen(400) * ms);
            {
                Channel o("po", "push", f);
                o.Connect("ipc://in");
                int n = 1 + gen(3);
                for (int i = 0; i < n; ++i) {
                    bool st; { NoPreempt np; st = peer_stop; }
                    if (st) break;
                    auto m = f->CreateMessage(50);
                    if (multi_in) { fair::mq::Parts p; p.AddPart(move(m)); o.Send(p, 100); }
                    else o.Send(m, 100);
                    nap(gen(100) * ms);
                }
                o.GetSocket().SetLinger(0);
            }
        }, pid);
    }
    try {
        auto dead = [&] { NoPreempt np; return run_error; };
        for (int c = 0; c <= resets; ++c) {
            request(d, Transition::InitDevice); d.WaitForState(State::InitializingDevice);
            request(d, Transition::CompleteInit); d.WaitForState(State::Initialized);
            request(d, Transition::Bind); d.WaitForState(State::Bound);
            request(d, Transition::Connect); d.WaitForState(State::DeviceReady);
            request(d, Transition::InitTask); d.WaitForState(State::Ready);
            for (int r = 0; r < runs; ++r) {
                { NoPreempt np; open_for_requests = false; early = gen(5) == 0; main_op = random_op(); main_op.timeout = gen(4) ? -1 : main_op.timeout; requested = -1; }
                bool last = c == resets && r == runs - 1;
                stop_with = last && gen(4) == 0 ? Transition::ErrorFound : Transition::Stop;
                bool impatient = !early && gen(4) == 0; // keeps asking from the moment the state is requested
                if (impatient) { NoPreempt np; early = true; }
                if (impatient) { // no announcement callback in this case
                    request(d, Transition::Run);
                    bool acc = false;
                    for (int i = 0; !acc && i < 100000; ++i) {
                        acc = make_request(stop_with);
                        if (!acc) { bool q; { NoPreempt np; q = requested >= 0; } if (q) acc = true; else if (gen(2)) nap(gen(100) * us); else yield(); }
                    }
                } else {
                    request(d, Transition::Run);
                    if (!early) {
                        while (true) { { NoPreempt np; if (open_for_requests) break; } nap(1 * ms); }
                        nap(gen(3) == 0 ? gen(2000) * us : gen(400) * ms);
                        for (int i = 0; !make_request(stop_with); ++i) {
                            // the run method ended on its own: nothing to interrupt any more
                            if (d.GetCurrentState() != State::Running) break;
                            nap(gen(1000) * us);
                        }
                    }
                }
                if (stop_with == Transition::ErrorFound) break;
                if (!reach(d, State::Ready)) violation("late-interrupt", "the device did not get out of the running state after the request");
            }
            if (stop_with == Transition::ErrorFound) break;
            request(d, Transition::ResetTask); d.WaitForState(State::DeviceReady);
            request(d, Transition::ResetDevice); d.WaitForState(State::Idle);
        }
        (void)dead;
        if (stop_with != Transition::ErrorFound) request(d, Transition::End);
    } catch (fair::mq::DeviceErrorState&) {
        violation("unexpected-error", "the device went to the error state");
    }
    run.join();
    { NoPreempt np; peer_stop = true; }
    if (peer.id >= 0) peer.join();
    if (stop_with != Transition::ErrorFound) SIM_CHECK(!run_error, "unexpected-error", "the device ended with an error");
}
