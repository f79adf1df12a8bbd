// C22: the stock forwarding devices conserve messages
#include "device.h"
#include <fairmq/devices/Merger.h>
#include <fairmq/devices/Multiplier.h>
#include <fairmq/devices/Proxy.h>
#include <fairmq/devices/Splitter.h>
using namespace tr;
using namespace dv;
using namespace std;

namespace {
struct Head { uint32_t in, seq, part, parts, size; };
enum Kind { PROXY, SPLITTER, MERGER, MULTIPLIER };
struct Out { string chan, transport, address; int index; bool bind; vector<set<int>> seen; vector<int> last; vector<pair<int, int>> order; };
unsigned char byte_of(uint32_t in, uint32_t seq, uint32_t part, size_t i) { return (unsigned char)(in * 77 + seq * 31 + part * 13 + i * 7 + (i >> 8)); }
} // namespace

SIM_WORKLOAD(C22, forward)
{
    Kind kind = (Kind)gen(4);
    bool multi = gen(2);
    faults().stall = gen(2) ? 0 : 0.1;
    faults().stall_max = 30 * ms;
    faults().spurious_wakeup = gen(2) ? 0 : 0.2;
    faults().net_delay_max = 20 * us << gen(10);
    limit_time(8000 * sec);
    clock_steps();
    const char* names[] = {"zeromq", "shmem"};
    string def = names[gen(2)];
    bool mixed = gen(3) == 0;
    string in_tr = mixed ? names[gen(2)] : def;
    int n_in = kind == PROXY ? 1 : 1 + gen(3);
    int n_chan = kind == MULTIPLIER ? 1 + gen(3) : 1;
    bool may_block = gen(2);
    faults().connect_delay_max = gen(2) ? 0 : 20 * ms << gen(4);
    int total_each = 1 + gen(gen(3) ? 12 : 40);
    vector<Out> outs;
    for (int c = 0; c < n_chan; ++c) {
        string t = mixed ? names[gen(2)] : def;
        int n = kind == PROXY || kind == MERGER ? 1 : 1 + gen(3);
        for (int i = 0; i < n; ++i) {
            Out o{"out" + to_string(c), t, "", i, false, vector<set<int>>(n_in), vector<int>(n_in, -1), {}};
            o.address = (gen(2) ? "ipc://o" : "tcp://127.0.0.1:70") + string(c ? "" : "0") + to_string(10 * c + i);
            o.bind = may_block && gen(2);
            outs.push_back(o);
        }
    }
    unique_ptr<Device> dev;
    ProgOptions cfg;
    base_config(cfg, def);
    cfg.SetProperty<bool>("multipart", multi);
    cfg.SetProperty<string>("in-channel", "in");
    if (kind == MULTIPLIER) { vector<string> v; for (int c = 0; c < n_chan; ++c) v.push_back("out" + to_string(c)); cfg.SetProperty<vector<string>>("out-channel", v); }
    else cfg.SetProperty<string>("out-channel", "out0");
    vector<string> in_addr;
    vector<bool> in_bind;
    int in_hwm = gen(2) ? 1000 : 1 + gen(4);
    for (int i = 0; i < n_in; ++i) {
        in_addr.push_back((gen(2) ? "ipc://i" : "tcp://127.0.0.1:600") + to_string(i));
        in_bind.push_back(gen(2));
        put(cfg, {"in", "pull", in_bind[i] ? "bind" : "connect", in_addr[i], in_tr, in_hwm}, i);
    }
    for (auto& o : outs) put(cfg, {o.chan, "push", o.bind ? "bind" : "connect", o.address, o.transport, may_block ? 1 + (int)gen(4) : 100000}, o.index);
    bool closing = false, all_sent = false, lossless = !may_block;
    vector<int> handed(n_in);
    int stops_done = 0, resets_done = 0, received = 0;
    // ---- the sources ---------------------------------------------------------------------------------------------------
    vector<Thread> ts;
    for (int k = 0; k < n_in; ++k) {
        int pid = new_proc("source" + to_string(k));
        ts.push_back(spawn("source" + to_string(k), [&, k] {
            ProgOptions pc;
            base_config(pc, in_tr);
            if (gen(2)) nap(gen(300) * ms);
            auto f = TransportFactory::CreateTransportFactory(in_tr, "source" + to_string(k), &pc);
            {
                Channel ch("o", "push", f);
                if (gen(2)) ch.GetSocket().SetSndBufSize(1 + gen(5));
                ch.GetSocket().SetLinger(100000);
                in_bind[k] ? ch.Connect(in_addr[k]) : ch.Bind(in_addr[k]);
                int pace = gen(3) == 0 ? gen(60) : 0;
                for (int i = 0; i < total_each; ++i) {
                    if (pace) nap(gen(pace) * ms);
                    int n = multi ? 1 + gen(4) : 1;
                    fair::mq::Parts p;
                    for (int j = 0; j < n; ++j) {
                        size_t extra = gen(8) == 0 ? gen(6000) : gen(60);
                        auto m = f->CreateMessage(sizeof(Head) + extra);
                        void* d = m->GetData();
                        NoPreempt np;
                        Head h{(uint32_t)k, (uint32_t)i, (uint32_t)j, (uint32_t)n, (uint32_t)extra};
                        memcpy(d, &h, sizeof h);
                        for (size_t b = 0; b < extra; ++b) ((unsigned char*)d)[sizeof h + b] = byte_of(k, i, j, b);
                        p.AddPart(move(m));
                    }
                    int64_t rc;
                    bool stop;
                    do {
                        rc = multi ? ch.Send(p, 200) : ch.Send(p.At(0), 200);
                        NoPreempt np;
                        stop = closing;
                    } while (rc < 0 && !stop);
                    if (stop) break;
                    NoPreempt np;
                    ++handed[k];
                }
                bool keep = true;
                while (keep) { { NoPreempt np; keep = !closing && !all_sent; } if (keep) nap(20 * ms); } // shared memory stays as long as its sender
                ch.GetSocket().SetLinger(0);
            }
        }, pid));
    }
    // ---- the sinks -----------------------------------------------------------------------------------------------------
    for (size_t k = 0; k < outs.size(); ++k) {
        int pid = new_proc("sink" + to_string(k));
        ts.push_back(spawn("sink" + to_string(k), [&, k] {
            auto& o = outs[k];
            ProgOptions pc;
            base_config(pc, o.transport);
            if (gen(2)) nap(gen(300) * ms);
            auto f = TransportFactory::CreateTransportFactory(o.transport, "sink" + to_string(k), &pc);
            {
                Channel ch("i", "pull", f);
                if (gen(2)) ch.GetSocket().SetRcvBufSize(1 + gen(5));
                o.bind ? ch.Connect(o.address) : ch.Bind(o.address);
                int pace = may_block && gen(2) ? gen(300) : 0;
                bool go = true;
                while (go) {
                    if (pace && gen(3) == 0) nap(gen(pace) * ms);
                    fair::mq::Parts p;
                    int64_t rc;
                    if (multi) rc = ch.Receive(p, 100);
                    else { auto m = f->CreateMessage(); rc = ch.Receive(m, 100); p.AddPart(move(m)); }
                    if (rc >= 0) {
                        vector<pair<const unsigned char*, size_t>> v;
                        for (auto& m : p) v.emplace_back((const unsigned char*)m->GetData(), m->GetSize());
                        NoPreempt np;
                        string name = o.chan + "[" + to_string(o.index) + "]";
                        Head h0{};
                        for (size_t j = 0; j < v.size(); ++j) {
                            Head h{};
                            SIM_CHECK(v[j].second >= sizeof h, "altered", "a part of " + to_string(v[j].second) + " bytes arrived at " + name);
                            memcpy(&h, v[j].first, sizeof h);
                            if (j == 0) h0 = h;
                            SIM_CHECK(h.in == h0.in && h.seq == h0.seq && h.part == j && h.parts == v.size() && h.size + sizeof h == v[j].second, "altered", "altered message at " + name + ": part " + to_string(h.part) + " of " + to_string(h.parts) + " with " + to_string(v[j].second) + " bytes in place of part " + to_string(j) + " of " + to_string(v.size()));
                            for (size_t b = 0; b < h.size; ++b) SIM_CHECK(v[j].first[sizeof h + b] == byte_of(h.in, h.seq, h.part, b), "altered", "altered content at " + name);
                        }
                        event(name + ": message " + to_string(h0.seq) + " of input " + to_string(h0.in));
                        SIM_CHECK(o.seen[h0.in].insert(h0.seq).second, "duplicate", "message " + to_string(h0.seq) + " of input " + to_string(h0.in) + " arrived twice at " + name);
                        if (kind != MULTIPLIER) for (auto& q : outs) if (&q != &o) SIM_CHECK(!q.seen[h0.in].count(h0.seq), "duplicate", "message " + to_string(h0.seq) + " of input " + to_string(h0.in) + " arrived at two outputs");
                        SIM_CHECK((int)h0.seq > o.last[h0.in], "order", "message " + to_string(h0.seq) + " of input " + to_string(h0.in) + " arrived at " + name + " after message " + to_string(o.last[h0.in]));
                        o.last[h0.in] = h0.seq;
                        ++received;
                    }
                    NoPreempt np;
                    go = !closing;
                }
            }
        }, pid));
    }
    // ---- the device ----------------------------------------------------------------------------------------------------
    switch (kind) {
        case PROXY: dev = make_unique<fair::mq::Proxy>(); break;
        case SPLITTER: dev = make_unique<fair::mq::Splitter>(); break;
        case MERGER: dev = make_unique<fair::mq::Merger>(); break;
        default: dev = make_unique<fair::mq::Multiplier>();
    }
    Device& d = *dev;
    d.SetConfig(cfg);
    string what;
    bool run_done = false;
    d.SubscribeToStateChange("w", [&](State s) { NoPreempt np; event("state " + nm(s)); });
    Thread run = spawn("device", [&] {
        try { d.RunStateMachine(); } catch (exception& e) { NoPreempt np; what = e.what(); }
        NoPreempt np;
        run_done = true;
    });
    auto over = [&] { NoPreempt np; return run_done; };
    auto go = [&](Transition t, State s, ns_t limit) {
        request(d, t, over);
        ns_t t0 = now(), s0 = stall_total();
        while (d.NewStatePending() || d.GetCurrentState() != s) {
            SIM_CHECK(!over(), "died", "the device ended with: " + what);
            SIM_CHECK(now() - t0 <= limit + 2 * (stall_total() - s0), "slow-stop", "the device is still in state " + nm(d.GetCurrentState()) + " " + to_string((now() - t0) / ms) + " ms after the request to " + nm(t));
            nap(1 * ms);
        }
    };
    go(Transition::InitDevice, State::InitializingDevice, 60 * sec);
    go(Transition::CompleteInit, State::Initialized, 60 * sec);
    go(Transition::Bind, State::Bound, 60 * sec);
    go(Transition::Connect, State::DeviceReady, 60 * sec);
    go(Transition::InitTask, State::Ready, 60 * sec);
    int stops = gen(5);
    ns_t stop_limit = 300 * ms + 200 * ms * (int)outs.size() * n_in;
    int expect = total_each * n_in * (kind == MULTIPLIER ? (int)outs.size() : 1);
    bool force_stop = false, early = gen(5) == 0; // early: taken down while messages are under way
    while (true) {
        go(Transition::Run, State::Running, 60 * sec);
        bool stop = stops > 0 && gen(3);
        ns_t t0 = now(), s0 = stall_total(), until = now() + (stop ? gen(600) * ms : INT64_MAX / 4);
        int last = -1;
        bool done = false;
        while (now() < until) {
            {
                NoPreempt np;
                SIM_CHECK(!run_done, "died", "the device ended with: " + what);
                int sum = received;
                bool sent = true;
                for (int h : handed) { sum += h; sent = sent && h == total_each; }
                if (received == expect) { done = true; break; }
                if (sum != last) { last = sum; t0 = now(); s0 = stall_total(); }
                else if (sent && !lossless && now() - t0 > 10 * sec + 5 * (stall_total() - s0)) { done = true; break; } // the rest is lost in stops, see below
            }
            SIM_CHECK(now() - t0 < 30 * sec + 5 * (stall_total() - s0), "not-forwarded", to_string(received) + " of " + to_string(expect) + " messages arrived at the outputs, nothing moves any more");
            nap(3 * ms);
        }
        force_stop = done;
        go(Transition::Stop, State::Ready, stop_limit);
        if (force_stop) break;
        if (early && stops == 1) break;
        --stops;
        { NoPreempt np; ++stops_done; }
        if (gen(2)) nap(gen(100) * ms);
        if (gen(4) == 0) {
            go(Transition::ResetTask, State::DeviceReady, 60 * sec);
            go(Transition::InitTask, State::Ready, 60 * sec);
            NoPreempt np;
            ++resets_done;
        }
    }
    // ---- what has to have arrived ----------------------------------------------------------------------------------------
    {
        NoPreempt np;
        static const char* kinds[] = {"proxy", "splitter", "merger", "multiplier"};
        string who = kinds[kind];
        if (early) event("taken down early");
        else if (kind == MULTIPLIER) {
            for (auto& o : outs) {
                int n = 0;
                for (auto& s : o.seen) n += s.size();
                int lost = total_each * n_in - n;
                SIM_CHECK(lost <= (lossless ? 0 : stops_done * n_in), "lost", who + ": " + to_string(lost) + " messages did not arrive at " + o.chan + "[" + to_string(o.index) + "], the device was stopped " + to_string(stops_done) + " times");
            }
        } else {
            int n = 0;
            for (auto& o : outs) for (auto& s : o.seen) n += s.size();
            int lost = total_each * n_in - n;
            SIM_CHECK(lost <= (lossless ? 0 : stops_done * n_in), "lost", who + ": " + to_string(lost) + " messages were lost, the device was stopped " + to_string(stops_done) + " times");
            if (kind == SPLITTER && n_in == 1) {
                map<int, int> at; // message -> output
                for (size_t k = 0; k < outs.size(); ++k) for (int s : outs[k].seen[0]) at[s] = k;
                int dir = 0, prev = -1, restarts = 0, N = outs.size();
                for (auto& [s, k] : at) {
                    dir = (dir + s - prev - 1) % N; // the lost ones used a turn
                    if (k != dir) {
                        SIM_CHECK(++restarts <= resets_done && (k == 0 || s - prev > 1), "rotation", who + ": message " + to_string(s) + " went to output " + to_string(k) + " instead of " + to_string(dir));
                        dir = k;
                    }
                    dir = (dir + 1) % N;
                    prev = s;
                }
            } else if (kind == SPLITTER && lossless && !resets_done) {
                int total = total_each * n_in, N = outs.size();
                for (int k = 0; k < N; ++k) {
                    int c = 0;
                    for (auto& s : outs[k].seen) c += s.size();
                    SIM_CHECK(c == total / N + (k < total % N), "rotation", who + ": output " + to_string(k) + " got " + to_string(c) + " of " + to_string(total) + " messages");
                }
            }
        }
        all_sent = true;
    }
    if (early && gen(2)) { // a device that ran into an error is destroyed without being reset
        request(d, Transition::ErrorFound, over);
        run.join();
        dev.reset();
    } else {
        go(Transition::ResetTask, State::DeviceReady, 60 * sec);
        go(Transition::ResetDevice, State::Idle, 60 * sec);
        request(d, Transition::End, over);
        run.join();
    }
    { NoPreempt np; closing = true; }
    for (auto& t : ts) t.join();
    dev.reset();
}
