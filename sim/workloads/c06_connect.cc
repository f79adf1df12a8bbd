// C06: binding, connecting and automatic port selection
#include "device.h"
#include <deque>
using namespace tr;
using namespace dv;
using namespace std;

namespace {
enum Kind { IPC, TCP, AUTO };
struct Link // one binding and one connecting channel
{
    string name;
    int binder, connector;   // devices
    bool binder_sends;
    Kind kind;
    string bind_addr, conn_addr; // as configured ("unspecified": to be discovered)
    int lo = 0, hi = 0;
    bool wildcard = false, modifiers = false;
    int messages = 0, got = 0;
    int64_t discovery = -1;  // delay in ms after the address was published; -1: never
    string published;
};
struct D6;
struct Dev
{
    unique_ptr<D6> d;
    unique_ptr<ProgOptions> cfg;
    int timeout = 120;
    bool error = false, bound = false, ready = false, done = false;
    ns_t connecting = -1, connecting_stall = 0, error_at = -1, error_stall = 0;
    State last = State::Ok;
};
struct World
{
    deque<Link> links;
    deque<Dev> devs;
    bool stop = false;
};
struct D6 : Device
{
    World& w;
    int me;
    D6(World& w_, int m) : w(w_), me(m) {}
    void Run() override
    {
        bool more = true;
        vector<int> sent(w.links.size());
        while (more && !NewStatePending()) {
            more = false;
            for (size_t k = 0; k < w.links.size(); ++k) {
                auto& l = w.links[k];
                bool snd = (l.binder == me) == l.binder_sends;
                if (l.binder != me && l.connector != me) continue;
                if (snd) {
                    if (sent[k] >= l.messages) continue;
                    more = true;
                    auto m = NewMessageFor(l.name, 0, 100 + sent[k]);
                    memset(m->GetData(), sent[k], m->GetSize());
                    if (Send(m, l.name, 0, 50) >= 0) { NoPreempt np; ++sent[k]; event(l.name + ": sent"); }
                } else {
                    int g;
                    { NoPreempt np; g = l.got; }
                    if (g >= l.messages) continue;
                    more = true;
                    auto m = NewMessageFor(l.name, 0);
                    if (Receive(m, l.name, 0, 50) >= 0) {
                        void* p = m->GetData();
                        NoPreempt np;
                        SIM_CHECK(m->GetSize() == size_t(100 + l.got) && ((unsigned char*)p)[0] == (unsigned char)l.got, "wrong-message", l.name + ": received " + to_string(m->GetSize()) + " bytes in place of message " + to_string(l.got));
                        ++l.got;
                        event(l.name + ": received");
                    }
                }
            }
        }
        while (!NewStatePending()) WaitFor(chrono::milliseconds(20));
    }
};
string port_of(const string& a) { return a.substr(a.rfind(':') + 1); }
} // namespace

SIM_WORKLOAD(C06, attach)
{
    bool shm = gen(3) == 0;
    faults().stall = gen(2) ? 0 : 0.1;
    faults().stall_max = 50 * ms;
    faults().spurious_wakeup = gen(2) ? 0 : 0.2;
    bool flaky = gen(2);
    faults().bind_fail = flaky && gen(3) ? 0.05 + 0.05 * gen(8) : 0;
    faults().resolve_fail = flaky && gen(3) ? 0.05 + 0.05 * gen(8) : 0;
    faults().connect_delay_max = gen(2) ? 0 : 20 * ms << gen(6);
    faults().net_delay_max = 20 * us << gen(8);
    limit_time(8000 * sec);
    clock_steps();
    block_port(1);
    World w;
    int nd = 2 + gen(3), nl = 1 + gen(5);
    int lo = 23000 + 10 * gen(10), needed = 0;
    bool exhausted = false, starved = gen(5) == 0;
    for (int i = 0; i < nd; ++i) w.devs.emplace_back();
    for (int k = 0; k < nl; ++k) {
        Link l;
        l.name = "L" + to_string(k);
        l.binder = gen(nd);
        l.connector = (l.binder + 1 + gen(nd - 1)) % nd;
        l.binder_sends = gen(2);
        l.kind = (Kind)gen(3);
        l.messages = 1 + gen(5);
        static const char* hosts[] = {"127.0.0.1", "localhost", "host1"};
        l.wildcard = l.kind != IPC && gen(3) == 0;
        if (l.kind == IPC) {
            l.bind_addr = l.conn_addr = "ipc://x" + to_string(k);
            l.modifiers = !flaky && gen(3) == 0;
        } else if (l.kind == TCP) {
            string p = ":" + to_string(5000 + k);
            l.bind_addr = string("tcp://") + (l.wildcard ? "*" : hosts[gen(3)]) + p;
            l.conn_addr = string("tcp://") + hosts[gen(3)] + p;
            l.modifiers = !flaky && gen(4) == 0;
        } else {
            ++needed;
            l.bind_addr = string("tcp://") + (l.wildcard ? "*" : hosts[gen(3)]) + ":1";
            if (gen(3) == 0) l.bind_addr = l.bind_addr.substr(0, l.bind_addr.rfind(':')) + ":" + to_string(lo + 1); // a preferred port
            l.conn_addr = gen(2) ? "unspecified" : "";
            l.discovery = gen(3) ? gen(300) : gen(3000);
            if (starved && gen(2)) l.discovery = gen(2) ? -1 : 1000 + (int64_t)gen(6000);
        }
        w.links.push_back(l);
    }
    // the ports
    int width = max(1, needed) + (gen(4) == 0 ? 0 : gen(12));
    int blocked = gen(4);
    for (int i = 0; i < blocked; ++i) { block_port(lo + width + i); }
    width += blocked;
    if (needed > 1 && gen(8) == 0) { width -= blocked + 1; exhausted = true; }
    int hi = lo + width - 1;
    for (auto& l : w.links) { l.lo = lo; l.hi = hi; }
    auto on_state = [&](int i, State s) {
        NoPreempt np;
        auto& v = w.devs[i];
        v.last = s;
        event("device " + to_string(i) + ": " + nm(s));
        if (s == State::Connecting) { v.connecting = now(); v.connecting_stall = stall_total(); }
        if (s == State::Error) { v.error = true; v.error_at = now(); v.error_stall = stall_total(); }
        if (s == State::Bound || s == State::DeviceReady) {
            set<string> have;
            for (auto& a : bound_addresses()) have.insert(a);
            for (auto& l : w.links) {
                if (l.binder != i || l.kind == IPC) continue;
                if (l.modifiers && s == State::Bound) continue; // bound while connecting
                string a = v.cfg->GetProperty<string>("chans." + l.name + ".0.address");
                SIM_CHECK(a.find("tcp://") != string::npos && a.rfind(':') > 5, "address", l.name + ": the published address is " + a);
                string p = port_of(a);
                SIM_CHECK(have.count("tcp:" + p), "address", l.name + ": published " + a + ", but nothing is bound to that port");
                if (l.kind == TCP) SIM_CHECK(p == port_of(l.bind_addr), "address", l.name + ": bound to " + a + " instead of " + l.bind_addr);
                else SIM_CHECK((atoi(p.c_str()) >= l.lo && atoi(p.c_str()) <= l.hi) || p == port_of(l.bind_addr), "port-range", l.name + ": port " + p + " is not in the range " + to_string(l.lo) + "-" + to_string(l.hi));
                for (auto& o : w.links) if (&o != &l && !o.published.empty()) SIM_CHECK(port_of(o.published) != p, "port-shared", l.name + " and " + o.name + " publish the same port " + p);
                l.published = a;
            }
            v.bound = true;
        }
        if (s == State::Ready) v.ready = true;
    };
    vector<Thread> ts;
    for (int i = 0; i < nd; ++i) {
        int pid = new_proc("dev" + to_string(i));
        auto& v = w.devs[i];
        v.cfg = make_unique<ProgOptions>();
        base_config(*v.cfg, shm ? "shmem" : "zeromq");
        v.timeout = starved ? 1 + gen(4) : flaky ? 20 : 10;
        v.cfg->SetProperty<int>("init-timeout", v.timeout);
        for (auto& l : w.links) {
            if (l.binder != i && l.connector != i) continue;
            bool b = l.binder == i;
            string type = b == l.binder_sends ? "push" : "pull";
            string addr = b ? l.bind_addr : l.conn_addr, method = b ? "bind" : "connect";
            if (l.modifiers && gen(2)) { addr = (b ? "@" : gen(2) ? "+" : ">") + addr; method = b ? "connect" : "bind"; if (!b) method = gen(2) ? "bind" : "connect"; }
            put(*v.cfg, {l.name, type, method, addr});
            string p = "chans." + l.name + ".0.";
            v.cfg->SetProperty<bool>(p + "autoBind", l.kind == AUTO);
            v.cfg->SetProperty<int>(p + "portRangeMin", l.lo);
            v.cfg->SetProperty<int>(p + "portRangeMax", l.hi);
        }
        ns_t delay = gen(3) ? gen(200) * ms : gen(5000) * ms;
        ts.push_back(spawn("driver" + to_string(i), [&, i, delay] {
            auto& v = w.devs[i];
            nap(delay);
            v.d = make_unique<D6>(w, i);
            D6& d = *v.d;
            d.SetConfig(*v.cfg);
            d.SubscribeToStateChange("w", [&, i](State s) { on_state(i, s); });
            Thread run = spawn("device" + to_string(i), [&] { try { d.RunStateMachine(); } catch (exception& e) { NoPreempt np; event(string("run call ended with ") + e.what()); } NoPreempt np; v.done = true; }, -1);
            auto over = [&] { NoPreempt np; return v.done || v.error; };
            auto go = [&](Transition t, State s) {
                if (over()) return;
                if (!request(d, t, over)) return;
                while (!over() && (d.NewStatePending() || d.GetCurrentState() != s)) nap(2 * ms);
            };
            go(Transition::InitDevice, State::InitializingDevice);
            go(Transition::CompleteInit, State::Initialized);
            go(Transition::Bind, State::Bound);
            if (gen(3) == 0) nap(gen(1000) * ms);
            go(Transition::Connect, State::DeviceReady);
            go(Transition::InitTask, State::Ready);
            go(Transition::Run, State::Running);
            bool st = false;
            while (!st && !over()) { { NoPreempt np; st = w.stop; } nap(10 * ms); }
            go(Transition::Stop, State::Ready);
            go(Transition::ResetTask, State::DeviceReady);
            go(Transition::ResetDevice, State::Idle);
            if (!over()) request(d, Transition::End, over);
            run.join();
        }, pid));
    }
    // the discovery service
    for (size_t k = 0; k < w.links.size(); ++k) {
        if (w.links[k].kind != AUTO) continue;
        ts.push_back(spawn("discovery" + to_string(k), [&, k] {
            auto& l = w.links[k];
            string a;
            while (true) {
                { NoPreempt np; a = l.published; if (w.stop) return; if (w.devs[l.binder].error) return; }
                if (!a.empty()) break;
                nap(5 * ms);
            }
            if (l.discovery < 0) return;
            { NoPreempt np; event(l.name + ": discovered after " + to_string(l.discovery) + " ms"); }
            nap(l.discovery * ms);
            if (l.wildcard) a = "tcp://localhost:" + port_of(a);
            w.devs[l.connector].cfg->SetProperty<string>("chans." + l.name + ".0.address", a);
            NoPreempt np;
            event(l.name + ": address " + a + " announced to device " + to_string(l.connector));
            l.conn_addr = a;
        }, 0));
    }
    // wait until everything that can happen has happened
    auto deliverable = [&](const Link& l) { return !w.devs[l.binder].error && !w.devs[l.connector].error; };
    ns_t t0 = now(), s0 = stall_total();
    int have = -1;
    while (true) {
        bool ok = true;
        {
            NoPreempt np;
            int h = 0;
            for (auto& l : w.links) { h += l.got; if (deliverable(l) && l.got < l.messages) ok = false; }
            for (auto& v : w.devs) { h += v.error + v.ready; if (!v.error && !v.ready) ok = false; }
            if (h != have) { have = h; t0 = now(); s0 = stall_total(); }
        }
        if (ok) break;
        if (now() - t0 > 40 * sec + 3 * (stall_total() - s0)) {
            string t;
            NoPreempt np;
            for (auto& l : w.links) t += " " + l.name + " " + to_string(l.got) + "/" + to_string(l.messages);
            for (size_t i = 0; i < w.devs.size(); ++i) t += ", device " + to_string(i) + " " + nm(w.devs[i].last);
            violation("not-connected", "no progress:" + t);
        }
        nap(10 * ms);
    }
    { NoPreempt np; w.stop = true; }
    for (auto& t : ts) t.join();
    // ---- errors must have a reason -----------------------------------------------------------------------------------
    for (int i = 0; i < nd; ++i) {
        auto& v = w.devs[i];
        if (!v.error) continue;
        if (v.connecting < 0) { // while binding: a fixed port that cannot be bound or resolved, or no port left
            bool why = exhausted;
            for (auto& l : w.links)
                if (l.binder == i && l.kind != IPC && (fault_count("bind-fails") || (fault_count("resolve-fails") && !l.wildcard))) why = why || l.kind == TCP || fault_count("resolve-fails");
            SIM_CHECK(why, "unexpected-error", "device " + to_string(i) + " failed to bind without reason");
        } else {
            ns_t el = v.error_at - v.connecting, lim = v.timeout * sec;
            bool why = false, late = false;
            for (auto& l : w.links) {
                if (l.connector == i && l.kind == AUTO) why = why || l.discovery < 0 || l.discovery >= 500 || w.devs[l.binder].error || starved || v.timeout < 15; // binder may have started late
                if (l.modifiers) late = late || fault_count("port-taken");
            }
            // reasons: address information was missing for too long
            SIM_CHECK(why || late, "unexpected-error", "device " + to_string(i) + " failed to connect without reason");
            SIM_CHECK(el >= lim, "early-timeout", "device " + to_string(i) + " gave up connecting after " + to_string(el / ms) + " ms, the timeout is " + to_string(v.timeout) + " s");
            SIM_CHECK(el <= lim + lim / 5 + 1 * sec + 2 * (v.error_stall - v.connecting_stall), "late-timeout", "device " + to_string(i) + " gave up connecting after " + to_string(el / ms) + " ms, the timeout is " + to_string(v.timeout) + " s");
        }
    }
    for (auto& l : w.links) {
        auto& c = w.devs[l.connector];
        if (!c.error && l.kind == AUTO && !w.devs[l.connector].error && c.ready) SIM_CHECK(l.conn_addr.rfind("tcp", 0) == 0, "connected-nowhere", l.name + " is ready although no address was announced");
        if (deliverable(l)) SIM_CHECK(l.got == l.messages, "lost", l.name + ": " + to_string(l.got) + " of " + to_string(l.messages) + " messages received");
    }
}

// One channel with several endpoints, some bound and some connected, and a peer device at every endpoint.
namespace {
struct Star
{
    int n = 0, messages = 0;
    bool center_receives = false, stop = false;
    vector<string> center; // address of each endpoint, as far as known
    vector<bool> binds;    // endpoint i is bound by the center
    vector<string> peer;   // configured or discovered address of peer i
    vector<bool> late;     // the connecting side of endpoint i learns the address late
    vector<bool> state_ok, error;
    vector<int> got;       // per peer: messages of (center receives) or at it
    set<int> ids;
    int total() const { return center_receives ? n * messages : messages; }
};
struct S6 : Device
{
    Star& w;
    int me; // -1: center
    S6(Star& w_, int m) : w(w_), me(m) {}
    void Run() override
    {
        string ch = "c";
        bool receives = (me < 0) == w.center_receives;
        unsigned want = me < 0 ? w.n : 1;
        ns_t t0 = now(), s0 = stall_total();
        // the reported number of peers arrives at the number of connections
        while (GetNumberOfConnectedPeers(ch) != want) {
            if (NewStatePending()) return;
            auto have = GetNumberOfConnectedPeers(ch);
            SIM_CHECK(have <= want, "peers", "device " + to_string(me) + " reports " + to_string(have) + " peers, there are " + to_string(want));
            { NoPreempt np; if (!count(w.state_ok.begin(), w.state_ok.end(), false)) { if (now() - t0 > 30 * sec + 3 * (stall_total() - s0)) violation("peers", "device " + to_string(me) + " reports " + to_string(have) + " connected peers 30 s after it was started"); } else { t0 = now(); s0 = stall_total(); } }
            WaitFor(chrono::milliseconds(20));
        }
        { NoPreempt np; event("device " + to_string(me) + " sees its peers"); }
        // a failed attempt to attach a channel drops what arrived on it: send after everybody is attached
        for (bool all = false; !all && !NewStatePending(); WaitFor(chrono::milliseconds(5))) { NoPreempt np; all = !count(w.state_ok.begin(), w.state_ok.end(), false); }
        int sent = 0;
        while (!NewStatePending()) {
            if (receives) {
                auto m = NewMessageFor(ch, 0);
                if (Receive(m, ch, 0, 50) >= 0) {
                    int id = -1;
                    if (m->GetSize() == sizeof(int)) memcpy(&id, m->GetData(), sizeof id);
                    NoPreempt np;
                    SIM_CHECK(id >= 0 && (w.center_receives ? id / 1000 < w.n && id % 1000 == w.got[id / 1000]++ : id < w.messages), "wrong-message", "device " + to_string(me) + " received message " + to_string(id));
                    SIM_CHECK(w.ids.insert(id).second, "duplicate", "message " + to_string(id) + " received twice");
                }
            } else if (sent < w.messages) {
                auto m = NewMessageFor(ch, 0, sizeof(int));
                int id = me < 0 ? sent : 1000 * me + sent;
                memcpy(m->GetData(), &id, sizeof id);
                if (Send(m, ch, 0, 50) >= 0) ++sent;
            } else
                WaitFor(chrono::milliseconds(20));
        }
    }
};
} // namespace

SIM_WORKLOAD(C06, endpoints)
{
    bool shm = gen(3) == 0;
    faults().stall = gen(2) ? 0 : 0.1;
    faults().stall_max = 50 * ms;
    faults().spurious_wakeup = gen(2) ? 0 : 0.2;
    faults().connect_delay_max = gen(2) ? 0 : 20 * ms << gen(6);
    faults().net_delay_max = 20 * us << gen(8);
    limit_time(4000 * sec);
    clock_steps();
    block_port(1);
    Star w;
    w.n = 1 + gen(4);
    w.messages = 1 + gen(6);
    w.center_receives = gen(2);
    w.state_ok.resize(w.n + 1);
    w.error.resize(w.n + 1);
    w.got.resize(w.n);
    bool all_connect = gen(3) == 0;
    if (all_connect && gen(2)) { faults().bind_fail = 0.05 + 0.05 * gen(6); faults().resolve_fail = 0.05 * gen(6); } // retried until it works
    bool method_bind = !all_connect && gen(2), any_bind = false, any_late_center = false;
    string center_addr;
    for (int i = 0; i < w.n; ++i) {
        bool b = !all_connect && gen(2);
        any_bind |= b;
        bool tcp = gen(3) != 0, aut = tcp && !all_connect && gen(2);
        string a = tcp ? "tcp://" + string(gen(2) ? "127.0.0.1" : "localhost") + ":" + (aut ? string("1") : to_string(6000 + i)) : "ipc://e" + to_string(i);
        bool late = aut;
        if (!b && late && any_late_center) { late = false; a = "tcp://127.0.0.1:" + to_string(6000 + i); aut = false; }
        if (!b && late) any_late_center = true;
        w.binds.push_back(b);
        w.late.push_back(late);
        w.peer.push_back(b && late ? "unspecified" : a);
        w.center.push_back((b == method_bind ? gen(4) ? "" : b ? "@" : "+" : b ? "@" : gen(2) ? "+" : ">") + (!b && late ? string("unspecified") : a));
    }
    if (any_late_center) {
        // a channel with missing addresses is only attached as soon as all of them are there
        for (int i = 0; i < w.n; ++i) if (w.binds[i] == false && w.late[i]) center_addr = "unspecified";
    } else
        for (int i = 0; i < w.n; ++i) center_addr += (i ? "," : "") + w.center[i];
    if (any_late_center) method_bind = false; // retried
    if (any_late_center) for (int i = 0; i < w.n; ++i) if (w.center[i][0] != '@' && w.center[i][0] != '+' && w.center[i][0] != '>') w.center[i] = (w.binds[i] ? "@" : "+") + w.center[i];
    deque<ProgOptions> cfg(w.n + 1);
    deque<unique_ptr<S6>> devs(w.n + 1);
    vector<Thread> ts;
    for (int i = 0; i <= w.n; ++i) { // the last one is the center
        int pid = new_proc("dev" + to_string(i));
        base_config(cfg[i], shm ? "shmem" : "zeromq");
        bool c = i == w.n;
        string type = c == w.center_receives ? "pull" : "push";
        put(cfg[i], {"c", type, c ? (method_bind ? "bind" : "connect") : w.binds[i] ? "connect" : "bind", c ? center_addr : w.peer[i]});
        cfg[i].SetProperty<bool>("chans.c.0.autoBind", faults().bind_fail == 0);
        cfg[i].SetProperty<int>("chans.c.0.portRangeMin", 23000);
        cfg[i].SetProperty<int>("chans.c.0.portRangeMax", 23010);
        cfg[i].SetProperty<int>("init-timeout", 60);
        ns_t delay = gen(3) ? gen(200) * ms : gen(3000) * ms;
        ts.push_back(spawn("driver" + to_string(i), [&, i, delay, c] {
            nap(delay);
            devs[i] = make_unique<S6>(w, c ? -1 : i);
            S6& d = *devs[i];
            d.SetConfig(cfg[i]);
            d.SubscribeToStateChange("w", [&, i, c](State s) {
                NoPreempt np;
                event("device " + to_string(c ? -1 : i) + ": " + nm(s));
                if (s == State::Error) {
                    w.error[i] = true;
                    SIM_CHECK(!c && !w.binds[i] && faults().bind_fail > 0, "unexpected-error", "device " + to_string(c ? -1 : i) + " failed without reason");
                }
                if (s == State::Running) w.state_ok[i] = true;
            });
            Thread run = spawn("device" + to_string(i), [&] { try { d.RunStateMachine(); } catch (exception& e) { NoPreempt np; event(string("run call ended with ") + e.what()); } }, -1);
            auto over = [&] { NoPreempt np; return (bool)w.error[i]; };
            auto go = [&](Transition t, State s) {
                if (over() || !request(d, t, over)) return;
                ns_t t0 = now(), s0 = stall_total();
                while (!over() && (d.NewStatePending() || d.GetCurrentState() != s)) {
                    SIM_CHECK(now() - t0 < 100 * sec + 2 * (stall_total() - s0), "stuck", "device " + to_string(i) + " does not arrive in " + nm(s));
                    nap(2 * ms);
                }
            };
            go(Transition::InitDevice, State::InitializingDevice);
            go(Transition::CompleteInit, State::Initialized);
            go(Transition::Bind, State::Bound);
            go(Transition::Connect, State::DeviceReady);
            if (c && !over()) { // the published addresses
                NoPreempt np;
                string a = cfg[i].GetProperty<string>("chans.c.0.address");
                event("address of the center: " + a);
                size_t from = 0;
                set<string> have;
                for (auto& b : bound_addresses()) have.insert(b);
                for (int k = 0; k < w.n; ++k) {
                    auto to = a.find(',', from);
                    SIM_CHECK(k == w.n - 1 ? to == string::npos : to != string::npos, "address", "the published address " + a + " has not as many endpoints as the channel");
                    string e = a.substr(from, to == string::npos ? to : to - from);
                    from = to + 1;
                    bool m = e[0] == '@' || e[0] == '+' || e[0] == '>';
                    bool b = m ? e[0] == '@' : method_bind;
                    SIM_CHECK(b == w.binds[k], "address", "endpoint " + to_string(k) + " of the published address " + a + " has the wrong direction");
                    if (m) e = e.substr(1);
                    string was = w.center[k];
                    if (was[0] == '@' || was[0] == '+' || was[0] == '>') was = was.substr(1);
                    SIM_CHECK(e.substr(0, 3) == was.substr(0, 3) && (e[0] != 't' || !b || have.count("tcp:" + port_of(e))), "address", "nothing is bound to endpoint " + to_string(k) + " of the published address " + a);
                    if (e[0] == 't' && !w.late[k]) SIM_CHECK(port_of(e) == port_of(was), "address", "endpoint " + to_string(k) + " of the published address " + a + " has a wrong port");
                    if (b && w.late[k]) { w.peer[k] = e; SIM_CHECK(atoi(port_of(e).c_str()) >= 23000 && atoi(port_of(e).c_str()) <= 23010, "port-range", "port out of range in " + a); }
                }
            }
            go(Transition::InitTask, State::Ready);
            go(Transition::Run, State::Running);
            bool st = false;
            while (!st && !over()) { { NoPreempt np; st = w.stop; } nap(10 * ms); }
            go(Transition::Stop, State::Ready);
            go(Transition::ResetTask, State::DeviceReady);
            go(Transition::ResetDevice, State::Idle);
            if (!over()) request(d, Transition::End, over);
            run.join();
        }, pid));
    }
    for (int k = 0; k < w.n; ++k) {
        if (!w.late[k]) continue;
        ns_t delay = (ns_t)gen(gen(2) ? 20 : 2000) * ms;
        ts.push_back(spawn("discovery" + to_string(k), [&, k, delay] {
            if (w.binds[k]) {
                while (true) {
                    { NoPreempt np; if (w.stop) return; if (w.peer[k] != "unspecified") break; }
                    nap(5 * ms);
                }
                nap(delay);
                cfg[k].SetProperty<string>("chans.c.0.address", w.peer[k]);
            } else {
                string a;
                while (true) {
                    { NoPreempt np; if (w.stop) return; }
                    a = cfg[k].GetProperty<string>("chans.c.0.address");
                    if (port_of(a) != "1") break;
                    nap(5 * ms);
                }
                nap(delay);
                string all;
                NoPreempt np;
                w.center[k] = "+" + a;
                for (int i = 0; i < w.n; ++i) all += (i ? "," : "") + w.center[i];
                event("center gets address " + all);
                cfg[w.n].SetProperty<string>("chans.c.0.address", all);
            }
        }, 0));
    }
    ns_t t0 = now(), s0 = stall_total();
    size_t have = 0;
    while (true) {
        {
            NoPreempt np;
            if ((int)w.ids.size() == w.total() || count(w.error.begin(), w.error.end(), true)) break;
            size_t h = w.ids.size() + count(w.state_ok.begin(), w.state_ok.end(), true);
            if (h != have) { have = h; t0 = now(); s0 = stall_total(); }
        }
        if (now() - t0 > 90 * sec + 3 * (stall_total() - s0)) violation("not-connected", "no progress: " + to_string(w.ids.size()) + " of " + to_string(w.total()) + " messages received");
        nap(10 * ms);
    }
    nap(gen(100) * ms);
    { NoPreempt np; w.stop = true; }
    for (auto& t : ts) t.join();
}
