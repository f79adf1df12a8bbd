// C28: the logged channel rates are the rates since the line before
#include "device.h"
#include <cmath>
using namespace tr;
using namespace dv;
using namespace std;

namespace {
struct Xfer { ns_t t0, t1; double msgs, bytes; };
struct Line { ns_t t, stalls; double v[4]; }; // messages in, MB in, messages out, MB out
struct Chan28
{
    string name;
    int interval = 0;
    vector<Xfer> in, out;
    vector<Line> lines;
};
struct Injected28 : runtime_error { Injected28() : runtime_error("injected") {} };

struct W28
{
    vector<Chan28> ch;
    int pairs = 1, rate = 1;
    int throw_after = -1;
    bool threw = false;
    Chan28* find(const string& n)
    {
        for (auto& c : ch) if (c.name == n) return &c;
        return nullptr;
    }
    void line(const string& text)
    {
        char name[64];
        double a, b, c, d;
        if (sscanf(text.c_str(), " %63[^:]: in: %lf (%lf MB) out: %lf (%lf MB)", name, &a, &b, &c, &d) != 5) return;
        Chan28* x = find(name);
        SIM_CHECK(x, "unknown-channel", "the rate of an unknown channel is logged: " + text);
        x->lines.push_back({now(), stall_total(), {a, b, c, d}});
        event("logged " + text);
    }
};

struct D28 : Device
{
    W28& w;
    explicit D28(W28& w_) : w(w_) {}
    bool ConditionalRun() override
    {
        { NoPreempt np; if (w.throw_after >= 0 && w.throw_after-- == 0) { w.threw = true; count_fault("handler exception"); event("injected exception"); } }
        if (w.threw) throw Injected28();
        static const ns_t naps[] = {3 * ms, 20 * ms, 80 * ms, 300 * ms, 1100 * ms};
        ns_t d = naps[min<int>(gen(5), 1 + gen(5))];
        if (gen(2)) d = naps[w.rate % 5];
        WaitFor(chrono::nanoseconds(d / 2 + gen(uint32_t(d))));
        int i = gen(w.pairs), n = 1 + gen(3);
        for (int k = 0; k < n; ++k) {
            size_t size = gen(3) ? gen(200) : gen(2) ? gen(20000) : 0;
            auto m = NewMessageFor("out", i, size);
            xfer(w.ch[2 * i].out, [&] { return Send(m, "out", i, 100); });
        }
        for (int k = 0; k < n; ++k) {
            auto m = NewMessageFor("in", i);
            xfer(w.ch[2 * i + 1].in, [&] { return Receive(m, "in", i, 20); });
        }
        return true;
    }
    template<typename F>
    void xfer(vector<Xfer>& v, F f)
    {
        ns_t t0 = now();
        int64_t rc = f();
        NoPreempt np;
        if (rc >= 0) v.push_back({t0, now(), 1, double(rc)});
    }
};

// most/least of what was transferred between two instants that are known up to an interval
void range(const vector<Xfer>& v, ns_t a0, ns_t a1, ns_t b0, ns_t b1, bool bytes, double& lo, double& hi)
{
    lo = hi = 0;
    for (auto& x : v) {
        double n = bytes ? x.bytes : x.msgs;
        if (x.t1 >= a0 && x.t0 <= b1) hi += n;
        if (x.t0 > a1 && x.t1 < b0) lo += n;
    }
}
} // namespace

SIM_WORKLOAD(C28, rates)
{
    limit_time(20000 * sec);
    bool shm = gen(3) == 0;
    W28 w;
    w.pairs = 1 + gen(3);
    w.rate = gen(5);
    bool any = false;
    for (int i = 0; i < w.pairs; ++i)
        for (int k = 0; k < 2; ++k) {
            Chan28 c;
            c.name = (k ? "in[" : "out[") + to_string(i) + "]";
            c.interval = gen(4) == 0 ? 0 : gen(3) ? 1 + gen(3) : 1 + gen(9);
            any |= c.interval > 0;
            w.ch.push_back(c);
        }
    if (!any) w.ch[0].interval = 1;
    on_log([&](const string& s) { w.line(s); });
    faults().net_delay_max = 200 * us;
    if (gen(3) == 0) { faults().stall = 0.01; faults().stall_max = gen(2) ? 20 * ms : 300 * ms; }
    if (gen(4) == 0) faults().spurious_wakeup = 0.1;
    bool jumps = gen(3) == 0;
    {
        EnterProc ep(new_proc("device"));
        ProgOptions cfg;
        base_config(cfg, shm ? "shmem" : "zeromq");
        for (int i = 0; i < w.pairs; ++i) {
            string addr = "ipc://c28_" + to_string(i);
            put(cfg, {"out", "push", "bind", addr, "default", 1000, w.ch[2 * i].interval}, i);
            put(cfg, {"in", "pull", "connect", addr, "default", 1000, w.ch[2 * i + 1].interval}, i);
        }
        D28 d(w);
        d.SetConfig(cfg);
        bool run_done = false, run_threw = false;
        int me = self_proc();
        auto run = spawn("main", [&] {
            try { d.RunStateMachine(); } catch (exception& e) { NoPreempt np; run_threw = true; event(string("run call ended with: ") + e.what()); }
            NoPreempt np;
            run_done = true;
        }, me);
        bool over = false;
        Thread jumper;
        if (jumps) jumper = spawn("clock", [&] {
            while (!over) {
                nap(200 * ms + gen(3000) * ms);
                if (over) break;
                static const ns_t by[] = {-5 * ms, 40 * ms, -700 * ms, 900 * ms, -20 * sec, 3600 * sec, -3600 * sec};
                wall_jump(by[gen(7)]);
            }
        }, me);
        auto need = [&](bool ok, const char* what) { SIM_CHECK(ok, "stuck", string("the device does not get to ") + what); };
        need(request(d, Transition::InitDevice) && reach(d, State::InitializingDevice), "InitializingDevice");
        need(request(d, Transition::CompleteInit) && reach(d, State::Initialized), "Initialized");
        need(request(d, Transition::Bind) && reach(d, State::Bound), "Bound");
        need(request(d, Transition::Connect) && reach(d, State::DeviceReady), "DeviceReady");
        need(request(d, Transition::InitTask) && reach(d, State::Ready), "Ready");
        int cycles = 1 + gen(3);
        for (int cy = 0; cy < cycles && !w.threw; ++cy) {
            { NoPreempt np; for (auto& c : w.ch) { c.lines.clear(); c.in.clear(); c.out.clear(); } }
            if (gen(6) == 0) w.throw_after = gen(40);
            ns_t start = now(), s_start = stall_total();
            need(request(d, Transition::Run), "Running");
            ns_t length = gen(2) ? gen(4000) * ms : gen(20) * sec + gen(1000) * ms;
            for (ns_t t0 = now(); now() - t0 < length && !w.threw;) nap(min<ns_t>(length - (now() - t0), 100 * ms));
            bool stopped = false;
            ns_t stop = now(), s_stop = stall_total();
            if (!w.threw) {
                event("stop");
                stopped = request(d, Transition::Stop, [&] { return w.threw; });
                if (stopped) need(reach(d, State::Ready), "Ready");
            }
            if (!stopped || w.threw) {
                ns_t t0 = now(), s0 = stall_total();
                while (!run_done) {
                    nap(10 * ms);
                    SIM_CHECK(now() - t0 < 10 * sec + 2 * (stall_total() - s0), "stuck", "the run call does not end after an exception");
                }
            }
            if (stopped && !w.threw) {
                ns_t el = now() - stop, st = stall_total() - s_stop;
                SIM_CHECK(el <= 400 * ms + 2 * st, "slow-stop", "the device left the Running state only " + to_string(el / ms) + " ms after the request to stop");
            }
            // ---- what was logged against what was transferred --------------------------------------------------------
            NoPreempt np;
            const ns_t slack = 3 * ms;
            for (auto& c : w.ch) {
                SIM_CHECK(c.interval > 0 || c.lines.empty(), "unwanted", "the rate of " + c.name + " is logged although that is switched off");
                if (!c.interval) continue;
                ns_t k = c.interval * sec;
                ns_t a0 = start, a1 = 0, sa = s_start;
                for (size_t i = 0; i < c.lines.size(); ++i) {
                    auto& l = c.lines[i];
                    ns_t st = l.stalls - sa + slack;
                    ns_t b0 = l.t - st, b1 = l.t;
                    bool whole = l.t < stop && !w.threw; // not cut short by the stop
                    if (i == 0) a1 = max(a0, whole ? l.t - k : l.t - (c.interval - 1) * sec);
                    b0 = max(b0, a0);
                    SIM_CHECK(!whole || b1 - a0 >= k - slack, "too-often", "the rate of " + c.name + " is logged after " + to_string((b1 - a0) / ms) + " ms instead of " + to_string(c.interval) + " s");
                    SIM_CHECK(b0 - a1 <= k + st + 10 * ms, "too-late", "the rate of " + c.name + " is logged after " + to_string((b0 - a1) / ms) + " ms instead of " + to_string(c.interval) + " s");
                    double dmin = max<double>(0, b0 - a1 - 2 * ms) / 1e9, dmax = double(b1 - a0 + 1 * ms) / 1e9;
                    for (int q = 0; q < 4; ++q) {
                        double lo, hi;
                        range(q < 2 ? c.in : c.out, a0, a1, b0, b1, q % 2, lo, hi);
                        double unit = q % 2 ? 1e6 : 1, v = l.v[q] * unit;
                        string text = to_string(l.v[q]) + (q % 2 ? " MB" : " messages") + " per second " + (q < 2 ? "in" : "out") + " of " + c.name + " after " + to_string(dmin) + ".." + to_string(dmax) + " s with " + to_string(lo) + ".." + to_string(hi) + (q % 2 ? " bytes" : " messages");
                        SIM_CHECK(v * dmin <= hi * 1.0001 + 1e-9, "rate-too-high", "logged " + text);
                        SIM_CHECK(v * dmax >= lo * 0.9999 - 1e-9, "rate-too-low", "logged " + text);
                    }
                    a0 = b0, a1 = b1, sa = l.stalls;
                    probe("rate line");
                }
                if (w.threw) continue;
                // every interval got its line
                double span = double(stop - start - (s_stop - s_start)) / 1e9;
                int least = int(floor((span * 0.995 - 0.1) / c.interval));
                SIM_CHECK((int)c.lines.size() >= least, "line-missing", to_string(c.lines.size()) + " rate lines for " + c.name + " in " + to_string(span) + " s of running, interval " + to_string(c.interval) + " s");
            }
        }
        if (!w.threw) {
            need(request(d, Transition::ResetTask) && reach(d, State::DeviceReady), "DeviceReady");
            need(request(d, Transition::ResetDevice) && reach(d, State::Idle), "Idle");
            need(request(d, Transition::End), "Exiting");
        }
        run.join();
        over = true;
        if (jumps) jumper.join();
        SIM_CHECK(run_threw == w.threw, "unexpected-error", run_threw ? "the run call ended with an exception" : "an exception did not surface from the run call");
        on_log({});
    }
}
