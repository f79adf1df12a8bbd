// C14: the shared memory monitor and crashing devices
#include "transport.h"
#include <fairmq/UnmanagedRegion.h>
#include <fairmq/shmem/Common.h>
#include <boost/interprocess/managed_shared_memory.hpp>
#include <csignal>
#include <filesystem>

using namespace tr;
using namespace std;
using fair::mq::UnmanagedRegionPtr;
using fair::mq::shmem::Monitor;
namespace bi = boost::interprocess;

namespace {
struct Dev
{
    string name;
    int proc = -1;
    bool other = false;     // of the other session
    bool begun = false;     // its start has begun
    bool up = false, gone = false, crashed = false;
    bool creating = false;  // inside a call that creates shared memory objects
    bool half = false;      // crashed inside such a call
    bool locked = false;    // crashed while it held a lock of the management segment
    ns_t since = 0, since_stall = 0;
    shared_ptr<TransportFactory> f;
};
struct World
{
    string id, other_id, pre, other_pre;
    ns_t timeout = 0;
    deque<Dev> d;
    int monitor_proc = -1;
    bool seen = false; // the session was there long enough to be noticed
    void ends(const Dev& x)
    {
        if (!x.other && x.up && monitor_up && now() - x.since > 500 * ms + 2 * (stall_total() - x.since_stall)) seen = true;
    }
    bool monitor_up = false, may_clean = false;
    // heartbeats as seen by the oracle
    unique_ptr<bi::managed_shared_memory> seg;
    fair::mq::shmem::Heartbeat* hb = nullptr;
    uint64_t last = 0;
    bool beaten = false; // a heartbeat was sent in the current session
    ns_t changed = 0;
    deque<pair<ns_t, ns_t>> stalls; // time, stall_total
    bool stop = false;

    void sample()
    {
        NoPreempt np;
        ns_t t = now();
        if (hb && hb->fCount != last) { last = hb->fCount; changed = t; beaten = true; }
        stalls.emplace_back(t, stall_total());
        while (stalls.size() > 2 && stalls[1].first < t - timeout - 1 * sec) stalls.pop_front();
    }
    int alive() const
    {
        int n = 0;
        for (auto& x : d) n += !x.other && x.begun && !x.gone && !x.crashed;
        return n;
    }
    bool left(vector<string>* v = nullptr) const
    {
        bool any = false;
        for (auto& n : shm_names())
            if (n.find(pre) != string::npos) { any = true; if (v) v->push_back(n); }
        return any;
    }
    void removed(const string& n)
    {
        int p = self_proc();
        if (n == pre + "mng") { hb = nullptr; last = 0; beaten = false; } // what comes next is a new session
        if (p != monitor_proc) return;
        event("monitor removes " + n);
        SIM_CHECK(n.find(other_pre) == string::npos, "foreign-session", "the monitor of one session removed " + n + " of another one");
        if (may_clean) return;
        sample();
        for (auto& x : d) {
            if (x.other || !x.up || x.crashed) continue;
            ns_t st = stall_total() - stalls.front().second;
            if (now() - changed < timeout - 500 * ms - st)
                violation("live-session-removed", "the monitor removed " + n + " while " + x.name + " is alive, the last heartbeat was sent " + to_string((now() - changed) / ms) + " ms ago, the timeout is " + to_string(timeout / ms) + " ms");
        }
    }
    void crash_now(Dev& x)
    {
        NoPreempt np;
        if (!x.begun || x.gone || x.crashed) return;
        ends(x);
        x.half = x.creating;
        x.locked = holds_lock_in(x.proc, (x.other ? other_pre : pre) + "mng");
        event(x.name + " crashes" + (x.half ? " while creating objects" : "") + (x.locked ? " with a lock held" : ""));
        if (x.half) probe("crash while creating");
        if (x.locked) probe("crash with lock");
        crash(x.proc);
        x.crashed = true;
        x.up = false;
        new shared_ptr<TransportFactory>(x.f); // never destroyed
        // the lock can never be taken again: boost throws lock_exception in whatever the others do next, also in destructors
        if (x.locked)
            for (auto& y : d) if (y.other == x.other) crash_now(y);
    }
};
} // namespace

SIM_WORKLOAD(C14, monitor)
{
    auto* wp = new World; // crashed devices keep references
    World& w = *wp;
    w.id = fair::mq::shmem::makeShmIdStr("s");
    w.other_id = fair::mq::shmem::makeShmIdStr("t");
    w.pre = "/fmq_" + w.id + "_";
    w.other_pre = "/fmq_" + w.other_id + "_";
    static const int tos[] = {1000, 1500, 2000, 5000};
    w.timeout = tos[gen(4)] * ms;
    faults().stall = gen(3) == 0 ? 0.05 : 0;
    faults().stall_max = 60 * ms;
    faults().spurious_wakeup = gen(2) ? 0 : 0.1;
    limit_time(100000 * sec);
    bool self_destruct = gen(3) == 0;
    int generations = self_destruct ? 1 : 1 + gen(3);
    bool jumps = gen(2);
    on_unlink([wp](const string& n) { wp->removed(n); });
    bool terminate = false, over = false;
    auto sampler = spawn("sampler", [&] { while (true) { { NoPreempt np; if (w.stop) return; } w.sample(); nap(10 * ms); } }, new_proc("oracle"));
    Thread jumper;
    bool calm = false; // no more jumps
    ns_t back = 0;     // how far the wall clock was set back
    if (jumps)
        jumper = spawn("jumper", [&] {
            while (true) {
                { NoPreempt np; if (w.stop) return; }
                nap(gen(2000) * ms);
                ns_t j = gen(4) ? (ns_t)gen(20000) * ms : (ns_t)gen(100000) * sec;
                if (gen(2)) j = -j;
                if (calm) return;
                if (j < 0) back -= j;
                count_fault("wall-clock jump");
                wall_jump(j);
            }
        }, new_proc("clock"));
    // the monitor
    w.monitor_proc = new_proc("monitor");
    Thread mon;
    ns_t mon_start = 0;
    int active_monitors = 0;
    auto start_monitor = [&] {
        mon_start = now();
        event("monitor starts");
        mon = spawn("monitor", [&] {
            try {
                Monitor m(w.id, self_destruct, false, false, w.timeout / ms, 100, true, false);
                { NoPreempt np; SIM_CHECK(++active_monitors == 1, "two-monitors", "two monitors of a session run at the same time"); w.monitor_up = true; event("monitor runs"); }
                m.CatchSignals();
                m.Run();
                NoPreempt np;
                event("monitor returns");
                if (!terminate)
                    for (auto& x : w.d)
                        if (!x.other && x.up && !x.crashed && now() - x.since > 500 * ms + 2 * (stall_total() - x.since_stall))
                            violation("ends-too-early", "the self-destructing monitor ends although " + x.name + " is alive for " + to_string((now() - x.since) / ms) + " ms");
                w.monitor_up = false;
                --active_monitors;
            } catch (Monitor::DaemonPresent&) {
                violation("no-monitor", "the monitor refused to start although there is no other one");
            }
        }, w.monitor_proc);
    };
    bool late_monitor = !self_destruct && gen(3) == 0;
    if (!late_monitor) start_monitor();
    // a second one
    Thread rival;
    if (gen(3) == 0)
        rival = spawn("rival", [&] {
            nap(gen(5000) * ms);
            bool before, after = false, ran = false;
            { NoPreempt np; before = w.monitor_up && !terminate && !self_destruct; }
            if (!before) return;
            try {
                Monitor m(w.id, false, false, false, w.timeout / ms, 100, true, false);
                { NoPreempt np; after = w.monitor_up; ran = true; }
                SIM_CHECK(!(before && after), "two-monitors", "a second monitor of the session was accepted");
            } catch (Monitor::DaemonPresent&) { probe("second monitor refused"); }
            (void)ran;
        }, new_proc("rival"));
    // devices
    auto device = [&](Dev& x) {
        return [&w, &x, hold = gen(8) == 0] {
            Piece keep_alive;
            nap(gen(2) ? gen(30) * us : gen(500) * ms);
            { NoPreempt np; if (x.crashed) return; x.begun = x.creating = true; event(x.name + " starts"); }
            fair::mq::ProgOptions cfg;
            configure(cfg, x.other ? "t" : "s", 200000, gen(4) == 0 ? 1 : 0);
            vector<UnmanagedRegionPtr> regs;
            vector<MessagePtr> msgs;
            try {
                x.f = TransportFactory::CreateTransportFactory("shmem", x.name, &cfg);
                if (!x.other) { // the oracle looks at the heartbeats of the session
                    auto seg = make_unique<bi::managed_shared_memory>(bi::open_only, (w.pre.substr(1) + "mng").c_str());
                    auto* hb = seg->find_or_construct<fair::mq::shmem::Heartbeat>(bi::unique_instance)(0);
                    NoPreempt np;
                    w.seg = std::move(seg);
                    w.hb = hb;
                    w.sample();
                    w.changed = now();
                }
                { NoPreempt np; x.creating = false; x.up = true; x.since = now(); x.since_stall = stall_total(); event(x.name + " started"); }
                int steps = gen(8);
                while (steps-- > 0) {
                    switch (gen(4)) {
                        case 0: nap(gen(3000) * ms); break;
                        case 1: msgs.push_back(x.f->CreateMessage(100 + gen(2000))); break;
                        case 2: {
                            fair::mq::RegionConfig rc;
                            rc.linger = 0;
                            rc.rcSegmentSize = gen(2) * 50000;
                            if (gen(4) == 0) rc.path = scratch_dir();
                            { NoPreempt np; x.creating = true; }
                            fair::mq::RegionCallback cb;
                            if (gen(2)) cb = [](void*, size_t, void*) {};
                            regs.push_back(x.f->CreateUnmanagedRegion(4096, cb, rc));
                            { NoPreempt np; x.creating = false; }
                            break;
                        }
                        case 3: if (!regs.empty()) regs.pop_back(); break;
                    }
                }
                if (hold) nap(100000 * sec);
            } catch (exception& e) { event(x.name + ": " + e.what()); }
            msgs.clear();
            regs.clear();
            { NoPreempt np; w.ends(x); x.up = false; event(x.name + " leaves"); }
            x.f.reset();
            NoPreempt np;
            x.gone = true;
            event(x.name + " left");
        };
    };
    int noth = gen(3) == 0 ? 1 + gen(2) : 0;
    bool ended = false;
    for (int g = 0; g < generations && !ended; ++g) {
        vector<Thread> ts;
        size_t first = w.d.size();
        { NoPreempt np; w.beaten = false; }
        int n = 1 + gen(3);
        for (int k = 0; k < n + (g == 0 ? noth : 0); ++k) {
            w.d.emplace_back();
            auto& x = w.d.back();
            x.other = k >= n;
            x.name = (x.other ? "other" : "device") + to_string(w.d.size() - 1);
            x.proc = new_proc(x.name);
            ts.push_back(spawn(x.name, device(x), x.proc));
        }
        // crashes at any point
        int ncrash = 1 + gen(n);
        while (ncrash-- > 0) {
            nap(gen(2) ? gen(60) * us : gen(3000) * ms);
            size_t k = first + gen(n);
            w.crash_now(w.d[k]);
        }
        ns_t t0 = now(), patience = gen(3) ? gen(8000) * ms : 20 * sec;
        while (now() - t0 < patience) {
            bool all = true;
            for (int k = 0; k < n; ++k) all = all && ts[k].done();
            if (all) break;
            nap(10 * ms);
        }
        for (int k = 0; k < n; ++k) w.crash_now(w.d[first + k]);
        for (int k = 0; k < n; ++k) while (!ts[k].done()) { w.d[first + k].crashed = true; crash(w.d[first + k].proc); nap(1 * ms); }
        event("all devices are gone");
        if (late_monitor && g == 0) { nap(gen(3000) * ms); start_monitor(); }
        // the monitor cleans up
        bool half = false, locked = false;
        for (auto& x : w.d) if (!x.other) { half = half || x.half; locked = locked || x.locked; }
        ns_t c0 = now(), s0 = stall_total();
        string mng = w.pre + "mng";
        bool was = w.left();
        if (was) probe("something to clean up");
        while (shm_exists(mng)) {
            if (self_destruct && mon.done()) { probe("session after the self-destruction"); break; }
            ns_t el = now() - c0 - 4 * (stall_total() - s0);
            if (el > w.timeout + 1000 * ms) {
                if (!w.beaten) { probe("no heartbeat was ever sent"); break; }
                violation(locked && waits_for_crashed(w.monitor_proc) ? "not-cleaned-after-crash-in-lock" : "not-cleaned-up", "the session is not cleaned up " + to_string((now() - c0) / ms) + " ms after its last device has crashed, the timeout is " + to_string(w.timeout / ms) + " ms\n" + thread_dump());
            }
            nap(10 * ms);
        }
        nap(50 * ms + 2 * (stall_total() - s0));
        if (shm_exists(mng)) { // a session without a heartbeat is not recognised
            EnterProc e(new_proc("tool"));
            { NoPreempt np; w.may_clean = true; }
            Monitor::Cleanup(fair::mq::shmem::ShmId{w.id}, false);
            NoPreempt np;
            w.may_clean = false;
        }
        vector<string> rest;
        for (auto& x : shm_names()) if (x.find(w.pre) != string::npos && x != "sem:" + w.pre.substr(1) + "ms" && x.find("_ms") == string::npos) rest.push_back(x);
        for (auto& f : filesystem::directory_iterator(scratch_dir()))
            if (f.path().filename().string().find("fmq_" + w.id) == 0) rest.push_back(f.path().string());
        if (!rest.empty()) violation(half ? "left-half-created" : "object-left", rest[0] + " is left after the session was cleaned up");
        if (was) probe("cleaned up");
        { NoPreempt np; w.hb = nullptr; w.last = 0; }
        if (half || locked) ended = true;
        nap(gen(2) ? gen(1000) * ms : gen(100) * us);
    }
    // the monitor ends; opening a management segment whose creator has crashed waits up to 300 s (of the wall clock)
    { NoPreempt np; calm = true; }
    ns_t extra = 0;
    for (auto& x : w.d) if (!x.other && x.half) extra = 300 * sec + back;
    ns_t e0 = now(), s0 = stall_total();
    if (!self_destruct) {
        NoPreempt np;
        terminate = true;
        event("SIGTERM");
        SIM_CHECK(deliver_signal(w.monitor_proc, SIGTERM), "no-handler", "the monitor does not handle SIGTERM");
    }
    bool in_time = true;
    while (!mon.done()) {
        if (now() - e0 > extra + (self_destruct && !w.seen ? 2 * w.timeout : 0) + 1500 * ms + 4 * (stall_total() - s0)) { in_time = false; break; }
        nap(10 * ms);
    }
    if (!in_time) violation("monitor-does-not-end", "the monitor does not end\n" + thread_dump());
    if (rival.id >= 0) rival.join();
    for (auto& x : shm_names()) SIM_CHECK(x.find(w.pre.substr(1)) == string::npos, "object-left", x + " is left after the monitor has ended");
    over = true;
    (void)over;
    { NoPreempt np; w.stop = true; }
    sampler.join();
    if (jumper.id >= 0) jumper.join();
    for (auto& x : w.d) if (x.other) w.crash_now(x);
}
