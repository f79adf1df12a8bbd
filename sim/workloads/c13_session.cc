// C13: devices of a session start and leave concurrently
#include "transport.h"
#include <fairmq/UnmanagedRegion.h>
#include <fairmq/shmem/Common.h>
#include <filesystem>
#include <unistd.h>

using namespace tr;
using namespace std;
using fair::mq::UnmanagedRegionPtr;

namespace {
struct Session
{
    string name, id;
    bool keep = false;    // --shm-no-cleanup
    bool dirty = false;   // parts of a failed start may be left
    bool cleaning = false;
    bool broken = false;  // several failures at once: nothing is promised about what they leave
    int failing = 0;      // starts with faults under way
    int inside = 0;       // members starting, working or leaving
    int generation = 0;
    int next_region = 0;
};
struct Member
{
    unique_ptr<Proc> p;
    string name;
    Session* s = nullptr;
    bool up = false; // started and not about to leave
    int pins = 0;
    int life = 0;
    set<string> needs;
};
vector<string> files()
{
    vector<string> r;
    for (auto& f : filesystem::directory_iterator(scratch_dir())) r.push_back(f.path().string());
    return r;
}
vector<string> names()
{
    auto r = shm_names();
    for (auto& f : files()) r.push_back(f);
    return r;
}
bool exists(const string& n) { return n.find(scratch_dir()) == 0 ? access(n.c_str(), F_OK) == 0 : shm_exists(n); }
struct World
{
    deque<Session> s;
    deque<Member> m;
    int next_address = 1, next_message = 1;

    static bool of(const string& name, const Session& s) { return name.find("fmq_" + s.id + "_") != string::npos; }
    // nothing of a working member may disappear
    void present(const string& when)
    {
        NoPreempt np;
        for (auto& x : m)
            if (x.up)
                for (auto& n : x.needs)
                    SIM_CHECK(exists(n), "object-vanished", when + ": " + n + " does not exist while " + x.name + " is working");
    }
    void clean(Session& s)
    {
        event("session " + s.name + " is cleaned up");
        fair::mq::shmem::Monitor::Cleanup(fair::mq::shmem::SessionId{s.name}, false);
        NoPreempt np;
        for (auto& n : names()) SIM_CHECK(s.broken || !of(n, s), "object-left", n + " is left after the cleanup of session " + s.name);
        s.dirty = s.cleaning = false;
        probe("cleaned up");
    }
    void left(Session& s)
    {
        NoPreempt np;
        if (--s.inside) return;
        ++s.generation;
        probe("session ended");
        if (s.keep || s.broken) return;
        bool any = false;
        string mng = "/fmq_" + s.id + "_mng";
        for (auto& n : names()) {
            if (!of(n, s)) continue;
            // what could not be created completely has to be cleaned up with the tool
            SIM_CHECK(s.dirty && n == mng, "object-left", n + " is left after the last device of session " + s.name + " has gone");
            any = true;
        }
        s.dirty = any;
    }
};
} // namespace

static uint64_t shm_faults() { return fault_count("shm-open-fails") + fault_count("shm-truncate-fails") + fault_count("shm-full") + fault_count("mmap-fails") + fault_count("mlock-fails"); }

SIM_WORKLOAD(C13, session)
{
    World w;
    faults().stall = gen(3) == 0 ? 0.2 : 0;
    faults().stall_max = 100 * ms;
    faults().spurious_wakeup = gen(2) ? 0 : 0.1;
    double fail = gen(3) == 0 ? 0.02 + 0.01 * gen(20) : 0;
    limit_time(20000 * sec); // who finds an object whose creation failed waits for up to 5 minutes
    int nsessions = 1 + (gen(4) == 0);
    for (int i = 0; i < nsessions; ++i) {
        w.s.emplace_back();
        auto& s = w.s.back();
        s.name = i ? "other" : "s";
        s.id = fair::mq::shmem::makeShmIdStr(s.name);
        s.keep = gen(8) == 0;
    }
    int n = 2 + gen(3);
    for (int k = 0; k < n; ++k) { w.m.emplace_back(); w.m.back().name = "device" + to_string(k); w.m.back().s = &w.s[gen(nsessions)]; }
    bool tight = gen(2);
    vector<Thread> procs;
    for (int k = 0; k < n; ++k) {
        int pid = new_proc(w.m[k].name);
        procs.push_back(spawn(w.m[k].name, [&, k] {
            auto& me = w.m[k];
            auto& s = *me.s;
            int rounds = 1 + gen(4);
            while (rounds-- > 0) {
                if (gen(3)) nap(tight ? gen(500) * us : gen(300) * ms);
                me.p = make_unique<Proc>();
                me.p->name = me.name;
                me.p->id = self_proc();
                me.p->cfg = make_unique<fair::mq::ProgOptions>();
                int seg = gen(4) == 0 ? gen(4) : 0;
                configure(*me.p->cfg, s.name, 200000 + 100000 * gen(2), seg);
                if (s.keep) me.p->cfg->SetProperty<bool>("shm-no-cleanup", true);
                if (gen(4) == 0) me.p->cfg->SetProperty<string>("shm-allocation", gen(2) ? "simple_seq_fit" : "rbtree_best_fit");
                if (gen(6) == 0) me.p->cfg->SetProperty<bool>("shm-zero-segment-on-creation", true);
                vary(*me.p->cfg, true);
                bool failing = fail > 0 && gen(2), several = failing && gen(4) == 0, ok = true, clean = false;
                while (true) {
                    {
                        NoPreempt np;
                        clean = s.dirty && !s.inside && !s.cleaning;
                        if (clean) s.cleaning = true;
                        if (!s.cleaning) break;
                    }
                    if (clean) w.clean(s);
                    nap(1 * ms);
                }
                { NoPreempt np; ++s.inside; event(me.name + " starts in session " + s.name); if (failing) ++s.failing; }
                uint64_t f0 = shm_faults();
                string why;
                if (failing) { if (several) s.broken = true; fail_shm_here(fail, several ? 0 : 1); }
                try {
                    me.p->f = TransportFactory::CreateTransportFactory("shmem", me.name, me.p->cfg.get());
                } catch (exception& e) { ok = false; why = e.what(); }
                fail_shm_here(0);
                uint64_t f1 = shm_faults();
                bool unsure;
                {
                    NoPreempt np;
                    event(me.name + (ok ? " started" : " failed to start: " + why));
                    unsure = s.failing || s.dirty || s.broken;
                    if (failing) --s.failing;
                    if (f1 != f0 && !ok) s.dirty = true;
                }
                if (!ok) {
                    probe("start failed");
                    { NoPreempt np; SIM_CHECK(f1 != f0 || unsure, "start-failed", me.name + " could not start: " + why); }
                    w.present("after a failed start");
                    me.p.reset();
                    w.left(s);
                    continue;
                }
                {
                    NoPreempt np;
                    string pre = "/fmq_" + s.id + "_";
                    me.needs = {pre + "mng", pre + "m_" + to_string(seg)};
                    me.up = true;
                    ++me.life;
                }
                w.present("after a start");
                vector<UnmanagedRegionPtr> regs;
                if (gen(4) == 0) me.p->f->SubscribeToRegionEvents([](fair::mq::RegionInfo i) { event("region event " + to_string(i.id)); }); // ended by leaving
                int steps = gen(tight ? 3 : 6);
                while (steps-- > 0) {
                    switch (gen(6)) {
                        case 0: nap(tight ? gen(500) * us : gen(200) * ms); break;
                        case 1: {
                            fair::mq::RegionConfig cfg;
                            cfg.linger = 0;
                            cfg.rcSegmentSize = gen(2) * 50000;
                            cfg.lock = gen(4) == 0;
                            cfg.zero = gen(4) == 0;
                            if (gen(2)) { NoPreempt np; cfg.id = 1 + s.next_region++; }
                            fair::mq::RegionCallback cb;
                            if (gen(2)) cb = [](void*, size_t, void*) {};
                            bool file = gen(4) == 0;
                            if (file) cfg.path = scratch_dir();
                            bool rf = fail > 0 && gen(2);
                            uint64_t f0 = shm_faults();
                            if (rf) fail_shm_here(0.1 + 0.1 * gen(4), 1);
                            string why;
                            try {
                                regs.push_back(me.p->f->CreateUnmanagedRegion(4096, cb, cfg));
                            } catch (exception& e) { why = e.what(); }
                            fail_shm_here(0);
                            if (!why.empty()) {
                                SIM_CHECK(shm_faults() != f0, "region-failed", me.name + " could not create a region: " + why);
                                event(me.name + " failed to create a region: " + why);
                                probe("region failed");
                                w.present("after a failed region");
                                try {
                                    regs.push_back(me.p->f->CreateUnmanagedRegion(4096, cb, cfg));
                                } catch (exception& e) { violation("region-failed", me.name + " could not create a region after a failed attempt: " + e.what()); }
                            }
                            NoPreempt np;
                            me.needs.insert((file ? scratch_dir() : "/") + "fmq_" + s.id + "_rg_" + to_string(regs.back()->GetId()));
                            break;
                        }
                        case 2: {
                            if (regs.empty()) break;
                            { NoPreempt np; string n = "fmq_" + s.id + "_rg_" + to_string(regs.back()->GetId()); me.needs.erase("/" + n); me.needs.erase(scratch_dir() + n); }
                            regs.pop_back();
                            break;
                        }
                        case 3: { // look at all regions, which opens those of others
                            auto infos = me.p->f->GetRegionInfo();
                            for (auto& r : regs) {
                                bool found = false;
                                for (auto& i : infos) found = found || (!i.managed && i.id == r->GetId() && i.event == fair::mq::RegionEvent::created && i.ptr);
                                SIM_CHECK(found, "region-unknown", me.name + " does not find its region " + to_string(r->GetId()));
                            }
                            probe("looked at regions");
                            break;
                        }
                        default: { // messages to another member
                            Member* to = nullptr;
                            {
                                NoPreempt np;
                                vector<Member*> c;
                                for (auto& x : w.m) if (&x != &me && x.up && x.s == &s) c.push_back(&x);
                                if (c.empty()) break;
                                to = c[gen(c.size())];
                                ++to->pins;
                            }
                            string addr = "ipc://x" + to_string(w.next_address++);
                            int count = 1 + gen(3);
                            vector<Piece> ps;
                            for (int i = 0; i < count; ++i) { Piece c; c.id = w.next_message++; c.len = 8 + gen(1300); ps.push_back(c); }
                            auto reg = regs.empty() || gen(2) ? nullptr : &regs[gen(regs.size())]; // from a region of its own
                            Channel out("x", "push", "bind", addr, me.p->f);
                            out.BindEndpoint(addr);
                            auto rx = spawn("to_" + to->name, [&, to] {
                                Channel in("x", "pull", "connect", addr, to->p->f);
                                in.ConnectEndpoint(addr);
                                for (auto& c : ps) {
                                    auto m = to->p->f->CreateMessage();
                                    auto r = in.Receive(m, 20000);
                                    SIM_CHECK(r >= 0, "not-exchanged", to->name + " did not receive a message from " + me.name + ": " + to_string(r));
                                    SIM_CHECK(matches(*m, c), "not-exchanged", to->name + " received " + describe(*m) + " instead of " + describe(c) + " from " + me.name);
                                }
                                probe("exchanged");
                            }, to->p->id);
                            char* at = reg ? static_cast<char*>((*reg)->GetData()) : nullptr;
                            if (reg) probe("sent from a region");
                            for (auto& c : ps) {
                                auto m = reg ? me.p->f->CreateMessage(*reg, at, c.len, nullptr) : me.p->f->CreateMessage(c.len);
                                at += reg ? c.len : 0;
                                fill(m->GetData(), c);
                                auto r = out.Send(m, 20000);
                                SIM_CHECK(r >= 0, "not-exchanged", me.name + " could not send to " + to->name + ": " + to_string(r));
                            }
                            rx.join();
                            NoPreempt np;
                            --to->pins;
                            break;
                        }
                    }
                    w.present("during work");
                }
                while (!regs.empty()) {
                    { NoPreempt np; string n = "fmq_" + s.id + "_rg_" + to_string(regs.back()->GetId()); me.needs.erase("/" + n); me.needs.erase(scratch_dir() + n); }
                    regs.pop_back();
                }
                { NoPreempt np; me.up = false; event(me.name + " leaves"); }
                while (true) { { NoPreempt np; if (!me.pins) break; } nap(1 * ms); }
                w.present("before a member leaves");
                me.p->f.reset();
                event(me.name + " left");
                w.present("after a member left");
                me.p.reset();
                w.left(s);
            }
        }, pid));
    }
    for (auto& t : procs) t.join();
    for (auto& s : w.s) {
        SIM_CHECK(s.inside == 0, "harness", "somebody is left");
        EnterProc e(new_proc("tool"));
        if (s.keep && s.generation && !s.dirty && !s.broken) SIM_CHECK(shm_exists("/fmq_" + s.id + "_mng"), "object-vanished", "session " + s.name + " was removed in spite of shm-no-cleanup");
        w.clean(s);
        if (s.broken) continue;
        // and it can be used again
        auto p = make_proc("last", "shmem", 0, 300000, s.name);
        auto m = p->f->CreateMessage(1000);
        SIM_CHECK(m->GetSize() == 1000, "not-usable", "no message in a new session");
        m.reset();
        drop_proc(*p);
        ++s.inside;
        s.keep = false;
        w.left(s);
    }
}
