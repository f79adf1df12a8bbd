// C11: subscribers to region events are told of every region once, in order
#include "transport.h"
#include <fairmq/UnmanagedRegion.h>
#include <fairmq/shmem/Segment.h>
#include <fairmq/shmem/UnmanagedRegion.h>

using namespace tr;
using namespace std;
using fair::mq::RegionConfig;
using fair::mq::RegionEvent;
using fair::mq::RegionInfo;
using fair::mq::UnmanagedRegionPtr;

namespace {
struct Reg
{
    int proc = -1;
    uint64_t id = 0;
    size_t size = 0;
    int64_t flags = 0;
    bool created = false, filled = false, closing = false, destroying = false, destroyed = false;
    bool keep = false; // stays when its creator goes
    ns_t since = 0;
};
struct Told { int created = 0, destroyed = 0; };
struct Member // one transport
{
    unique_ptr<Proc> p;
    bool active = false;  // a subscription may deliver
    bool stable = false;  // subscribed and not about to unsubscribe
    bool gone = false;
    int local = 0, in_callback = 0, round = 0;
    map<pair<bool, uint64_t>, Told> told;
    ns_t busy = 0;        // time spent in callbacks
};
struct World
{
    bool shm = true;
    deque<Reg> reg;
    deque<Member> m;
    map<uint64_t, size_t> segments; // that must exist
    set<uint64_t> may_exist;        // segments being created
    bool slow = false;

    // the id given to a region automatically is learned from the first event that shows it (sizes are unique)
    Reg* find(const RegionInfo& i)
    {
        for (auto& r : reg) if (r.id == i.id) return &r;
        if (i.event == RegionEvent::created) for (auto& r : reg) if (r.id == 0 && r.size == i.size) { r.id = i.id; return &r; }
        return nullptr;
    }
    static string show(const RegionInfo& i) { return string(i.event == RegionEvent::created ? "created" : i.event == RegionEvent::destroyed ? "destroyed" : "local_only") + (i.managed ? " segment " : " region ") + to_string(i.id); }

    void callback(int k, const RegionInfo& i)
    {
        {
            NoPreempt np;
            auto& me = m[k];
            string what = me.p->name + " was told \"" + show(i) + "\"";
            event(what);
            SIM_CHECK(me.active, "event-after-unsubscribe", what + " although it is not subscribed");
            SIM_CHECK(me.in_callback == 0, "overlapping-events", what + " while another event was being delivered");
            SIM_CHECK(self_proc() == me.p->id, "harness", "callback in another process");
            ++me.in_callback;
            if (i.event == RegionEvent::local_only) {
                SIM_CHECK(!shm && ++me.local == 1, "double-event", what + " more than once");
            } else {
                auto& t = me.told[{i.managed, i.id}];
                Reg* r = nullptr;
                if (i.managed) SIM_CHECK(shm && (segments.count(i.id) || may_exist.count(i.id)), "invented-event", what + ", there is no such segment");
                else {
                    r = find(i);
                    SIM_CHECK(r, "invented-event", what + ", there is no such region");
                }
                if (i.event == RegionEvent::created) {
                    SIM_CHECK(++t.created == 1, "double-event", what + " twice");
                    SIM_CHECK(t.destroyed == 0, "wrong-order", what + " after its destruction");
                    if (r) {
                        SIM_CHECK(i.size == r->size, "wrong-size", what + " with a size of " + to_string(i.size) + " bytes instead of " + to_string(r->size));
                        SIM_CHECK(i.flags == r->flags, "wrong-flags", what + " with flags " + to_string(i.flags) + " instead of " + to_string(r->flags));
                    }
                    SIM_CHECK(i.size > 0 && i.ptr, "no-access", what + " without access to its memory");
                    if (r && r->filled && !r->destroying && !r->closing) {
                        uint64_t v;
                        memcpy(&v, i.ptr, 8);
                        SIM_CHECK(v == r->id * 0x9e3779b97f4a7c15ull, "no-access", what + ", but its memory shows another content");
                    }
                } else {
                    SIM_CHECK(!i.managed, "invented-event", what);
                    SIM_CHECK(t.created == 1, "wrong-order", what + " but never of its creation");
                    SIM_CHECK(++t.destroyed == 1, "double-event", what + " twice");
                    SIM_CHECK(r->destroying && !r->keep, "invented-event", what + ", but it still exists");
                }
            }
        }
        ns_t t = now();
        if (slow && gen(4) == 0) nap(gen(200) * ms);
        NoPreempt np;
        m[k].busy += now() - t;
        --m[k].in_callback;
    }
    // waits until everybody who is subscribed all the time was told
    void await(size_t index, bool created)
    {
        ns_t t0 = now(), s0 = stall_total();
        vector<pair<int, int>> who;
        vector<ns_t> b0;
        {
            NoPreempt np;
            for (int k = 0; k < (int)m.size(); ++k)
                if (m[k].stable && (shm || reg[index].proc == k)) { who.emplace_back(k, m[k].round); b0.push_back(m[k].busy); }
        }
        while (true) {
            bool open = false;
            {
                NoPreempt np;
                auto& r = reg[index];
                for (size_t q = 0; q < who.size(); ++q) {
                    auto& me = m[who[q].first];
                    if (!me.stable || me.round != who[q].second) continue;
                    auto it = me.told.find({false, r.id});
                    int c = it == me.told.end() ? 0 : it->second.created, d = it == me.told.end() ? 0 : it->second.destroyed;
                    if (created ? c : (d || (shm && !c))) continue;
                    open = true;
                    if (now() - t0 > 1 * sec + 3 * (stall_total() - s0) + 2 * (me.busy - b0[q]) + (slow ? 10 * sec : 0)) violation("late-event", me.p->name + " is not told of the " + (created ? "creation" : "destruction") + " of region " + to_string(r.id) + " within " + to_string((now() - t0) / ms) + " ms");
                }
            }
            if (!open) return;
            nap(5 * ms);
        }
    }
    // what member k does not know yet
    string missing(int k)
    {
        auto& me = m[k];
        for (auto& r : reg) {
            auto it = me.told.find({false, r.id});
            int c = it == me.told.end() ? 0 : it->second.created, d = it == me.told.end() ? 0 : it->second.destroyed;
            if (!shm && r.proc != k) continue;
            if (r.created && (!r.destroying || r.keep) && !c) return "the creation of region " + to_string(r.id);
            if (r.destroyed && !r.keep && (c || !shm) && !d) return "the destruction of region " + to_string(r.id);
        }
        if (shm) for (auto& [id, size] : segments) if (!me.told.count({true, id})) return "segment " + to_string(id);
        return "";
    }
    void check_list(int k, const vector<RegionInfo>& v, ns_t from)
    {
        NoPreempt np;
        map<pair<bool, uint64_t>, int> seen;
        string who = "the list of regions of " + m[k].p->name;
        for (auto& i : v) {
            SIM_CHECK((++seen[{i.managed, i.id}] == 1), "double-entry", who + " shows " + show(i) + " twice");
            if (i.managed) continue;
            Reg* r = find(i);
            SIM_CHECK(r, "invented-entry", who + " shows " + show(i));
            if (i.event == RegionEvent::created) SIM_CHECK(i.size == r->size && i.flags == r->flags && i.ptr, "wrong-entry", who + " shows " + show(i) + " with wrong properties");
            else SIM_CHECK(r->destroying && !r->keep, "wrong-entry", who + " shows " + show(i) + ", but it still exists");
        }
        for (auto& r : reg)
            if (r.created && r.since < from && !r.destroying && (shm || r.proc == k))
                SIM_CHECK(seen.count({false, r.id}), "missing-entry", who + " does not show region " + to_string(r.id));
    }
};
} // namespace

SIM_WORKLOAD(C11, events)
{
    World w;
    w.shm = gen(5) != 0;
    string transport = w.shm ? "shmem" : "zeromq";
    faults().stall = gen(3) == 0 ? 0.2 : 0;
    faults().stall_max = 100 * ms;
    faults().spurious_wakeup = gen(2) ? 0 : 0.2;
    limit_time(400 * sec);
    w.slow = gen(3) == 0;
    int nproc = w.shm ? 1 + gen(3) : 1;
    int next_id = 10;
    struct Kept { uint64_t id; size_t size; };
    vector<Kept> kept;
    // objects made by a tool before the session starts
    if (w.shm && gen(5) == 0) {
        EnterProc e(new_proc("tool"));
        string id = fair::mq::shmem::makeShmIdStr("s");
        if (gen(2)) {
            uint16_t n = 5 + gen(3);
            if (gen(2)) fair::mq::shmem::Segment(id, n, 100000, fair::mq::shmem::simpleSeqFit);
            else fair::mq::shmem::Segment(id, n, 100000, fair::mq::shmem::rbTreeBestFit);
            w.segments[n] = 100000;
        }
        if (gen(2)) {
            RegionConfig cfg;
            cfg.id = next_id++;
            cfg.removeOnDestruction = false;
            cfg.userFlags = gen(100);
            cfg.rcSegmentSize = gen(2) * 100000;
            size_t size = 1001 + 8 * gen(1000);
            fair::mq::shmem::UnmanagedRegion r(id, size, cfg);
            uint64_t v = *cfg.id * 0x9e3779b97f4a7c15ull;
            memcpy(r.GetData(), &v, 8);
            Reg x;
            x.id = *cfg.id; x.size = size; x.flags = cfg.userFlags; x.created = x.filled = x.keep = true;
            w.reg.push_back(x);
            kept.push_back({x.id, size});
        }
    }
    auto subscribe = [&](int k) {
        auto& me = w.m[k];
        { NoPreempt np; event(me.p->name + " subscribes"); me.active = true; }
        me.p->f->SubscribeToRegionEvents([&w, k](RegionInfo i) { w.callback(k, i); });
        SIM_CHECK(me.p->f->SubscribedToRegionEvents(), "not-subscribed", "a subscription is not reported");
        NoPreempt np;
        me.stable = true;
        ++me.round;
    };
    auto unsubscribe = [&](int k) {
        auto& me = w.m[k];
        { NoPreempt np; me.stable = false; }
        me.p->f->UnsubscribeFromRegionEvents();
        NoPreempt np;
        event(me.p->name + " has unsubscribed");
        SIM_CHECK(me.in_callback == 0, "event-after-unsubscribe", "unsubscribing returned while an event was being delivered");
        me.active = false;
    };
    for (int k = 0; k < nproc; ++k) w.m.emplace_back();
    vector<int> leaves(nproc, 0);
    int working = nproc;
    vector<Thread> procs;
    for (int k = 0; k < nproc; ++k) {
        auto& me = w.m[k];
        me.p = make_unique<Proc>();
        me.p->name = "device" + to_string(k);
        me.p->id = new_proc(me.p->name);
        me.p->segment = gen(2) ? k : 0;
        leaves[k] = k > 0 && gen(3) == 0;
        bool late = k > 0 && gen(2);
        auto start = [&w, &me, transport] {
            me.p->cfg = make_unique<fair::mq::ProgOptions>();
            configure(*me.p->cfg, "s", 500000, me.p->segment); vary(*me.p->cfg, true);
            { NoPreempt np; w.may_exist.insert(me.p->segment); }
            me.p->f = TransportFactory::CreateTransportFactory(transport, me.p->name, me.p->cfg.get());
            NoPreempt np;
            w.segments[me.p->segment] = 1;
        };
        if (!late) { EnterProc e(me.p->id); start(); }
        procs.push_back(spawn(me.p->name, [&, k, late, start] {
            auto& me = w.m[k];
            if (late) { nap(gen(400) * ms); start(); }
            auto& f = *me.p->f;
            bool subs = gen(4) != 0;
            if (subs && gen(2)) subscribe(k);
            vector<Thread> ths;
            // creators of regions
            int ncreators = gen(3);
            for (int c = 0; c < ncreators; ++c)
                ths.push_back(spawn("creator" + to_string(k) + to_string(c), [&, k] {
                    struct Mine { UnmanagedRegionPtr r; size_t index; };
                    vector<Mine> mine;
                    auto destroy = [&](size_t i) {
                        Reg* x;
                        { NoPreempt np; x = &w.reg[mine[i].index]; x->closing = true; x->destroying = !x->keep; event("destroy region " + to_string(x->id)); }
                        mine[i].r.reset();
                        { NoPreempt np; x->destroyed = true; x->since = now(); if (x->keep) kept.push_back({x->id, x->size}); event("destroyed region " + to_string(x->id)); }
                        size_t index = mine[i].index;
                        mine.erase(mine.begin() + i);
                        if (!x->keep && gen(4) == 0) w.await(index, false);
                    };
                    int n = 1 + gen(6);
                    while (n-- > 0) {
                        RegionConfig cfg;
                        Reg* x = nullptr;
                        size_t index = 0;
                        bool reopened = false;
                        cfg.linger = gen(2) * 20;
                        cfg.rcSegmentSize = gen(2) * 50000;
                        {
                            NoPreempt np;
                            if (w.shm && !kept.empty() && gen(2)) { // opens a region left by somebody else
                                int i = gen(kept.size());
                                cfg.id = kept[i].id;
                                kept.erase(kept.begin() + i);
                                for (size_t q = 0; q < w.reg.size(); ++q) if (w.reg[q].id == *cfg.id) index = q;
                                x = &w.reg[index];
                                cfg.removeOnDestruction = false;
                                reopened = true;
                            } else {
                                index = w.reg.size();
                                w.reg.emplace_back();
                                x = &w.reg.back();
                                x->proc = k;
                                x->size = 100 + 8 * index + (gen(4) ? 0 : 4096 * 8);
                                x->flags = gen(3) ? (int64_t)gen(1000) : 0;
                                if (w.shm && gen(3) == 0) { cfg.id = next_id++; x->id = *cfg.id; }
                                if (w.shm && gen(6) == 0) { x->keep = true; cfg.removeOnDestruction = false; }
                                else if (w.shm && gen(4) == 0) cfg.path = scratch_dir();
                            }
                        }
                        size_t size = x->size;
                        fair::mq::RegionCallback cb;
                        if (gen(2)) cb = [](void*, size_t, void*) {};
                        cfg.userFlags = x->flags;
                        UnmanagedRegionPtr r;
                        r = f.CreateUnmanagedRegion(size, cb, cfg);
                        {
                            NoPreempt np;
                            SIM_CHECK(x->id == 0 || x->id == r->GetId(), "wrong-id", "a region was announced with id " + to_string(x->id) + " but has the id " + to_string(r->GetId()));
                            for (auto& y : w.reg) SIM_CHECK(&y == x || y.id != r->GetId(), "duplicate-id", "two regions have the id " + to_string(r->GetId()));
                            x->id = r->GetId();
                            SIM_CHECK(!cfg.id || *cfg.id == x->id, "wrong-id", "a region has not the requested id");
                            SIM_CHECK(r->GetSize() == size, "wrong-size", "a region has not the requested size");
                            if (reopened) {
                                uint64_t v;
                                memcpy(&v, r->GetData(), 8);
                                SIM_CHECK(v == x->id * 0x9e3779b97f4a7c15ull, "content-lost", "region " + to_string(x->id) + " lost its content when it was opened again");
                            } else {
                                uint64_t v = x->id * 0x9e3779b97f4a7c15ull;
                                memcpy(r->GetData(), &v, 8);
                                x->filled = x->created = true;
                                x->since = now();
                            }
                            event("region " + to_string(x->id) + (reopened ? " opened again" : " created") + " by device" + to_string(k));
                            mine.push_back({std::move(r), index});
                        }
                        if (!reopened && gen(4) == 0) w.await(index, true);
                        if (gen(2)) nap(gen(150) * ms);
                        while (!mine.empty() && gen(2)) { destroy(gen(mine.size())); if (gen(2)) nap(gen(80) * ms); }
                    }
                    if (leaves[k]) while (!mine.empty()) destroy(0);
                    if (gen(2)) while (!mine.empty()) { nap(gen(300) * ms); destroy(0); }
                    nap(gen(500) * ms);
                    // the rest stays until everybody else was told
                    { NoPreempt np; --working; }
                    while (!mine.empty() && !leaves[k]) {
                        bool all;
                        { NoPreempt np; all = working <= 0; }
                        if (all) break;
                        nap(20 * ms);
                    }
                    nap(gen(2) * 400 * ms);
                    while (!mine.empty()) destroy(0);
                }, me.p->id));
            { NoPreempt np; working += ncreators; --working; }
            if (gen(3) == 0) // messages are made at the same time
                ths.push_back(spawn("traffic" + to_string(k), [&] {
                    int n = 5 + gen(20);
                    while (n-- > 0) { auto m = f.CreateMessage(100 + gen(2000)); if (gen(3) == 0) nap(gen(30) * ms); }
                }, me.p->id));
            if (gen(3) == 0)
                ths.push_back(spawn("lister" + to_string(k), [&, k] {
                    int n = 1 + gen(5);
                    while (n-- > 0) { nap(gen(200) * ms); ns_t t = now(); w.check_list(k, f.GetRegionInfo(), t); }
                }, me.p->id));
            int n = subs ? gen(4) : 0;
            while (n-- > 0) {
                nap(gen(300) * ms);
                if (!me.active) subscribe(k);
                else if (gen(4) == 0) subscribe(k);
                else unsubscribe(k);
            }
            if (subs && !me.active) subscribe(k);
            if (leaves[k]) {
                for (auto& t : ths) t.join();
                if (me.active && gen(2)) unsubscribe(k);
                { NoPreempt np; me.gone = true; me.stable = false; }
                me.p->f.reset();
                NoPreempt np;
                me.active = false;
                return;
            }
            for (auto& t : ths) t.join();
        }, me.p->id));
    }
    for (auto& t : procs) t.join();
    // everybody learns the rest
    for (int k = 0; k < nproc; ++k) {
        auto& me = w.m[k];
        if (!me.stable) continue;
        ns_t t0 = now(), s0 = stall_total(), b0 = me.busy;
        while (true) {
            string miss;
            { NoPreempt np; miss = w.missing(k); }
            if (miss.empty()) break;
            if (now() - t0 > 1 * sec + 3 * (stall_total() - s0) + 2 * (me.busy - b0) + (w.slow ? 10 * sec : 0)) violation("missed-event", me.p->name + " is not told " + miss);
            nap(10 * ms);
        }
    }
    nap(300 * ms);
    for (int k = 0; k < nproc; ++k) {
        auto& me = w.m[k];
        if (me.gone) continue;
        EnterProc e(me.p->id);
        if (me.active && gen(2)) unsubscribe(k);
        me.p->f.reset();
        me.active = false;
    }
}
