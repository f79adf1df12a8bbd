// C10: every block of an unmanaged region is acknowledged exactly once, after its last use
#include "transport.h"
#include <fairmq/UnmanagedRegion.h>

using namespace tr;
using namespace std;
using fair::mq::RegionBlock;
using fair::mq::RegionConfig;
using fair::mq::UnmanagedRegionPtr;

namespace {
struct Use // one use of a block
{
    int region = 0, block = 0;
    void* ptr = nullptr;
    set<size_t> sizes;
    int live = 0; // message objects and messages in flight
    bool acked = false;
    bool remote = false; // the last release happened outside of the process of the owner
    ns_t released = -1, stall = 0;
};
struct Region
{
    UnmanagedRegionPtr r;
    bool bulk = false, callback = true, destroyed = false, destroying = false;
    int slow = 0; // callbacks take up to this many ms
    vector<bool> busy;
    vector<int> uses;
    int block_size = 0;
    ns_t quiet_since = 0;
};
struct World
{
    bool shm = true, stalls = false;
    deque<Use> use; // id = index + 1
    deque<Region> reg;
    ns_t cb_time = 0;
    vector<pair<MessagePtr, int>> in_callback; // messages released by callbacks
    bool slow = false;

    Use& of(int id) { NoPreempt np; return use[id - 1]; } // (the table grows)
    Piece piece(int id, size_t n) { NoPreempt np; return Piece{id, n, (size_t)reg[of(id).region].block_size}; }
    bool known(int id) { NoPreempt np; return id > 0 && id <= (int)use.size(); }
    void take(int id) { NoPreempt np; ++of(id).live; event("take #" + to_string(id)); }
    void released(int id, bool remote) // called right before a message object goes away
    {
        NoPreempt np;
        auto& u = of(id);
        SIM_CHECK(u.live > 0, "harness", "count");
        event("release #" + to_string(id) + (remote ? " remote" : ""));
        if (--u.live == 0) { u.remote = remote; u.released = now(); u.stall = stall_total(); }
    }
    void drop(MessagePtr m, int id, bool remote) { released(id, remote); m.reset(); }
    void ack(int ri, void* ptr, size_t size, void* hint)
    {
        auto& r = reg[ri];
        string what = "region " + to_string(ri) + ": the callback";
        {
            NoPreempt np;
            int id = (int)(intptr_t)hint;
            SIM_CHECK(!r.destroyed, "ack-after-destruction", what + " reported a block after the region was destroyed");
            SIM_CHECK(id > 0 && id <= (int)use.size() && of(id).region == ri, "invented-ack", what + " reported a block that was not sent (hint " + to_string(id) + ")");
            auto& u = of(id);
            SIM_CHECK(!u.acked, "double-ack", what + " reported block #" + to_string(id) + " twice");
            SIM_CHECK(u.ptr == ptr, "wrong-block", what + " reported another address for block #" + to_string(id));
            SIM_CHECK(u.sizes.count(size), "wrong-block", what + " reported " + to_string(size) + " bytes for block #" + to_string(id));
            SIM_CHECK(u.live == 0 || !shm, "early-ack", what + " reported block #" + to_string(id) + " while " + to_string(u.live) + " messages still use it");
            u.acked = true;
            if (shm) memset(ptr, 0xee, 8); // the owner uses the block again
            r.busy[u.block] = false;
            event("ack #" + to_string(id));
            if (shm && !slow && !r.destroying) {
                ns_t lag = now() - u.released, limit = 700 * ms + (stall_total() - u.stall) * 2;
                if (lag > limit) violation("late-ack", "block #" + to_string(id) + " was reported only " + to_string(lag / us) + " us after its release");
            }
        }
    }
};
} // namespace

SIM_WORKLOAD(C10, regions)
{
    World w;
    w.shm = gen(8) != 0;
    string transport = w.shm ? "shmem" : "zeromq";
    w.stalls = gen(3) == 0;
    faults().stall = w.stalls ? 0.2 : 0;
    faults().stall_max = 50 * ms;
    faults().eintr = gen(2) ? 0 : 0.2;
    faults().spurious_wakeup = gen(2) ? 0 : 0.1;
    faults().net_delay_max = 50 * us << gen(8);
    limit_time(4000 * sec);
    int nrecv = gen(3); // receivers: 0 = only local use
    bool chain = nrecv == 2 && gen(2); // receiver 0 forwards to receiver 1
    bool flood = gen(40) == 0; // acknowledgements pile up: the callback blocks for a long time
    ns_t flood_time = (gen(2) ? 700 : 950) * sec;
    auto owner = make_proc("owner", transport);
    vector<unique_ptr<Proc>> rp;
    for (int i = 0; i < nrecv; ++i) rp.push_back(make_proc("receiver" + to_string(i), transport, gen(3) == 0 ? i + 1 : 0));
    size_t free0 = w.shm ? free_memory(0) : 0;
    // regions
    int nreg = 1 + gen(2);
    bool nested = nreg == 2 && gen(2); // callbacks of region 0 release messages of region 1
    {
        EnterProc e(owner->id);
        for (int i = 0; i < nreg; ++i) {
            w.reg.emplace_back();
            auto& r = w.reg.back();
            r.bulk = gen(2);
            r.block_size = 16 + 8 * gen(20);
            int blocks = flood ? 3000 : 4 + gen(40);
            r.busy.assign(blocks, false);
            r.slow = flood ? 0 : gen(5) == 0 ? 1 + gen(60) : 0;
            if (r.slow || flood) w.slow = true;
            RegionConfig cfg;
            static const uint64_t rc[] = {0, 100000, 200000, 20000, 1000000};
            cfg.rcSegmentSize = rc[gen(5)];
            static const uint32_t li[] = {0, 1, 100, 100, 500};
            cfg.linger = li[gen(5)];
            if (gen(3) == 0) cfg.id = 7 + i;
            cfg.zero = gen(4) == 0;
            cfg.lock = false;
            if (gen(4) == 0) cfg.path = scratch_dir();
            auto begin = [&w, i, flood, flood_time] {
                auto& r = w.reg[i];
                if (r.slow && gen(4) == 0) { ns_t t = gen(r.slow) * ms; nap(t); NoPreempt np; w.cb_time += t; }
                if (flood) { NoPreempt np; if (w.cb_time == 0) { w.cb_time = flood_time; } else return; }
                if (flood) nap(flood_time);
            };
            auto end = [&w, i, nested, &owner] {
                if (!nested || i != 0) return;
                MessagePtr m;
                int id = 0;
                { NoPreempt np; if (!w.in_callback.empty()) { m = std::move(w.in_callback.back().first); id = w.in_callback.back().second; w.in_callback.pop_back(); } }
                if (m) w.drop(std::move(m), id, false);
            };
            fair::mq::RegionCallback single = [&w, i, begin, end](void* p, size_t n, void* h) { begin(); w.ack(i, p, n, h); end(); };
            fair::mq::RegionBulkCallback bulk = [&w, i, begin, end](const vector<RegionBlock>& v) { begin(); for (auto& b : v) w.ack(i, b.ptr, b.size, b.hint); end(); };
            size_t size = r.block_size * blocks;
            if (r.bulk) r.r = gen(2) ? owner->f->CreateUnmanagedRegion(size, bulk, cfg) : owner->f->CreateUnmanagedRegion(size, bulk, "", 0, cfg);
            else r.r = gen(2) ? owner->f->CreateUnmanagedRegion(size, single, cfg) : owner->f->CreateUnmanagedRegion(size, single, "", 0, cfg);
            SIM_CHECK(r.r->GetSize() == size && r.r->GetData(), "region-size", "a region has another size than requested");
        }
    }
    // channels: owner -> receiver i, and receiver 0 -> receiver 1
    struct Link { unique_ptr<Channel> out, in; int sent = 0, got = 0; };
    vector<Link> links(nrecv + (chain ? 1 : 0));
    for (size_t i = 0; i < links.size(); ++i) {
        Proc* from = (int)i < nrecv ? owner.get() : rp[0].get();
        Proc* to = (int)i < nrecv ? rp[i].get() : rp[1].get();
        { EnterProc e(from->id); links[i].out = make_unique<Channel>("o" + to_string(i), "push", from->f); links[i].out->GetSocket().SetSndBufSize(1 + gen(20)); SIM_CHECK(links[i].out->Bind("ipc://l" + to_string(i)), "harness", "bind"); }
        { EnterProc e(to->id); links[i].in = make_unique<Channel>("i" + to_string(i), "pull", to->f); links[i].in->GetSocket().SetRcvBufSize(1 + gen(20)); SIM_CHECK(links[i].in->Connect("ipc://l" + to_string(i)), "harness", "connect"); }
    }
    bool parts = gen(3) == 0;
    int producing = 0;
    bool forwarding = chain;
    // what a holder of messages does with them
    auto shrink = [&](MessagePtr& m, int id) {
        size_t n = m->GetSize();
        if (n <= 8 || !w.shm) return;
        size_t k = 8 + gen(n - 8);
        { NoPreempt np; w.of(id).sizes.insert(k); }
        SIM_CHECK(m->SetUsedSize(k), "shrink-refused", "reducing the used size of a region message failed");
    };
    auto copy = [&](TransportFactory& f, MessagePtr& m, int id) -> MessagePtr {
        auto c = gen(2) ? f.CreateMessage() : f.CreateMessage(10);
        w.take(id);
        try { c->Copy(*m); } catch (fair::mq::RefCountBadAlloc&) { probe("refcount-bad-alloc"); w.released(id, false); return nullptr; }
        return c;
    };
    auto send = [&](Link& l, vector<MessagePtr> ms) { // moves the message's share into the channel
        fair::mq::Parts p;
        bool as_parts = parts;
        if (as_parts) { for (auto& m : ms) p.AddPart(std::move(m)); SIM_CHECK(l.out->Send(p, -1) >= 0, "transfer-error", "send failed"); }
        else SIM_CHECK(l.out->Send(ms[0], -1) >= 0, "transfer-error", "send failed");
        NoPreempt np;
        ++l.sent;
    };
    struct Loose { MessagePtr m; intptr_t id; int* open; };
    vector<Loose> loose; // messages of short-lived regions of the owner, dropped by the producers
    vector<Thread> ths;
    int nthreads = 1 + gen(2);
    int per_thread = flood ? 1500 : 3 + gen(30);
    bool immediate = gen(3) == 0; // destroy right after the last local release
    // producers; the channels are used by the first one only
    for (int t = 0; t < nthreads; ++t) {
        ++producing;
        ths.push_back(spawn("producer" + to_string(t), [&, t] {
            auto& f = *owner->f;
            deque<pair<MessagePtr, int>> held;
            for (int k = 0; k < per_thread; ++k) {
                int ri = flood ? 0 : gen(nreg);
                auto& r = w.reg[ri];
                int n = parts ? 1 + gen(3) : 1;
                vector<MessagePtr> ms_;
                vector<int> ids;
                for (int q = 0; q < n; ++q) {
                    int b = -1, id = 0;
                    void* p = nullptr;
                    size_t len;
                    {
                        NoPreempt np;
                        for (size_t i = 0; i < r.busy.size(); ++i) if (!r.busy[i]) { b = i; break; }
                        if (b < 0) break;
                        r.busy[b] = true;
                        len = gen(6) == 0 ? 8 + gen(r.block_size - 8) : r.block_size;
                        p = (char*)r.r->GetData() + b * r.block_size;
                        w.use.emplace_back();
                        id = w.use.size();
                        auto& u = w.use.back();
                        u.region = ri; u.block = b; u.ptr = p; u.sizes = {len}; u.live = 1;
                        fill(p, w.piece(id, len));
                    }
                    MessagePtr m = f.CreateMessage(r.r, p, len, (void*)(intptr_t)id);
                    if (!w.shm) SIM_CHECK(w.of(id).acked, "missing-ack", "a block was copied but not reported");
                    event("made #" + to_string(id));
                    ms_.push_back(std::move(m));
                    ids.push_back(id);
                }
                {
                    Loose l{};
                    { NoPreempt np; if (!loose.empty()) { l = std::move(loose.back()); loose.pop_back(); } }
                    if (l.m) {
                        event("drop of loose " + to_string(l.id));
                        l.m.reset();
                        NoPreempt np;
                        --*l.open;
                    }
                }
                if (ms_.empty()) { nap(gen(300) * ms); continue; }
                for (size_t q = 0; q < ms_.size() && !flood; ++q) {
                    int c = gen(4) == 0 ? 1 + gen(3) : 0;
                    while (c-- > 0)
                        if (auto m = copy(f, ms_[q], ids[q])) {
                            if (gen(4) == 0) shrink(m, ids[q]);
                            if (nested && ri == 1 && gen(2)) { NoPreempt np; w.in_callback.emplace_back(std::move(m), ids[q]); }
                            else held.emplace_back(std::move(m), ids[q]);
                        }
                    if (gen(8) == 0) shrink(ms_[q], ids[q]);
                }
                int what = gen(8);
                if (t == 0 && nrecv && what < 5 && !flood) send(links[gen(nrecv)], std::move(ms_));
                else if (what < 6 && !flood) for (size_t q = 0; q < ms_.size(); ++q) held.emplace_back(std::move(ms_[q]), ids[q]);
                else
                    for (size_t q = 0; q < ms_.size(); ++q) {
                        if (gen(6) == 0) { w.released(ids[q], false); ms_[q]->Rebuild(5); continue; }
                        if (gen(6) == 0 && ms_[q]->GetSize() > 0) { w.released(ids[q], false); ms_[q]->SetUsedSize(0); continue; }
                        w.drop(std::move(ms_[q]), ids[q], false);
                    }
                while (held.size() > 6 || (!held.empty() && gen(5) == 0)) {
                    int i = gen(held.size());
                    auto [m, id] = std::move(held[i]);
                    held.erase(held.begin() + i);
                    SIM_CHECK(matches(*m, w.piece(id, m->GetSize())) , "changed-while-referenced", "block #" + to_string(id) + " changed while a message used it");
                    w.drop(std::move(m), id, false);
                }
                if (flood) nap(500 * ms);
                else if (gen(3) == 0) nap(gen(100) * ms);
            }
            if (immediate) nap(2 * sec + (w.slow ? 100 * sec : 0)); // blocks released elsewhere are reported by now
            { NoPreempt np; if (t == 0) producing -= 100; }
            if (immediate && gen(2)) nap(3 * sec);
            while (!held.empty()) {
                auto [m, id] = std::move(held.back());
                held.pop_back();
                SIM_CHECK(matches(*m, w.piece(id, m->GetSize())), "changed-while-referenced", "block #" + to_string(id) + " changed while a message used it");
                w.drop(std::move(m), id, false);
            }
            NoPreempt np;
            --producing;
        }, owner->id));
    }
    vector<Thread> rths;
    for (int i = 0; i < nrecv; ++i)
        rths.push_back(spawn("receiver" + to_string(i), [&, i] {
            auto& f = *rp[i]->f;
            deque<pair<MessagePtr, int>> held;
            vector<Link*> ins{&links[i]};
            if (chain && i == 1) ins.push_back(&links[2]);
            MessagePtr reuse;
            unsigned turn = 0;
            while (true) {
                {
                    NoPreempt np;
                    bool all = producing < -50;
                    for (auto* l : ins) all = all && l->got == l->sent;
                    if (chain && i == 1 && forwarding) all = false;
                    if (all) break;
                }
                Link& l = *ins[(turn++ + gen(ins.size())) % ins.size()];
                vector<MessagePtr> got;
                if (parts) {
                    fair::mq::Parts p;
                    if (l.in->Receive(p, 20) < 0) continue;
                    for (auto& m : p) got.push_back(std::move(m));
                } else {
                    MessagePtr m = reuse ? std::move(reuse) : f.CreateMessage();
                    if (l.in->Receive(m, 20) < 0) continue;
                    got.push_back(std::move(m));
                }
                { NoPreempt np; ++l.got; }
                vector<int> ids;
                for (auto& m : got) {
                    void* p = m->GetData(); // maps the region
                    uint32_t h[2] = {0, 0};
                    NoPreempt np;
                    SIM_CHECK(p, "no-access", "the data of a received region message is not accessible");
                    memcpy(h, p, std::min<size_t>(8, m->GetSize()));
                    int id = h[0];
                    ids.push_back(id);
                    event("received #" + to_string(id));
                }
                for (size_t q = 0; q < got.size(); ++q) {
                    int id = ids[q];
                    SIM_CHECK(w.known(id) && matches(*got[q], w.piece(id, got[q]->GetSize())), "content", "a received region message does not carry the content of its block (#" + to_string(id) + ", " + to_string(got[q]->GetSize()) + " bytes)");
                    int c = gen(4) == 0 ? 1 + gen(2) : 0;
                    while (c-- > 0) if (auto m = copy(f, got[q], id)) held.emplace_back(std::move(m), id);
                }
                if (chain && i == 0 && gen(2)) {
                    send(links[2], std::move(got));
                    continue;
                }
                for (size_t q = 0; q < got.size(); ++q) {
                    int id = ids[q];
                    if (gen(2)) held.emplace_back(std::move(got[q]), id);
                    else if (!reuse && !parts && gen(3) == 0) { w.released(id, true); reuse = std::move(got[q]); } // released when it is received into
                    else w.drop(std::move(got[q]), id, true);
                    if (reuse && gen(2)) reuse->Rebuild();
                }
                if (reuse) reuse->Rebuild();
                while (held.size() > 4 || (!held.empty() && gen(4) == 0)) {
                    auto [m, id] = std::move(held.front());
                    held.pop_front();
                    SIM_CHECK(matches(*m, w.piece(id, m->GetSize())), "changed-while-referenced", "block #" + to_string(id) + " changed while a received message used it");
                    w.drop(std::move(m), id, true);
                }
                if (gen(5) == 0) nap(gen(60) * ms);
            }
            if (i == 0) { NoPreempt np; forwarding = false; }
            while (!held.empty()) {
                auto [m, id] = std::move(held.back());
                held.pop_back();
                SIM_CHECK(matches(*m, w.piece(id, m->GetSize())), "changed-while-referenced", "block #" + to_string(id) + " changed while a received message used it");
                w.drop(std::move(m), id, true);
            }
        }, rp[i]->id));
    fair::mq::ProgOptions cfg2;
    shared_ptr<TransportFactory> second; // of another session, in the process of the owner
    if (w.shm && gen(3) == 0) {
        EnterProc e(owner->id);
        configure(cfg2, "s2", 1 << 20, 0);
        second = TransportFactory::CreateTransportFactory("shmem", "second", &cfg2);
    }
    if (gen(3) == 0 && !flood) { // regions come and go meanwhile
        Proc* cp = nrecv && gen(2) ? rp[0].get() : owner.get();
        ths.push_back(spawn("creator", [&, cp] {
            auto& f = second && cp == owner.get() ? *second : *cp->f;
            int n = 1 + gen(5);
            bool again = gen(2), give = cp == owner.get() && gen(2); // the region is kept and used again; messages are given to other threads
            bool file = gen(4) == 0;
            while (n-- > 0) {
                struct Acks { set<intptr_t> open; } a;
                {
                    auto ack = [&](void*, size_t, void* h) { NoPreempt np; SIM_CHECK(a.open.erase((intptr_t)h) == 1, "double-ack", "a block of a short-lived region was reported twice"); };
                    fair::mq::RegionConfig cfg;
                    cfg.linger = gen(2) * 100;
                    if (file) cfg.path = scratch_dir();
                    if (again) { cfg.id = &f != cp->f.get() ? 7 : 99; cfg.removeOnDestruction = false; }
                    fair::mq::RegionCallback cb = ack;
                    auto r = f.CreateUnmanagedRegion(1000, cb, cfg);
                    vector<MessagePtr> ms;
                    int k = gen(10);
                    for (int i = 1; i <= k; ++i) {
                        { NoPreempt np; a.open.insert(i); }
                        ms.push_back(f.CreateMessage(r, (char*)r->GetData() + i * 20, 20, (void*)(intptr_t)i));
                    }
                    int open = 0;
                    if (give) {
                        NoPreempt np;
                        for (int i = 1 + gen(2); i > 0 && !ms.empty(); --i) { loose.push_back({std::move(ms.back()), (intptr_t)ms.size(), &open}); ms.pop_back(); ++open; }
                    }
                    if (gen(2)) nap(gen(700) * 1000000);
                    ms.clear();
                    while (true) { // those nobody takes
                        Loose l{};
                        bool all = false;
                        { NoPreempt np; all = open == 0; if (!all && producing <= -100 && !loose.empty()) { l = std::move(loose.back()); loose.pop_back(); } }
                        if (all) break;
                        if (l.m) { l.m.reset(); NoPreempt np; --*l.open; }
                        else nap((1 + gen(20)) * 1000000);
                    }
                }
                SIM_CHECK(a.open.empty(), "missing-ack", "a short-lived region was destroyed without reporting all its blocks");
                if (gen(2)) nap(gen(100) * ms);
            }
        }, cp->id));
    }
    // the owner destroys the regions
    Thread destroyer = spawn("destroyer", [&] {
        for (auto& t : ths) t.join();
        for (auto& t : rths) t.join();
        auto release_rest = [&] { // of what the callbacks would release
            vector<pair<MessagePtr, int>> v;
            { NoPreempt np; v.swap(w.in_callback); }
            for (auto& [m, id] : v) w.drop(std::move(m), id, false);
        };
        if (!immediate) release_rest();
        ns_t remote_last = 0;
        for (auto& u : w.use) {
            SIM_CHECK(u.live == 0 || (nested && immediate && u.region == 1), "harness", "live messages");
            if (u.remote) remote_last = max(remote_last, u.released);
        }
        if (!immediate) {
            nap(1 * sec);
            ns_t s = stall_total();
            ns_t end = now() + (flood ? 2500 * sec : w.slow ? 200 * sec : 2 * sec);
            while (w.shm) {
                int open = 0;
                { NoPreempt np; for (auto& u : w.use) open += !u.acked; }
                if (!open) break;
                NoPreempt np;
                if (now() > end + 2 * (stall_total() - s))
                    for (size_t q = 0; q < w.use.size(); ++q) if (!w.use[q].acked) violation("missing-ack", "block #" + to_string(q + 1) + " was released but never reported");
                if (true) nap(50 * ms);
            }
        } else if (now() - remote_last < 700 * ms + (w.stalls ? 5 * sec : 0) + (w.slow ? 200 * sec : 0)) // released in another process: reported within the acknowledgement interval
            nap(700 * ms + (w.stalls ? 5 * sec : 0) + (w.slow ? 200 * sec : 0));
        for (int i = 0; i < nreg; ++i) {
            int k = i;
            auto& r = w.reg[k];
            if (i == 1) release_rest();
            { NoPreempt np; r.destroying = true; event("destroy region " + to_string(k)); }
            r.r.reset();
            NoPreempt np;
            r.destroyed = true;
            for (size_t q = 0; q < w.use.size(); ++q)
                if (auto& u = w.use[q]; u.region == k && !u.acked) violation("missing-ack", "region " + to_string(k) + " was destroyed without reporting block #" + to_string(q + 1) + " which was released " + (u.remote ? "in another process " : "") + to_string((now() - u.released) / us) + " us before");
        }
    }, owner->id);
    destroyer.join();
    for (auto& l : links) { l.out.reset(); l.in.reset(); }
    nap(1 * sec);
    if (w.shm) {
        size_t n = free_memory(0);
        SIM_CHECK(n == free0, n < free0 ? "leak" : "over-release", "all messages are gone, but " + to_string(n) + " bytes of the segment are free instead of " + to_string(free0));
    }
    for (auto& p : rp) drop_proc(*p);
    { EnterProc e(owner->id); second.reset(); }
    drop_proc(*owner);
}

// The system clock is set while a region is used and destroyed
SIM_WORKLOAD_W(C10, clock, 0.1)
{
    limit_time(2000000 * sec);
    faults().net_delay_max = 50 * us;
    int n = 1 + gen(6);
    auto owner = make_proc("owner", "shmem");
    auto reader = make_proc("reader", "shmem");
    auto t = spawn("owner", [&] {
        set<int> open;
        RegionConfig cfg;
        static const uint32_t li[] = {0, 100, 500};
        cfg.linger = li[gen(3)];
        auto region = owner->f->CreateUnmanagedRegion(4096, [&](const vector<RegionBlock>& bl) {
            NoPreempt np;
            for (auto& b : bl) SIM_CHECK(open.erase((int)(intptr_t)b.hint), "double-ack", "a block was reported that is not in use");
        }, cfg);
        vector<MessagePtr> ms_;
        bool remote = gen(2);
        unique_ptr<Channel> out, in;
        if (remote) {
            out = make_unique<Channel>("o", "push", owner->f);
            out->Bind("ipc://c10clock");
            { EnterProc e(reader->id); in = make_unique<Channel>("i", "pull", reader->f); in->Connect("ipc://c10clock"); }
        }
        ns_t jumps = 0;
        auto jump = [&] {
            if (gen(3)) return;
            static const ns_t by[] = {-1 * sec, -60 * sec, -3600 * sec, 5 * sec, 3600 * sec};
            ns_t d = by[gen(5)];
            { NoPreempt np; event("the system clock is set by " + to_string(d / sec) + " s"); if (d < 0) jumps -= d; }
            wall_jump(d);
        };
        for (int i = 0; i < n; ++i) {
            { NoPreempt np; open.insert(i + 1); }
            auto m = owner->f->CreateMessage(region, (char*)region->GetData() + 64 * i, 64, (void*)(intptr_t)(i + 1));
            if (remote) {
                SIM_CHECK(out->Send(m, 1000) == 64, "harness", "send failed");
                EnterProc e(reader->id);
                auto r = reader->f->CreateMessage();
                SIM_CHECK(in->Receive(r, 2000) == 64, "harness", "receive failed");
                nap(gen(20) * ms);
            } else nap(gen(20) * ms);
            m.reset();
            if (gen(3) == 0) nap(gen(300) * ms);
            jump();
        }
        // what was released is reported, whatever the clock does
        ns_t t0 = now(), s0 = stall_total();
        while (true) {
            size_t left;
            { NoPreempt np; left = open.size(); }
            if (!left) break;
            SIM_CHECK(now() - t0 < 2 * sec + 2 * (stall_total() - s0), "missing-ack", to_string(left) + " released blocks are not reported");
            nap(20 * ms);
        }
        if (gen(2)) nap(gen(300) * ms);
        jump();
        t0 = now(), s0 = stall_total();
        bool over = false;
        auto late = spawn("clock", [&] { nap(gen(150) * ms); if (!over) jump(); });
        { NoPreempt np; event("destroy the region"); }
        region.reset();
        over = true;
        ns_t el = now() - t0, st = stall_total() - s0;
        late.join();
        SIM_CHECK(el <= 300 * ms + cfg.linger * ms + 2 * st + jumps, "slow-destruction", "destroying the region took " + to_string(el / ms) + " ms");
        if (el > 300 * ms + cfg.linger * ms + 2 * st) violation("clock-step", "destroying a region took " + to_string(el / ms) + " ms after the system clock was set back by up to " + to_string(jumps / ms) + " ms: the thread receiving acknowledgements waits with an absolute system time");
        if (remote) { out.reset(); EnterProc e(reader->id); in.reset(); }
    }, owner->id);
    t.join();
    nap(1 * sec);
    drop_proc(*reader);
    drop_proc(*owner);
}
