// Transport workloads: endpoints in several simulated processes exchange messages over the real FairMQ transports.
#ifndef TRANSPORT_H
#define TRANSPORT_H
#include <sim.h>
#include <fairmq/Channel.h>
#include <fairmq/MemoryResourceTools.h>
#include <fairmq/MemoryResources.h>
#include <fairmq/Message.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/shmem/Monitor.h>
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>

namespace tr {
using namespace sim;
using fair::mq::Channel;
using fair::mq::MessagePtr;
using fair::mq::TransportFactory;
using fair::mq::TransferCode;

// ---- message content: determined by (id, length) --------------------------------------------------------------------
struct Pattern
{
    std::string b;
    Pattern()
    {
        b.resize(3 << 20);
        uint64_t x = 88172645463325252ull;
        for (size_t i = 0; i + 8 <= b.size(); i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(&b[i], &x, 8); }
    }
    const char* at(int id) const { return b.data() + (uint64_t(id) * 7919) % 65521; }
};
inline Pattern pattern;

struct Piece { int id = 0; size_t len = 0; size_t hdr = 0; size_t h() const { return hdr ? hdr : len; } }; // hdr: length in the header, if it differs
inline void fill(void* p, const Piece& c)
{
    NoPreempt np; // the sender owns the buffer
    memcpy(p, pattern.at(c.id), c.len);
    if (c.len >= 8 && c.h() >= 8) { uint32_t h[2] = {uint32_t(c.id), uint32_t(c.h())}; memcpy(p, h, 8); }
}
inline bool same(const void* p, const Piece& c)
{
    if (c.len == 0) return true;
    if (!p) return false;
    if (c.len < 8 && c.h() >= 8) { uint32_t w[2] = {uint32_t(c.id), uint32_t(c.h())}; return memcmp(p, w, c.len) == 0; }
    if (c.len < 8) return memcmp(p, pattern.at(c.id), c.len) == 0;
    uint32_t h[2];
    memcpy(h, p, 8);
    if (c.h() < 8) return memcmp(p, pattern.at(c.id), c.len) == 0;
    return h[0] == uint32_t(c.id) && h[1] == c.h() && memcmp((const char*)p + 8, pattern.at(c.id) + 8, c.len - 8) == 0;
}
inline std::string describe(const fair::mq::Message& m)
{
    NoPreempt np;
    std::string s = std::to_string(m.GetSize()) + " bytes";
    if (m.GetSize() >= 8 && m.GetData()) { uint32_t h[2]; memcpy(h, m.GetData(), 8); s += " (header " + std::to_string(h[0]) + "," + std::to_string(h[1]) + ")"; }
    return s;
}
inline std::string describe(const Piece& c) { return "#" + std::to_string(c.id) + " of " + std::to_string(c.len) + " bytes"; }
inline bool matches(const fair::mq::Message& m, const Piece& c)
{
    if (m.GetSize() != c.len) return false;
    const void* p = m.GetData(); // may map a segment: real code, preemptible
    NoPreempt np;
    return same(p, c);
}

inline size_t random_size(bool big)
{
    switch (gen(big ? 12 : 11)) {
        case 0: return 0;
        case 1: return 1 + gen(7);
        case 2: case 3: return 8 + gen(30);
        case 4: case 5: case 6: return 40 + gen(300);
        case 7: case 8: return 1000 + gen(5000);
        case 9: return 4096;
        case 10: return 60000 + gen(20000);
        default: return 1100000 + gen(500000);
    }
}

// ---- simulated processes --------------------------------------------------------------------------------------------
struct Proc
{
    int id = -1;
    std::string name;
    std::unique_ptr<fair::mq::ProgOptions> cfg;
    std::shared_ptr<TransportFactory> f, other; // `other`: a second transport in the same process
    uint16_t segment = 0;
    bool shm = false;
};
inline void configure(fair::mq::ProgOptions& c, const std::string& session, size_t segsize, int segid)
{
    c.SetProperty<std::string>("session", session);
    c.SetProperty<size_t>("shm-segment-size", segsize);
    c.SetProperty<uint16_t>("shm-segment-id", segid);
}
// settings that must not make a difference
inline void vary(fair::mq::ProgOptions& c, bool small = false)
{
    if (gen(4) == 0) c.SetProperty<size_t>("shm-metadata-msg-size", 1 + gen(2000));
    if (!small) return;
    if (gen(6) == 0) c.SetProperty<bool>("shm-zero-segment", true);
    if (gen(6) == 0) c.SetProperty<bool>("shm-mlock-segment", true);
    if (gen(6) == 0) c.SetProperty<bool>("shm-mlock-segment-on-creation", true);
}
inline std::unique_ptr<Proc> make_proc(const std::string& name, const std::string& transport, int segid = 0, size_t segsize = 16 << 20, const std::string& session = "s", const std::string& alloc = "")
{
    auto p = std::make_unique<Proc>();
    p->name = name;
    p->id = new_proc(name);
    p->shm = transport == "shmem";
    p->segment = segid;
    EnterProc e(p->id);
    p->cfg = std::make_unique<fair::mq::ProgOptions>();
    configure(*p->cfg, session, segsize, segid);
    if (!alloc.empty()) p->cfg->SetProperty<std::string>("shm-allocation", alloc);
    vary(*p->cfg, segsize < 1000000);
    p->f = TransportFactory::CreateTransportFactory(transport, name, p->cfg.get());
    return p;
}
inline void add_other(Proc& p)
{
    EnterProc e(p.id);
    p.other = TransportFactory::CreateTransportFactory(p.shm ? "zeromq" : "shmem", p.name + "o", p.cfg.get());
}
inline void drop_proc(Proc& p)
{
    EnterProc e(p.id);
    p.other.reset();
    p.f.reset();
}
inline size_t free_memory(uint16_t segment, const std::string& session = "s")
{
    return fair::mq::shmem::Monitor::GetFreeMemory(fair::mq::shmem::SessionId{session}, segment);
}

// ---- creating messages in every way ---------------------------------------------------------------------------------
struct Frees { int made = 0, called = 0; std::set<void*> open; };
struct FreeHint { Frees* fr; void* buf; };
inline void free_fn(void* data, void* hint)
{
    NoPreempt np;
    auto* h = static_cast<FreeHint*>(hint);
    SIM_CHECK(h->fr->open.erase(hint) == 1, "double-free", "the release function of a user buffer was called twice");
    SIM_CHECK(data == h->buf, "wrong-free", "the release function was called with another buffer");
    ++h->fr->called;
    memset(h->buf, 0xdd, 1);
    free(h->buf);
    delete h;
}

struct Maker
{
    Frees* frees = nullptr;
    bool shrink = true, copies = true, users = true, check_alignment = true;
    std::vector<std::pair<MessagePtr, Piece>> kept; // messages that still share a buffer with one given out: must stay intact

    // builds a message with the content of c; `reuse` may hold an old message object to rebuild
    MessagePtr make(TransportFactory& f, const Piece& c, MessagePtr reuse = nullptr)
    {
        MessagePtr m;
        int how = gen(14);
        size_t al = gen(3) == 0 ? (size_t)(1 << (4 + gen(9))) : 0;
        fair::mq::Alignment a{al};
        auto aligned = [&] { if (check_alignment && al && c.len) SIM_CHECK((uintptr_t)m->GetData() % al == 0, "alignment", "a message of " + std::to_string(c.len) + " bytes is not aligned to " + std::to_string(al) + " as asked for"); };
        auto data = [&] {
            auto* h = new FreeHint{frees, malloc(c.len ? c.len : 1)};
            fill(h->buf, c);
            NoPreempt np;
            ++frees->made;
            frees->open.insert(h);
            return h;
        };
        if (reuse) {
            m = std::move(reuse);
            if (how < 3) { m->Rebuild(c.len); if (c.len) fill(m->GetData(), c); }
            else if (how < 6) { m->Rebuild(c.len, a); aligned(); if (c.len) fill(m->GetData(), c); }
            else if (how < 8 && users) { auto* h = data(); m->Rebuild(h->buf, c.len, free_fn, h); }
            else if (copies) { auto o = f.CreateMessage(c.len); if (c.len) fill(o->GetData(), c); m->Copy(*o); if (gen(2)) keep(std::move(o), c); }
            else { m->Rebuild(); m->Rebuild(c.len); if (c.len) fill(m->GetData(), c); }
            return m;
        }
        if (how < 3) m = f.CreateMessage(c.len);
        else if (how < 5) { m = f.CreateMessage(c.len, a); aligned(); }
        else if (how == 5) { m = al ? f.CreateMessage(a) : f.CreateMessage(); m->Rebuild(c.len, a); aligned(); }
        else if (how == 6 && users) { auto* h = data(); return f.CreateMessage(h->buf, c.len, free_fn, h); }
        else if (how < 9 && shrink) {
            size_t extra = extra_bytes(c.len);
            m = f.CreateMessage(c.len + extra, a);
            NoPreempt np; // content first, then shrink (the kept part must survive), below
            if (c.len) fill(m->GetData(), c);
        } else if (how < 11 && copies) {
            auto o = f.CreateMessage(c.len);
            if (c.len) fill(o->GetData(), c);
            m = f.CreateMessage();
            m->Copy(*o);
            if (gen(2)) {
                auto m2 = f.CreateMessage(gen(2) * 50);
                m2->Copy(*m);
                keep(std::move(m2), c);
            }
            if (gen(2)) keep(std::move(o), c);
            if (gen(4) == 0) { // the copy is used with a smaller size than the original
                Piece whole{c.id, c.len + extra_bytes(c.len), c.len};
                o = f.CreateMessage(whole.len);
                fill(o->GetData(), whole);
                m->Copy(*o);
                bool first = gen(2);
                if (first) keep(std::move(o), whole);
                if (gen(2)) { o = f.CreateMessage(); o->Copy(*m); keep(std::move(o), whole); }
                SIM_CHECK(m->SetUsedSize(c.len, a), "shrink-refused", "reducing the used size of a copied message failed");
            }
            return m;
        } else if (how >= 12) return in_container(f, c);
        else m = f.CreateMessage(c.len);
        if (m->GetSize() != c.len) {
            bool ok = m->SetUsedSize(c.len, a);
            SIM_CHECK(ok, "shrink-refused", "reducing the used size of a message failed");
        } else if (c.len) fill(m->GetData(), c);
        return m;
    }
    // the content is put together in a container on the memory of the transport
    MessagePtr in_container(TransportFactory& f, const Piece& c)
    {
        fair::mq::ChannelResource res(&f);
        MessagePtr m;
        {
            std::vector<char, fair::mq::pmr::polymorphic_allocator<char>> v(&res);
            if (gen(2)) v.reserve(c.len + gen(200));
            if (gen(2)) v.resize(c.len / 2);
            if (gen(4) == 0) { auto w = v; w.resize(10 + gen(100)); } // goes away unsent
            v.resize(c.len);
            if (c.len) fill(v.data(), c);
            SIM_CHECK(res.getNumberOfMessages() == (v.capacity() ? 1 : 0), "container-buffers", std::to_string(res.getNumberOfMessages()) + " buffers are held for one container");
            m = fair::mq::getMessage(std::move(v));
        }
        SIM_CHECK(res.getNumberOfMessages() == 0, "container-buffers", "buffers are held for a container that is gone");
        SIM_CHECK(m->GetSize() == c.len, "container-size", "a container of " + std::to_string(c.len) + " bytes became a message of " + std::to_string(m->GetSize()));
        return m;
    }
    static size_t extra_bytes(size_t len)
    {
        size_t extra = gen(4) == 0 ? 1000000 + gen(300000) : 1 + gen(2000);
        return len + extra > 2500000 ? 100 : extra;
    }
    void keep(MessagePtr m, const Piece& c) { kept.emplace_back(std::move(m), c); }
    void check_kept()
    {
        for (auto& [m, c] : kept)
            SIM_CHECK(matches(*m, c), "changed-while-referenced", "a copy of message " + describe(c) + " that is still held changed, it now is " + describe(*m));
    }
    void drop_kept() { check_kept(); kept.clear(); }
};

// ---- the stream workload ------------------------------------------------------------------------------------------
struct Opts { bool delivery = false, returns = false, memory = false, counters = false; };

struct Entry
{
    std::vector<Piece> parts;
    int sender = 0, index = 0;
    int status = 0; // 0 being sent, 1 sent, 2 given up
    int received = 0, by = -1;
    ns_t sent_at = 0;
    size_t bytes() const { size_t n = 0; for (auto& p : parts) n += p.len; return n; }
    std::string text() const { std::string s; for (auto& p : parts) s += (s.empty() ? "" : "+") + std::to_string(p.len); return "#" + std::to_string(parts[0].id) + " (" + s + " bytes)"; }
};

struct Endpoint
{
    Proc* p = nullptr;
    std::string name;
    std::unique_ptr<Channel> ch;
    unsigned long btx = 0, brx = 0, mtx = 0, mrx = 0; // model of the statistics
    bool interrupted = false;     // interrupt requested and not yet resumed
    int interrupts = 0;
    std::vector<std::pair<ns_t, ns_t>> interrupted_at; // when; end -1: still
};

struct Flow
{
    Opts o;
    std::string transport;
    std::vector<std::unique_ptr<Proc>> procs;
    std::deque<Endpoint> eps;
    std::deque<Entry> entries;
    std::map<int, int> by_id;             // id of the first part -> entry
    std::map<std::pair<int, int>, int> last_index; // (sender, receiver) -> index
    std::vector<int> cursor;              // 1:1: next entry per direction
    std::vector<std::vector<int>> sent_by; // entries per sender
    Frees frees;
    int next_id = 1;
    int senders_left = 0;
    ns_t quiet = 0;                       // last time something was sent or received
    bool one_to_one = false, reply = false, big = false;
    int hwm = 1000;
    std::map<uint16_t, size_t> free0;

    explicit Flow(Opts op) : o(op) {}

    void vio(const char* cls, const std::string& m) { violation(cls, m); }

    void counters(Endpoint& e)
    {
        if (!o.counters) return;
        unsigned long a = e.ch->GetBytesTx(), b = e.ch->GetBytesRx(), c = e.ch->GetMessagesTx(), d = e.ch->GetMessagesRx();
        NoPreempt np;
        if (a != e.btx || b != e.brx || c != e.mtx || d != e.mrx)
            vio("statistics", e.name + " reports " + std::to_string(c) + " messages/" + std::to_string(a) + " bytes sent and " + std::to_string(d) + "/" + std::to_string(b)
                + " received, but it was " + std::to_string(e.mtx) + "/" + std::to_string(e.btx) + " and " + std::to_string(e.mrx) + "/" + std::to_string(e.brx));
    }

    // checks the outcome of a call that did not transfer anything
    void not_done(Endpoint& e, const char* what, int64_t rc, int timeout, ns_t t0, ns_t s0, uint64_t ei0, bool intr_any)
    {
        if (!o.returns) return;
        ns_t el = now() - t0, st = stall_total() - s0;
        std::string w = e.name + ": " + what + " with timeout " + std::to_string(timeout) + " ms";
        NoPreempt np;
        if (rc == (int64_t)TransferCode::timeout) {
            if (timeout < 0) vio("timeout-of-endless-call", w + " reported a timeout");
            if (el < timeout * ms) vio("early-timeout", w + " gave up after " + std::to_string(el / us) + " us");
            uint64_t ei = fault_count("eintr") - ei0;
            ns_t limit = ei ? timeout + 100 : (timeout + 99) / 100 * 100; // the sockets wait in slices of 100 ms
            if (el > (limit + 1) * ms + st) vio("late-timeout", w + " gave up only after " + std::to_string(el / us) + " us");
        } else if (rc == (int64_t)TransferCode::interrupted) {
            if (!intr_any) vio("invented-interrupt", w + " reported an interruption that was not requested");
            if (timeout >= 0 && el > ((timeout + 99) / 100 * 100 + (fault_count("eintr") != ei0 ? 100 : 0) + 1) * ms + st) vio("late-interrupt", w + " was interrupted only after " + std::to_string(el / us) + " us");
        } else vio("transfer-error", w + " failed with code " + std::to_string(rc));
    }

    // a call must not stay blocked while its transport is interrupted
    void check_interrupted(Endpoint& e, const char* what, ns_t t0, ns_t s0)
    {
        if (!o.returns) return;
        NoPreempt np;
        ns_t st = stall_total() - s0;
        for (auto& [a, b] : e.interrupted_at) {
            ns_t from = std::max(a, t0), to = b < 0 ? now() : std::min(b, now());
            if (to - from > 101 * ms + st) vio("interrupt-ignored", e.name + ": " + what + " stayed blocked for " + std::to_string((to - from) / us) + " us while the transport was interrupted");
        }
    }

    int pick_timeout() { static const int t[] = {-1, 0, 1, 30, 100, 150, 250, 1000}; return t[gen(8)]; }

    // sends one entry; gives up sometimes. Returns whether it was sent.
    bool send(Endpoint& e, Maker& mk, Entry& en, std::vector<MessagePtr>& spare, bool may_give_up, bool as_parts)
    {
        TransportFactory& f = (e.p->other && gen(3) == 0) ? *e.p->other : *e.p->f;
        fair::mq::Parts ps;
        for (auto& c : en.parts) {
            MessagePtr r;
            if (!spare.empty() && gen(2) && spare.back()->GetType() == f.GetType()) { r = std::move(spare.back()); spare.pop_back(); }
            ps.AddPart(mk.make(f, c, std::move(r)));
        }
        return transmit(e, en, ps, may_give_up, as_parts, &spare);
    }
    bool transmit(Endpoint& e, Entry& en, fair::mq::Parts& ps, bool may_give_up, bool as_parts, std::vector<MessagePtr>* spare)
    {
        while (true) {
            int timeout = pick_timeout();
            bool intr;
            int in0;
            { NoPreempt np; intr = e.interrupted; in0 = e.interrupts; }
            ns_t t0 = now(), s0 = stall_total();
            uint64_t ei0 = fault_count("eintr");
            int64_t rc;
            if (as_parts) rc = gen(2) ? e.ch->Send(ps, timeout) : e.ch->Send(ps.fParts, timeout);
            else rc = e.ch->Send(ps.fParts[0], timeout);
            check_interrupted(e, "a send", t0, s0);
            if (rc >= 0) {
                NoPreempt np;
                en.status = 1;
                en.sent_at = now();
                quiet = now();
                e.btx += en.bytes();
                ++e.mtx;
                event(e.name + " sent " + en.text());
                if (o.returns && rc != (int64_t)en.bytes()) vio("return-value", e.name + ": sending " + en.text() + " returned " + std::to_string(rc));
                if (o.returns && timeout == 0 && now() - t0 > stall_total() - s0 + ms) vio("zero-timeout-waited", e.name + ": a send with timeout 0 waited " + std::to_string((now() - t0) / us) + " us");
            } else {
                { NoPreempt np; intr = intr || e.interrupted || e.interrupts != in0; event(e.name + " send " + en.text() + " rc " + std::to_string(rc)); }
                not_done(e, "a send", rc, timeout, t0, s0, ei0, intr);
                if (o.returns || o.delivery) {
                    for (size_t i = 0; i < ps.Size(); ++i)
                        if (!ps.fParts[i] || !matches(ps[i], en.parts[i])) vio("changed-by-failed-send", e.name + ": part " + describe(en.parts[i]) + " was changed by a send that failed");
                }
                if (en.received && (o.returns || o.delivery)) vio("failed-send-delivered", "message " + en.text() + " was delivered although its send reported failure");
                if (rc != (int64_t)TransferCode::timeout && rc != (int64_t)TransferCode::interrupted && o.delivery) vio("transfer-error", e.name + ": a send failed with code " + std::to_string(rc));
            }
            counters(e);
            if (rc >= 0) {
                if (spare && gen(2)) for (auto& m : ps.fParts) spare->push_back(std::move(m));
                return true;
            }
            if (may_give_up && gen_p(0.1)) { NoPreempt np; en.status = 2; event(e.name + " gives up " + en.text()); return false; }
            if (intr || timeout == 0) nap((1 + gen(20)) * ms);
        }
    }

    Entry& new_entry(int sender, bool multi)
    {
        NoPreempt np;
        entries.emplace_back();
        Entry& en = entries.back();
        int n = multi ? 1 + gen(4) : 1;
        bool b = big;
        for (int i = 0; i < n; ++i) {
            size_t len = random_size(b);
            if (len > 1000000) b = false;
            if (i == 0 && !one_to_one && len < 8) len += 8;
            en.parts.push_back({next_id++, len});
        }
        en.sender = sender;
        en.index = sent_by[sender].size();
        sent_by[sender].push_back(entries.size() - 1);
        by_id[en.parts[0].id] = entries.size() - 1;
        return en;
    }

    // a message was received by endpoint `who` in direction/sender `dir`
    Entry* arrived(Endpoint& e, int who, int dir, const std::vector<MessagePtr>& parts)
    {
        Entry* en = nullptr;
        if (one_to_one) {
            NoPreempt np;
            auto& list = sent_by[dir];
            while ((size_t)cursor[dir] < list.size() && entries[list[cursor[dir]]].status == 2) ++cursor[dir];
            if ((size_t)cursor[dir] < list.size()) en = &entries[list[cursor[dir]++]];
        } else {
            if (parts.empty() || parts[0]->GetSize() < 8) { if (o.delivery) vio("invented-message", e.name + " received a message that nobody sent: " + std::to_string(parts.size()) + " parts"); return nullptr; }
            const void* p = parts[0]->GetData();
            NoPreempt np;
            uint32_t id = 0;
            if (p) memcpy(&id, p, 4);
            auto it = by_id.find(id);
            if (it != by_id.end()) en = &entries[it->second];
        }
        if (!en) {
            if (o.delivery) vio("invented-message", e.name + " received a message that nobody sent: " + std::to_string(parts.size()) + " parts, first " + (parts.empty() ? std::string("-") : describe(*parts[0])));
            return nullptr;
        }
        if (o.delivery) {
            if (en->status == 2) vio("failed-send-delivered", e.name + " received " + en->text() + " whose send had failed");
            if (en->received) vio("duplicate", e.name + " received " + en->text() + " twice");
            if (parts.size() != en->parts.size()) vio("part-count", e.name + " received " + std::to_string(parts.size()) + " parts instead of " + std::to_string(en->parts.size()) + " of " + en->text());
            for (size_t i = 0; i < parts.size(); ++i)
                if (!matches(*parts[i], en->parts[i]))
                    vio("content", e.name + ": part " + std::to_string(i) + " of " + en->text() + " arrived as " + describe(*parts[i]));
            NoPreempt np;
            int& li = last_index.emplace(std::make_pair(dir < 0 ? en->sender : dir, who), -1).first->second;
            if (en->index < li) vio("order", e.name + " received " + en->text() + " after a later message of the same sender");
            li = en->index;
        }
        NoPreempt np;
        ++en->received;
        en->by = who;
        quiet = now();
        event(e.name + " received " + en->text());
        return en;
    }

    struct Spare { MessagePtr m; size_t al; };
    struct Held { std::vector<MessagePtr> m; Entry* en; std::vector<Piece> c; };
    // one receive attempt; `into` may hold a message object to receive into
    Entry* receive(Endpoint& e, int who, int dir, bool as_parts, std::deque<Held>& held, std::vector<Spare>& spare, bool endless_ok, fair::mq::Parts* keep = nullptr)
    {
        int timeout = pick_timeout();
        if (timeout < 0 && !endless_ok) timeout = 40;
        std::vector<MessagePtr> got;
        size_t preset = 0;
        MessagePtr single;
        size_t al = 0; // alignment asked for
        fair::mq::Parts pv;
        if (as_parts) {
            if (gen(8) == 0) { pv.AddPart(e.p->f->CreateMessage(20)); preset = 1; } // received parts are appended
        } else if (!spare.empty() && gen(2)) {
            single = std::move(spare.back().m);
            al = spare.back().al;
            spare.pop_back();
        } else if (e.p->other && gen(6) == 0) single = e.p->other->CreateMessage(10); // other transport: replaced
        else single = gen(4) ? e.p->f->CreateMessage() : gen(2) ? e.p->f->CreateMessage(fair::mq::Alignment{al = 1u << (4 + gen(9))}) : e.p->f->CreateMessage(1 + gen(100));
        bool intr;
        int in0;
        ns_t pending = -1; // since when a message has certainly been waiting
        {
            NoPreempt np;
            intr = e.interrupted; in0 = e.interrupts;
            if (one_to_one && o.returns && dir >= 0) {
                auto& list = sent_by[dir];
                size_t c = cursor[dir];
                while (c < list.size() && entries[list[c]].status == 2) ++c;
                if (c > 0 && c < list.size() && entries[list[c]].status == 1 && cursor[dir] > 0) pending = entries[list[c]].sent_at;
            }
        }
        ns_t t0 = now(), s0 = stall_total();
        uint64_t ei0 = fault_count("eintr");
        int64_t rc;
        if (as_parts) rc = gen(2) ? e.ch->Receive(pv, timeout) : e.ch->Receive(pv.fParts, timeout);
        else rc = e.ch->Receive(single, timeout);
        check_interrupted(e, "a receive", t0, s0);
        if (rc < 0) {
            { NoPreempt np; intr = intr || e.interrupted || e.interrupts != in0; }
            not_done(e, "a receive", rc, timeout, t0, s0, ei0, intr);
            counters(e);
            if (o.delivery && as_parts && pv.Size() != preset) vio("partial-message", e.name + ": parts were received by a call that failed");
            // something sent long before, on an established connection, must be there
            if (o.returns && pending >= 0 && hwm >= 1000 && !intr && stalled_since(pending) == 0 && t0 - pending > faults().net_delay_max + 2 * ms)
                vio("waiting-message-missed", e.name + ": a receive with timeout " + std::to_string(timeout) + " ms failed although a message sent " + std::to_string((t0 - pending) / us) + " us before was waiting");
            if (intr) nap((1 + gen(20)) * ms);
            if (!as_parts) spare.push_back({std::move(single), al});
            return nullptr;
        }
        size_t bytes = 0, i = 0;
        if (as_parts) for (auto& m : pv.fParts) { if (i++ >= preset) got.push_back(std::move(m)); }
        else got.push_back(std::move(single));
        for (auto& m : got) bytes += m->GetSize();
        if (o.returns && rc != (int64_t)bytes) vio("return-value", e.name + ": receiving " + std::to_string(bytes) + " bytes returned " + std::to_string(rc));
        if (o.returns && timeout == 0 && now() - t0 > stall_total() - s0 + ms) vio("zero-timeout-waited", e.name + ": a receive with timeout 0 waited " + std::to_string((now() - t0) / us) + " us");
        if (o.delivery && al && !e.p->shm && got[0]->GetSize() && (uintptr_t)got[0]->GetData() % al) vio("alignment", e.name + ": the received data is not aligned to " + std::to_string(al) + " as asked for");
        Entry* en = arrived(e, who, dir, got);
        { NoPreempt np; e.brx += en ? en->bytes() : bytes; ++e.mrx; }
        counters(e);
        if (keep) { for (auto& m : got) keep->AddPart(std::move(m)); return en; }
        std::vector<Piece> now_is;
        if (en) { NoPreempt np; now_is = en->parts; }
        if (en && gen(4) == 0) // the receiver uses less of what it received
            for (size_t k = 0; k < got.size(); ++k) {
                size_t n = now_is[k].len;
                if (n == 0 || gen(2)) continue;
                n = gen(6) == 0 ? 0 : n > 1000000 && gen(2) ? n - 1000000 - gen(n - 1000000) : gen(n);
                bool before = gen(2), ok = true;
                if (before) ok = matches(*got[k], now_is[k]);
                if (!got[k]->SetUsedSize(n) && (o.delivery || o.memory)) vio("shrink-refused", e.name + ": reducing the used size of received " + en->text() + " failed");
                now_is[k].hdr = now_is[k].h();
                now_is[k].len = n;
                if ((o.delivery || o.memory) && (!ok || !matches(*got[k], now_is[k]))) vio("content", e.name + ": " + en->text() + " changed when its used size was reduced");
            }
        if (en && !as_parts && gen(3) == 0) spare.push_back({std::move(got[0]), al}); // receive into it again without clearing it
        else if (en && gen(3)) held.push_back({std::move(got), en, now_is});
        if (held.size() > gen(4)) { check_held(held.front()); held.pop_front(); }
        return en;
    }
    void check_held(Held& h)
    {
        if (!o.delivery && !o.memory) return;
        for (size_t i = 0; i < h.m.size() && i < h.c.size(); ++i)
            if (!matches(*h.m[i], h.c[i]))
                vio("changed-while-referenced", "received message " + h.en->text() + " changed while it was held: part " + std::to_string(i) + " is now " + describe(*h.m[i]));
    }
    std::vector<std::pair<ns_t, ns_t>> dummy;
    ns_t stall_mark = 0;
    ns_t stalled_since(ns_t) { return faults().stall > 0 ? 1 : 0; } // only decided in runs without stalls

    bool all_done(int dir)
    {
        NoPreempt np;
        if (senders_left) return false;
        for (auto& en : entries) if ((dir < 0 || en.sender == dir) && en.status == 1 && !en.received) return false;
        return true;
    }
    void check_quiet(ns_t limit)
    {
        NoPreempt np;
        if (o.delivery && senders_left == 0 && now() - quiet > limit + stall_total())
            for (auto& en : entries) if (en.status == 1 && !en.received) vio("lost-message", "message " + en.text() + " of sender " + std::to_string(en.sender) + " was sent but does not arrive");
    }
};
} // namespace tr
#endif
