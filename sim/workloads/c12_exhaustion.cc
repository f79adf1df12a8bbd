// C12: allocation while the shared memory segment is exhausted
#include "transport.h"
#include <list>

using namespace tr;
using namespace std;

namespace {
constexpr size_t kOverhead = 160; // upper bound of what one allocation needs besides the requested size and alignment

struct Call // an allocation under way
{
    size_t need = 0;
    ns_t fits_since = -1; // since when there is certainly enough memory
};
struct Held { MessagePtr m; Piece c; size_t block = 0; };
struct Member
{
    unique_ptr<Proc> p;
    int attempts = 1; // < 0: unlimited
    int interval = 50;
    bool maybe = false, interrupted = false; // possibly, certainly interrupted
    int interrupts = 0;
    ns_t since = 0; // when the last interrupt was requested
    deque<Held> kept; // shared by the threads of this process
};
struct World
{
    size_t capacity = 0, segment = 0;
    size_t used = 0, blocks = 0; // upper bounds: what may be allocated now
    list<Call*> calls;
    int next_id = 1;

    // n free areas exist at most between n - 1 blocks, the largest one has at least the average size
    // (what the call itself needs is part of `used`)
    bool certain(size_t need) const
    {
        size_t u = used - need - kOverhead, b = blocks - 1;
        return u + 64 < capacity && need + kOverhead <= (capacity - 64 - u) / (b + 1);
    }
    void changed()
    {
        for (auto* c : calls)
            if (!certain(c->need)) c->fits_since = -1;
            else if (c->fits_since < 0) c->fits_since = now();
    }
    void more(size_t n) { used += n + kOverhead; ++blocks; changed(); }
    void less(size_t n) { used -= n + kOverhead; --blocks; changed(); }
};
} // namespace

SIM_WORKLOAD(C12, exhaustion)
{
    World w;
    faults().stall = gen(3) == 0 ? 0.2 : 0;
    faults().stall_max = 60 * ms;
    faults().eintr = gen(2) ? 0 : 0.2;
    limit_time(4000 * sec);
    bool large = gen(6) == 0; // message sizes for which reducing the used size moves the content
    w.segment = large ? 5000000 + gen(2000000) : 20000 + gen(60000);
    string alloc = gen(3) ? "" : "simple_seq_fit";
    int nproc = 1 + gen(3);
    deque<Member> ms_;
    for (int k = 0; k < nproc; ++k) {
        ms_.emplace_back();
        auto& m = ms_.back();
        auto p = make_unique<Proc>();
        p->name = "device" + to_string(k);
        p->id = new_proc(p->name);
        p->shm = true;
        EnterProc e(p->id);
        p->cfg = make_unique<fair::mq::ProgOptions>();
        configure(*p->cfg, "s", w.segment, 0); vary(*p->cfg, true);
        if (!alloc.empty()) p->cfg->SetProperty<string>("shm-allocation", alloc);
        static const int iv[] = {50, 1, 10, 100, 330, 0};
        int i = gen(7);
        if (i < 6) { m.interval = iv[i]; p->cfg->SetProperty<int>("bad-alloc-attempt-interval", m.interval); }
        switch (gen(6)) {
            case 0: break; // the default: fail at once
            case 1: p->cfg->SetProperty<bool>("shm-throw-bad-alloc", false); p->cfg->SetProperty<int>("bad-alloc-max-attempts", gen(4)); m.attempts = -1; break;
            case 2: p->cfg->SetProperty<bool>("shm-throw-bad-alloc", gen(2)); p->cfg->SetProperty<int>("bad-alloc-max-attempts", -1); m.attempts = -1; break;
            case 3: p->cfg->SetProperty<bool>("shm-throw-bad-alloc", false); m.attempts = -1; break;
            default: m.attempts = gen(6); p->cfg->SetProperty<int>("bad-alloc-max-attempts", m.attempts); if (gen(2)) p->cfg->SetProperty<bool>("shm-throw-bad-alloc", true); m.attempts = max(1, m.attempts); break;
        }
        if (m.attempts < 0 && m.interval == 0) { m.interval = 1; p->cfg->SetProperty<int>("bad-alloc-attempt-interval", 1); }
        p->f = TransportFactory::CreateTransportFactory("shmem", p->name, p->cfg.get());
        m.p = std::move(p);
    }
    size_t free0 = free_memory(0);
    w.capacity = free0;
    // runs one operation that may allocate `need` bytes; true if it did, false if it failed with the documented error
    auto attempt = [&](Member& m, size_t need, const string& what, const function<void()>& op) {
        Call c;
        c.need = need;
        bool intr, oversize = need + 8 > w.segment;
        int in0;
        ns_t since;
        {
            NoPreempt np;
            intr = m.maybe; in0 = m.interrupts; since = m.since;
            w.calls.push_back(&c);
            w.more(need);
        }
        ns_t t0 = now(), s0 = stall_total();
        bool ok = true;
        try { op(); } catch (fair::mq::MessageBadAlloc&) { ok = false; }
        NoPreempt np;
        ns_t el = now() - t0, st = stall_total() - s0, iv = m.interval * ms;
        bool was = intr || m.interrupts != in0;
        w.calls.remove(&c);
        if (!ok) w.less(need);
        string who = m.p->name + ": " + what + " (attempts " + to_string(m.attempts) + ", interval " + to_string(m.interval) + " ms)";
        event(who + (ok ? " done after " : " failed after ") + to_string(el / us) + " us");
        if (!ok) {
            probe(m.attempts < 0 ? "interrupted while waiting" : m.attempts == 1 ? "failed at once" : "failed after retries");
            if (oversize) { SIM_CHECK(el <= st + ms, "oversize-waited", who + " for more than the segment can hold failed only after " + to_string(el / us) + " us"); return false; }
            if (m.attempts < 0) SIM_CHECK(was, "unlimited-gave-up", who + " failed after " + to_string(el / us) + " us, without an interruption");
            if (!was) {
                SIM_CHECK(el >= (m.attempts - 1) * iv, "gave-up-early", who + " failed after " + to_string(el / us) + " us");
                SIM_CHECK(el <= (m.attempts - 1) * iv + st + ms, "gave-up-late", who + " failed only after " + to_string(el / us) + " us");
                SIM_CHECK(c.fits_since < 0 || c.fits_since > t0 + (m.attempts - 1) * iv, "failed-with-memory-free", who + " failed although there was enough memory since " + to_string((now() - c.fits_since) / us) + " us");
            }
            SIM_CHECK(m.attempts < 0 || el <= max(0, m.attempts - 1) * iv + st + ms, "gave-up-late", who + " failed only after " + to_string(el / us) + " us");
        } else {
            if (el > iv / 2 && el > st) probe("succeeded after waiting");
            SIM_CHECK(!oversize, "impossible-size", who + " returned a message larger than the segment");
            if (c.fits_since >= 0) SIM_CHECK(now() - c.fits_since <= iv + st + ms, "late-success", who + " waited for " + to_string((now() - c.fits_since) / us) + " us although there was enough memory");
        }
        if (m.interrupted && was) {
            ns_t from = max(t0, m.since);
            SIM_CHECK(now() - from <= iv + st + ms, "interrupt-ignored", who + " went on for " + to_string((now() - from) / us) + " us while the transport was interrupted");
        }
        return ok;
    };
    auto release = [&](Held h) {
        event("release " + describe(h.c));
        SIM_CHECK(matches(*h.m, h.c), "content", "message " + describe(h.c) + " changed: " + describe(*h.m));
        h.m.reset();
        NoPreempt np;
        w.less(h.block);
    };
    // messages may be passed on to the next process
    struct Link { unique_ptr<Channel> out, in; Thread t; };
    vector<Link> links(nproc > 1 && gen(2) ? nproc - 1 : 0);
    struct Sent { Piece c; size_t block; };
    map<uint32_t, Sent> sent;
    int workers = 1; // this one
    for (size_t i = 0; i < links.size(); ++i) {
        { EnterProc e(ms_[i].p->id); links[i].out = make_unique<Channel>("o" + to_string(i), "push", ms_[i].p->f); SIM_CHECK(links[i].out->Bind("ipc://l" + to_string(i)), "harness", "bind"); }
        { EnterProc e(ms_[i + 1].p->id); links[i].in = make_unique<Channel>("i" + to_string(i), "pull", ms_[i + 1].p->f); SIM_CHECK(links[i].in->Connect("ipc://l" + to_string(i)), "harness", "connect"); }
        links[i].t = spawn("receiver" + to_string(i + 1), [&, i] {
            auto& f = *ms_[i + 1].p->f;
            deque<Held> held;
            bool may = true;
            while (true) {
                bool end;
                { NoPreempt np; end = workers == 0 && sent.empty(); }
                if (end) break;
                auto m = f.CreateMessage();
                if (links[i].in->Receive(m, 20) >= 0) {
                    Held h;
                    const void* p = m->GetData();
                    {
                        NoPreempt np;
                        uint32_t hd[2];
                        memcpy(hd, p, 8);
                        auto it = sent.find(hd[0]);
                        SIM_CHECK(it != sent.end(), "content", "an unknown message was received: " + describe(*m));
                        h.c = it->second.c; h.block = it->second.block;
                        sent.erase(it);
                    }
                    h.m = std::move(m);
                    held.push_back(std::move(h));
                } else may = false;
                while (!held.empty() && (held.size() > 8 || gen(4) == 0 || !may)) { release(std::move(held.front())); held.pop_front(); if (gen(2)) nap(gen(60) * ms); }
                if (gen(3) == 0) nap(gen(100) * ms);
                may = true;
            }
            while (!held.empty()) { release(std::move(held.front())); held.pop_front(); }
        }, ms_[i + 1].p->id);
    }
    vector<Thread> ths;
    for (int k = 0; k < nproc; ++k) {
        int n = 1 + gen(3);
        for (int t = 0; t < n; ++t) {
            ++workers;
            ths.push_back(spawn("worker" + to_string(k) + to_string(t), [&, k, t] {
                auto& me = ms_[k];
                auto& f = *me.p->f;
                deque<Held> held;
                int ops = 5 + gen(30);
                // an endless wait of all threads at the same time would be their own fault: hold a bounded share
                size_t share = w.segment * (gen(2) ? 40 : 90) / 100 / (1 + gen(4));
                auto mine = [&] { size_t s = 0; for (auto& h : held) s += h.block; return s; };
                while (ops-- > 0) {
                    Held h;
                    bool over = gen(25) == 0;
                    size_t len = over ? w.segment + gen(100000) : large ? (gen(2) ? 1000000 + gen(1500000) : 8 + gen(300000)) : gen(4) == 0 ? 8 + gen(100) : gen(8) == 0 ? w.capacity / 2 + gen(w.capacity / 2) : 8 + gen(w.segment / 6);
                    size_t al = gen(4) == 0 ? (size_t)(1 << (4 + gen(8))) : 0;
                    fair::mq::Alignment a{al};
                    // what does not fit into an empty segment would be waited for without end
                    if (!over && len + al + 400 > w.capacity) len = w.capacity - al - 400;
                    // whoever wants to wait without limit gives up what it holds first, otherwise nobody may ever get anything
                    if (me.attempts < 0) while (!held.empty() && (gen(2) || mine() > share)) { release(std::move(held.front())); held.pop_front(); }
                    while (!held.empty() && mine() > share) { release(std::move(held.front())); held.pop_front(); }
                    if (me.attempts < 0) while (!held.empty()) {
                        // keep only what is released by somebody else
                        release(std::move(held.front())); held.pop_front();
                    }
                    { NoPreempt np; h.c = Piece{w.next_id++, len}; }
                    h.block = len + max<size_t>(al, 16) + 16;
                    bool ok;
                    string what = "creating " + to_string(len) + " bytes";
                    switch (gen(5)) {
                        case 0: ok = attempt(me, h.block, what, [&] { h.m = f.CreateMessage(len); }); if (ok) fill(h.m->GetData(), h.c); break;
                        case 1: ok = attempt(me, h.block, what, [&] { h.m = f.CreateMessage(len, a); });
                            if (ok) { fill(h.m->GetData(), h.c); SIM_CHECK(al == 0 || (uintptr_t)h.m->GetData() % al == 0, "alignment", "a message is not aligned as requested"); }
                            break;
                        case 2: {
                            Frees fr;
                            auto* hint = new FreeHint{&fr, malloc(len)};
                            fr.open.insert(hint);
                            if (!over) fill(hint->buf, h.c);
                            ok = attempt(me, h.block, what + " from a user buffer", [&] { h.m = f.CreateMessage(hint->buf, len, free_fn, hint); });
                            SIM_CHECK(fr.called == (ok ? 1 : 0), "user-buffer", ok ? "the user buffer was not released" : "the user buffer of a message that was not created was released");
                            if (!ok) { free(hint->buf); delete hint; }
                            break;
                        }
                        default: {
                            h.m = f.CreateMessage(); // rebuilt
                            ok = attempt(me, h.block, "re" + what, [&] { gen(2) ? h.m->Rebuild(len) : h.m->Rebuild(len, a); });
                            if (ok) fill(h.m->GetData(), h.c);
                            else SIM_CHECK(h.m->GetSize() == 0, "half-built", "a message that could not be rebuilt is not empty");
                        }
                    }
                    if (!ok) { if (gen(2)) nap(gen(150) * ms); continue; }
                    if (gen(4) == 0 && len > 16) { // use less of it
                        size_t n = large && len > 1000100 && gen(2) ? 8 + gen(len - 1000000 - 8) : 8 + gen(len - 8);
                        size_t extra = len - n >= 1000000 ? n + 4096 + 32 : 0; // it may be moved
                        bool r = false;
                        if (me.attempts < 0 && extra) while (!held.empty()) { release(std::move(held.front())); held.pop_front(); }
                        bool done = attempt(me, extra, "reducing " + to_string(len) + " to " + to_string(n) + " bytes", [&] { r = h.m->SetUsedSize(n); });
                        if (done) {
                            SIM_CHECK(r, "shrink-refused", "reducing the used size failed");
                            h.c.hdr = h.c.len;
                            h.c.len = n;
                            NoPreempt np;
                            w.less(extra); // either the old or the new block is gone
                        }
                    }
                    int what_next = gen(4);
                    if (what_next == 0 && t == 0 && k < (int)links.size()) {
                        event("send " + describe(h.c));
                        { NoPreempt np; sent[h.c.id] = {h.c, h.block}; }
                        // sending does not allocate, and interrupts are answered by trying again
                        int64_t rc;
                        while ((rc = links[k].out->Send(h.m, 100)) < 0) { SIM_CHECK(rc > (int64_t)fair::mq::TransferCode::error || rc == (int64_t)fair::mq::TransferCode::interrupted || rc == (int64_t)fair::mq::TransferCode::timeout, "transfer-error", "send failed"); nap(10 * ms); }
                    } else if (what_next < 3) held.push_back(std::move(h));
                    else release(std::move(h));
                    while (held.size() > 10 || (!held.empty() && gen(4) == 0)) {
                        int i = gen(held.size());
                        Held x = std::move(held[i]);
                        held.erase(held.begin() + i);
                        release(std::move(x));
                    }
                    if (gen(3) == 0) nap(gen(200) * ms);
                }
                while (!held.empty()) { release(std::move(held.front())); held.pop_front(); }
                NoPreempt np;
                --workers;
            }, ms_[k].p->id));
        }
    }
    { NoPreempt np; --workers; }
    Thread breaker;
    bool with_interrupts = gen(3) == 0;
    if (with_interrupts)
        breaker = spawn("breaker", [&] {
            int n = 1 + gen(10);
            while (n-- > 0) {
                nap(gen(600) * ms);
                auto& m = ms_[gen(nproc)];
                EnterProc e(m.p->id);
                { NoPreempt np; m.maybe = true; ++m.interrupts; }
                m.p->f->Interrupt();
                { NoPreempt np; m.interrupted = true; m.since = now(); event(m.p->name + " interrupted"); }
                count_fault("transport interrupt");
                nap(gen(500) * ms);
                { NoPreempt np; m.interrupted = false; event(m.p->name + " resumed"); }
                m.p->f->Resume();
                { NoPreempt np; m.maybe = false; }
                if (gen(3) == 0) wall_jump((int64_t)(gen(2000000)) * ms - 1000000 * ms);
            }
        });
    for (auto& t : ths) t.join();
    if (with_interrupts) breaker.join();
    for (auto& l : links) l.t.join();
    for (auto& l : links) { l.out.reset(); l.in.reset(); }
    nap(1 * sec);
    size_t n = free_memory(0);
    SIM_CHECK(n == free0, n < free0 ? "leak" : "over-release", "all messages are gone, but " + to_string(n) + " bytes of the segment are free instead of " + to_string(free0));
    for (auto& m : ms_) drop_proc(*m.p);
}
