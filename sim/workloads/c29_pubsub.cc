// C29: publish/subscribe channels (zeromq)
#include "transport.h"
#include <fairmq/Poller.h>
using namespace tr;
using namespace std;

namespace {
struct Pub29 : Endpoint
{
    bool multi = false;
    vector<int> mine;              // entries
};
struct Sub29 : Endpoint
{
    set<int> got;                  // entries
    map<int, int> last;            // publisher -> index of the last message
    bool slow = false;
    ns_t quiet = 0;
};
struct Sent
{
    vector<Piece> parts;
    int pub, index;
    bool begun = false, done = false;
    vector<bool> must;             // per subscriber: nothing can excuse a loss
    string text() const { string s; for (auto& p : parts) s += (s.empty() ? "" : "+") + to_string(p.len); return "#" + to_string(parts[0].id) + " (" + s + " bytes)"; }
};
} // namespace

SIM_WORKLOAD(C29, fanout)
{
    limit_time(3000 * sec);
    bool quiet_env = gen(3) == 0;
    faults().stall = quiet_env || gen(2) ? 0 : 0.2;
    faults().stall_max = 50 * ms;
    faults().eintr = quiet_env || gen(2) ? 0 : 0.3;
    faults().net_delay_max = quiet_env ? 200 * us : (1 << gen(10)) * 50 * us;
    int np = 1 + (gen(3) == 0), ns = 1 + gen(3);
    bool inproc = gen(4) == 0, pubs_bind = gen(3) != 0, as_parts = gen(2);
    int hwm = gen(2) ? 1000 : 1 + gen(4);
    int count = 1 + gen(12);
    bool shm_msgs = gen(6) == 0; // messages created by the shared memory transport
    vector<unique_ptr<Proc>> procs;
    int nep = np + ns;
    for (int i = 0; i < (inproc ? 1 : nep); ++i) {
        procs.push_back(make_proc("p" + to_string(i), "zeromq"));
        if (shm_msgs) add_other(*procs.back());
    }
    Frees frees;
    vector<Maker> makers(np);
    for (auto& m : makers) { m.frees = &frees; m.users = gen(4) != 0; m.copies = gen(4) != 0; m.shrink = gen(4) != 0; }
    deque<Pub29> pubs(np);
    deque<Sub29> subs(ns);
    auto ep = [&](int i) -> Endpoint& { if (i < np) return pubs[i]; return subs[i - np]; };
    for (int i = 0; i < nep; ++i) {
        ep(i).p = procs[inproc ? 0 : i].get();
        ep(i).name = i < np ? "publisher" + to_string(i) : "subscriber" + to_string(i - np);
    }
    deque<Sent> sent;
    map<int, int> by_id;
    int next_id = 1, attached = 0, publishing = np;
    ns_t settled = -1, last_activity = 0;
    bool settle_known = false;
    auto attach = [&](int i) {
        Endpoint& e = ep(i);
        bool pub = i < np;
        e.ch = make_unique<Channel>("c" + to_string(i), pub ? "pub" : "sub", e.p->f);
        e.ch->GetSocket().SetSndBufSize(hwm);
        e.ch->GetSocket().SetRcvBufSize(hwm);
        e.ch->GetSocket().SetLinger(500);
        string pre = inproc ? "inproc://x" : "ipc://x";
        if (pub == pubs_bind) SIM_CHECK(e.ch->Bind(pre + to_string(i)), "harness", "bind failed");
        else
            for (int k = 0; k < nep; ++k)
                if ((k < np) != pub) SIM_CHECK(e.ch->Connect(pre + to_string(k)), "harness", "connect failed");
        NoPreempt n;
        if (++attached == nep) { settle_known = true; settled = now() + 2 * sec; }
        event(e.name + " attached");
    };
    bool early = gen(3) != 0;
    if (early) for (int i = 0; i < nep; ++i) { EnterProc g(ep(i).p->id); attach(i); }
    vector<Thread> ths;
    for (int i = 0; i < np; ++i)
        ths.push_back(spawn(pubs[i].name, [&, i] {
            Pub29& e = pubs[i];
            Maker& mk = makers[i];
            if (!e.ch) { nap(gen(300) * ms); attach(i); }
            if (gen(2)) while (!settle_known || now() < settled) nap(100 * ms);
            vector<MessagePtr> spare;
            int burst = 1 + gen(6);
            for (int k = 0; k < count; ++k) {
                Sent* s;
                int idx;
                {
                    NoPreempt n;
                    idx = sent.size();
                    sent.emplace_back();
                    s = &sent.back();
                    s->pub = i, s->index = k;
                    int parts = as_parts ? 1 + gen(4) : 1;
                    for (int q = 0; q < parts; ++q) {
                        size_t len = random_size(false);
                        if (q == 0 && len < 8) len += 8;
                        by_id[next_id] = idx;
                        s->parts.push_back({next_id++, len});
                    }
                }
                TransportFactory& f = e.p->other && gen(2) ? *e.p->other : *e.p->f;
                fair::mq::Parts ps;
                for (auto& c : s->parts) {
                    MessagePtr r;
                    if (!spare.empty() && gen(2) && spare.back()->GetType() == f.GetType()) { r = move(spare.back()); spare.pop_back(); }
                    ps.AddPart(mk.make(f, c, move(r)));
                }
                size_t bytes = 0;
                for (auto& c : s->parts) bytes += c.len;
                {
                    NoPreempt n;
                    s->must.assign(ns, false);
                    for (int q = 0; q < ns; ++q) {
                        int outstanding = 0;
                        for (int m : e.mine) if (!subs[q].got.count(m)) ++outstanding;
                        bool room = hwm >= np * count || outstanding == 0;
                        s->must[q] = settle_known && now() > settled && room;
                    }
                    s->begun = true;
                    event(e.name + " sends " + s->text());
                }
                static const int tmo[] = {-1, 0, 1, 100, 1000};
                int timeout = tmo[gen(5)];
                ns_t t0 = now(), s0 = stall_total();
                int64_t rc = as_parts ? e.ch->Send(ps, timeout) : e.ch->Send(ps.fParts[0], timeout);
                {
                    NoPreempt n;
                    SIM_CHECK(rc == (int64_t)bytes, "publisher-held-up", e.name + ": sending " + s->text() + " with timeout " + to_string(timeout) + " ms returned " + to_string(rc));
                    SIM_CHECK(now() - t0 <= 1 * ms + stall_total() - s0, "publisher-held-up", e.name + ": sending " + s->text() + " took " + to_string((now() - t0) / us) + " us");
                    s->done = true;
                    last_activity = now();
                    e.mine.push_back(idx);
                    e.btx += bytes;
                    ++e.mtx;
                }
                mk.check_kept();
                if (gen(3) == 0) mk.drop_kept();
                if (gen(2)) for (auto& m : ps.fParts) spare.push_back(move(m));
                if (k % burst == 0) nap(gen(200) * ms);
            }
            mk.drop_kept();
            NoPreempt n;
            --publishing;
        }, pubs[i].p->id));
    for (int i = 0; i < ns; ++i)
        ths.push_back(spawn(subs[i].name, [&, i] {
            Sub29& e = subs[i];
            if (!e.ch) { nap(gen(300) * ms); attach(np + i); }
            e.slow = gen(2);
            bool polls = gen(4) == 0;
            unique_ptr<fair::mq::Poller> poller;
            if (polls) poller = e.p->f->CreatePoller(vector<Channel*>{e.ch.get()});
            struct Held { vector<MessagePtr> m; vector<Piece> c; };
            deque<Held> held;
            auto check_held = [&](Held& h) { for (size_t q = 0; q < h.c.size(); ++q) SIM_CHECK(matches(*h.m[q], h.c[q]), "changed-while-held", e.name + ": message " + describe(h.c[q]) + " changed while it was held"); };
            { NoPreempt n; e.quiet = now(); }
            ns_t s_quiet = stall_total();
            while (true) {
                bool idle_end;
                { NoPreempt n; idle_end = publishing == 0 && now() - max(e.quiet, last_activity) > 3 * sec + 2 * (stall_total() - s_quiet); }
                if (idle_end) break;
                if (e.slow && gen(3) == 0) nap(gen(400) * ms);
                static const int tmo[] = {0, 1, 50, 100, 300};
                int timeout = tmo[gen(5)];
                if (polls) { poller->Poll(timeout); if (!poller->CheckInput(0)) { if (!timeout) nap(5 * ms); continue; } timeout = 0; }
                int64_t rc;
                Held h;
                if (as_parts) { fair::mq::Parts ps; rc = e.ch->Receive(ps, timeout); h.m = move(ps.fParts); }
                else { h.m.push_back(e.p->f->CreateMessage()); rc = e.ch->Receive(h.m[0], timeout); }
                if (rc < 0) {
                    SIM_CHECK(!polls || rc != (int64_t)TransferCode::timeout || fault_count("eintr"), "false-input", e.name + ": the poller reports a message, but there is none");
                    SIM_CHECK(rc == (int64_t)TransferCode::timeout || rc == (int64_t)TransferCode::interrupted, "transfer-error", e.name + ": a receive returned " + to_string(rc));
                    if (!timeout) nap(5 * ms);
                    continue;
                }
                {
                    NoPreempt n;
                    uint32_t hd[2] = {0, 0};
                    if (!h.m.empty() && h.m[0]->GetSize() >= 8) memcpy(hd, h.m[0]->GetData(), 8);
                    auto it = by_id.find(hd[0]);
                    SIM_CHECK(it != by_id.end() && sent[it->second].parts[0].id == (int)hd[0], "corrupted", e.name + " received something that does not start with the first part of any message: " + (h.m.empty() ? string("nothing") : describe(*h.m[0])));
                    Sent& s = sent[it->second];
                    SIM_CHECK(s.begun, "invented", e.name + " received " + s.text() + " before it was sent");
                    SIM_CHECK(h.m.size() == s.parts.size(), "parts", e.name + " received " + to_string(h.m.size()) + " parts of " + s.text());
                    size_t bytes = 0;
                    for (auto& c : s.parts) bytes += c.len;
                    SIM_CHECK(rc == (int64_t)bytes, "return-value", e.name + ": receiving " + s.text() + " returned " + to_string(rc));
                    h.c = s.parts;
                    SIM_CHECK(e.got.insert(it->second).second, "duplicate", e.name + " received " + s.text() + " twice");
                    auto l = e.last.find(s.pub);
                    SIM_CHECK(l == e.last.end() || l->second < s.index, "wrong-order", e.name + " received " + s.text() + " after a later message");
                    e.last[s.pub] = s.index;
                    e.quiet = now(), s_quiet = stall_total();
                    e.brx += bytes;
                    ++e.mrx;
                    event(e.name + " received " + s.text());
                }
                for (size_t q = 0; q < h.c.size(); ++q) SIM_CHECK(matches(*h.m[q], h.c[q]), "corrupted", e.name + ": part " + describe(h.c[q]) + " arrived as " + describe(*h.m[q]));
                if (gen(2)) held.push_back(move(h));
                if (held.size() > gen(4)) { check_held(held.front()); held.pop_front(); }
            }
            for (auto& h : held) check_held(h);
        }, subs[i].p->id));
    for (auto& t : ths) t.join();
    {
        NoPreempt n;
        for (auto& s : sent)
            for (int q = 0; q < ns; ++q)
                if (s.must[q]) {
                    probe("guaranteed delivery");
                    SIM_CHECK(subs[q].got.count(by_id[s.parts[0].id]), "lost-message", subs[q].name + " never received " + s.text() + " although it was subscribed and its queue had room");
                }
    }
    for (int i = 0; i < nep; ++i) {
        Endpoint& e = ep(i);
        EnterProc g(e.p->id);
        SIM_CHECK(e.ch->GetBytesTx() == e.btx && e.ch->GetBytesRx() == e.brx && e.ch->GetMessagesTx() == e.mtx && e.ch->GetMessagesRx() == e.mrx, "statistics", e.name + " reports other numbers than were transferred");
        e.ch.reset();
    }
    nap(10 * ms);
    SIM_CHECK(frees.open.empty(), "buffer-not-released", to_string(frees.open.size()) + " user buffers were never released");
    for (auto& p : procs) drop_proc(*p);
    if (shm_msgs) for (auto& s : shm_names()) violation("left-behind", "shared memory " + s + " is left");
}
