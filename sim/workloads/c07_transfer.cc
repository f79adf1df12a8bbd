// C07: messages arrive intact, once, in order   C08: timeouts, return codes, ownership   C09: buffers   C25: statistics
#include "transport.h"

using namespace tr;
using namespace std;

namespace {

void stream(Opts o, bool shm_only)
{
    Flow s(o);
    s.transport = shm_only || gen(2) ? "shmem" : "zeromq";
    bool shm = s.transport == "shmem";
    int pattern = gen(5); // 0 push/pull 1:1, 1 N:M, 2 pair both ways, 3 request/reply, 4 push/pull 1:1 inproc
    bool quiet_env = gen(3) == 0;
    faults().stall = quiet_env || gen(2) ? 0 : 0.2;
    faults().stall_max = 50 * ms;
    faults().eintr = quiet_env || gen(2) ? 0 : 0.3;
    faults().net_delay_max = quiet_env ? 200 * us : (1 << gen(12)) * 50 * us;
    limit_time(3000 * sec);
    clock_steps();
    int np = pattern == 1 ? 1 + gen(3) : 1, nr = pattern == 1 ? 1 + gen(3) : 1;
    s.one_to_one = pattern != 1 || (np == 1 && nr == 1);
    s.reply = pattern == 3;
    s.big = gen(4) == 0;
    s.hwm = gen(2) ? 1000 : 1 + gen(3);
    bool interrupts = !quiet_env && gen(3) == 0;
    bool give_up = gen(3) == 0;
    bool seg = shm && gen(4) == 0;
    bool mixed = gen(6) == 0; // messages created by the other transport
    bool late_receiver = gen(4) == 0;
    bool multi = gen(2);
    bool as_parts = multi || gen(3) == 0; // both sides use the same call (the shared memory transport requires it)
    if (pattern == 2) s.hwm = 1000; // both sides send before they receive
    string alloc = shm && gen(8) == 0 ? "simple_seq_fit" : "";
    int count = 1 + gen(8);
    // processes
    bool inproc = pattern == 4;
    int nproc = inproc ? 1 : np + nr;
    for (int i = 0; i < nproc; ++i) {
        s.procs.push_back(make_proc("p" + to_string(i), s.transport, seg ? i : 0, 16 << 20, "s", alloc));
        if (mixed) add_other(*s.procs.back());
    }
    if (shm) for (auto& p : s.procs) s.free0[p->segment] = free_memory(p->segment);
    int nep = np + nr;
    for (int i = 0; i < nep; ++i) {
        s.eps.emplace_back();
        auto& e = s.eps.back();
        e.p = s.procs[inproc ? 0 : i].get();
        e.name = (i < np ? "sender" : "receiver") + to_string(i < np ? i : i - np);
    }
    s.sent_by.resize(nep);
    s.cursor.assign(nep, 0);
    string st = pattern == 2 ? "pair" : s.reply ? "req" : "push", rt = pattern == 2 ? "pair" : s.reply ? "rep" : "pull";
    int style = gen(3); // who binds: senders, receivers
    auto attach = [&](int i) {
        auto& e = s.eps[i];
        bool sender = i < np;
        e.ch = make_unique<Channel>("c" + to_string(i), sender ? st : rt, e.p->f);
        e.ch->GetSocket().SetSndBufSize(s.hwm);
        e.ch->GetSocket().SetRcvBufSize(s.hwm);
        e.ch->GetSocket().SetLinger(500);
        bool binds = (style == 0) == sender;
        if (binds) SIM_CHECK(e.ch->Bind((inproc ? "inproc://x" : "ipc://x") + to_string(i)), "harness", "bind failed");
        else
            for (int k = 0; k < nep; ++k)
                if ((k < np) != sender) SIM_CHECK(e.ch->Connect((inproc ? "inproc://x" : "ipc://x") + to_string(k)), "harness", "connect failed");
    };
    bool early = gen(2); // attach all channels before the transfers start
    if (inproc || early)
        for (int i = 0; i < nep; ++i) { EnterProc ep(s.eps[i].p->id); attach(i); }
    int finished = 0;
    { NoPreempt n; s.senders_left = pattern == 2 ? 2 : np; s.quiet = now(); }
    vector<Maker> makers(nep);
    for (auto& m : makers) { m.frees = &s.frees; m.users = gen(4) != 0; m.copies = gen(4) != 0; m.shrink = gen(4) != 0; }
    bool endless = !interrupts ? gen(2) : false;
    vector<Thread> ths;
    for (int i = 0; i < nep; ++i) {
        bool sender = i < np;
        ths.push_back(spawn(s.eps[i].name, [&, i, sender] {
            auto& e = s.eps[i];
            if (!e.ch) { if (gen(2)) nap(gen(200) * ms); attach(i); }
            if (!sender && late_receiver) nap(gen(2000) * ms);
            Maker& mk = makers[i];
            mk.check_alignment = s.o.delivery;
            deque<Flow::Held> held;
            vector<Flow::Spare> spare; vector<MessagePtr> sspare;
            int peer = sender ? np : 0;
            auto receive_some = [&](int dir, bool wait) {
                bool sure = false;
                if (wait && endless) { NoPreempt n; for (auto& en : s.entries) if (en.sender == dir && en.status == 1 && !en.received) sure = true; }
                return s.receive(e, i, dir, as_parts, held, spare, sure && s.one_to_one);
            };
            if (sender || pattern == 2) {
                for (int k = 0; k < count; ++k) {
                    Entry& en = s.new_entry(i, multi);
                    bool parts = as_parts;
                    bool ok = s.send(e, mk, en, sspare, give_up && !s.reply, parts);
                    mk.check_kept();
                    if (gen(3) == 0) mk.drop_kept();
                    if (s.reply && ok) { // wait for the answer: the same content comes back
                        Entry* r = nullptr;
                        while (!r) {
                            r = s.receive(e, i, peer, as_parts, held, spare, false);
                            if (!r) s.check_quiet(5 * sec);
                            NoPreempt n;
                            if (!r && now() - s.quiet > 100 * sec + stall_total()) violation("lost-message", "no reply arrives");
                        }
                    }
                    if (pattern == 2 && gen(2)) receive_some(peer, false);
                    if (gen_p(0.3)) nap(gen(30) * ms);
                }
                NoPreempt n;
                --s.senders_left;
                s.quiet = now();
            }
            if (!sender || pattern == 2) {
                int dir = pattern == 1 ? -1 : peer;
                if (pattern == 1 && np == 1 && s.one_to_one) dir = 0;
                while (!s.all_done(dir)) {
                    if (s.reply) {
                        fair::mq::Parts in;
                        Entry* r = s.receive(e, i, dir, as_parts, held, spare, false, &in);
                        if (r) {
                            Entry* a;
                            vector<Piece> want;
                            { NoPreempt n; want = r->parts; ++s.senders_left; }
                            a = &s.new_entry(i, false);
                            { NoPreempt n; a->parts = want; }
                            if (gen(2)) { // forward the very same message objects
                                s.transmit(e, *a, in, false, as_parts, &sspare);
                            } else {
                                in.Clear();
                                s.send(e, mk, *a, sspare, false, as_parts);
                            }
                            NoPreempt n;
                            --s.senders_left;
                        }
                    } else receive_some(dir, true);
                    s.check_quiet(60 * sec);
                    if (gen_p(0.1)) nap(gen(50) * ms);
                }
            }
            for (auto& h : held) s.check_held(h);
            held.clear();
            mk.drop_kept();
            spare.clear();
            sspare.clear();
            NoPreempt n;
            ++finished;
        }, s.eps[i].p->id));
    }
    Thread intr;
    if (interrupts)
        intr = spawn("interrupter", [&] {
            int n = 1 + gen(4);
            for (int k = 0; k < n; ++k) {
                nap(gen(400) * ms);
                int w = gen(s.procs.size());
                Proc* p = s.procs[w].get();
                { NoPreempt np; for (auto& e : s.eps) if (e.p == p) { e.interrupted = true; ++e.interrupts; } count_fault("transport interrupt"); event("interrupt " + p->name); }
                p->f->Interrupt();
                { NoPreempt np; for (auto& e : s.eps) if (e.p == p) e.interrupted_at.emplace_back(now(), -1); }
                nap(gen(3) ? gen(150) * ms : (100 + gen(400)) * ms);
                { NoPreempt np; for (auto& e : s.eps) if (e.p == p) e.interrupted_at.back().second = now(); }
                p->f->Resume();
                NoPreempt np;
                for (auto& e : s.eps) if (e.p == p) { e.interrupted = false; ++e.interrupts; }
            }
        });
    for (auto& t : ths) t.join();
    if (interrupts) intr.join();
    nap(1 * sec); // nothing more may arrive
    for (int i = 0; i < nep; ++i) {
        auto& e = s.eps[i];
        EnterProc ep(e.p->id);
        if (o.delivery && (i >= np || pattern == 2) && !s.reply) {
            auto m = e.p->f->CreateMessage();
            auto rc = e.ch->Receive(m, 0);
            SIM_CHECK(rc < 0, "invented-message", e.name + " received a message that nobody sent");
        }
        s.counters(e);
    }
    if (o.memory && shm) {
        for (auto& [seg, f] : s.free0) {
            size_t n = free_memory(seg);
            SIM_CHECK(n == f, n < f ? "leak" : "over-release", "all messages are gone, but " + to_string(n) + " bytes of segment " + to_string(seg) + " are free instead of " + to_string(f));
        }
    }
    for (auto& e : s.eps) { EnterProc ep(e.p->id); e.ch.reset(); }
    nap(10 * ms);
    if (o.memory || o.delivery) SIM_CHECK(s.frees.open.empty(), "buffer-not-released", to_string(s.frees.open.size()) + " user buffers were never released");
    for (auto& p : s.procs) drop_proc(*p);
}
} // namespace

SIM_WORKLOAD(C07, stream) { Opts o; o.delivery = true; stream(o, false); }
SIM_WORKLOAD(C08, stream) { Opts o; o.returns = true; o.memory = true; /* a message stays with the caller or goes away, exactly */ stream(o, false); }
SIM_WORKLOAD(C09, stream) { Opts o; o.memory = true; stream(o, true); }
SIM_WORKLOAD(C25, stream) { Opts o; o.counters = true; stream(o, false); }
