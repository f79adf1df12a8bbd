// C21: a poller reports exactly the ready channels and never waits too long
#include "transport.h"
#include <fairmq/Poller.h>

using namespace tr;
using namespace std;

namespace {
struct Chan
{
    string key;
    int sub = 0;
    string type; // at the polling side
    string address;
    vector<ns_t> sent;      // by the peer: when the send returned
    size_t received = 0;    // at the polling side
    size_t out = 0;         // sent by the polling side
    size_t out_received = 0;
    ns_t out_received_at = 0;
    bool connected = false, owed = false;
    bool can_in() const { return type != "push"; }
    bool can_out() const { return type != "pull"; }
    ns_t received_at = 0;
    // a message is waiting; with a full receive queue it may only have moved up when the previous one was taken
    ns_t waiting_since() const { return received < sent.size() ? max(sent[received], received_at) : -1; }
};
} // namespace

SIM_WORKLOAD(C21, poll)
{
    string transport = gen(2) ? "zeromq" : "shmem";
    bool stalls = gen(3) == 0;
    faults().stall = stalls ? 0.1 : 0;
    faults().stall_max = 30 * ms;
    faults().eintr = gen(2) ? 0 : 0.3;
    faults().net_delay_max = 50 * us << gen(8);
    limit_time(1000 * sec);
    clock_steps();
    const ns_t slack = faults().net_delay_max * 2 + 2 * ms;
    int hwm = gen(2) ? 1000 : 1 + gen(4);
    bool inproc = gen(5) == 0;
    deque<Chan> ch;
    vector<string> keys;
    int nk = 1 + gen(3);
    static const char* types[] = {"pull", "push", "pair", "rep"};
    for (int k = 0; k < nk; ++k) {
        string type = types[gen(4)];
        keys.push_back("k" + to_string(k));
        int subs = 1 + gen(3);
        for (int s = 0; s < subs; ++s) {
            ch.emplace_back();
            auto& c = ch.back();
            c.key = keys.back();
            c.sub = s;
            c.type = type;
            c.address = string(inproc ? "inproc://a" : "ipc://a") + to_string(k) + "_" + to_string(s);
        }
    }
    auto me = make_proc("poller", transport);
    auto they = inproc ? nullptr : make_proc("peer", transport);
    Proc* peer = inproc ? me.get() : they.get();
    unordered_map<string, vector<Channel>> map;
    {
        EnterProc e(me->id);
        for (auto& c : ch) {
            auto& v = map[c.key];
            v.emplace_back(c.key + to_string(c.sub), c.type, me->f);
            v.back().GetSocket().SetSndBufSize(hwm);
            v.back().GetSocket().SetRcvBufSize(hwm);
            v.back().GetSocket().SetLinger(100);
            SIM_CHECK(v.back().Bind(c.address), "harness", "bind failed");
        }
    }
    bool stop = false;
    int ready = 0;
    vector<Thread> ths;
    for (auto& c : ch)
        ths.push_back(spawn("peer-" + c.key + to_string(c.sub), [&] {
            string t = c.type == "pull" ? "push" : c.type == "push" ? "pull" : c.type == "rep" ? "req" : "pair";
            Channel p("p" + c.key + to_string(c.sub), t, peer->f);
            p.GetSocket().SetSndBufSize(hwm);
            p.GetSocket().SetRcvBufSize(hwm);
            p.GetSocket().SetLinger(100);
            SIM_CHECK(p.Connect(c.address), "harness", "connect failed");
            auto is_stop = [&] { NoPreempt np; return stop; };
            auto send = [&] {
                auto m = peer->f->CreateMessage(10);
                while (p.Send(m, 50) < 0) if (is_stop()) return false;
                NoPreempt np;
                c.sent.push_back(now());
                return true;
            };
            auto recv = [&] {
                auto m = peer->f->CreateMessage();
                while (p.Receive(m, 50) < 0) if (is_stop()) return false;
                NoPreempt np;
                ++c.out_received;
                c.out_received_at = now();
                return true;
            };
            // establish the connection
            if (c.type == "push") recv(); else send();
            if (c.type == "rep") recv();
            { NoPreempt np; ++ready; }
            int rate = 1 + gen(3);
            while (!is_stop()) {
                nap(gen(rate == 1 ? 20 : rate == 2 ? 200 : 2000) * ms);
                if (is_stop()) break;
                int burst = 1 + gen(4);
                for (int i = 0; i < burst; ++i) {
                    if (c.type == "pull") send();
                    else if (c.type == "push") recv();
                    else if (c.type == "rep") { if (!send() || !recv()) break; }
                    else if (gen(2)) send();
                    else recv();
                }
            }
        }, peer->id));
    bool bad_key = gen(10) == 0;
    Thread poller = spawn("poller", [&] {
        auto at = [&](Chan& c) -> Channel& { return map.at(c.key).at(c.sub); };
        auto recv = [&](Chan& c, int timeout) {
            auto m = me->f->CreateMessage();
            auto rc = at(c).Receive(m, timeout);
            if (rc < 0) return false;
            NoPreempt np;
            ++c.received;
            c.received_at = now();
            if (c.type == "rep") c.owed = true;
            return true;
        };
        auto send = [&](Chan& c, int timeout) {
            auto m = me->f->CreateMessage(20);
            auto rc = at(c).Send(m, timeout);
            if (rc < 0) return false;
            NoPreempt np;
            ++c.out;
            c.owed = false;
            return true;
        };
        for (auto& c : ch) {
            if (c.type == "push") send(c, -1); else recv(c, -1);
            if (c.type == "rep") send(c, -1);
        }
        while (true) { nap(10 * ms); NoPreempt np; if (ready == (int)ch.size()) break; }
        nap(faults().net_delay_max * 2 + ms);
        // the poller: over all channels in a chosen order, or over one channel
        fair::mq::PollerPtr p;
        deque<Chan*> items;
        int form = gen(4);
        bool named = form < 2;
        if (named) {
            vector<string> list = keys;
            for (size_t i = list.size(); i > 1; --i) swap(list[i - 1], list[gen(i)]);
            if (gen(3) == 0 && list.size() > 1) list.pop_back();
            if (bad_key) {
                auto wrong = list;
                wrong.push_back("nope");
                bool thrown = false;
                try { me->f->CreatePoller(map, wrong); } catch (fair::mq::PollerError&) { thrown = true; }
                SIM_CHECK(thrown, "bad-key-accepted", "a poller was created for a channel that does not exist");
            }
            p = me->f->CreatePoller(map, list);
            for (auto& k : list) for (auto& c : ch) if (c.key == k) items.push_back(&c);
        } else if (form == 2) {
            string k = keys[gen(keys.size())];
            p = me->f->CreatePoller(map.at(k));
            for (auto& c : ch) if (c.key == k) items.push_back(&c);
        } else {
            vector<Channel*> v;
            for (auto& c : ch) if (gen(3)) { v.push_back(&at(c)); items.push_back(&c); }
            if (v.empty()) { v.push_back(&at(ch[0])); items.push_back(&ch[0]); }
            p = me->f->CreatePoller(v);
        }
        auto in = [&](size_t i) { return named && gen(2) ? p->CheckInput(items[i]->key, items[i]->sub) : named ? p->CheckInput(items[i]->key, items[i]->sub) : p->CheckInput((int)i); };
        auto out = [&](size_t i) { return named ? p->CheckOutput(items[i]->key, items[i]->sub) : p->CheckOutput((int)i); };
        int rounds = 3 + gen(20);
        for (int r = 0; r < rounds; ++r) {
            static const int ts[] = {0, 1, 10, 50, 200, 500, 1500, -1};
            int timeout = ts[gen(8)];
            bool inputs = false;
            for (auto* c : items) if (c->type == "pull" || c->type == "rep" || c->type == "push" || c->type == "pair") inputs = true;
            if (!inputs && timeout < 0) timeout = 100;
            struct Sure { bool in, out; };
            vector<Sure> sure(items.size());
            ns_t t0, s0;
            {
                NoPreempt np;
                t0 = now(), s0 = stall_total();
                for (size_t i = 0; i < items.size(); ++i) {
                    auto& c = *items[i];
                    ns_t w = c.waiting_since();
                    sure[i].in = c.can_in() && !(c.type == "rep" && c.owed) && w >= 0 && t0 - w > slack && !stalls;
                    sure[i].out = c.can_out() && !(c.type == "rep" && !c.owed) && c.out == c.out_received && t0 - c.out_received_at > slack && !stalls;
                }
            }
            bool any_sure = false;
            for (auto& s : sure) any_sure |= s.in || s.out;
            p->Poll(timeout);
            ns_t t1 = now(), st = stall_total() - s0, el = t1 - t0;
            string what = "a poll with timeout " + to_string(timeout) + " ms";
            vector<pair<bool, bool>> got(items.size());
            bool any = false;
            for (size_t i = 0; i < items.size(); ++i) {
                got[i] = {in(i), out(i)};
                any |= got[i].first || got[i].second;
                string n = items[i]->key + "[" + to_string(items[i]->sub) + "] (" + items[i]->type + ")";
                SIM_CHECK(!(sure[i].in && !got[i].first), "ready-input-missed", what + " did not report the message waiting at " + n);
                SIM_CHECK(!(sure[i].out && !got[i].second), "ready-output-missed", what + " did not report that " + n + " is writable");
                SIM_CHECK(!(got[i].first && !items[i]->can_in()), "wrong-report", what + " reports input for " + n);
                SIM_CHECK(!(got[i].second && !items[i]->can_out()), "wrong-report", what + " reports output for " + n);
            }
            {
                NoPreempt np;
                event(what + " returned after " + to_string(el / us) + " us, ready: " + to_string(any));
                if (!any) SIM_CHECK(timeout >= 0 && el >= timeout * ms, "early-return", what + " returned after " + to_string(el / us) + " us although nothing is ready");
                if (timeout >= 0) SIM_CHECK(el <= timeout * ms + ms + st, "late-return", what + " returned only after " + to_string(el / us) + " us");
                if (any_sure) SIM_CHECK(el <= ms + st, "late-return", what + " waited " + to_string(el / us) + " us although a channel was ready all the time");
                for (auto* c : items) {
                    ns_t w = c->waiting_since();
                    if (c->can_in() && !(c->type == "rep" && c->owed) && w >= 0 && !stalls) SIM_CHECK(t1 - max(w, t0) <= slack, "late-return", what + " returned only " + to_string((t1 - max(w, t0)) / us) + " us after a message for " + c->key + "[" + to_string(c->sub) + "] was sent");
                }
            }
            // use what was reported
            for (size_t i = 0; i < items.size(); ++i) {
                auto& c = *items[i];
                string n = c.key + "[" + to_string(c.sub) + "] (" + c.type + ")";
                bool did_in = false;
                if (got[i].first && gen(6)) {
                    ns_t a = now(), s = stall_total();
                    SIM_CHECK(recv(c, 0), "false-input", "input was reported for " + n + " but a receive fails");
                    SIM_CHECK(now() - a <= ms + stall_total() - s, "false-input", "a receive after a positive report waited");
                    did_in = true;
                }
                if (got[i].second && (!did_in || c.type != "rep") && gen(6) && (c.type != "push" && c.type != "pair" ? true : c.out - c.out_received < 50))
                    SIM_CHECK(send(c, 0), "false-output", "output was reported for " + n + " but a send fails");
            }
            if (gen(3) == 0) nap(gen(100) * ms);
        }
    }, me->id);
    poller.join();
    { NoPreempt np; stop = true; }
    for (auto& t : ths) t.join();
    { EnterProc e(me->id); map.clear(); }
    nap(10 * ms);
    if (they) drop_proc(*they);
    drop_proc(*me);
}
