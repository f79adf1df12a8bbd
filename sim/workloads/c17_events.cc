// C17: the event manager delivers each event to its current subscribers only
#include <sim.h>
#include <fairmq/EventManager.h>
#include <memory>
#include <deque>
#include <map>
#include <set>

using namespace sim;
using namespace std;

namespace {
struct EvA : fair::mq::Event<string> {};
struct EvB : fair::mq::Event<string> {};
struct EvC : fair::mq::Event<int> {};

constexpr int NTYPES = 5; // A(int), A(string), B(int), C(int,int), A()
struct Op // one subscribe or unsubscribe on (name, type)
{
    bool sub;
    int token;
    int name, type;
    uint64_t b, e = 0; // e == 0: running
};
struct Emission
{
    int id, type;
    uint64_t b, e = 0;
    map<int, int> calls; // token -> count
};

struct World
{
    fair::mq::EventManager em;
    uint64_t tick = 0;
    deque<Op> ops;
    deque<Emission> emissions;
    int names, max_depth, budget;
    bool callback_ops;
    // the inverse of "no op runs or has run on this name/type": known subscribed state when single-owner
    vector<vector<int>> subscribed; // [name][type] current token by completed ops, -1 none (only used by owners)

    int newToken = 0;

    void called(int type, int token, int id, const string& key)
    {
        {
            NoPreempt np;
            SIM_CHECK(id >= 0 && id < (int)emissions.size(), "invented-event", "callback " + to_string(token) + " called with an unknown argument " + to_string(id));
            auto& em_ = emissions[id];
            SIM_CHECK(em_.type == type, "wrong-subscriber", "callback " + to_string(token) + " of type " + to_string(type) + " called for emission " + to_string(id) + " of type " + to_string(em_.type));
            SIM_CHECK(em_.e == 0, "late-callback", "callback called after the emission returned");
            SIM_CHECK(key == "k" + to_string(id), "wrong-argument", "callback got key '" + key + "' for emission " + to_string(id));
            ++em_.calls[token];
            event("cb " + to_string(token) + " for emission " + to_string(id));
        }
        if (callback_ops) {
            bool go;
            { NoPreempt np; go = budget > 0 && gen_p(0.25); if (go) --budget; }
            if (go) {
                probe("operation from inside a callback");
                random_op();
            }
        }
    }
    void do_emit(int type, int id)
    {
        string k = "k" + to_string(id);
        switch (type) {
            case 0: em.Emit<EvA, int>(k, id); break;
            case 1: em.Emit<EvA, string>(k, to_string(id)); break;
            case 2: em.Emit<EvB, int>(k, id); break;
            case 3: em.Emit<EvC, int, int>(id, id, -id); break;
            case 4: em.Emit<EvA>(k); break;
        }
    }
    void do_sub(int name, int type, int t)
    {
        string n = "sub" + to_string(name);
        switch (type) {
            case 0: em.Subscribe<EvA, int>(n, function<void(string k, int i)>([this, t](string k, int i) { called(0, t, i, k); })); break;
            case 1: em.Subscribe<EvA, string>(n, function<void(string k, string s)>([this, t](string k, string s) { called(1, t, stoi(s), k); })); break;
            case 2: em.Subscribe<EvB, int>(n, function<void(string k, int i)>([this, t](string k, int i) { called(2, t, i, k); })); break;
            case 3: em.Subscribe<EvC, int, int>(n, function<void(int k, int i, int j)>([this, t](int k, int i, int j) { called(3, t, i == -j ? i : -1, "k" + to_string(k)); })); break;
            case 4: em.Subscribe<EvA>(n, function<void(string k)>([this, t](string k) { called(4, t, stoi(k.substr(1)), k); })); break;
        }
    }
    void do_unsub(int name, int type)
    {
        string n = "sub" + to_string(name);
        switch (type) {
            case 0: em.Unsubscribe<EvA, int>(n); break;
            case 1: em.Unsubscribe<EvA, string>(n); break;
            case 2: em.Unsubscribe<EvB, int>(n); break;
            case 3: em.Unsubscribe<EvC, int, int>(n); break;
            case 4: em.Unsubscribe<EvA>(n); break;
        }
    }
    void emit(int type)
    {
        int id;
        { NoPreempt np; id = emissions.size(); emissions.push_back({id, type, ++tick, 0, {}}); }
        do_emit(type, id);
        { NoPreempt np; emissions[id].e = ++tick; event("emitted " + to_string(id)); }
    }
    void subscribe(int name, int type)
    {
        size_t o; int t;
        { NoPreempt np; t = newToken++; o = ops.size(); ops.push_back({true, t, name, type, ++tick, 0}); }
        do_sub(name, type, t);
        { NoPreempt np; ops[o].e = ++tick; event("subscribed " + to_string(t) + " name " + to_string(name) + " type " + to_string(type)); }
    }
    void unsubscribe(int name, int type)
    {
        size_t o;
        { NoPreempt np; o = ops.size(); ops.push_back({false, -1, name, type, ++tick, 0}); }
        bool ok = true;
        try { do_unsub(name, type); } catch (const out_of_range&) { ok = false; }
        NoPreempt np;
        ops[o].e = ++tick;
        event("unsubscribed name " + to_string(name) + " type " + to_string(type));
        if (!ok) {
            ops[o].token = -2; // had no effect
            // legal only if the name may have been unsubscribed: some unsubscribe (or nothing) precedes
            bool maybe_absent = definitely_subscribed(name, type, ops[o].b, ops[o].e) < 0;
            SIM_CHECK(maybe_absent, "lost-subscription", "unsubscribing subscriber " + to_string(name) + " from type " + to_string(type) + " failed although it was subscribed");
        }
    }
    // token that must have been active during the whole window, -1 if none must
    int definitely_subscribed(int name, int type, uint64_t b, uint64_t e)
    {
        const Op* last = nullptr;
        for (auto& o : ops) {
            if (o.name != name || o.type != type || o.token == -2) continue;
            if (o.sub && o.e && o.e < b && (!last || o.b > last->b)) last = &o;
        }
        if (!last) return -1;
        for (auto& o : ops) {
            if (&o == last || o.name != name || o.type != type || o.token == -2) continue;
            if (o.b > e) continue;                   // started after the window
            if (o.e && o.e < last->b) continue;      // finished before
            return -1;
        }
        return last->token;
    }
    // must the token be silent during [b, e]?
    bool definitely_silent(int token, uint64_t b, uint64_t e)
    {
        const Op* s = nullptr;
        for (auto& o : ops) if (o.sub && o.token == token) s = &o;
        if (s->b > e) return true;
        for (auto& o : ops) {
            if (&o == s || o.name != s->name || o.type != s->type || o.token == -2) continue;
            if (s->e && o.b > s->e && o.e && o.e < b) return true; // unsubscribed or replaced before
        }
        return false;
    }
    void random_op()
    {
        int what = gen(10);
        int type = gen(NTYPES), name = gen(names);
        if (what < 4) emit(type);
        else if (what < 8) subscribe(name, type);
        else unsubscribe(name, type);
    }
    void verify()
    {
        NoPreempt np;
        for (auto& em_ : emissions) {
            for (auto& [t, n] : em_.calls) {
                SIM_CHECK(n == 1, "duplicate-callback", "callback " + to_string(t) + " called " + to_string(n) + " times by emission " + to_string(em_.id));
                SIM_CHECK(!definitely_silent(t, em_.b, em_.e), "stale-callback", "callback " + to_string(t) + " called by emission " + to_string(em_.id) + " although it was unsubscribed or replaced before the emission began");
            }
            for (int n = 0; n < names; ++n) {
                int t = definitely_subscribed(n, em_.type, em_.b, em_.e);
                if (t >= 0) SIM_CHECK(em_.calls.count(t), "missed-callback", "callback " + to_string(t) + " (subscriber " + to_string(n) + ") was not called by emission " + to_string(em_.id));
            }
        }
    }
};
} // namespace

SIM_WORKLOAD(C17, concurrent)
{
    World w;
    w.names = 1 + gen(3);
    w.callback_ops = gen(2);
    w.budget = 8;
    faults().stall = gen(3) ? 0 : 0.2;
    faults().stall_max = 50 * ms;
    limit_time(600 * sec);
    clock_steps();
    int threads = 2 + gen(3), nops = 2 + gen(8);
    vector<Thread> ths;
    for (int i = 0; i < threads; ++i)
        ths.push_back(spawn("user" + to_string(i), [&] {
            for (int k = 0; k < nops; ++k) { w.random_op(); if (gen_p(0.1)) nap(gen(3) * ms); }
        }));
    for (auto& t : ths) t.join();
    w.callback_ops = false;
    // quiescent: exactly one callback for each subscribed name
    for (int t = 0; t < NTYPES; ++t) w.emit(t);
    w.verify();
    for (int t = 0; t < NTYPES; ++t) {
        auto& e = w.emissions[w.emissions.size() - NTYPES + t];
        map<int, int> per;
        for (auto& [tok, n] : e.calls) for (auto& o : w.ops) if (o.sub && o.token == tok) ++per[o.name];
        for (auto& [n, c] : per) SIM_CHECK(c == 1, "two-callbacks", "subscriber " + to_string(n) + " has " + to_string(c) + " active callbacks for one event");
        // unsubscribing agrees with what was delivered; after it nobody is called
        for (int n = 0; n < w.names; ++n) {
            bool ok = true;
            try { w.do_unsub(n, t); } catch (const out_of_range&) { ok = false; }
            SIM_CHECK(ok == (per.count(n) == 1), "lost-subscription", string("subscriber ") + (ok ? "was subscribed but not called" : "was called but is not subscribed"));
        }
        int id;
        { id = w.emissions.size(); w.emissions.push_back({id, t, ++w.tick, 0, {}}); }
        w.do_emit(t, id);
        SIM_CHECK(w.emissions[id].calls.empty(), "stale-callback", "a callback is still called after everybody unsubscribed");
        w.emissions.pop_back();
        // keep indices of the earlier emissions stable for the next type
    }
}
