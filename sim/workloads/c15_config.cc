// C15: the configuration store is atomic and consistent under concurrent use (linearizability)
// C16: every property change is notified to every subscriber
#include <sim.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/Channel.h>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <unordered_set>

using namespace sim;
using namespace std;
using fair::mq::ProgOptions;
using fair::mq::Properties;

namespace {
// a value of the store: type and number; a number is used only once
struct Val
{
    int type = -1, n = 0; // 0 int, 1 string, 2 bool-free long, 3 vector<int>
    bool operator==(const Val& o) const { return type == o.type && n == o.n; }
    bool operator!=(const Val& o) const { return !(*this == o); }
};
using Model = map<string, Val>;
constexpr int NT = 4;
fair::mq::Property to_any(const Val& v)
{
    switch (v.type) {
        case 0: return v.n;
        case 1: return "s" + to_string(v.n);
        case 2: return (long)v.n;
        default: return vector<int>{v.n, v.n + 1};
    }
}
Val from_any(const fair::mq::Property& p)
{
    if (p.type() == typeid(int)) return {0, boost::any_cast<int>(p)};
    if (p.type() == typeid(string)) { auto s = boost::any_cast<string>(p); return {1, s.size() > 1 && s[0] == 's' ? atoi(s.c_str() + 1) : -7}; }
    if (p.type() == typeid(long)) return {2, (int)boost::any_cast<long>(p)};
    if (p.type() == typeid(vector<int>)) { auto v = boost::any_cast<vector<int>>(p); return {3, v.size() == 2 && v[1] == v[0] + 1 ? v[0] : -8}; }
    return {9, 0};
}
string to_str(const Val& v)
{
    switch (v.type) {
        case 0: case 2: return to_string(v.n);
        case 1: return "s" + to_string(v.n);
        case 3: return to_string(v.n) + ", " + to_string(v.n + 1);
        default: return "?";
    }
}

enum Kind { Set, Update, SetMany, UpdateMany, Delete, Get, GetDefault, GetString, GetStringDefault, Count, Prefix, Regex, PrefixStr, RegexStr, Keys, ChanInfo, AddChan, NKIND };
const char* names[] = {"SetProperty", "UpdateProperty", "SetProperties", "UpdateProperties", "DeleteProperty", "GetProperty", "GetProperty(default)", "GetPropertyAsString", "GetPropertyAsString(default)",
                       "Count", "GetPropertiesStartingWith", "GetProperties", "GetPropertiesAsStringStartingWith", "GetPropertiesAsString", "GetPropertyKeys", "GetChannelInfo", "AddChannel"};
struct Op
{
    Kind k;
    int thr;
    string key;
    Val v;               // written value / asked type
    Model many;          // bulk input
    uint64_t b = 0, e = 0;
    // results
    bool ok = false;
    int status = 0;      // 0 value, 1 not found, 2 wrong type, 3 other exception
    Val got;
    string gots;
    Model gotm;
    map<string, string> gotsm;
    set<string> gotk;
    map<string, int> goti;
    string text() const
    {
        string s = string(names[k]) + "(" + key;
        if (k == Set || k == Update) s += "=" + to_str(v);
        for (auto& [kk, vv] : many) s += " " + kk + "=" + to_str(vv);
        s += ")";
        if (k == Update || k == UpdateMany) s += ok ? " true" : " false";
        if (k >= Get && k <= GetStringDefault) s += status == 1 ? " not found" : status == 2 ? " wrong type" : status == 3 ? " exception" : (k == Get || k == GetDefault) ? " -> " + to_str(got) : " -> " + gots;
        if (k == Count) s += ok ? " -> 1" : " -> 0";
        for (auto& [kk, vv] : gotm) s += " " + kk + "=" + to_str(vv);
        for (auto& [kk, vv] : gotsm) s += " " + kk + "=" + vv;
        return s;
    }
};

bool starts(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }
const string channel_keys[] = {"type", "method", "address", "transport"};

// applies the operation to the model; false: the recorded result is impossible in this state
bool apply_op(Model& m, const Op& o)
{
    auto it = m.find(o.key);
    bool has = it != m.end();
    switch (o.k) {
        case Set: m[o.key] = o.v; return true;
        case Update: if (o.ok != has) return false; if (has) it->second = o.v; return true;
        case SetMany: for (auto& [k, v] : o.many) m[k] = v; return true;
        case UpdateMany: {
            bool all = true;
            for (auto& [k, v] : o.many) if (!m.count(k)) all = false;
            if (o.ok != all) return false;
            if (all) for (auto& [k, v] : o.many) m[k] = v;
            return true;
        }
        case Delete: m.erase(o.key); return true;
        case Get: if (!has) return o.status == 1; if (it->second.type != o.v.type) return o.status == 2; return o.status == 0 && o.got == it->second;
        case GetDefault: if (!has) return o.status == 0 && o.got.n == -1; if (it->second.type != o.v.type) return o.status == 2; return o.status == 0 && o.got == it->second;
        case GetString: if (!has) return o.status == 1; return o.status == 0 && o.gots == to_str(it->second);
        case GetStringDefault: if (!has) return o.gots == "none"; return o.gots == to_str(it->second);
        case Count: return o.ok == has;
        case Prefix: case Regex: {
            Model e;
            for (auto& [k, v] : m) if (starts(k, o.key)) e[k] = v;
            return e == o.gotm;
        }
        case PrefixStr: case RegexStr: {
            map<string, string> e;
            for (auto& [k, v] : m) if (starts(k, o.key)) e[k] = to_str(v);
            return e == o.gotsm;
        }
        case Keys: { set<string> e; for (auto& [k, v] : m) e.insert(k); return e == o.gotk; }
        case ChanInfo: {
            map<string, int> e;
            for (auto& [k, v] : m) if (starts(k, "chans.") && k.size() > 5 && k.substr(k.size() - 5) == ".type") { string n = k.substr(6); ++e[n.substr(0, n.find('.'))]; }
            return e == o.goti;
        }
        case AddChan: {
            int n = 0;
            for (auto& [k, v] : m) if (starts(k, "chans." + o.key + ".") && k.size() > 5 && k.substr(k.size() - 5) == ".type") ++n;
            // only the model's marker keys: the real ones are compared by number of channels
            m["chans." + o.key + "." + to_string(n) + ".type"] = {9, n};
            return true;
        }
        default: return false;
    }
}

struct Checker // Wing & Gong with memoisation
{
    vector<Op>& ops;
    Model init;
    unordered_set<string> seen;
    uint64_t steps = 0;
    bool found = false, gave_up = false;
    string keyof(const vector<char>& done, const Model& m)
    {
        string s(done.begin(), done.end());
        for (auto& [k, v] : m) { s += k; s += '='; s += to_string(v.type * 100000 + v.n); s += ';'; }
        return s;
    }
    bool dfs(vector<char>& done, size_t left, const Model& m)
    {
        if (!left) return true;
        if (++steps > 200000) { gave_up = true; return true; }
        if (!seen.insert(keyof(done, m)).second) return false;
        uint64_t first_end = UINT64_MAX;
        for (size_t i = 0; i < ops.size(); ++i) if (!done[i]) first_end = min(first_end, ops[i].e);
        for (size_t i = 0; i < ops.size(); ++i) {
            if (done[i] || ops[i].b > first_end) continue;
            Model n = m;
            if (!apply_op(n, ops[i])) continue;
            done[i] = 1;
            if (dfs(done, left - 1, n)) return true;
            done[i] = 0;
        }
        return false;
    }
};

struct Store
{
    ProgOptions cfg;
    uint64_t tick = 0;
    int next = 1;
    deque<Op> ops;
    set<string> defaults;
    vector<string> keys;

    Store() { for (auto& k : cfg.GetPropertyKeys()) defaults.insert(k); }

    void run(Op& o)
    {
        { NoPreempt np; o.b = ++tick; }
        try {
            switch (o.k) {
                case Set: switch (o.v.type) {
                    case 0: cfg.SetProperty<int>(o.key, o.v.n); break;
                    case 1: cfg.SetProperty<string>(o.key, "s" + to_string(o.v.n)); break;
                    case 2: cfg.SetProperty<long>(o.key, o.v.n); break;
                    case 3: cfg.SetProperty<vector<int>>(o.key, {o.v.n, o.v.n + 1}); break;
                } break;
                case Update: switch (o.v.type) {
                    case 0: o.ok = cfg.UpdateProperty<int>(o.key, o.v.n); break;
                    case 1: o.ok = cfg.UpdateProperty<string>(o.key, "s" + to_string(o.v.n)); break;
                    case 2: o.ok = cfg.UpdateProperty<long>(o.key, o.v.n); break;
                    case 3: o.ok = cfg.UpdateProperty<vector<int>>(o.key, {o.v.n, o.v.n + 1}); break;
                } break;
                case SetMany: { Properties p; for (auto& [k, v] : o.many) p[k] = to_any(v); cfg.SetProperties(p); break; }
                case UpdateMany: { Properties p; for (auto& [k, v] : o.many) p[k] = to_any(v); o.ok = cfg.UpdateProperties(p); break; }
                case Delete: cfg.DeleteProperty(o.key); break;
                case Get: switch (o.v.type) {
                    case 0: o.got = from_any(cfg.GetProperty<int>(o.key)); break;
                    case 1: o.got = from_any(cfg.GetProperty<string>(o.key)); break;
                    case 2: o.got = from_any(cfg.GetProperty<long>(o.key)); break;
                    case 3: o.got = from_any(cfg.GetProperty<vector<int>>(o.key)); break;
                } break;
                case GetDefault: switch (o.v.type) {
                    case 0: o.got = from_any(cfg.GetProperty<int>(o.key, -1)); break;
                    case 1: o.got = from_any(cfg.GetProperty<string>(o.key, "s-1")); break;
                    case 2: o.got = from_any(cfg.GetProperty<long>(o.key, -1)); break;
                    case 3: o.got = from_any(cfg.GetProperty<vector<int>>(o.key, {-1, 0})); break;
                } break;
                case GetString: o.gots = cfg.GetPropertyAsString(o.key); break;
                case GetStringDefault: o.gots = cfg.GetPropertyAsString(o.key, "none"); break;
                case Count: o.ok = cfg.Count(o.key) == 1; break;
                case Prefix: for (auto& [k, v] : cfg.GetPropertiesStartingWith(o.key)) o.gotm[k] = from_any(v); break;
                case Regex: for (auto& [k, v] : cfg.GetProperties(o.key + ".*")) o.gotm[k] = from_any(v); break;
                case PrefixStr: for (auto& [k, v] : cfg.GetPropertiesAsStringStartingWith(o.key)) o.gotsm[k] = v; break;
                case RegexStr: for (auto& [k, v] : cfg.GetPropertiesAsString(o.key + ".*")) o.gotsm[k] = v; break;
                case Keys: for (auto& k : cfg.GetPropertyKeys()) if (!defaults.count(k) && (!starts(k, "chans.") || (k.size() > 5 && k.substr(k.size() - 5) == ".type"))) o.gotk.insert(k); break;
                case ChanInfo: for (auto& [k, v] : cfg.GetChannelInfo()) o.goti[k] = v; break;
                case AddChan: { fair::mq::Channel c("pair", "bind", "tcp://*:1"); cfg.AddChannel(o.key, c); break; }
                default: break;
            }
        } catch (fair::mq::PropertyNotFoundError&) {
            o.status = 1;
        } catch (boost::bad_any_cast&) {
            o.status = 2;
        } catch (exception& e) {
            o.status = 3;
            violation("operation-failed", string(names[o.k]) + " on key '" + o.key + "' threw " + e.what());
        }
        NoPreempt np;
        o.e = ++tick;
        SIM_CHECK(o.status == 0 || (o.k >= Get && o.k <= GetString), "operation-failed", string(names[o.k]) + " on key '" + o.key + "' threw an exception");
        event(o.text());
    }
    Op make(int thr, bool channels)
    {
        Op o;
        o.thr = thr;
        int r = gen(100);
        static const int cum[] = {18, 28, 36, 44, 52, 62, 66, 72, 75, 79, 84, 87, 91, 93, 95};
        int k = 0;
        while (k < 15 && r >= cum[k]) ++k;
        if (k >= 15) k = channels ? 15 + gen(2) : Get;
        o.k = (Kind)k;
        o.key = keys[gen(keys.size())];
        o.v = {(int)gen(NT), next++};
        if (o.k == SetMany || o.k == UpdateMany) {
            int n = 1 + gen(3);
            for (int i = 0; i < n; ++i) o.many[keys[gen(keys.size())]] = {(int)gen(NT), next++};
            o.key.clear();
        }
        if (o.k == Prefix || o.k == Regex || o.k == PrefixStr || o.k == RegexStr) o.key = "k";
        if (o.k == AddChan) o.key = gen(2) ? "data" : "info";
        if (o.k == Keys || o.k == ChanInfo) o.key.clear();
        return o;
    }
};
} // namespace

SIM_WORKLOAD(C15, linearizable)
{
    faults().stall = gen(3) ? 0 : 0.2;
    faults().stall_max = 20 * ms;
    limit_time(600 * sec);
    clock_steps();
    Store s;
    int nk = 1 + gen(3);
    for (int i = 0; i < nk; ++i) s.keys.push_back("k" + to_string(i));
    bool channels = gen(3) == 0, subs = gen(3) == 0;
    int seen = 0;
    if (subs) { // notification is part of the change, it must not disturb atomicity
        s.cfg.Subscribe<int>("a", [&](const string&, int) { ++seen; });
        s.cfg.SubscribeAsString("b", [&](const string&, string) { ++seen; });
    }
    int threads = 2 + gen(3), nops = 2 + gen(18 / threads);
    vector<Thread> ths;
    for (int i = 0; i < threads; ++i)
        ths.push_back(spawn("user" + to_string(i), [&, i] {
            for (int k = 0; k < nops; ++k) {
                Op* o;
                { NoPreempt np; s.ops.push_back(s.make(i, channels)); o = &s.ops.back(); }
                s.run(*o);
            }
        }));
    for (auto& t : ths) t.join();
    // the final content, seen through every view
    for (auto k : {Prefix, Regex, PrefixStr, RegexStr}) { Op o; o.k = k; o.thr = -1; o.key = "k"; s.ops.push_back(o); s.run(s.ops.back()); }
    for (auto& k : s.keys) for (int t = 0; t < NT; ++t) { Op o; o.k = Get; o.thr = -1; o.key = k; o.v.type = t; s.ops.push_back(o); s.run(s.ops.back()); }
    { Op o; o.k = Keys; o.thr = -1; s.ops.push_back(o); s.run(s.ops.back()); }
    { Op o; o.k = ChanInfo; o.thr = -1; s.ops.push_back(o); s.run(s.ops.back()); }
    if (channels) { // added channels are complete
        for (auto& [n, c] : s.cfg.GetChannelInfo())
            for (int i = 0; i < c; ++i)
                for (auto& f : channel_keys)
                    SIM_CHECK(s.cfg.Count("chans." + n + "." + to_string(i) + "." + f), "partial-channel", "channel " + n + "[" + to_string(i) + "] has no property " + f);
    }
    NoPreempt np;
    vector<Op> v(s.ops.begin(), s.ops.end());
    Checker c{v};
    vector<char> done(v.size(), 0);
    bool ok = c.dfs(done, v.size(), {});
    if (c.gave_up) probe("linearizability check gave up");
    SIM_CHECK(ok, "not-linearizable", "no order of the operations explains their results");
}

// ---- C16 -----------------------------------------------------------------------------------------------------------
namespace {
struct Change { int id; string key; Val v; uint64_t b, e = 0; bool must = true; };   // one key written by one call
struct Subn { int kind; int slot; uint64_t sb, se = 0, ub = 0, ue = 0; map<int, int> calls; }; // kind 0..3 typed, 4 string
struct World16 : Store
{
    deque<Change> changes;          // by value number
    map<int, int> by_number;        // value number -> change
    deque<Subn> subs;
    map<int, int> active;           // slot*8+kind -> current subscription
    bool nested = false;
    int budget = 6;
    void notified(int sub, const string& key, const Val& v, const string* str)
    {
        {
            NoPreempt np;
            auto& s = subs[sub];
            Change* c = nullptr;
            if (str) {
                for (auto& x : changes) if (to_str(x.v) == *str && x.key == key) c = &x;
            } else if (by_number.count(v.n)) c = &changes[by_number[v.n]];
            SIM_CHECK(c, "invented-notification", "a subscriber was notified of " + key + "=" + (str ? *str : to_str(v)) + " which nobody wrote");
            SIM_CHECK(str || (c->v == v && c->key == key), "wrong-notification", "a subscriber was notified of " + key + "=" + to_str(v) + ", but that value was written to " + c->key);
            SIM_CHECK(c->e == 0, "late-notification", "a notification arrived after the changing call had returned");
            SIM_CHECK(++s.calls[c->id] == 1, "duplicate-notification", "a subscriber was notified twice of " + key + "=" + to_str(c->v));
            SIM_CHECK(!s.ue || s.ue > c->b, "stale-notification", "a subscriber was notified of " + key + "=" + to_str(c->v) + " which was written after its unsubscription had returned");
            event("subscriber " + to_string(sub) + " notified of " + key + "=" + to_str(c->v));
        }
        if (nested) {
            bool go;
            { NoPreempt np; go = budget > 0 && gen_p(0.3); if (go) --budget; }
            if (go) { probe("property access from inside a callback"); one(99); }
        }
    }
    void subscribe(int slot, int kind)
    {
        int id;
        { NoPreempt np; id = subs.size(); subs.push_back({kind, slot, ++tick}); event("subscribing " + to_string(id) + " kind " + to_string(kind)); }
        string n = "sub" + to_string(slot);
        switch (kind) {
            case 0: cfg.Subscribe<int>(n, [this, id](const string& k, int v) { notified(id, k, {0, v}, nullptr); }); break;
            case 1: cfg.Subscribe<string>(n, [this, id](const string& k, string v) { notified(id, k, from_any(v), nullptr); }); break;
            case 2: cfg.Subscribe<long>(n, [this, id](const string& k, long v) { notified(id, k, {2, (int)v}, nullptr); }); break;
            case 3: cfg.Subscribe<vector<int>>(n, [this, id](const string& k, vector<int> v) { notified(id, k, from_any(v), nullptr); }); break;
            case 4: cfg.SubscribeAsString(n, [this, id](const string& k, string v) { notified(id, k, {}, &v); }); break;
        }
        NoPreempt np;
        subs[id].se = ++tick;
        active[slot * 8 + kind] = id;
    }
    void unsubscribe(int slot, int kind)
    {
        int id;
        { NoPreempt np; id = active.at(slot * 8 + kind); active.erase(slot * 8 + kind); subs[id].ub = ++tick; }
        string n = "sub" + to_string(slot);
        switch (kind) {
            case 0: cfg.Unsubscribe<int>(n); break;
            case 1: cfg.Unsubscribe<string>(n); break;
            case 2: cfg.Unsubscribe<long>(n); break;
            case 3: cfg.Unsubscribe<vector<int>>(n); break;
            case 4: cfg.UnsubscribeAsString(n); break;
        }
        NoPreempt np;
        subs[id].ue = ++tick;
        event("unsubscribed " + to_string(id));
    }
    void one(int thr)
    {
        Op o;
        vector<int> ids;
        {
            NoPreempt np;
            o = make(thr, false);
            auto add = [&](const string& k, const Val& v) { int id = changes.size(); changes.push_back({id, k, v, tick + 1}); by_number[v.n] = id; ids.push_back(id); };
            if (o.k == Set || o.k == Update) add(o.key, o.v);
            if (o.k == SetMany || o.k == UpdateMany) for (auto& [k, v] : o.many) add(k, v);
        }
        run(o);
        NoPreempt np;
        for (int i : ids) { changes[i].e = o.e; changes[i].must = (o.k == Set || o.k == SetMany || o.ok); }
    }
    void verify()
    {
        NoPreempt np;
        for (size_t i = 0; i < subs.size(); ++i) {
            auto& s = subs[i];
            for (auto& c : changes) {
                bool match = s.kind == 4 || s.kind == c.v.type;
                int n = s.calls.count(c.id) ? s.calls[c.id] : 0;
                if (!match || !c.must) {
                    SIM_CHECK(n == 0, "wrong-notification", "subscriber " + to_string(i) + " was notified of " + (c.must ? "a value of another type: " : "a failed update: ") + c.key + "=" + to_str(c.v));
                    continue;
                }
                if (s.se && s.se < c.b && (!s.ub || s.ub > c.e))
                    SIM_CHECK(n == 1, "missed-notification", "subscriber " + to_string(i) + " was not notified of " + c.key + "=" + to_str(c.v));
            }
        }
    }
};
} // namespace

SIM_WORKLOAD(C16, notify)
{
    faults().stall = gen(3) ? 0 : 0.2;
    faults().stall_max = 20 * ms;
    limit_time(600 * sec);
    clock_steps();
    World16 w;
    int nk = 1 + gen(3);
    for (int i = 0; i < nk; ++i) w.keys.push_back("k" + to_string(i));
    w.nested = gen(2);
    int fixed = 1 + gen(3);
    for (int i = 0; i < fixed; ++i) w.subscribe(i, gen(5));
    int threads = 1 + gen(3), nops = 2 + gen(8);
    vector<Thread> ths;
    for (int i = 0; i < threads; ++i)
        ths.push_back(spawn("user" + to_string(i), [&, i] { for (int k = 0; k < nops; ++k) { w.one(i); if (gen_p(0.1)) nap(gen(3) * ms); } }));
    int dyn = gen(3);
    for (int i = 0; i < dyn; ++i)
        ths.push_back(spawn("subscriber" + to_string(i), [&, i] {
            int n = 1 + gen(4);
            for (int k = 0; k < n; ++k) {
                int kind = gen(5);
                w.subscribe(10 + i, kind);
                if (gen_p(0.3)) nap(gen(3) * ms);
                w.unsubscribe(10 + i, kind);
            }
        }));
    for (auto& t : ths) t.join();
    w.verify();
}
