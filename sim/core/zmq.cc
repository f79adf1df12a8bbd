// Simulated libzmq: same C interface, every delay, connection time, failure and interruption decided by the seed.
#include "rt.h"

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <set>
#include <zmq.h>

using namespace sim;
using namespace sim::rt;

namespace {

constexpr ns_t RECONNECT = 100 * ms;
constexpr uint64_t POLL_KEY = 0x2e70001;

struct Buf
{
    void* data = nullptr;
    size_t size = 0;
    zmq_free_fn* ffn = nullptr;
    void* hint = nullptr;
    int refs = 1;
};
// small messages live inside zmq_msg_t itself and are copied by value, as in libzmq
struct Raw
{
    uint8_t magic, type, more, vs; // type 0 empty/very small, 1 buffer
    char vsm[36];
    Buf* b;
};
static_assert(sizeof(Raw) <= sizeof(zmq_msg_t));
constexpr uint8_t MAGIC = 0x5a;
constexpr size_t VSM_MAX = 33;
Raw* raw(zmq_msg_t* m) { return reinterpret_cast<Raw*>(m); }
const Raw* raw(const zmq_msg_t* m) { return reinterpret_cast<const Raw*>(m); }
size_t raw_size(const Raw& r) { return r.type ? r.b->size : r.vs; }
const void* raw_data(const Raw& r) { return r.type ? r.b->data : r.vsm; }
Raw raw_empty() { Raw r{}; r.magic = MAGIC; return r; }
Raw raw_make(const void* d, size_t n)
{
    Raw r = raw_empty();
    if (n <= VSM_MAX) {
        r.vs = n;
        if (n && d) memcpy(r.vsm, d, n);
    } else {
        r.type = 1;
        r.b = new Buf;
        r.b->data = malloc(n);
        r.b->size = n;
        if (d) memcpy(r.b->data, d, n);
    }
    return r;
}
// drop one reference; the release function is collected and run outside the simulator's critical section
using Frees = std::vector<Buf*>;
void drop(Raw& r, Frees& f)
{
    if (r.magic == MAGIC && r.type == 1 && --r.b->refs == 0) f.push_back(r.b);
    r = raw_empty();
}
void run_frees(Frees& f) // called without Guard
{
    for (auto* b : f) {
        if (b->ffn) b->ffn(b->data, b->hint);
        else free(b->data);
        delete b;
    }
    f.clear();
}

struct M { std::vector<Raw> fr; ns_t due = 0; };
struct Sock;
struct Ctx;

struct End
{
    Sock* s = nullptr;
    End* peer = nullptr;
    std::string ep;
    bool inproc = false, connector = false, dead = false;
    bool was_connected = false;
    std::deque<M> out, in;
    size_t rpos = 0;
    ns_t last_due = 0, next_try = -1;
    size_t wire = 0;
    std::set<std::string> subs; // what the peer subscribed to (for pub)
};

struct Sock
{
    Ctx* ctx = nullptr;
    int type = 0, proc = 0, id = 0;
    bool closed = false, reaped = false;
    ns_t linger_dl = -1;
    int linger = -1, sndhwm = 1000, rcvhwm = 1000, sndtimeo = -1, rcvtimeo = -1, sndbuf = -1, rcvbuf = -1, immediate = 0;
    std::string identity, last_ep;
    std::vector<End*> ends;
    size_t lb = 0, fq = 0;
    std::vector<Raw> partial;
    End* send_to = nullptr;
    bool sending = false, drop_msg = false;
    End* recv_from = nullptr;
    bool rcvmore = false;
    int state = 0; // REQ: 0 may send, 1 must receive; REP: 0 must receive, 1 may send
    End* rep_to = nullptr;
    std::vector<std::string> binds;
    std::set<std::string> subs;
    std::string mon_addr;
    int mon_events = 0;
    Sock* mon_reader = nullptr;
    std::deque<int> mon_pending;
    int users = 0; // operations in progress (detects unsynchronised use)
};

struct Ctx
{
    int proc = 0, id = 0;
    bool term = false, dead = false, stop = false;
    std::vector<Sock*> socks;
    std::map<std::string, Sock*> mons;
    int io = -1; // simulated thread
    int freeing = 0; // threads running release functions: the context is not terminated before they are through
    std::vector<Raw> trash; // messages dropped by the other side of a connection, released by the own thread
    uint64_t io_key() const { return 0x10000000000ull + id; }
};

struct Bound { Sock* s; ns_t free_at; };
std::map<std::string, Bound> g_bound;
std::vector<Ctx*> g_ctxs;
std::set<int> g_blocked_ports;
int g_next_id = 1, g_ephemeral = 40000;
bool g_hooked = false;

uint64_t skey(const Sock* s) { return 0x20000000000ull + s->id; }
void notify(Sock* s) { wake_all(skey(s)); wake_all(POLL_KEY); }
void notify_io(Ctx* c) { wake_all(c->io_key()); }

std::string canon_ep(const std::string& a, Ctx* c)
{
    if (a.rfind("tcp://", 0) == 0) return "tcp:" + a.substr(a.rfind(':') + 1);
    if (a.rfind("inproc://", 0) == 0) return "inproc:" + std::to_string(c->id) + ":" + a.substr(9);
    return a;
}

void emit(Sock* s, int ev)
{
    if (s->mon_addr.empty() || !(s->mon_events & ev)) return;
    if (!s->mon_reader) { s->mon_pending.push_back(ev); return; }
    Sock* r = s->mon_reader;
    if (r->closed) return;
    End* e = r->ends.empty() ? nullptr : r->ends[0];
    if (!e) return;
    M m;
    char f[6] = {};
    uint16_t e16 = ev;
    memcpy(f, &e16, 2);
    m.fr.push_back(raw_make(f, 6));
    m.fr.back().more = 1;
    m.fr.push_back(raw_make("", 0));
    e->in.push_back(std::move(m));
    notify(r);
}

bool bound_matches(const std::string& key, Sock** out)
{
    auto it = g_bound.find(key);
    if (it == g_bound.end() || !it->second.s || it->second.s->closed) return false;
    *out = it->second.s;
    return true;
}

bool compatible(int a, int b)
{
    auto is = [&](int x, int y) { return (a == x && b == y) || (a == y && b == x); };
    return is(ZMQ_PUSH, ZMQ_PULL) || is(ZMQ_PAIR, ZMQ_PAIR) || is(ZMQ_REQ, ZMQ_REP) || is(ZMQ_PUB, ZMQ_SUB) || is(ZMQ_XPUB, ZMQ_SUB)
           || is(ZMQ_PUB, ZMQ_XSUB) || is(ZMQ_XPUB, ZMQ_XSUB) || is(ZMQ_DEALER, ZMQ_DEALER) || is(ZMQ_DEALER, ZMQ_REP)
           || is(ZMQ_REQ, ZMQ_ROUTER) || is(ZMQ_DEALER, ZMQ_ROUTER) || is(ZMQ_ROUTER, ZMQ_ROUTER);
}

bool is_sub(const Sock* s) { return s->type == ZMQ_SUB || s->type == ZMQ_XSUB; }
bool is_pub(const Sock* s) { return s->type == ZMQ_PUB || s->type == ZMQ_XPUB; }

void try_attach(End* e)
{
    Sock* t = nullptr;
    if (!bound_matches(e->ep, &t) || t == e->s || !compatible(e->s->type, t->type)) {
        e->next_try = sim::now() + RECONNECT;
        return;
    }
    if (t->type == ZMQ_PAIR)
        for (auto* x : t->ends)
            if (!x->dead && x->peer) { e->next_try = sim::now() + RECONNECT; return; }
    auto* p = new End;
    p->s = t;
    p->ep = e->ep;
    p->inproc = e->inproc;
    p->peer = e;
    e->peer = p;
    e->next_try = -1;
    p->wire = e->wire = e->inproc ? 0 : choose_p(N, 8, 0.5);
    t->ends.push_back(p);
    e->was_connected = p->was_connected = true;
    if (is_sub(e->s) && is_pub(t)) p->subs = e->s->subs;
    if (is_pub(e->s) && is_sub(t)) e->subs = t->subs;
    if (e->inproc) { // what was sent before the other side was bound
        for (auto& m : e->out) p->in.push_back(std::move(m));
        e->out.clear();
    }
    emit(e->s, ZMQ_EVENT_CONNECTED);
    emit(t, ZMQ_EVENT_ACCEPTED);
    hash_mix(0xa77a);
    notify(e->s);
    notify(t);
    notify_io(e->s->ctx);
    notify_io(t->ctx);
}

// the connection of `e` (belonging to a vanishing socket) goes away; fix up the other side
void detach(End* e, Frees& f)
{
    End* p = e->peer;
    e->peer = nullptr;
    e->dead = true;
    if (!p) return;
    p->peer = nullptr;
    if (p->s->closed && p->s->reaped) return;
    emit(p->s, ZMQ_EVENT_DISCONNECTED);
    if (p->connector && !p->s->closed) {
        p->next_try = sim::now() + RECONNECT;
    } else if (!p->connector) {
        p->dead = true; // what has arrived stays readable, what was queued for the peer is lost
        for (auto& m : p->out)
            for (auto& r : m.fr) { if (p->s->ctx->io >= 0 && !p->s->ctx->dead) p->s->ctx->trash.push_back(std::move(r)); else drop(r, f); }
        p->out.clear();
    }
    if (p->s->send_to == p && p->dead) p->s->drop_msg = true;
    notify(p->s);
    notify_io(p->s->ctx);
}

bool has_room(End* e)
{
    if (e->dead) return false;
    if (e->inproc && e->peer) {
        int a = e->s->sndhwm, b = e->peer->s->rcvhwm;
        return a == 0 || b == 0 || e->peer->in.size() < (size_t)(a + b);
    }
    if (!e->peer && e->s->immediate) return false;
    return e->s->sndhwm == 0 || e->out.size() < (size_t)e->s->sndhwm;
}

bool in_room(End* p) { return p->s->rcvhwm == 0 || p->in.size() < (size_t)p->s->rcvhwm + p->wire; }

void reap(Sock* s, Frees& f)
{
    if (s->reaped) return;
    s->reaped = true;
    for (auto* e : s->ends) {
        for (auto* q : {&e->out, &e->in}) {
            for (auto& m : *q)
                for (auto& r : m.fr) drop(r, f);
            q->clear();
        }
        detach(e, f);
    }
    wake_all(0x30000000000ull + s->ctx->id);
}

ns_t io_pass(Ctx* c, Frees& f) // returns next deadline or -1
{
    ns_t next = -1, now = sim::now();
    auto want = [&](ns_t t) { if (next < 0 || t < next) next = t; };
    for (auto& r : c->trash) drop(r, f);
    c->trash.clear();
    for (size_t si = 0; si < c->socks.size(); ++si) {
        Sock* s = c->socks[si];
        if (s->reaped) continue;
        bool pending = false;
        for (size_t i = 0; i < s->ends.size(); ++i) {
            End* e = s->ends[i];
            if (!e->peer && !e->dead && e->connector && e->next_try >= 0 && !s->closed) {
                if (e->next_try <= now) try_attach(e);
                if (!e->peer) want(e->next_try);
            }
            if (!e->peer && !e->dead && e->connector && s->closed && !e->out.empty() && e->next_try >= 0) {
                if (e->next_try <= now) try_attach(e);
                if (!e->peer) want(e->next_try);
            }
            while (e->peer && !e->out.empty() && in_room(e->peer)) {
                M& m = e->out.front();
                if (m.due > now) { want(m.due); break; }
                End* p = e->peer;
                M n;
                for (auto& r : m.fr) {
                    Raw q = raw_make(raw_data(r), raw_size(r));
                    q.more = r.more;
                    n.fr.push_back(q);
                    drop(r, f);
                }
                e->out.pop_front();
                if (p->s->closed || p->dead) {
                    for (auto& r : n.fr) drop(r, f);
                } else {
                    p->in.push_back(std::move(n));
                    hash_mix(0xde11 + p->s->id);
                    notify(p->s);
                }
                notify(s);
            }
            if (!e->out.empty()) pending = true;
        }
        if (s->closed) {
            if (!pending || (s->linger_dl >= 0 && s->linger_dl <= now)) reap(s, f);
            else if (s->linger_dl >= 0) want(s->linger_dl);
        }
    }
    return next;
}

void freed(Ctx* c)
{
    Guard g;
    --c->freeing;
    wake_all(0x30000000000ull + c->id);
}

void io_thread(Ctx* c)
{
    for (;;) {
        Frees f;
        ns_t next;
        {
            Guard g;
            next = io_pass(c, f);
            if (c->stop && f.empty()) return;
            if (!f.empty()) ++c->freeing;
        }
        if (!f.empty()) { run_frees(f); freed(c); continue; }
        point("zmq-io");
        Guard g;
        if (c->stop) return;
        // something may have become possible at the scheduling point: look again before blocking
        Frees f2;
        next = io_pass(c, f2);
        if (!f2.empty()) { ++c->freeing; --in_rt; run_frees(f2); freed(c); ++in_rt; continue; }
        block(c->io_key(), "zmq io", next >= 0, CLK_MONO, next);
    }
}

void need_io(Ctx* c)
{
    if (c->io >= 0) return;
    c->io = create_thread("zmq-io", c->proc, nullptr, nullptr, [c] { io_thread(c); }, nullptr, nullptr)->id;
}

void crash_proc(int proc)
{
    for (auto* c : g_ctxs) {
        if (c->proc != proc || c->dead) continue;
        c->dead = true;
        Frees f; // buffers of a crashed process are simply gone
        for (auto* s : c->socks) {
            s->closed = true;
            for (auto it = g_bound.begin(); it != g_bound.end();) it = it->second.s == s ? g_bound.erase(it) : std::next(it);
            if (!s->reaped) {
                s->reaped = true;
                for (auto* e : s->ends) detach(e, f);
            }
        }
        for (auto* b : f) if (!b->ffn) free(b->data);
    }
}

void send_reset(Sock* s) { s->sending = false; s->send_to = nullptr; s->drop_msg = false; }

bool can_send(Sock* s)
{
    if (s->sending) return true;
    switch (s->type) {
        case ZMQ_PUB: case ZMQ_XPUB: case ZMQ_XSUB: case ZMQ_ROUTER: return true;
        case ZMQ_REP: return s->state == 1;
        case ZMQ_REQ: if (s->state != 0) return false; break;
        case ZMQ_PULL: case ZMQ_SUB: return false;
    }
    for (auto* e : s->ends) if (has_room(e)) return true;
    return false;
}

End* readable_end(Sock* s)
{
    if (s->recv_from) return s->recv_from;
    size_t n = s->ends.size();
    for (size_t i = 0; i < n; ++i) {
        End* e = s->ends[(s->fq + i) % n];
        if (s->type == ZMQ_REQ && e != s->rep_to) continue;
        if (!e->in.empty()) return e;
    }
    return nullptr;
}
bool can_recv(Sock* s)
{
    if (s->type == ZMQ_PUSH || s->type == ZMQ_PUB) return false;
    if (s->type == ZMQ_REQ && s->state != 1) return false;
    if (s->type == ZMQ_REP && s->state != 0) return false;
    return readable_end(s) != nullptr;
}

void commit(Sock* s, End* e, std::vector<Raw>&& fr, Frees& f)
{
    if (!e || e->dead) {
        for (auto& r : fr) drop(r, f);
        return;
    }
    M m;
    m.fr = std::move(fr);
    if (e->inproc && e->peer) {
        End* p = e->peer;
        if (p->s->closed) { for (auto& r : m.fr) drop(r, f); return; }
        p->in.push_back(std::move(m));
        notify(p->s);
        return;
    }
    ns_t d = us;
    if (uint32_t v = choose_p(N, 17, 0.3)) { d += sim::faults().net_delay_max * v / 16; if (v == 16) count_fault("message-delay-max"); }
    e->last_due = std::max(e->last_due, sim::now() + d);
    m.due = e->last_due;
    e->out.push_back(std::move(m));
    notify_io(s->ctx);
}

// waits until something changes on the socket; returns 0 or an errno
int wait_on(Sock* s, ns_t dl, ns_t& eintr_at, const char* what)
{
    if (dl >= 0 && dl <= sim::now()) return EAGAIN;
    if (eintr_at == 0) eintr_at = sim::fault("eintr", sim::faults().eintr) ? sim::now() + 1 + choose(F, 120) * ms : -1;
    ns_t d = dl;
    bool ei = false;
    if (eintr_at > 0 && (d < 0 || eintr_at < d)) { d = eintr_at; ei = true; }
    int w = block(skey(s), what, d >= 0, CLK_MONO, d, true);
    if (w == W_INTERRUPTED) return EINTR;
    if (w == W_TIMEOUT) {
        if (ei) { eintr_at = -1; return EINTR; }
        return EAGAIN;
    }
    return 0;
}

int send_impl(Sock* s, Raw* m, int flags, Frees& f)
{
    Guard g;
    if (!s || s->closed) { errno = ENOTSOCK; return -1; }
    if (m->magic != MAGIC) { errno = EFAULT; return -1; }
    if (s->ctx->term) { errno = ETERM; return -1; }
    if (s->type == ZMQ_PULL || s->type == ZMQ_SUB) { errno = ENOTSUP; return -1; }
    if (!s->sending && s->type == ZMQ_REQ && s->state != 0) { errno = EFSM; return -1; }
    if (!s->sending && s->type == ZMQ_REP && s->state != 1) { errno = EFSM; return -1; }
    ns_t dl = (flags & ZMQ_DONTWAIT) ? 0 : s->sndtimeo < 0 ? -1 : sim::now() + (ns_t)s->sndtimeo * ms;
    ns_t eintr_at = 0;
    while (!can_send(s)) {
        if (flags & ZMQ_DONTWAIT) { errno = EAGAIN; return -1; }
        int e = wait_on(s, dl, eintr_at, "zmq send");
        if (s->closed) { errno = ENOTSOCK; return -1; }
        if (s->ctx->term) { errno = ETERM; return -1; }
        if (e && !can_send(s)) { errno = e; return -1; }
    }
    int size = raw_size(*m);
    bool more = flags & ZMQ_SNDMORE;
    if (!s->sending) {
        s->sending = true;
        s->send_to = nullptr;
        if (s->type == ZMQ_REP) {
            s->send_to = s->rep_to;
        } else if (!is_pub(s) && s->type != ZMQ_XSUB) {
            size_t n = s->ends.size();
            for (size_t i = 0; i < n; ++i) {
                size_t k = (s->lb + i) % n;
                if (has_room(s->ends[k])) { s->send_to = s->ends[k]; s->lb = k + 1; break; }
            }
        }
    }
    Raw r = *m;
    r.more = more;
    s->partial.push_back(r);
    *m = raw_empty();
    if (!more) {
        std::vector<Raw> fr = std::move(s->partial);
        s->partial.clear();
        if (is_pub(s) || s->type == ZMQ_XSUB) {
            std::string head((const char*)raw_data(fr[0]), raw_size(fr[0]));
            for (auto* e : s->ends) {
                if (e->dead || !e->peer || !has_room(e)) continue;
                bool ok = s->type == ZMQ_XSUB;
                for (auto& p : e->subs) if (head.compare(0, p.size(), p) == 0) ok = true;
                if (!ok) continue;
                std::vector<Raw> c;
                for (auto& x : fr) {
                    Raw y = x;
                    if (y.type) ++y.b->refs;
                    c.push_back(y);
                }
                commit(s, e, std::move(c), f);
            }
            for (auto& x : fr) drop(x, f);
        } else {
            commit(s, s->drop_msg ? nullptr : s->send_to, std::move(fr), f);
        }
        if (s->type == ZMQ_REQ) { s->state = 1; s->rep_to = s->send_to; }
        if (s->type == ZMQ_REP) s->state = 0;
        send_reset(s);
    }
    return size;
}

int recv_impl(Sock* s, Raw* m, int flags, Frees& f)
{
    Guard g;
    if (!s || s->closed) { errno = ENOTSOCK; return -1; }
    if (m->magic != MAGIC) { errno = EFAULT; return -1; }
    if (s->ctx->term) { errno = ETERM; return -1; }
    if (s->type == ZMQ_PUSH || s->type == ZMQ_PUB) { errno = ENOTSUP; return -1; }
    if (s->type == ZMQ_REQ && s->state != 1) { errno = EFSM; return -1; }
    if (s->type == ZMQ_REP && s->state != 0) { errno = EFSM; return -1; }
    ns_t dl = (flags & ZMQ_DONTWAIT) ? 0 : s->rcvtimeo < 0 ? -1 : sim::now() + (ns_t)s->rcvtimeo * ms;
    ns_t eintr_at = 0;
    while (!can_recv(s)) {
        if (flags & ZMQ_DONTWAIT) { errno = EAGAIN; return -1; }
        int e = wait_on(s, dl, eintr_at, "zmq receive");
        if (s->closed) { errno = ENOTSOCK; return -1; }
        if (s->ctx->term) { errno = ETERM; return -1; }
        if (e && !can_recv(s)) { errno = e; return -1; }
    }
    End* e = readable_end(s);
    M& x = e->in.front();
    drop(*m, f);
    *m = x.fr[e->rpos];
    bool last = ++e->rpos >= x.fr.size();
    m->more = last ? 0 : 1;
    s->rcvmore = !last;
    s->recv_from = last ? nullptr : e;
    if (last) {
        e->rpos = 0;
        e->in.pop_front();
        for (size_t i = 0; i < s->ends.size(); ++i)
            if (s->ends[i] == e) s->fq = i + 1;
        if (s->type == ZMQ_REQ) s->state = 0;
        if (s->type == ZMQ_REP) { s->state = 1; s->rep_to = e; }
        if (e->peer) {
            if (e->inproc) notify(e->peer->s);
            else notify_io(e->peer->s->ctx);
        }
        wake_all(POLL_KEY);
    }
    return (int)raw_size(*m);
}

struct Use // detects two threads using one socket at the same time, which zmq forbids
{
    Sock* s;
    explicit Use(Sock* x) : s(x) { if (s && s->users++) sim::probe("socket used by two threads at once"); }
    ~Use() { if (s) --s->users; }
};

} // namespace

namespace sim {
std::vector<std::string> bound_addresses()
{
    Guard g;
    std::vector<std::string> r;
    for (auto& [k, b] : g_bound) if (b.s && !b.s->closed) r.push_back(k);
    return r;
}
void block_port(int port) { Guard g; g_blocked_ports.insert(port); }
uint64_t zmq_undelivered()
{
    Guard g;
    uint64_t n = 0;
    for (auto* c : g_ctxs) {
        if (c->dead) continue;
        for (auto* s : c->socks)
            if (!s->reaped)
                for (auto* e : s->ends) n += e->out.size() + e->in.size();
    }
    return n;
}
} // namespace sim

extern "C" {
int zmq_errno() { return errno; }
const char* zmq_strerror(int e)
{
    switch (e) {
        case ETERM: return "Context was terminated";
        case EFSM: return "Operation cannot be accomplished in current state";
        case EMTHREAD: return "No thread available";
    }
    return strerror(e);
}
void zmq_version(int* a, int* b, int* c) { *a = 4; *b = 3; *c = 5; }

void* zmq_ctx_new()
{
    point("zmq_ctx_new");
    Guard g;
    if (!g_hooked) { g_hooked = true; on_crash(crash_proc); }
    auto* c = new Ctx;
    c->proc = cur->proc;
    c->id = g_next_id++;
    g_ctxs.push_back(c);
    return c;
}
int zmq_ctx_set(void*, int, int) { return 0; }
int zmq_ctx_get(void*, int) { return 0; }
int zmq_ctx_shutdown(void* p)
{
    point("zmq_ctx_shutdown");
    Guard g;
    auto* c = static_cast<Ctx*>(p);
    if (!c) { errno = EFAULT; return -1; }
    c->term = true;
    for (auto* s : c->socks) notify(s);
    return 0;
}
int zmq_ctx_term(void* p)
{
    if (zmq_ctx_shutdown(p)) return -1;
    auto* c = static_cast<Ctx*>(p);
    Guard g;
    for (;;) {
        bool all = true;
        for (auto* s : c->socks) if (!s->reaped) all = false;
        if (all && c->freeing == 0 && c->trash.empty()) break;
        notify_io(c);
        if (block(0x30000000000ull + c->id, "zmq_ctx_term", false, CLK_MONO, 0, true) == W_INTERRUPTED) { errno = EINTR; return -1; }
    }
    c->stop = true;
    c->dead = true;
    if (c->io >= 0) retire_thread(c->io); // the library joins it here
    notify_io(c);
    return 0;
}
int zmq_term(void* p) { return zmq_ctx_term(p); }
int zmq_ctx_destroy(void* p) { return zmq_ctx_term(p); }

void* zmq_socket(void* p, int type)
{
    point("zmq_socket");
    Guard g;
    auto* c = static_cast<Ctx*>(p);
    if (!c) { errno = EFAULT; return nullptr; }
    if (c->term) { errno = ETERM; return nullptr; }
    auto* s = new Sock;
    s->ctx = c;
    s->type = type;
    s->proc = c->proc;
    s->id = g_next_id++;
    c->socks.push_back(s);
    return s;
}
int zmq_close(void* p)
{
    point("zmq_close");
    auto* s = static_cast<Sock*>(p);
    Frees f;
    {
        Guard g;
        if (!s || s->closed) { errno = ENOTSOCK; return -1; }
        s->closed = true;
        for (auto& b : s->binds) {
            auto it = g_bound.find(b);
            if (it != g_bound.end() && it->second.s == s) {
                it->second.s = nullptr;
                it->second.free_at = sim::now() + (b[0] == 't' ? choose(N, 4) * 500 * us : 0);
            }
        }
        if (!s->mon_addr.empty()) s->ctx->mons.erase(s->mon_addr);
        for (auto& r : s->partial) drop(r, f);
        s->partial.clear();
        bool pending = false;
        for (auto* e : s->ends) {
            for (auto& m : e->in) for (auto& r : m.fr) drop(r, f);
            e->in.clear();
            if (!e->out.empty()) pending = true;
        }
        s->linger_dl = s->linger < 0 ? -1 : sim::now() + (ns_t)s->linger * ms;
        if (!pending || s->linger == 0) reap(s, f);
        else if (s->ctx->io < 0) reap(s, f);
        for (auto* c2 : g_ctxs) for (auto* s2 : c2->socks) if (s2->mon_reader == s) s2->mon_reader = nullptr;
        notify(s);
        notify_io(s->ctx);
        ++s->ctx->freeing;
    }
    run_frees(f);
    freed(s->ctx);
    return 0;
}

int zmq_setsockopt(void* p, int opt, const void* v, size_t n)
{
    point("zmq_setsockopt");
    Guard g;
    auto* s = static_cast<Sock*>(p);
    if (!s || s->closed) { errno = ENOTSOCK; return -1; }
    int i = n >= sizeof(int) && v ? *static_cast<const int*>(v) : 0;
    switch (opt) {
        case ZMQ_IDENTITY: s->identity.assign((const char*)v, n); return 0;
        case ZMQ_LINGER: s->linger = i; return 0;
        case ZMQ_SNDTIMEO: s->sndtimeo = i; return 0;
        case ZMQ_RCVTIMEO: s->rcvtimeo = i; return 0;
        case ZMQ_SNDHWM: if (i < 0) { errno = EINVAL; return -1; } s->sndhwm = i; return 0;
        case ZMQ_RCVHWM: if (i < 0) { errno = EINVAL; return -1; } s->rcvhwm = i; return 0;
        case ZMQ_SNDBUF: s->sndbuf = i; return 0;
        case ZMQ_RCVBUF: s->rcvbuf = i; return 0;
        case ZMQ_IMMEDIATE: s->immediate = i; return 0;
        case ZMQ_SUBSCRIBE:
            s->subs.insert(std::string(v ? (const char*)v : "", n));
            for (auto* e : s->ends) if (e->peer) e->peer->subs = s->subs;
            return 0;
        case ZMQ_UNSUBSCRIBE:
            s->subs.erase(std::string(v ? (const char*)v : "", n));
            for (auto* e : s->ends) if (e->peer) e->peer->subs = s->subs;
            return 0;
    }
    errno = EINVAL;
    return -1;
}
int zmq_getsockopt(void* p, int opt, void* v, size_t* n)
{
    point("zmq_getsockopt");
    Guard g;
    auto* s = static_cast<Sock*>(p);
    if (!s || s->closed) { errno = ENOTSOCK; return -1; }
    if (s->ctx->term) { errno = ETERM; return -1; }
    auto put = [&](int i) { if (*n < sizeof(int)) { errno = EINVAL; return -1; } *static_cast<int*>(v) = i; *n = sizeof(int); return 0; };
    switch (opt) {
        case ZMQ_RCVMORE: return put(s->rcvmore);
        case ZMQ_EVENTS: return put((can_recv(s) ? ZMQ_POLLIN : 0) | (can_send(s) ? ZMQ_POLLOUT : 0));
        case ZMQ_TYPE: return put(s->type);
        case ZMQ_LINGER: return put(s->linger);
        case ZMQ_SNDTIMEO: return put(s->sndtimeo);
        case ZMQ_RCVTIMEO: return put(s->rcvtimeo);
        case ZMQ_SNDHWM: return put(s->sndhwm);
        case ZMQ_RCVHWM: return put(s->rcvhwm);
        case ZMQ_SNDBUF: return put(s->sndbuf);
        case ZMQ_RCVBUF: return put(s->rcvbuf);
        case ZMQ_FD: return put(-1);
        case ZMQ_LAST_ENDPOINT: {
            size_t k = s->last_ep.size() + 1;
            if (*n < k) { errno = EINVAL; return -1; }
            memcpy(v, s->last_ep.c_str(), k);
            *n = k;
            return 0;
        }
    }
    errno = EINVAL;
    return -1;
}

int zmq_bind(void* p, const char* addr)
{
    point("zmq_bind");
    Guard g;
    auto* s = static_cast<Sock*>(p);
    if (!s || s->closed) { errno = ENOTSOCK; return -1; }
    if (s->ctx->term) { errno = ETERM; return -1; }
    std::string a = addr;
    if (a.find("://") == std::string::npos) { errno = EINVAL; return -1; }
    bool tcp = a.rfind("tcp://", 0) == 0, inproc = a.rfind("inproc://", 0) == 0;
    if (!tcp && !inproc && a.rfind("ipc://", 0) != 0) { errno = EPROTONOSUPPORT; return -1; }
    if (tcp) {
        auto c = a.rfind(':');
        std::string port = a.substr(c + 1);
        if (c < 6 || port.empty()) { errno = EINVAL; return -1; }
        if (sim::fault("bind-fails", sim::faults().bind_fail)) { errno = EADDRINUSE; return -1; }
        if (port == "*" || port == "0") {
            while (g_bound.count("tcp:" + std::to_string(g_ephemeral)) || g_blocked_ports.count(g_ephemeral)) ++g_ephemeral;
            a = a.substr(0, c + 1) + std::to_string(g_ephemeral++);
        } else {
            int pn = atoi(port.c_str());
            if (pn <= 0 || pn > 65535) { errno = EINVAL; return -1; }
            if (g_blocked_ports.count(pn)) { count_fault("port-taken"); errno = EADDRINUSE; return -1; }
        }
    }
    std::string k = canon_ep(a, s->ctx);
    auto it = g_bound.find(k);
    if (it != g_bound.end()) {
        if (it->second.s == nullptr && it->second.free_at <= sim::now()) g_bound.erase(it);
        else if (tcp || inproc) { errno = EADDRINUSE; return -1; }
    }
    g_bound[k] = Bound{s, 0};
    s->binds.push_back(k);
    s->last_ep = a;
    need_io(s->ctx);
    return 0;
}
int zmq_unbind(void* p, const char* addr)
{
    point("zmq_unbind");
    Guard g;
    auto* s = static_cast<Sock*>(p);
    std::string k = canon_ep(addr, s->ctx);
    auto it = g_bound.find(k);
    if (it == g_bound.end() || it->second.s != s) { errno = ENOENT; return -1; }
    g_bound.erase(it);
    return 0;
}
int zmq_connect(void* p, const char* addr)
{
    point("zmq_connect");
    Guard g;
    auto* s = static_cast<Sock*>(p);
    if (!s || s->closed) { errno = ENOTSOCK; return -1; }
    if (s->ctx->term) { errno = ETERM; return -1; }
    std::string a = addr;
    bool inproc = a.rfind("inproc://", 0) == 0;
    if (!inproc && a.rfind("tcp://", 0) != 0 && a.rfind("ipc://", 0) != 0) { errno = a.find("://") == std::string::npos ? EINVAL : EPROTONOSUPPORT; return -1; }
    auto* e = new End;
    e->s = s;
    e->connector = true;
    e->inproc = inproc;
    e->ep = canon_ep(a, s->ctx);
    if (inproc) {
        auto it = s->ctx->mons.find(a);
        if (it != s->ctx->mons.end()) { // reading end of a socket monitor
            s->ends.push_back(e);
            it->second->mon_reader = s;
            auto pend = std::move(it->second->mon_pending);
            it->second->mon_pending.clear();
            for (int ev : pend) emit(it->second, ev);
            return 0;
        }
    } else if (sim::fault("connect-fails", sim::faults().bind_fail)) {
        delete e;
        errno = ENODEV;
        return -1;
    }
    s->ends.push_back(e);
    need_io(s->ctx);
    ns_t d = 0;
    if (!inproc) d = us + sim::faults().connect_delay_max * choose_p(N, 17, 0.5) / 16;
    e->next_try = sim::now() + d;
    if (inproc) try_attach(e);
    notify_io(s->ctx);
    return 0;
}
int zmq_disconnect(void* p, const char* addr)
{
    point("zmq_disconnect");
    Frees f;
    {
        Guard g;
        auto* s = static_cast<Sock*>(p);
        std::string k = canon_ep(addr, s->ctx);
        for (auto* e : s->ends)
            if (e->connector && !e->dead && e->ep == k) {
                detach(e, f);
                e->dead = true;
            }
    }
    run_frees(f);
    return 0;
}
int zmq_socket_monitor(void* p, const char* addr, int events)
{
    point("zmq_socket_monitor");
    Guard g;
    auto* s = static_cast<Sock*>(p);
    if (!s || s->closed) { errno = ENOTSOCK; return -1; }
    if (s->ctx->term) { errno = ETERM; return -1; }
    if (!addr) { s->ctx->mons.erase(s->mon_addr); s->mon_addr.clear(); return 0; }
    if (s->ctx->mons.count(addr)) { errno = EADDRINUSE; return -1; }
    s->mon_addr = addr;
    s->mon_events = events;
    s->ctx->mons[addr] = s;
    return 0;
}

int zmq_msg_init(zmq_msg_t* m) { *raw(m) = raw_empty(); return 0; }
int zmq_msg_init_size(zmq_msg_t* m, size_t n) { *raw(m) = raw_make(nullptr, n); return 0; }
int zmq_msg_init_buffer(zmq_msg_t* m, const void* d, size_t n) { *raw(m) = raw_make(d, n); return 0; }
int zmq_msg_init_data(zmq_msg_t* m, void* d, size_t n, zmq_free_fn* ffn, void* hint)
{
    Raw r = raw_empty();
    r.type = 1;
    r.b = new Buf;
    r.b->data = d;
    r.b->size = n;
    r.b->ffn = ffn ? ffn : [](void*, void*) {}; // no release function: the buffer is not freed
    r.b->hint = hint;
    *raw(m) = r;
    return 0;
}
int zmq_msg_close(zmq_msg_t* m)
{
    Frees f;
    {
        Guard g;
        if (raw(m)->magic != MAGIC) { errno = EFAULT; return -1; }
        drop(*raw(m), f);
        raw(m)->magic = 0;
    }
    run_frees(f);
    return 0;
}
int zmq_msg_move(zmq_msg_t* d, zmq_msg_t* s)
{
    if (raw(s)->magic != MAGIC) { errno = EFAULT; return -1; }
    if (d == s) return 0;
    if (zmq_msg_close(d)) return -1;
    *raw(d) = *raw(s);
    *raw(s) = raw_empty();
    return 0;
}
int zmq_msg_copy(zmq_msg_t* d, zmq_msg_t* s)
{
    if (raw(s)->magic != MAGIC) { errno = EFAULT; return -1; }
    if (d == s) return 0;
    if (zmq_msg_close(d)) return -1;
    Guard g;
    *raw(d) = *raw(s);
    if (raw(s)->type) ++raw(s)->b->refs;
    return 0;
}
void* zmq_msg_data(zmq_msg_t* m) { return const_cast<void*>(raw_data(*raw(m))); }
size_t zmq_msg_size(const zmq_msg_t* m) { return raw_size(*raw(m)); }
int zmq_msg_more(const zmq_msg_t* m) { return raw(m)->more; }

int zmq_msg_send(zmq_msg_t* m, void* p, int flags)
{
    point("zmq_msg_send");
    Frees f;
    Use u(static_cast<Sock*>(p));
    int r = send_impl(static_cast<Sock*>(p), raw(m), flags, f);
    int e = errno;
    run_frees(f);
    point("zmq_msg_sent");
    errno = e;
    return r;
}
int zmq_msg_recv(zmq_msg_t* m, void* p, int flags)
{
    point("zmq_msg_recv");
    Frees f;
    Use u(static_cast<Sock*>(p));
    int r = recv_impl(static_cast<Sock*>(p), raw(m), flags, f);
    int e = errno;
    run_frees(f);
    point("zmq_msg_received");
    errno = e;
    return r;
}
int zmq_send(void* p, const void* d, size_t n, int flags)
{
    Raw r = raw_make(d, n);
    Frees f;
    point("zmq_send");
    int rc = send_impl(static_cast<Sock*>(p), &r, flags, f);
    int e = errno;
    drop(r, f);
    run_frees(f);
    errno = e;
    return rc;
}
int zmq_recv(void* p, void* d, size_t n, int flags)
{
    Raw r = raw_empty();
    Frees f;
    point("zmq_recv");
    int rc = recv_impl(static_cast<Sock*>(p), &r, flags, f);
    int e = errno;
    if (rc >= 0 && d) memcpy(d, raw_data(r), std::min(n, raw_size(r)));
    drop(r, f);
    run_frees(f);
    errno = e;
    return rc;
}

int zmq_poll(zmq_pollitem_t* it, int n, long timeout)
{
    point("zmq_poll");
    Guard g;
    ns_t dl = timeout < 0 ? -1 : sim::now() + timeout * ms;
    ns_t eintr_at = 0;
    for (;;) {
        int cnt = 0;
        for (int i = 0; i < n; ++i) {
            it[i].revents = 0;
            auto* s = static_cast<Sock*>(it[i].socket);
            if (!s || s->closed) { errno = ENOTSOCK; return -1; }
            if (s->ctx->term) { errno = ETERM; return -1; }
            if ((it[i].events & ZMQ_POLLIN) && can_recv(s)) it[i].revents |= ZMQ_POLLIN;
            if ((it[i].events & ZMQ_POLLOUT) && can_send(s)) it[i].revents |= ZMQ_POLLOUT;
            cnt += it[i].revents != 0;
        }
        if (cnt) return cnt;
        if (dl >= 0 && dl <= sim::now()) return 0;
        if (eintr_at == 0) eintr_at = sim::fault("eintr", sim::faults().eintr) ? sim::now() + 1 + choose(F, 120) * ms : -1;
        ns_t d = dl;
        bool ei = false;
        if (eintr_at > 0 && (d < 0 || eintr_at < d)) { d = eintr_at; ei = true; }
        int w = block(POLL_KEY, "zmq_poll", d >= 0, CLK_MONO, d, true);
        if (w == W_INTERRUPTED || (w == W_TIMEOUT && ei)) { errno = EINTR; return -1; }
    }
}
} // extern "C"
