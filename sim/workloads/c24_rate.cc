// C24: the rate limiter holds the requested rate
#include <sim.h>
#include <fairmq/tools/RateLimit.h>
#include <cmath>

using namespace sim;
using namespace std;

namespace {
struct Phase { const char* name; ns_t work; double jitter; ns_t length; };

struct Loop
{
    fair::mq::tools::RateLimiter lim;
    double rate;
    uint64_t iterations = 0;
    uint64_t rnd;
    explicit Loop(float r) : lim(r), rate(r), rnd(gen(1 << 30) * 2654435761u + 1) {}
    double u() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return (rnd >> 11) * (1.0 / 9007199254740992.0); }
    void one(ns_t work, double jitter)
    {
        ns_t w = work + (ns_t)(work * jitter * (2 * u() - 1));
        if (w > 0) nap(w);
        lim.maybe_sleep();
        ++iterations;
    }
    // runs for at least `length`, returns the measured rate
    double run(ns_t length, ns_t work, double jitter)
    {
        ns_t t0 = now();
        uint64_t n0 = iterations;
        while (now() - t0 < length) one(work, jitter);
        return (iterations - n0) * 1e9 / (now() - t0);
    }
};
const float rates[] = {1, 2, 3.5, 7, 10, 25, 33.3, 50, 100, 150, 250, 400, 700, 1000, 1500, 2500, 5000};
} // namespace

// settles at the requested rate, also after disturbances
SIM_WORKLOAD(C24, holds)
{
    limit_time(100000 * sec);
    clock_steps(300 * sec);
    float rate = rates[gen(17)];
    double period = 1e9 / rate;
    Loop l(rate);
    // the loop can do the rate with some slack
    double load = 0.05 * (1 + gen(16)); // 5% .. 80% of the period
    ns_t work = period * load;
    double jitter = gen(2) ? 0 : 0.05 * (1 + gen(4));
    double lo, hi; if (!param("lo", &lo)) lo = 0.95; if (!param("hi", &hi)) hi = 1.05;
    ns_t settle = max<ns_t>(20 * sec, 60 * period), window = max<ns_t>(4 * sec, 40 * period);
    double p; if (param("settle", &p)) settle = max<ns_t>(p * sec, 3 * p * period);
    auto measure = [&](const char* when) {
        l.run(settle, work, jitter);
        double r = l.run(window, work, jitter);
        event(string(when) + ": measured " + to_string(r) + " Hz, requested " + to_string(rate) + " Hz, work " + to_string(load));
        SIM_CHECK(r <= rate * hi, "too-fast", string(when) + ": the loop runs at " + to_string(r) + " Hz although " + to_string(rate) + " Hz were requested");
        SIM_CHECK(r >= rate * lo, "too-slow", string(when) + ": the loop runs at " + to_string(r) + " Hz although " + to_string(rate) + " Hz were requested and are possible (work " + to_string(load) + " of the period)");
    };
    measure("after start");
    int n = gen(3);
    for (int i = 0; i < n; ++i) {
        int kind = gen(3);
        if (kind == 0) {
            ns_t s = (1 + gen(20)) * 100 * ms;
            count_fault("stall of the loop");
            nap(s);
            measure("after a stall");
        } else if (kind == 1) {
            count_fault("slow phase");
            l.run(gen(3) ? (1 + gen(4)) * sec : min<ns_t>(90 * sec, 15000 * period), (1.1 + 0.2 * gen(10)) * period, 0); // cannot reach the rate for a while
            measure("after a slow phase");
        } else {
            count_fault("change of work");
            load = 0.05 * (1 + gen(16));
            work = period * load;
            measure("after a change of work");
        }
    }
}

// a loop that cannot reach the rate is not slowed down much
SIM_WORKLOAD(C24, overload)
{
    limit_time(100000 * sec);
    clock_steps(300 * sec);
    float rate = rates[gen(17)];
    double period = 1e9 / rate;
    Loop l(rate);
    double load = 1.1 + 0.1 * gen(30);
    ns_t work = period * load;
    double jitter = gen(2) ? 0 : 0.05 * (1 + gen(4));
    bool idle_first = gen(2);
    if (idle_first) { count_fault("fast phase"); l.run(max<ns_t>(5 * sec, 20 * period), period * 0.1, 0); l.run(max<ns_t>(20 * sec, 60 * period), work, jitter); }
    ns_t t0 = now(); uint64_t n0 = l.iterations;
    double r = l.run(max<ns_t>(5 * sec, 40 * period), work, jitter);
    double best = 1e9 / work;
    (void)t0; (void)n0;
    event("overloaded loop: " + to_string(r) + " Hz, possible " + to_string(best) + " Hz");
    SIM_CHECK(r >= 0.9 * best, "slowed-down", "a loop that can only do " + to_string(best) + " Hz (requested " + to_string(rate) + " Hz) is slowed down to " + to_string(r) + " Hz");
}

// rate <= 0: no noticeable sleeping
SIM_WORKLOAD(C24, unlimited)
{
    limit_time(100000 * sec);
    clock_steps(300 * sec);
    float rate = gen(2) ? 0.f : -1.f - gen(1000);
    Loop l(rate);
    ns_t work = gen(3) == 0 ? 0 : (ns_t)pow(10.0, gen(8)) + gen(10);
    int n = 2000 + gen(20000);
    if (work >= ms) n = 2000;
    ns_t t0 = now(), busy = 0;
    for (int i = 0; i < n; ++i) { ns_t a = now(); if (work) nap(work); busy += now() - a; l.lim.maybe_sleep(); }
    ns_t extra = now() - t0 - busy;
    SIM_CHECK(extra <= 2 * ms + busy / 20 + n * 2 * us, "unlimited-sleeps", "a limiter without a limit slept " + to_string(extra / us) + " us in " + to_string(n) + " iterations of " + to_string(work) + " ns");
}
