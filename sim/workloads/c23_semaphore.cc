// C23: semaphores never lose or invent a signal
#include <sim.h>
#include <fairmq/tools/Semaphore.h>
#include <memory>

using namespace sim;
using namespace std;

namespace {
template<typename Sem>
void run(Sem& base, int initial, bool shared)
{
    int waiters = 1 + gen(4), signallers = 1 + gen(3);
    vector<int> want(waiters), give(signallers);
    int total_want = 0, total_give = 0;
    for (auto& w : want) { w = 1 + gen(4); total_want += w; }
    for (auto& s : give) { s = gen(5); total_give += s; }
    bool enough = initial + total_give >= total_want;
    // completed waits never exceed what was made available; every signal is counted before it is issued
    struct St { int issued = 0, completed = 0; vector<int> left; } st;
    st.left = want;
    limit_time(60 * sec);
    clock_steps();
    vector<Thread> ths;
    for (int i = 0; i < signallers; ++i) {
        Sem mine = base;
        ths.push_back(spawn("signal" + to_string(i), [&, i, mine]() mutable {
            for (int k = 0; k < give[i]; ++k) {
                if (gen_p(0.3)) nap(gen(5) * ms);
                { NoPreempt np; ++st.issued; }
                event("signal");
                mine.Signal();
            }
        }));
    }
    vector<Thread> wt;
    for (int i = 0; i < waiters; ++i) {
        Sem mine = base;
        wt.push_back(spawn("wait" + to_string(i), [&, i, mine]() mutable {
            while (st.left[i] > 0) {
                mine.Wait();
                NoPreempt np;
                ++st.completed;
                --st.left[i];
                event("wait completed");
                SIM_CHECK(st.completed <= initial + st.issued, "invented-signal",
                          to_string(st.completed) + " waits completed with initial count " + to_string(initial) + " and " + to_string(st.issued) + " signals");
            }
        }));
    }
    for (auto& t : ths) t.join();
    // quiescence: everything that could be released has been released
    nap(1 * sec);
    int expect = min(total_want, initial + total_give);
    SIM_CHECK(st.completed == expect, "lost-signal",
              "only " + to_string(st.completed) + " waits completed, expected " + to_string(expect) + " (initial " + to_string(initial) + ", signals " + to_string(total_give) + ")");
    SIM_CHECK((int)base.GetCount() == initial + total_give - expect, "wrong-count",
              "count is " + to_string(base.GetCount()) + ", expected " + to_string(initial + total_give - expect));
    if (!enough) {
        probe("starved waiters released by late signals");
        for (int k = initial + total_give; k < total_want; ++k) { ++st.issued; base.Signal(); }
    }
    for (auto& t : wt) t.join();
    int fin = max(0, initial + total_give - total_want);
    SIM_CHECK((int)base.GetCount() == fin, "wrong-count", "final count is " + to_string(base.GetCount()) + ", expected " + to_string(fin));
    (void)shared;
}
struct Ref // value semantics wrapper around the non-copyable semaphore
{
    fair::mq::tools::Semaphore* s;
    void Wait() { s->Wait(); }
    void Signal() { s->Signal(); }
    size_t GetCount() const { return s->GetCount(); }
};
} // namespace

SIM_WORKLOAD(C23, plain)
{
    faults().spurious_wakeup = gen(2) ? 0.2 : 0;
    faults().stall = gen(3) ? 0 : 0.3;
    faults().stall_max = 200 * ms;
    int initial = gen(4);
    fair::mq::tools::Semaphore s(initial);
    Ref r{&s};
    run(r, initial, false);
}

SIM_WORKLOAD(C23, shared)
{
    faults().spurious_wakeup = gen(2) ? 0.2 : 0;
    faults().stall = gen(3) ? 0 : 0.3;
    faults().stall_max = 200 * ms;
    int initial = gen(4);
    auto s = initial == 0 && gen(2) ? fair::mq::tools::SharedSemaphore() : fair::mq::tools::SharedSemaphore(initial);
    run(s, initial, true);
}
