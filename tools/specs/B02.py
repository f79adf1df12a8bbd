ID="eventmanager-first-signal-race"; PROPERTY="C17"
NEEDS="two threads using the same event type and callback signature for the first time at the same moment"
BREAKS="the signal is looked up and created without one lock around both, so one of two concurrent first subscribers ends up on a signal nobody emits"
EDITS=[("EventManager.h","""    std::lock_guard<std::mutex> lock{fMutex};

    if (fSignals.find(key) == fSignals.end()) {
        // wrapper""","""    std::unique_lock<std::mutex> lock{fMutex};

    if (fSignals.find(key) == fSignals.end()) {
        // do not allocate under the lock
        lock.unlock();
        // wrapper"""),("EventManager.h","""        auto signal = std::make_shared<Signal<E, Args...>>();
        fSignals.insert(std::make_pair(key, signal));
    }""","""        auto signal = std::make_shared<Signal<E, Args...>>();
        lock.lock();
        fSignals[key] = signal;
        return signal;
    }""")]
SOURCES="EventManager.cxx"
LIMIT=120
DEMO=r'''
#include <fairmq/EventManager.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <thread>
#include <vector>
using namespace std;
struct Ev : fair::mq::Event<int> {};
int main()
{
    const int N = 6, ROUNDS = 3000;
    atomic<int> turn{-1}, in{0}, out{0};
    shared_ptr<fair::mq::EventManager> em;
    atomic<int> calls{0};
    vector<thread> t;
    for (int i = 0; i < N; ++i)
        t.emplace_back([&, i] {
            for (int r = 0; r < ROUNDS; ++r) {
                while (turn < r) {}
                em->Subscribe<Ev, int>("s" + to_string(i), function<void(int, int)>([&](int, int) { ++calls; }));
                ++out;
                while (out < N * (r + 1)) {}
            }
        });
    for (int r = 0; r < ROUNDS; ++r) {
        em = make_shared<fair::mq::EventManager>();
        calls = 0;
        turn = r;
        while (out < N * (r + 1)) {}
        em->Emit<Ev, int>(1, 2);
        if (calls != N) { printf("round %d: %d of %d subscribers were called\n", r, (int)calls, N); fflush(stdout); _Exit(1); }
    }
    for (auto& x : t) x.join();
    puts("ok");
}
'''
