ID="semaphore-notify-on-transition"; PROPERTY="C23"
NEEDS="two threads blocked in Wait() and two Signal() calls in a row, the second one before the first woken thread took its unit"
BREAKS="Signal() wakes a waiter only when the count was zero, so a second unit is never handed to the second blocked waiter"
EDITS=[("tools/Semaphore.cxx","""    ++fCount;
    lk.unlock();
    fCv.notify_one();""","""    const bool wasEmpty = (fCount++ == 0);
    lk.unlock();
    if (wasEmpty) {
        fCv.notify_one();
    }""")]
SOURCES="tools/Semaphore.cxx"
LIMIT=60
DEMO=r'''
#include <fairmq/tools/Semaphore.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
using namespace std;
int main()
{
    for (int round = 0; round < 300; ++round) {
        fair::mq::tools::Semaphore sem(0);
        atomic<int> ready{0}, done{0};
        vector<thread> t;
        for (int i = 0; i < 4; ++i) t.emplace_back([&] { ++ready; sem.Wait(); ++done; });
        while (ready < 4) this_thread::yield();
        this_thread::sleep_for(chrono::milliseconds(2)); // all four block
        for (int i = 0; i < 4; ++i) sem.Signal();
        for (int i = 0; i < 5000 && done < 4; ++i) this_thread::sleep_for(chrono::milliseconds(1));
        if (done < 4) { printf("round %d: %d of 4 waiters got a unit after 4 signals, count %zu\n", round, (int)done, sem.GetCount()); fflush(stdout); _Exit(1); }
        for (auto& x : t) x.join();
    }
    puts("ok");
}
'''
