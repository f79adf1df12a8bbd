ID="multi-transport-callback-after-end"; PROPERTY="C20"
NEEDS="input channels on two transports with data waiting on both when a callback returns false"
BREAKS="the thread of the other transport, already waiting for its turn, calls its callback although the device is to leave Running, and its result puts the device back to receiving"
EDITS=[("Device.cxx","""                        lock_guard<mutex> lock(fMultitransportMutex);

                        if (!fMultitransportProceed) {
                            break;
                        }

                        if (GetChannel""","""                        if (!fMultitransportProceed) {
                            break;
                        }

                        lock_guard<mutex> lock(fMultitransportMutex);

                        if (GetChannel""")]
SOURCES="$DEVICE_SOURCES"
DEMO=r'''
#include <fairmq/Device.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
using namespace std;
using namespace fair::mq;
struct Demo : Device
{
    atomic<int> ended{0}, late{0};
    Demo(ProgOptions& c) : Device(c)
    {
        auto cb = [this](MessagePtr&, int) {
            if (ended) ++late;
            this_thread::sleep_for(chrono::milliseconds(500)); // the other transport gets to wait for its turn
            ended = 1;
            return false;
        };
        OnData("z", cb);
        OnData("s", cb);
    }
    void PreRun() override
    {
        for (auto n : {"zo", "so"}) { auto m = NewMessageFor(n, 0, 10); Send(m, n); }
        this_thread::sleep_for(chrono::milliseconds(200));
    }
};
int main()
{
    ProgOptions config;
    config.SetProperty<string>("id", "demo");
    config.SetProperty<string>("session", tools::Uuid());
    config.SetProperty<size_t>("shm-segment-size", 1000000);
    auto chan = [&](string n, string type, string method, string addr, string tr) {
        config.SetProperty<string>("chans." + n + ".0.type", type);
        config.SetProperty<string>("chans." + n + ".0.method", method);
        config.SetProperty<string>("chans." + n + ".0.address", addr);
        config.SetProperty<string>("chans." + n + ".0.transport", tr);
        config.SetProperty<int>("chans." + n + ".0.rateLogging", 0);
    };
    chan("z", "pull", "bind", "inproc://z", "zeromq");
    chan("zo", "push", "connect", "inproc://z", "zeromq");
    chan("s", "pull", "bind", "inproc://s", "shmem");
    chan("so", "push", "connect", "inproc://s", "shmem");
    Demo d(config);
    thread t([&] { d.RunStateMachine(); });
    auto to = [&](Transition tr, State s) { d.ChangeStateOrThrow(tr); d.WaitForState(s); };
    to(Transition::InitDevice, State::InitializingDevice);
    to(Transition::CompleteInit, State::Initialized);
    to(Transition::Bind, State::Bound);
    to(Transition::Connect, State::DeviceReady);
    to(Transition::InitTask, State::Ready);
    to(Transition::Run, State::Running);
    d.WaitForState(State::Ready);
    to(Transition::ResetTask, State::DeviceReady);
    to(Transition::ResetDevice, State::Idle);
    d.ChangeStateOrThrow(Transition::End);
    t.join();
    printf("late callbacks: %d\n", (int)d.late);
    return d.late ? 1 : 0;
}
'''
