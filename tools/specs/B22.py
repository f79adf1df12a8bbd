ID="multipart-receive-not-interrupted"; PROPERTY="C03"
NEEDS="a device blocked in a multipart receive without timeout on a zeromq channel when the transition is requested"
BREAKS="the receive goes on waiting: the device does not leave Running until a message arrives"
EDITS=[("zeromq/Socket.h","""                    if (fCtx.Interrupted()) {
                        return static_cast<int>(TransferCode::interrupted);
                    } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
                        repeat = true;
                        break;
                    } else {
                        return static_cast<int>(TransferCode::timeout);
                    }
                } else {
                    return zmq::HandleErrors(fId);
                }

                size_t moreSize""","""                    if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
                        repeat = true;
                        break;
                    } else if (fCtx.Interrupted()) {
                        return static_cast<int>(TransferCode::interrupted);
                    } else {
                        return static_cast<int>(TransferCode::timeout);
                    }
                } else {
                    return zmq::HandleErrors(fId);
                }

                size_t moreSize""")]
SOURCES="$DEVICE_SOURCES"
DEVDEMO=r'''
#include <fairmq/Device.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
using namespace std;
using namespace fair::mq;
'''
DEMO=DEVDEMO+r'''
struct Demo : Device
{
    using Device::Device;
    atomic<bool> running{false};
    void Run() override
    {
        running = true;
        Parts p;
        auto r = Receive(p, "data");
        printf("receive returned %d\n", (int)r);
    }
};
int main()
{
    ProgOptions config;
    config.SetProperty<string>("id", "demo");
    config.SetProperty<string>("session", tools::Uuid());
    config.SetProperty<string>("chans.data.0.type", "pull");
    config.SetProperty<string>("chans.data.0.method", "bind");
    config.SetProperty<string>("chans.data.0.address", "inproc://a");
    config.SetProperty<string>("chans.data.0.transport", "zeromq");
    config.SetProperty<int>("chans.data.0.rateLogging", 0);
    Demo d(config);
    thread t([&] { d.RunStateMachine(); });
    auto to = [&](Transition tr, State s) { d.ChangeStateOrThrow(tr); d.WaitForState(s); };
    to(Transition::InitDevice, State::InitializingDevice);
    to(Transition::CompleteInit, State::Initialized);
    to(Transition::Bind, State::Bound);
    to(Transition::Connect, State::DeviceReady);
    to(Transition::InitTask, State::Ready);
    to(Transition::Run, State::Running);
    while (!d.running) this_thread::sleep_for(chrono::milliseconds(10));
    this_thread::sleep_for(chrono::milliseconds(300));
    d.ChangeStateOrThrow(Transition::Stop);
    for (int i = 0; i < 500 && d.GetCurrentState() != State::Ready; ++i) this_thread::sleep_for(chrono::milliseconds(10));
    if (d.GetCurrentState() != State::Ready) { puts("the device is still running"); fflush(stdout); _Exit(1); }
    d.WaitForState(State::Ready);
    to(Transition::ResetTask, State::DeviceReady);
    to(Transition::ResetDevice, State::Idle);
    d.ChangeStateOrThrow(Transition::End);
    t.join();
    return 0;
}
'''
