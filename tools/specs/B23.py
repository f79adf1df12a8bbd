ID="error-not-requested-before-join"; PROPERTY="C05"
NEEDS="a run handler that throws while the device has a channel with rate logging"
BREAKS="nothing tells the rate logging thread to end: the device hangs in Running instead of going to Error"
EDITS=[("Device.cxx","""    tools::CallOnDestruction cod([&](){
        ChangeStateOrThrow(Transition::ErrorFound);
    });

    PreRun();""","""    tools::CallOnDestruction cod([&](){
        fMultitransportProceed = false;
    });

    PreRun();""")]
SOURCES="$DEVICE_SOURCES"
DEMO=r'''
#include <fairmq/Device.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
using namespace std;
using namespace fair::mq;
struct Demo : Device
{
    using Device::Device;
    void Run() override { throw runtime_error("demo"); }
};
int main()
{
    ProgOptions config;
    config.SetProperty<string>("id", "demo");
    config.SetProperty<string>("session", tools::Uuid());
    config.SetProperty<string>("chans.data.0.type", "pull");
    config.SetProperty<string>("chans.data.0.method", "bind");
    config.SetProperty<string>("chans.data.0.address", "inproc://a");
    config.SetProperty<string>("chans.data.0.transport", "zeromq");
    config.SetProperty<int>("chans.data.0.rateLogging", 1);
    Demo d(config);
    atomic<bool> threw{false};
    thread t([&] { try { d.RunStateMachine(); } catch (exception&) { threw = true; } });
    auto to = [&](Transition tr, State s) { d.ChangeStateOrThrow(tr); d.WaitForState(s); };
    to(Transition::InitDevice, State::InitializingDevice);
    to(Transition::CompleteInit, State::Initialized);
    to(Transition::Bind, State::Bound);
    to(Transition::Connect, State::DeviceReady);
    to(Transition::InitTask, State::Ready);
    d.ChangeStateOrThrow(Transition::Run);
    for (int i = 0; i < 1000 && !threw; ++i) this_thread::sleep_for(chrono::milliseconds(10));
    if (!threw) { puts("the run call hangs"); fflush(stdout); _Exit(1); }
    t.join();
    return d.GetCurrentState() == State::Error ? 0 : 1;
}
'''
