ID="endpoint-direction-dropped"; PROPERTY="C06"
NEEDS="a channel with several endpoints of different direction, one of them connecting by host name, and a second initialisation after a reset"
BREAKS="the connect modifier is dropped from the published address list, so that the next initialisation binds to an endpoint that has to be connected"
EDITS=[("Device.cxx","""        if (connectionModifier) {
            endpoint.push_back(bind?'@':'+');
        }""","""        if (connectionModifier && bind) {
            endpoint.push_back('@');
        }""")]
SOURCES="$DEVICE_SOURCES"
DEMO=r'''
#include <fairmq/Device.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
using namespace std;
using namespace fair::mq;
int main()
{
    ProgOptions config;
    config.SetProperty<string>("id", "demo");
    config.SetProperty<string>("session", tools::Uuid());
    config.SetProperty<string>("chans.data.0.type", "pull");
    config.SetProperty<string>("chans.data.0.method", "bind");
    config.SetProperty<string>("chans.data.0.address", "inproc://a,+tcp://localhost:45454");
    config.SetProperty<string>("chans.data.0.transport", "zeromq");
    config.SetProperty<int>("chans.data.0.rateLogging", 0);
    Device d(config);
    thread t([&] { d.RunStateMachine(); });
    auto to = [&](Transition tr, State s) { d.ChangeStateOrThrow(tr); d.WaitForState(s); };
    to(Transition::InitDevice, State::InitializingDevice);
    to(Transition::CompleteInit, State::Initialized);
    to(Transition::Bind, State::Bound);
    to(Transition::Connect, State::DeviceReady);
    string a = config.GetProperty<string>("chans.data.0.address");
    printf("address: %s\n", a.c_str());
    to(Transition::ResetDevice, State::Idle);
    d.ChangeStateOrThrow(Transition::End);
    t.join();
    return a.find(",+tcp://") != string::npos ? 0 : 1;
}
'''
