ID="shutdown-skips-initializing"; PROPERTY="C19"
NEEDS="a termination signal that arrives while the device is initialising (between entering the state and the completion request)"
BREAKS="the shutdown sequence does not complete the initialisation and waits forever: the device never ends"
EDITS=[("plugins/control/Control.cxx","""            case DeviceState::InitializingDevice:
                ChangeDeviceState(DeviceStateTransition::CompleteInit);
                break;
            case DeviceState::Initialized:
            case DeviceState::Bound:""","""            case DeviceState::Initialized:
            case DeviceState::Bound:""")]
SOURCES="$PLUGIN_SOURCES"
LIMIT=40
DEMO=r'''
#include <fairmq/DeviceRunner.h>
#include <fairmq/Device.h>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <thread>
using namespace std;
using namespace fair::mq;
int main()
{
    char name[] = "demo", a1[] = "--id", a2[] = "demo", a3[] = "--control", a4[] = "static", a5[] = "--transport", a6[] = "zeromq";
    char* argv[] = {name, a1, a2, a3, a4, a5, a6, nullptr};
    DeviceRunner runner(7, argv, false);
    runner.AddHook<hooks::InstantiateDevice>([](DeviceRunner& r) {
        r.fDevice = make_unique<Device>();
        r.fDevice->SubscribeToStateChange("a", [](State s) {
            if (s == State::InitializingDevice) { // a signal while this state is being entered
                raise(SIGTERM);
                this_thread::sleep_for(chrono::milliseconds(1000));
            }
        });
    });
    thread watch([] { this_thread::sleep_for(chrono::seconds(15)); puts("the device did not end"); fflush(stdout); _Exit(1); });
    watch.detach();
    int rc = runner.RunWithExceptionHandlers();
    printf("ended with %d\n", rc);
    fflush(stdout);
    _Exit(0);
}
'''
