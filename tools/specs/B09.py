ID="wait-for-release-wrong-wakeup"; PROPERTY="C18"
NEEDS="a waiter for the release of the device control, and a release attempt by a plugin that is not in control (or a spurious wake-up)"
BREAKS="WaitForReleaseDeviceControl returns although the device is still controlled"
EDITS=[("PluginServices.cxx","""    while (fDeviceController) {
        fRelease""","""    if (fDeviceController) {
        fRelease""")]
SOURCES="$PLUGIN_SOURCES"
DEMO=r'''
#include <fairmq/Device.h>
#include <fairmq/PluginServices.h>
#include <fairmq/ProgOptions.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
using namespace std;
int main()
{
    fair::mq::ProgOptions config;
    fair::mq::Device device;
    device.SetTransport("zeromq");
    fair::mq::PluginServices ps(config, device);
    ps.TakeDeviceControl("a");
    atomic<bool> returned{false};
    bool bad = false;
    thread waiter([&] { ps.WaitForReleaseDeviceControl(); returned = true; });
    this_thread::sleep_for(chrono::milliseconds(200));
    try { ps.ReleaseDeviceControl("b"); } catch (...) {} // not in control
    this_thread::sleep_for(chrono::milliseconds(500));
    if (returned) { puts("the waiter returned while 'a' is in control"); bad = true; }
    ps.ReleaseDeviceControl("a");
    waiter.join();
    device.ChangeState(fair::mq::Transition::End);
    device.RunStateMachine();
    return bad;
}
'''
