ID="rate-baseline-forgets-earlier-runs"; PROPERTY="C28"
NEEDS="a device that transferred messages, was stopped, and is run again with rate logging"
BREAKS="the first rate line of every further run counts the messages of all earlier runs as well"
EDITS=[("Device.cxx","""        bytesIn.at(i) = channel->GetBytesRx();
        bytesOut.at(i) = channel->GetBytesTx();
        msgIn.at(i) = channel->GetMessagesRx();
        msgOut.at(i) = channel->GetMessagesTx();
        ++i;""","""        bytesIn.at(i) = 0;
        bytesOut.at(i) = 0;
        msgIn.at(i) = 0;
        msgOut.at(i) = 0;
        (void)channel;
        ++i;""")]
SOURCES="$DEVICE_SOURCES"
DEMO=r'''
#include <fairlogger/Logger.h>
#include <fairmq/Device.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <thread>
using namespace std;
using namespace fair::mq;
atomic<bool> traffic{true};
struct Demo : Device
{
    using Device::Device;
    bool ConditionalRun() override
    {
        if (traffic) {
            for (int i = 0; i < 1000; ++i) {
                auto m = NewMessageFor("out", 0, 10);
                if (Send(m, "out", 0, 1000) < 0) return true;
                auto r = NewMessageFor("in", 0);
                if (Receive(r, "in", 0, 1000) < 0) return true;
            }
            traffic = false;
        }
        WaitFor(chrono::milliseconds(20));
        return true;
    }
};
int main()
{
    mutex mtx;
    double highest = 0;
    int lines = 0;
    fair::LogHook() = [&](const string& s) {
        char name[64];
        double a, b, c, d;
        if (sscanf(s.c_str(), " %63[^:]: in: %lf (%lf MB) out: %lf (%lf MB)", name, &a, &b, &c, &d) != 5) return;
        lock_guard<mutex> l(mtx);
        ++lines;
        highest = max(highest, max(a, c));
    };
    ProgOptions config;
    config.SetProperty<string>("id", "demo");
    config.SetProperty<string>("session", tools::Uuid());
    for (string c : {"out", "in"}) {
        string p = "chans." + c + ".0.";
        config.SetProperty<string>(p + "type", c == "out" ? "push" : "pull");
        config.SetProperty<string>(p + "method", c == "out" ? "bind" : "connect");
        config.SetProperty<string>(p + "address", "inproc://a");
        config.SetProperty<string>(p + "transport", "zeromq");
        config.SetProperty<int>(p + "rateLogging", 1);
    }
    Demo d(config);
    thread t([&] { d.RunStateMachine(); });
    auto to = [&](Transition tr, State s) { d.ChangeStateOrThrow(tr); d.WaitForState(s); };
    to(Transition::InitDevice, State::InitializingDevice);
    to(Transition::CompleteInit, State::Initialized);
    to(Transition::Bind, State::Bound);
    to(Transition::Connect, State::DeviceReady);
    to(Transition::InitTask, State::Ready);
    to(Transition::Run, State::Running);
    while (traffic) this_thread::sleep_for(chrono::milliseconds(10));
    to(Transition::Stop, State::Ready);
    { lock_guard<mutex> l(mtx); highest = 0; lines = 0; }
    to(Transition::Run, State::Running); // nothing is transferred in this run
    this_thread::sleep_for(chrono::milliseconds(2500));
    to(Transition::Stop, State::Ready);
    to(Transition::ResetTask, State::DeviceReady);
    to(Transition::ResetDevice, State::Idle);
    d.ChangeStateOrThrow(Transition::End);
    t.join();
    if (lines < 2) { puts("no rate lines"); return 2; }
    printf("highest rate logged in a run without messages: %g\n", highest);
    return highest == 0 ? 0 : 1;
}
'''
