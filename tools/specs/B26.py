ID="multiplier-collects-parts"; PROPERTY="C22"
NEEDS="a multiplier in multipart mode whose last output channel has three or more sub-channels"
BREAKS="the copies for one sub-channel are added to those of the previous one: it gets messages with additional parts"
EDITS=[("devices/Multiplier.h","""        for (unsigned int i = 0; i < lastChannelSize - 1; ++i) { // iterate over all except last subChannels of the last channel
            Parts parts;

            for""","""        Parts parts;

        for (unsigned int i = 0; i < lastChannelSize - 1; ++i) { // iterate over all except last subChannels of the last channel
            for""")]
SOURCES="$DEVICE_SOURCES"
DEMO=r'''
#include <fairmq/devices/Multiplier.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <thread>
using namespace std;
using namespace fair::mq;
int main()
{
    ProgOptions config;
    const string session = tools::Uuid();
    config.SetProperty<string>("id", "demo");
    config.SetProperty<string>("session", session);
    config.SetProperty<bool>("multipart", true);
    config.SetProperty<string>("in-channel", "in");
    config.SetProperty<vector<string>>("out-channel", {"out"});
    auto chan = [&](string n, int i, string type, string method, string addr) {
        string p = "chans." + n + "." + to_string(i) + ".";
        config.SetProperty<string>(p + "type", type);
        config.SetProperty<string>(p + "method", method);
        config.SetProperty<string>(p + "address", addr);
        config.SetProperty<string>(p + "transport", "zeromq");
        config.SetProperty<int>(p + "rateLogging", 0);
    };
    const string base = "ipc:///tmp/fmqdemo-" + session;
    chan("in", 0, "pull", "bind", base + "-in");
    for (int i = 0; i < 3; ++i) chan("out", i, "push", "bind", base + "-" + to_string(i));
    Multiplier d;
    d.SetConfig(config);
    thread t([&] { d.RunStateMachine(); });
    auto to = [&](Transition tr, State s) { d.ChangeStateOrThrow(tr); d.WaitForState(s); };
    to(Transition::InitDevice, State::InitializingDevice);
    to(Transition::CompleteInit, State::Initialized);
    to(Transition::Bind, State::Bound);
    to(Transition::Connect, State::DeviceReady);
    to(Transition::InitTask, State::Ready);
    to(Transition::Run, State::Running);
    auto f = TransportFactory::CreateTransportFactory("zeromq", "peer", nullptr);
    int bad = 0;
    {
        Channel in("in", "push", "connect", base + "-in", f);
        in.ConnectEndpoint(base + "-in");
        vector<unique_ptr<Channel>> out;
        for (int i = 0; i < 3; ++i) {
            string a = base + "-" + to_string(i);
            out.push_back(make_unique<Channel>("out", "pull", "connect", a, f));
            out[i]->ConnectEndpoint(a);
        }
        Parts p;
        for (int i = 0; i < 2; ++i) { auto m = f->CreateMessage(10 + i); memset(m->GetData(), i, 10 + i); p.AddPart(move(m)); }
        if (in.Send(p, 5000) < 0) bad = 1;
        for (int i = 0; i < 3; ++i) {
            Parts r;
            auto n = out[i]->Receive(r, 5000);
            printf("output %d: %d parts, %d bytes\n", i, (int)r.Size(), (int)n);
            if (r.Size() != 2 || n != 21) bad = 1;
        }
    }
    d.ChangeStateOrThrow(Transition::Stop);
    d.WaitForState(State::Ready);
    to(Transition::ResetTask, State::DeviceReady);
    to(Transition::ResetDevice, State::Idle);
    d.ChangeStateOrThrow(Transition::End);
    t.join();
    for (auto s : {"-in", "-0", "-1", "-2"}) remove((base + s).c_str() + 6);
    return bad;
}
'''
