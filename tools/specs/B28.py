ID="subscription-only-on-connect"; PROPERTY="C29"
NEEDS="a subscriber whose channel binds while the publishers connect to it"
BREAKS="the subscription is only made when the socket connects: a subscriber that binds never receives anything"
EDITS=[("zeromq/Socket.h","""        if (type == "sub") {
            if (zmq_setsockopt(fSocket, ZMQ_SUBSCRIBE, nullptr, 0) != 0) {
                LOG(error) << "Failed setting ZMQ_SUBSCRIBE socket option, reason: " << zmq_strerror(errno);
            }
        }

""",""),
("zeromq/Socket.h","""    bool Connect(const std::string& address) override
    {
""","""    bool Connect(const std::string& address) override
    {
        int type = 0;
        size_t size = sizeof(type);
        zmq_getsockopt(fSocket, ZMQ_TYPE, &type, &size);
        if (type == ZMQ_SUB) {
            if (zmq_setsockopt(fSocket, ZMQ_SUBSCRIBE, nullptr, 0) != 0) {
                LOG(error) << "Failed setting ZMQ_SUBSCRIBE socket option, reason: " << zmq_strerror(errno);
            }
        }
""")]
SOURCES="$TRANSPORT_SOURCES"
DEMO=r'''
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/Unique.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace std;
int main()
{
    fair::mq::ProgOptions config;
    config.SetProperty<string>("session", fair::mq::tools::Uuid());
    auto f = fair::mq::TransportFactory::CreateTransportFactory("zeromq", "demo", &config);
    fair::mq::Channel pub("pub", "pub", f), sub("sub", "sub", f);
    const string addr = "inproc://demo";
    sub.Bind(addr);
    pub.Connect(addr);
    for (int i = 0; i < 50; ++i) {
        this_thread::sleep_for(chrono::milliseconds(20));
        auto m = f->CreateMessage(8);
        memset(m->GetData(), i, 8);
        if (pub.Send(m, 100) != 8) { puts("publishing failed"); return 1; }
        auto r = f->CreateMessage();
        if (sub.Receive(r, 20) == 8) return 0;
    }
    puts("the subscriber receives nothing");
    return 1;
}
'''
