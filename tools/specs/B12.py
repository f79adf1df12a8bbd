ID="copy-keeps-own-segment"; PROPERTY="C09"
NEEDS="copying a message whose buffer lies in the segment of another process (for example a received one) and releasing the copy"
BREAKS="the copy refers to the buffer with the number of its own segment: releasing it frees memory of the wrong segment"
EDITS=[("shmem/Message.h","""        fShared = otherMsg.fShared;
        fRegionId = otherMsg.fRegionId;
        fSegmentId = otherMsg.fSegmentId;
        fManaged""","""        fShared = otherMsg.fShared;
        fRegionId = otherMsg.fRegionId;
        if (!otherMsg.fManaged) {
            fSegmentId = otherMsg.fSegmentId;
        }
        fManaged""")]
SOURCES="$TRANSPORT_SOURCES"
DEMO=r'''
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/Unique.h>
#include <cstdio>
#include <cstring>
using namespace std;
static shared_ptr<fair::mq::TransportFactory> make(const string& session, uint16_t id)
{
    fair::mq::ProgOptions config;
    config.SetProperty<string>("session", session);
    config.SetProperty<uint16_t>("shm-segment-id", id);
    config.SetProperty<size_t>("shm-segment-size", 10000000);
    return fair::mq::TransportFactory::CreateTransportFactory("shmem", "demo" + to_string(id), &config);
}
int main()
{
    const string session = fair::mq::tools::Uuid();
    auto a = make(session, 0), b = make(session, 1);
    fair::mq::Channel out("out", "push", a), in("in", "pull", b);
    const string addr = "ipc:///tmp/fmqdemo-" + session;
    out.Bind(addr);
    in.Connect(addr);
    int bad = 0;
    {
        auto keep = b->CreateMessage(1000); // the same place in the other segment
        memset(keep->GetData(), 1, 1000);
        auto m = a->CreateMessage(1000);
        memset(m->GetData(), 7, 1000);
        if (out.Send(m, 5000) != 1000) return 1;
        auto r = b->CreateMessage();
        if (in.Receive(r, 5000) != 1000) return 1;
        auto c = b->CreateMessage();
        c->Copy(*r);
        if (static_cast<char*>(c->GetData())[500] != 7) { puts("the copy has other content"); bad = 1; }
    }
    remove(addr.c_str() + 6);
    return bad;
}
'''
