ID="region-refcount-segment-forgotten"; PROPERTY="C10"
NEEDS="a region without its own reference count segment (rcSegmentSize 0), and the first copy of one of its messages made by a process that uses another segment than the creator of the message"
BREAKS="the original does not learn in which segment the reference count was put: it counts down some other memory, and the block is reported too early, twice or never"
EDITS=[("shmem/Message.h","""                    // the message needs to be able to locate in which segment the refCount is stored
                    otherMsg.fSegmentId = fSegmentId;
""","")]
SOURCES="$TRANSPORT_SOURCES"
DEMO=r'''
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/Unique.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace std;
static shared_ptr<fair::mq::TransportFactory> make(const string& session, uint16_t id)
{
    fair::mq::ProgOptions config;
    config.SetProperty<string>("session", session);
    config.SetProperty<uint16_t>("shm-segment-id", id);
    config.SetProperty<size_t>("shm-segment-size", 10000000);
    return fair::mq::TransportFactory::CreateTransportFactory("shmem", "demo" + to_string(id), &config);
}
int main()
{
    const string session = fair::mq::tools::Uuid();
    auto a = make(session, 0), b = make(session, 1);
    const string addr = "ipc:///tmp/fmqdemo-" + session;
    atomic<int> acks{0};
    int bad = 0;
    {
        fair::mq::Channel out("out", "push", a), in("in", "pull", b);
        out.Bind(addr);
        in.Connect(addr);
        fair::mq::RegionConfig rc;
        rc.rcSegmentSize = 0;
        rc.linger = 500;
        auto region = a->CreateUnmanagedRegion(10000, [&](void*, size_t, void*) { ++acks; }, rc);
        vector<fair::mq::MessagePtr> fillers; // so that the two segments do not look alike
        for (int i = 0; i < 5; ++i) { fillers.push_back(a->CreateMessage(3000)); memset(fillers.back()->GetData(), 0x55, 3000); }
        auto m = a->CreateMessage(region, region->GetData(), 1000, nullptr);
        if (out.Send(m, 5000) != 1000) return 1;
        auto r = b->CreateMessage();
        if (in.Receive(r, 5000) != 1000) return 1;
        auto c = b->CreateMessage();
        c->Copy(*r);
        r.reset();
        this_thread::sleep_for(chrono::milliseconds(1500));
        if (acks != 0) { printf("reported %d times while a copy exists\n", (int)acks); bad = 1; }
        c.reset();
        this_thread::sleep_for(chrono::milliseconds(1500));
        if (acks != 1) { printf("reported %d times in the end\n", (int)acks); bad = 1; }
    }
    remove(addr.c_str() + 6);
    return bad;
}
'''
