ID="parts-receive-counts-old-parts"; PROPERTY="C25"
NEEDS="receiving a multipart message on shmem into a Parts object that still holds parts of an earlier message"
BREAKS="the size returned and added to the received-bytes counter includes the parts that were already there"
EDITS=[("shmem/Socket.h","""                    Message* shmMsg = static_cast<Message*>(msgVec.back().get());
                    totalSize += shmMsg->GetSize();
                }
""","""                }
                for (auto const& msg : msgVec) {
                    totalSize += msg->GetSize();
                }
""")]
SOURCES="$TRANSPORT_SOURCES"
DEMO=r'''
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/Unique.h>
#include <cstdio>
using namespace std;
int main()
{
    fair::mq::ProgOptions config;
    config.SetProperty<string>("session", fair::mq::tools::Uuid());
    config.SetProperty<size_t>("shm-segment-size", 10000000);
    auto f = fair::mq::TransportFactory::CreateTransportFactory("shmem", "demo", &config);
    fair::mq::Channel out("out", "push", f), in("in", "pull", f);
    out.Bind("inproc://d");
    in.Connect("inproc://d");
    fair::mq::Parts got;
    for (int i = 1; i <= 3; ++i) {
        fair::mq::Parts p;
        p.AddPart(f->CreateMessage(100 * i));
        p.AddPart(f->CreateMessage(10));
        if (out.Send(p, 5000) != 100 * i + 10) { puts("send"); return 1; }
        long n = in.Receive(got, 5000);
        if (n != 100 * i + 10) { printf("received %ld bytes instead of %d\n", n, 100 * i + 10); return 1; }
    }
    if (out.GetBytesTx() != in.GetBytesRx()) { printf("%lu bytes sent, %lu received\n", out.GetBytesTx(), in.GetBytesRx()); return 1; }
    return 0;
}
'''
