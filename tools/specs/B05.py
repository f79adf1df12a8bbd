ID="multipart-send-marked-early"; PROPERTY="C08"
NEEDS="a multipart send on shmem that does not go through (timeout or interruption), after which the caller drops or resends the parts"
BREAKS="the parts are marked as handed over before the transfer happened: after a failed send they no longer own their buffers, which are leaked when they are dropped"
EDITS=[("shmem/Socket.h","""            std::memcpy(metas++, &meta, sizeof(MetaHeader));
        }""","""            std::memcpy(metas++, &meta, sizeof(MetaHeader));
            shmMsg->fQueued = true;
        }"""),("shmem/Socket.h","""                    Message* shmMsg = static_cast<Message*>(msg.get());
                    shmMsg->fQueued = true;
                    totalSize""","""                    Message* shmMsg = static_cast<Message*>(msg.get());
                    totalSize""")]
SOURCES="$TRANSPORT_SOURCES"
DEMO=r'''
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/Unique.h>
#include <cstdio>
using namespace std;
int main()
{
    fair::mq::ProgOptions config;
    config.SetProperty<string>("session", fair::mq::tools::Uuid());
    config.SetProperty<size_t>("shm-segment-size", 10000000);
    config.SetProperty<bool>("shm-throw-bad-alloc", true);
    auto f = fair::mq::TransportFactory::CreateTransportFactory("shmem", "demo", &config);
    fair::mq::Channel out("out", "push", f);
    out.Bind("inproc://nobody-there");
    try {
        for (int i = 0; i < 100; ++i) {
            fair::mq::Parts p;
            p.AddPart(f->CreateMessage(1000000));
            p.AddPart(f->CreateMessage(100));
            if (out.Send(p, i % 2 ? 0 : 20) >= 0) { puts("unexpected success"); return 1; }
        }
    } catch (fair::mq::MessageBadAlloc& e) {
        printf("buffers of messages that were never sent are not freed: %s\n", e.what());
        return 1;
    }
    return 0;
}
'''
