ID="region-acks-full-bunch"; PROPERTY="C10"
NEEDS="256 or more blocks of an unmanaged region released within one acknowledgement interval, so that a full bunch is sent, and a per-block callback"
BREAKS="the last block of a completely filled bunch is never reported to the region callback"
EDITS=[("shmem/UnmanagedRegion.h","""                    for (size_t i = 0; i < numBlocks; i++) {
                        fCallback""","""                    for (size_t i = 0; i < std::min(numBlocks, fAckBunchSize - 1); i++) {
                        fCallback""")]
SOURCES="$TRANSPORT_SOURCES"
LIMIT=60
DEMO=r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
using namespace std;
int main()
{
    int bad = 0;
    for (int n : {100, 255, 256, 257, 600}) {
        fair::mq::ProgOptions config;
        config.SetProperty<string>("session", fair::mq::tools::Uuid());
        config.SetProperty<size_t>("shm-segment-size", 20000000);
        auto f = fair::mq::TransportFactory::CreateTransportFactory("shmem", "demo", &config);
        atomic<int> acks{0};
        fair::mq::RegionConfig rc;
        rc.linger = 500;
        auto r = f->CreateUnmanagedRegion(n * 64, [&](void*, size_t, void*) { ++acks; }, rc);
        vector<fair::mq::MessagePtr> v;
        for (int i = 0; i < n; ++i) v.push_back(f->CreateMessage(r, (char*)r->GetData() + i * 64, 64, nullptr));
        v.clear();
        for (int i = 0; i < 3000 && acks < n; ++i) this_thread::sleep_for(chrono::milliseconds(1));
        if (acks != n) { printf("%d blocks released, %d reported\n", n, (int)acks); ++bad; }
        r.reset();
    }
    return bad != 0;
}
'''
