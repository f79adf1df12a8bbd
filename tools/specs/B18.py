ID="viewer-removes-region"; PROPERTY="C13"
NEEDS="a device that has opened a region of another device leaves the session while the owner and others work on"
BREAKS="the objects of the region disappear when a device that only used it leaves: a device that joins or opens the region later does not find it"
EDITS=[("shmem/UnmanagedRegion.h","""        StopAcks();

        if (fControlling) {
            if (fRemoveOnDestruction) {""","""        StopAcks();

        if (fControlling || fRemoveOnDestruction) {
            if (fRemoveOnDestruction) {""")]
SOURCES="$TRANSPORT_SOURCES"
DEMO=r'''
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/Unique.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
using namespace std;
static shared_ptr<fair::mq::TransportFactory> make(const string& session, const string& id)
{
    fair::mq::ProgOptions config;
    config.SetProperty<string>("session", session);
    config.SetProperty<size_t>("shm-segment-size", 1000000);
    return fair::mq::TransportFactory::CreateTransportFactory("shmem", id, &config);
}
int main()
{
    const string session = fair::mq::tools::Uuid();
    auto a = make(session, "a");
    auto r = a->CreateUnmanagedRegion(10000, [](void*, size_t, void*) {});
    auto look = [&](const string& id) {
        auto b = make(session, id);
        int n = 0;
        for (auto& i : b->GetRegionInfo()) if (!i.managed && i.event == fair::mq::RegionEvent::created && i.ptr) ++n;
        return n;
    };
    int first = look("b"), second = look("c");
    printf("seen: %d, %d\n", first, second);
    return first == 1 && second == 1 ? 0 : 1;
}
'''
