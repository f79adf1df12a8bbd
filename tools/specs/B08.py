ID="update-property-not-atomic"; PROPERTY="C15"
NEEDS="UpdateProperty() and DeleteProperty() of the same key at the same time, the deletion falling between the check and the assignment of the update"
BREAKS="UpdateProperty checks for the key and assigns the value under two separate locks: a property deleted in between comes back"
EDITS=[("ProgOptions.h","""        std::unique_lock<std::mutex> lock(fMtx);

        if (fVarMap.count(key)) {
            SetVarMapValue<typename std::decay<T>::type>(key, val);

            lock.unlock();

            fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, PropertyHelper::GetPropertyInfo(Property(val)).first);
            return true;""","""        if (Count(key)) {
            SetProperty(key, val);
            return true;""")]
SOURCES="ProgOptions.cxx EventManager.cxx Properties.cxx SuboptParser.cxx JSONParser.cxx Channel.cxx States.cxx TransportFactory.cxx MemoryResources.cxx shmem/Common.cxx shmem/Manager.cxx shmem/Monitor.cxx tools/Network.cxx tools/Process.cxx tools/Semaphore.cxx tools/Unique.cxx"
LIMIT=120
DEMO=r'''
#include <fairmq/ProgOptions.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
using namespace std;
int main()
{
    fair::mq::ProgOptions config;
    atomic<int> go{0}, fin{0};
    atomic<bool> updated{false}, stop{false};
    const auto end = chrono::steady_clock::now() + chrono::seconds(12);
    thread t([&] {
        for (int r = 1; !stop; ++r) {
            while (go < r) if (stop) return;
            updated = config.UpdateProperty<int>("k", r);
            fin = r;
        }
    });
    for (int r = 1; chrono::steady_clock::now() < end; ++r) {
        config.SetProperty<int>("k", 0);
        go = r;
        for (volatile int i = 0; i < r % 400; ++i) {}
        config.DeleteProperty("k");
        while (fin < r) {}
        if (updated && config.Count("k")) { printf("round %d: the deleted property is back\n", r); fflush(stdout); _Exit(1); }
        if (config.Count("k")) { printf("round %d: update failed, but the property exists\n", r); fflush(stdout); _Exit(1); }
    }
    stop = true;
    t.join();
    return 0;
}
'''
