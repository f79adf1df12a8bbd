ID="region-events-counted-after-callbacks"; PROPERTY="C11"
NEEDS="a region created or destroyed between the moment a subscriber looks at the regions and the end of its callbacks, with no later event"
BREAKS="the event counter is taken over after the callbacks, so that the events that happened meanwhile are considered as seen and are never delivered"
EDITS=[("shmem/Manager.h","""                            fRegionEventCallback(i);
                            ++fNumObservedEvents;
                        } else {
                            fNumObservedEvents += 2;
                        }""","""                            fRegionEventCallback(i);
                        }"""),
("shmem/Manager.h","""                            el->second = i.event;
                            ++fNumObservedEvents;
""","""                            el->second = i.event;
"""),
("shmem/Manager.h","""                            // LOG(debug) << "ignoring event " << i.id << ": incoming: " << i.event << ", stored: " << el->second;
                        }
                    }
                }
""","""                            // LOG(debug) << "ignoring event " << i.id << ": incoming: " << i.event << ", stored: " << el->second;
                        }
                    }
                }
                fNumObservedEvents = fEventCounter->fCount;
""")]
SOURCES="$TRANSPORT_SOURCES"
DEMO=r'''
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/Unique.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
using namespace std;
int main()
{
    fair::mq::ProgOptions config;
    config.SetProperty<string>("session", fair::mq::tools::Uuid());
    config.SetProperty<size_t>("shm-segment-size", 10000000);
    auto f = fair::mq::TransportFactory::CreateTransportFactory("shmem", "demo", &config);
    atomic<int> seen{0};
    f->SubscribeToRegionEvents([&](fair::mq::RegionInfo i) {
        if (!i.managed && i.event == fair::mq::RegionEvent::created) ++seen;
        this_thread::sleep_for(chrono::milliseconds(300)); // a slow subscriber
    });
    auto r1 = f->CreateUnmanagedRegion(10000, [](void*, size_t, void*) {});
    for (int i = 0; i < 300 && seen < 1; ++i) this_thread::sleep_for(chrono::milliseconds(10));
    auto r2 = f->CreateUnmanagedRegion(10000, [](void*, size_t, void*) {});
    for (int i = 0; i < 500 && seen < 2; ++i) this_thread::sleep_for(chrono::milliseconds(10));
    int n = seen;
    printf("%d of 2 regions seen\n", n);
    f->UnsubscribeFromRegionEvents();
    return n == 2 ? 0 : 1;
}
'''
