ID="update-properties-emits-early"; PROPERTY="C16"
NEEDS="an update of several properties of which a later one does not exist, with a subscriber"
BREAKS="the subscribers are notified of changes of an update that fails and changes nothing"
EDITS=[("ProgOptions.cxx","""        if (fVarMap.count(m.first) == 0) {
            LOG(debug) << "UpdateProperties failed, no property found with key '" << m.first << "'";
            return false;
        }
    }
""","""        if (fVarMap.count(m.first) == 0) {
            LOG(debug) << "UpdateProperties failed, no property found with key '" << m.first << "'";
            return false;
        }
        lock.unlock();
        fEvents.Emit<PropertyChangeAsString, string>(m.first, PropertyHelper::ConvertPropertyToString(m.second));
        lock.lock();
    }
"""),("ProgOptions.cxx","""        PropertyHelper::fEventEmitters.at(m.second.type())(fEvents, m.first, m.second);
        fEvents.Emit<PropertyChangeAsString, string>(m.first, PropertyHelper::ConvertPropertyToString(m.second));
    }

    return true;""","""        PropertyHelper::fEventEmitters.at(m.second.type())(fEvents, m.first, m.second);
    }

    return true;""")]
SOURCES="EventManager.cxx ProgOptions.cxx Properties.cxx JSONParser.cxx SuboptParser.cxx Channel.cxx TransportFactory.cxx MemoryResources.cxx States.cxx shmem/Common.cxx shmem/Manager.cxx shmem/Monitor.cxx tools/Network.cxx tools/Process.cxx tools/Semaphore.cxx tools/Unique.cxx"
DEMO=r'''
#include <fairmq/ProgOptions.h>
#include <cstdio>
using namespace std;
using namespace fair::mq;
int main()
{
    ProgOptions config;
    config.SetProperty<int>("a", 1);
    int n = 0;
    config.SubscribeAsString("demo", [&](string, string) { ++n; });
    Properties p;
    p["a"] = Property(2);
    p["b"] = Property(3);
    bool ok = config.UpdateProperties(p);
    printf("updated: %d, notifications: %d, a = %d\n", (int)ok, n, config.GetProperty<int>("a"));
    return !ok && n == 0 && config.GetProperty<int>("a") == 1 ? 0 : 1;
}
'''
