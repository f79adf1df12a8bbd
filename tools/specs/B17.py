ID="monitor-remembers-dead-session"; PROPERTY="C14"
NEEDS="a session that ended in an orderly way under a monitor, and a new session with the same name started later under the same monitor, seen by it before its first heartbeat"
BREAKS="the monitor judges the new session by the last heartbeat of the previous one: the new, living session is removed as soon as it appears"
EDITS=[("shmem/Monitor.cxx","""        } catch (bie&) {
            fHeartbeatTriggered = false;

            if (fSelf""","""        } catch (bie&) {
            if (fSelf""")]
SOURCES="$TRANSPORT_SOURCES"
DEMO=r'''
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/shmem/Common.h>
#include <fairmq/shmem/Monitor.h>
#include <fairmq/tools/Unique.h>
#include <chrono>
#include <cstdio>
#include <memory>
#include <thread>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
static shared_ptr<fair::mq::TransportFactory> make(const string& session)
{
    fair::mq::ProgOptions config;
    config.SetProperty<string>("session", session);
    config.SetProperty<size_t>("shm-segment-size", 1000000);
    return fair::mq::TransportFactory::CreateTransportFactory("shmem", "demo", &config);
}
static bool present(const string& n)
{
    int fd = shm_open(("/" + n).c_str(), O_RDONLY, 0);
    if (fd >= 0) close(fd);
    return fd >= 0;
}
int main()
{
    const string session = fair::mq::tools::Uuid();
    const string mng = fair::mq::shmem::MakeShmName(fair::mq::shmem::makeShmIdStr(session), "mng");
    pid_t mon = fork();
    if (mon == 0) {
        fair::mq::shmem::Monitor m(fair::mq::shmem::makeShmIdStr(session), false, false, false, 1000, 20, false, false);
        m.Run();
        _exit(0);
    }
    int bad = 0;
    for (int i = 0; i < 6 && !bad; ++i) {
        this_thread::sleep_for(chrono::milliseconds(2200));
        auto f = make(session);
        for (int k = 0; k < 5; ++k) {
            this_thread::sleep_for(chrono::milliseconds(100));
            if (!present(mng)) { printf("session %d was removed while it was living\n", i); bad = 1; break; }
        }
    }
    kill(mon, SIGKILL);
    waitpid(mon, nullptr, 0);
    fair::mq::shmem::Monitor::CleanupFull(fair::mq::shmem::SessionId{session}, false);
    return bad;
}
'''
