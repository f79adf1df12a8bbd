ID="pending-cleared-after-announcement"; PROPERTY="C02"
NEEDS="an ErrorFound request arriving while the state that has just been entered is being announced to the subscribers"
BREAKS="the accepted request is forgotten: the pending flag is cleared only after the state was announced, so the machine never reaches the Error state"
EDITS=[("StateMachine.cxx","""                fNewStatePending = false;

                if""","""                if"""),("StateMachine.cxx","""            CallStateChangeCallbacks(fState);
            CallStateHandler(fState);
        }""","""            CallStateChangeCallbacks(fState);
            fNewStatePending = false;
            CallStateHandler(fState);
        }""")]
SOURCES="StateMachine.cxx States.cxx"
DEMO=r'''
#include <fairmq/StateMachine.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
using namespace std;
using namespace fair::mq;
int main()
{
    StateMachine sm;
    atomic<bool> asked{false}, accepted{false}, done{false};
    auto ask = [&](State s) {
        if (s == State::InitializingDevice && !asked) {
            asked = true;
            thread other([&] { accepted = sm.ChangeState(Transition::ErrorFound); });
            other.join();
        }
    };
    sm.SubscribeToStateChange("x", ask);
    sm.Start();
    thread t([&] { try { sm.ProcessWork(); } catch (exception&) {} done = true; });
    sm.ChangeState(Transition::InitDevice);
    for (int i = 0; i < 5000 && !done; ++i) this_thread::sleep_for(chrono::milliseconds(1));
    if (!accepted || !done || sm.GetCurrentState() != State::Error) {
        printf("error request accepted: %d, machine ended: %d\n", (int)accepted, (int)done);
        fflush(stdout);
        _Exit(1);
    }
    t.join();
    return 0;
}
'''
