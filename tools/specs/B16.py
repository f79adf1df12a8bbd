ID="bad-alloc-interrupt-only-unlimited"; PROPERTY="C12"
NEEDS="a transition request while a message creation retries with a limited (but large) number of attempts in an exhausted segment"
BREAKS="the interruption is only checked with an unlimited number of attempts: the device does not leave its state until all attempts are used up"
EDITS=[("shmem/Manager.h","""                if (Interrupted()) {
                    throw MessageBadAlloc(""","""                if (fBadAllocMaxAttempts < 0 && Interrupted()) {
                    throw MessageBadAlloc(""")]
SOURCES="$TRANSPORT_SOURCES"
DEMO=r'''
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/Unique.h>
#include <chrono>
#include <cstdio>
#include <thread>
using namespace std;
int main()
{
    fair::mq::ProgOptions config;
    config.SetProperty<string>("session", fair::mq::tools::Uuid());
    config.SetProperty<size_t>("shm-segment-size", 1000000);
    config.SetProperty<int>("bad-alloc-max-attempts", 100);
    config.SetProperty<int>("bad-alloc-attempt-interval", 50);
    auto f = fair::mq::TransportFactory::CreateTransportFactory("shmem", "demo", &config);
    auto keep = f->CreateMessage(600000);
    thread t([&] { this_thread::sleep_for(chrono::milliseconds(300)); f->Interrupt(); });
    auto begin = chrono::steady_clock::now();
    bool failed = false;
    try { auto m = f->CreateMessage(600000); } catch (fair::mq::MessageBadAlloc&) { failed = true; }
    auto ms = chrono::duration_cast<chrono::milliseconds>(chrono::steady_clock::now() - begin).count();
    t.join();
    printf("failed: %d after %d ms\n", (int)failed, (int)ms);
    return failed && ms < 3000 ? 0 : 1;
}
'''
