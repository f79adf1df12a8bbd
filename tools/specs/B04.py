ID="poller-output-subchannel"; PROPERTY="C21"
NEEDS="a poller over named channels with several sub-channels of which only some can take output"
BREAKS="CheckOutput(name, index) answers for the first sub-channel of the name instead of the indexed one"
EDITS=[("zeromq/Poller.h","""            if (fItems[fOffsetMap.at(channelKey) + index].revents & ZMQ_POLLOUT) {""","""            const int first = fOffsetMap.at(channelKey);
            if (fItems[std::min(first + index, index > 0 ? first : fNumItems - 1)].revents & ZMQ_POLLOUT) {""")]
SOURCES="$TRANSPORT_SOURCES"
LIMIT=60
DEMO=r'''
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <cstdio>
#include <unordered_map>
using namespace std;
int main()
{
    auto f = fair::mq::TransportFactory::CreateTransportFactory("zeromq", "demo");
    unordered_map<string, vector<fair::mq::Channel>> chans;
    for (int i = 0; i < 2; ++i) chans["out"].emplace_back("out" + to_string(i), "push", f);
    fair::mq::Channel in("in", "pull", f);
    chans["out"][0].Bind("inproc://a");
    chans["out"][1].Bind("inproc://b"); // nobody there
    in.Connect("inproc://a");
    auto p = f->CreatePoller(chans, {"out"});
    p->Poll(1000);
    bool o0 = p->CheckOutput("out", 0), o1 = p->CheckOutput("out", 1);
    printf("connected sub-channel writable: %d, unconnected one: %d\n", o0, o1);
    return !(o0 && !o1);
}
'''
