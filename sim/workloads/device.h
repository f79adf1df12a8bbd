// Helpers for the simulations of whole devices
#pragma once
#include "transport.h"
#include <fairmq/Device.h>
#include <fairmq/ProgOptions.h>
#include <functional>

namespace dv {
using namespace sim;
using fair::mq::Device;
using fair::mq::State;
using fair::mq::Transition;
using fair::mq::ProgOptions;

inline std::string nm(State s) { return fair::mq::GetStateName(s); }
inline std::string nm(Transition t) { return fair::mq::GetTransitionName(t); }

struct Chan
{
    std::string name, type, method, address, transport = "default";
    int hwm = 1000, rate_logging = 0;
};
inline void put(ProgOptions& c, const Chan& ch, int index = 0)
{
    std::string p = "chans." + ch.name + "." + std::to_string(index) + ".";
    c.SetProperty<std::string>(p + "type", ch.type);
    c.SetProperty<std::string>(p + "method", ch.method);
    c.SetProperty<std::string>(p + "address", ch.address);
    c.SetProperty<std::string>(p + "transport", ch.transport);
    c.SetProperty<int>(p + "sndBufSize", ch.hwm);
    c.SetProperty<int>(p + "rcvBufSize", ch.hwm);
    c.SetProperty<int>(p + "rateLogging", ch.rate_logging);
}
inline void base_config(ProgOptions& c, const std::string& transport, const std::string& session = "s")
{
    c.SetProperty<std::string>("session", session);
    c.SetProperty<std::string>("transport", transport);
    c.SetProperty<std::string>("id", "dev");
    c.SetProperty<size_t>("shm-segment-size", 16 << 20);
}

// requests a transition until it is accepted; false: a pending error or the end made that impossible
inline bool request(Device& d, Transition t, const std::function<bool()>& give_up = {})
{
    for (int i = 0;; ++i) {
        if (d.ChangeState(t)) return true;
        if (give_up && give_up()) return false;
        nap(1 * ms);
        SIM_CHECK(i < 400000, "request-refused", "transition " + nm(t) + " is refused for ever, the device is in state " + nm(d.GetCurrentState()));
    }
}
// waits for a state
inline bool reach(Device& d, State s, ns_t limit = 60 * sec)
{
    ns_t t0 = now(), s0 = stall_total();
    while (d.NewStatePending() || d.GetCurrentState() != s) {
        if (now() - t0 > limit + 2 * (stall_total() - s0)) return false;
        nap(1 * ms);
    }
    return true;
}
} // namespace dv
