ID="ratelimiter-sleep-not-counted"; PROPERTY="C24"
NEEDS="a loop with enough iterations that the limiter has to sleep several times"
BREAKS="the sleep itself is left out of the measured time, so the limiter keeps adding sleep and the rate falls far below the requested one"
EDITS=[("tools/RateLimit.h","""            start_time = now;
            count = skip_check_count;""","""            count = skip_check_count;"""),("tools/RateLimit.h","""                std::this_thread::sleep_for(ts);
            }
        }""","""                std::this_thread::sleep_for(ts);
            }
            start_time = clock::now();
        }""")]
SOURCES=""
DEMO=r'''
#include <fairmq/tools/RateLimit.h>
#include <cstdio>
using namespace std;
int main()
{
    fair::mq::tools::RateLimiter limit(200);
    const auto start = chrono::steady_clock::now();
    int n = 0;
    while (chrono::steady_clock::now() - start < chrono::seconds(6)) { limit.maybe_sleep(); ++n; }
    printf("%d iterations in 6 s at 200 Hz\n", n);
    return n < 700;
}
'''
