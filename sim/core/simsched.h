// Simulated threads: real threads that run one at a time.  The generated code is compiled with memory-access
// instrumentation whose run-time is replaced by this scheduler, so every instrumented access is a possible switch point and
// the seeded schedule alone decides who runs next.
#pragma once
#include <functional>
#include <vector>
#include <string>
#include <cstdint>
namespace sim {
struct Switch { long gap; int to; };             // after `gap` accesses hand over to thread `to` (mod runnable threads)
struct SchedStats { long accesses=0,switches=0,insideQuery=0,lockWaits=0; uint64_t hash=0; bool deadlock=false; };
// bodies: body(t,k) runs the k-th segment of thread t and returns true while there is another segment (thread exits and is
// started again as a new thread in between)
SchedStats runThreads(int n,const std::vector<Switch>&plan,const std::function<bool(int,int)>&body);
extern thread_local bool t_inQuery;
}
