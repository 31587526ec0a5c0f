// Scheduler for real threads: one runs at a time; who runs next is decided at every memory access,
// atomic operation, lock and allocation of the library (see trt.cpp).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace sim
{
namespace sched
{
struct Plan
{
    bool given = false;
    std::vector<std::pair<long, int>> switches;   // after so many points (since the last one): thread
    std::function<void(long, int)> onSwitch;
};
struct Result
{
    Plan plan;
    long points = 0, shared = 0, syncs = 0;
    std::string race, deadlock;
};
Result run(int threads, uint64_t seed, const Plan& plan, const std::function<void(int)>& body);
}  // namespace sched
}  // namespace sim
