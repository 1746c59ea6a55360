// The simulated kernel behind the simulated Zephyr API.
#pragma once

#include "sim.hpp"

namespace sim::kernel {

struct Kernel {
    int filter = 4; // level at which the logger filters at run time
    u64 filter_sets = 0;
    u64 sleeps = 0, busy_us = 0;
    i64 slept_us = 0;
};
Kernel& kernel();
void reset();
struct Panic {};

} // namespace sim::kernel
