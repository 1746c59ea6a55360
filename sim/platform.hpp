// What a simulated platform offers to the simulator and to scenarios.
#pragma once

#include "sim.hpp"

#include "spine/io/stream/stream.hpp"

#include <memory>

namespace sim {

void on_clock_access(); // the code under test looks at the clock
void move_us(i64 us); // advances the platform's clock
void leave_sut(); // after the code under test was left by unwinding
void console_write(const char* s, size_t n);

bool native_platform();
bool zephyr_platform();

/// The platform's serial port on top of a simulated line (the line itself where the platform has no serial port)
std::shared_ptr<spn::io::Stream> make_uart(spn::io::Stream* port);

} // namespace sim
