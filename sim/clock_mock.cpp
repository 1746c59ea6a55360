// The clock of the native platform: its own mock state, advanced only by the simulator.
#include "platform.hpp"

#include "spine/platform/hal.hpp"

using spn::platform::MockState;

extern "C" {
MockState& __real__ZN3spn8platform17MockStateInstanceEv() __attribute__((weak));
MockState& __wrap__ZN3spn8platform17MockStateInstanceEv();
}

namespace sim {
namespace {
MockState& raw_state() {
    if (__real__ZN3spn8platform17MockStateInstanceEv) return __real__ZN3spn8platform17MockStateInstanceEv();
    return spn::platform::MockStateInstance();
}
} // namespace

i64 now_us() {
    auto& s = raw_state();
    return (i64)s.millis.raw() * 1000 + (i64)s.micros.raw();
}
void set_clock_us(i64 us) {
    auto& s = raw_state();
    s.millis = k_time_ms(us / 1000);
    s.micros = k_time_us(us % 1000);
}
void move_us(i64 us) {
    auto& s = raw_state();
    i64 micros = (i64)s.micros.raw() + us;
    s.millis = k_time_ms((i64)s.millis.raw() + micros / 1000);
    s.micros = k_time_us(micros % 1000);
}
bool native_platform() { return true; }
bool zephyr_platform() { return false; }

std::shared_ptr<spn::io::Stream> make_uart(spn::io::Stream* port) {
    return std::make_shared<spn::platform::MockUART>(spn::platform::MockUART::Config{.stream = port});
}
} // namespace sim

extern "C" MockState& __wrap__ZN3spn8platform17MockStateInstanceEv() {
    sim::on_clock_access();
    return sim::raw_state();
}
