// A simulated kernel: uptime in ticks, sleeping, busy waiting and logging behind the Zephyr API.
#include "kernel.hpp"
#include "platform.hpp"

#include "spine/core/exception.hpp"
#include "spine/platform/hal.hpp"

#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <zephyr/logging/log.h>
#include <zephyr/logging/log_ctrl.h>

uint32_t sim_zephyr_ticks_per_s = 1000000;

namespace sim {
namespace {
i64 g_us = 0;
i64 g_line_began_us = 0;
i64 ticks(i64 us) { return (i64)((unsigned __int128)us * sim_zephyr_ticks_per_s / 1000000u); }
// the first microsecond of a tick
i64 us_of(i64 tick) { return (i64)(((unsigned __int128)tick * 1000000u + sim_zephyr_ticks_per_s - 1) / sim_zephyr_ticks_per_s); }
} // namespace

i64 now_us() { return g_us; }
void set_clock_us(i64 us) { g_us = us; }
void move_us(i64 us) { g_us += us; }
bool native_platform() { return false; }
bool zephyr_platform() { return true; }

std::shared_ptr<spn::io::Stream> make_uart(spn::io::Stream* line) {
    return std::shared_ptr<spn::io::Stream>(line, [](spn::io::Stream*) {}); // Spine has no serial port on Zephyr yet
}

namespace kernel {
namespace {
Kernel g_kernel;
} // namespace
Kernel& kernel() { return g_kernel; }
void reset() { g_kernel = Kernel(); }
} // namespace kernel

namespace {
void sleep_us(i64 us) {
    auto& k = kernel::kernel();
    ++k.sleeps;
    i64 began = g_us;
    if (us > 0) {
        if (sim_zephyr_ticks_per_s == 1000000) g_us += us;
        else // a sleep ends on a tick, and takes at least as many whole ticks as asked for
            g_us = us_of(ticks(g_us) + (i64)(((unsigned __int128)us * sim_zephyr_ticks_per_s + 999999) / 1000000u) + 1);
    }
    k.slept_us += g_us - began;
}
} // namespace
} // namespace sim

using namespace sim;

extern "C" {
int64_t k_uptime_ticks(void) {
    on_clock_access();
    return ticks(g_us);
}
int64_t k_uptime_get(void) {
    on_clock_access();
    return (int64_t)((unsigned __int128)ticks(g_us) * 1000 / sim_zephyr_ticks_per_s);
}
uint32_t k_uptime_get_32(void) { return (uint32_t)k_uptime_get(); }
uint32_t k_cycle_get_32(void) {
    on_clock_access();
    return (uint32_t)(g_us * 16);
}
int32_t k_msleep(int32_t ms) {
    on_clock_access();
    SIM_CHECK(ms >= 0, "board:sleep", "the kernel is asked to sleep for %d ms", ms);
    sleep_us((i64)ms * 1000);
    return 0;
}
int32_t k_usleep(int32_t us) {
    on_clock_access();
    SIM_CHECK(us >= 0, "board:sleep", "the kernel is asked to sleep for %d us", us);
    sleep_us(us);
    return 0;
}
int32_t k_sleep(k_timeout_t timeout) {
    on_clock_access();
    SIM_CHECK(timeout.us >= 0, "board:sleep", "the kernel is asked to sleep forever");
    sleep_us(timeout.us);
    return 0;
}
int64_t k_uptime_delta(int64_t* reftime) {
    const int64_t now = k_uptime_get(), delta = now - *reftime;
    *reftime = now;
    return delta;
}
uint64_t k_cycle_get_64(void) {
    on_clock_access();
    return (uint64_t)g_us * 16;
}
uint32_t sys_clock_hw_cycles_per_sec(void) { return 16000000; }
unsigned int irq_lock(void) { return 0; }
void irq_unlock(unsigned int) {}
void k_busy_wait(uint32_t us) {
    on_clock_access();
    kernel::kernel().busy_us += us;
    g_us += us;
}
void k_yield(void) {}

struct log_backend {
    int id;
};
static struct log_backend g_backend = {1};
const struct log_backend* log_backend_get_by_name(const char* name) { return &g_backend; }
uint32_t log_filter_set(struct log_backend const* const, uint32_t, int16_t, uint32_t level) {
    kernel::kernel().filter = (int)level;
    ++kernel::kernel().filter_sets;
    return level;
}
}
void k_panic(void) { throw kernel::Panic{}; }
void k_oops(void) { throw kernel::Panic{}; }

void sim_zephyr_log(int level, const char* fmt, ...) {
    if (level > kernel::kernel().filter) return;
    char b[4096];
    static const char* names[] = {"", "ERR", "WARN", "INFO", "DBG"};
    on_clock_access();
    Host h;
    // in the form in which the other platforms print it, so that everything that reads the console needs only one form
    int n = snprintf(b, sizeof b, "[%08u] [%s] ", (unsigned)(uint32_t)now_ms(), names[level]);
    va_list args;
    va_start(args, fmt);
    n += vsnprintf(b + n, sizeof b - n - 1, fmt, args);
    va_end(args);
    b[n++] = '\n';
    console_write(b, (size_t)n);
}
