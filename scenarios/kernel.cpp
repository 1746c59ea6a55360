// Scenario: everything that the Zephyr back end offers, on a simulated kernel: uptime in ticks of any length, sleeping
// and busy waiting, and log messages and levels that pass through to the kernel's logger. Decides C21 (and C06 for it);
// only built for the Zephyr platform.
#ifdef ZEPHYR
#    include "kernel.hpp"

#    include "platform.hpp"
#    include "spine/core/exception.hpp"
#    include "spine/core/logging.hpp"
#    include "spine/platform/hal.hpp"

#    include <memory>

using namespace sim;
using spn::logging::LogLevel;

namespace {

const char* name_of(LogLevel l) {
    return l == LogLevel::ERR ? "ERR" : l == LogLevel::WARN ? "WARN" : l == LogLevel::INFO ? "INFO" : "DBG";
}

void run_kernel() {
    kernel::reset();
    sim_zephyr_ticks_per_s = one_of<u32>({1000000, 10000, 32768, 100, 1000});
    const i64 tick_us = (1000000 + sim_zephyr_ticks_per_s - 1) / sim_zephyr_ticks_per_s;
    start_clock(draw_uptime_us());
    install_handler();
    LogLevel level = LogLevel::INFO;
    {
        Sut s;
        HAL::initialize(HAL::Config{});
        spn::logging::set_log_level(level);
    }
    limit_steps((u32)one_of<i64>({10, 30, 80}));
    if (!strcmp(property(), "C06")) {
        on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
        exhaust_heap(true);
    }
    auto console = [&] {
        bool armed = !strcmp(property(), "C06");
        exhaust_heap(false);
        auto lines = take_console();
        if (armed) exhaust_heap(true);
        return lines;
    };
    (void)console();
    i64 last_ms = 0, last_us = 0;
    while (step()) {
        size_t op = pick({4, 3, 3, 2, 2});
        switch (op) {
        case 0: {
            i64 d = one_of<i64>({1000, 5 * 1000000ll, 3600ll * 1000000, 864000ll * 1000000}) + (i64)draw(1000000);
            advance_us(d);
            log("%ld us later", (long)d);
            break;
        }
        case 1: { // sleep at least, and not for much longer than asked for
            i64 n = one_of<i64>({1, 0, 250, 5000, 65300, 3600000, 20ll * 86400000}) + (i64)draw(500), a = now_us();
            bool plain = flip();
            {
                Sut s;
                if (plain) HAL::delay(k_time_ms(n));
                else
                    HAL::delay_ms((uint32_t)n);
            }
            i64 took = now_us() - a;
            log("%ld ms of delay took %ld us", (long)n, (long)took);
            SIM_CHECK(took >= n * 1000 && took <= n * 1000 + 2 * tick_us + 1000, "kernel:delay",
                      "a delay of %ld ms took %ld us", (long)n, (long)took);
            nontrivial();
            break;
        }
        case 2: {
            i64 n = one_of<i64>({0, 900, 1999, 100000, 999, 5000000, 65535000, 3600000000}) + (i64)draw(1000),
                a = now_us();
            bool plain = flip();
            {
                Sut s;
                if (plain) HAL::delay_us(k_time_us(n));
                else
                    HAL::delay_us((uint32_t)n);
            }
            i64 took = now_us() - a;
            log("%ld us of delay took %ld us", (long)n, (long)took);
            SIM_CHECK(took >= n && took <= n + 2 * tick_us + 1000, "kernel:delay", "a delay of %ld us took %ld us",
                      (long)n, (long)took);
            if (n > 1000 && n % 1000) probe("delay_with_a_fraction");
            nontrivial();
            break;
        }
        case 3: { // a message
            LogLevel lv = one_of<LogLevel>({LogLevel::INFO, LogLevel::WARN, LogLevel::ERR});
            int v = (int)draw(1000);
            {
                Sut s;
                if (lv == LogLevel::INFO) SPN_LOG("100%% of %d", v)
                else if (lv == LogLevel::WARN)
                    SPN_WARN("100%% of %d", v)
                else
                    SPN_ERR("100%% of %d", v)
            }
            auto lines = console();
            log("message at level %s of %d", name_of(lv), (int)level);
            if (lv > level)
                SIM_CHECK(lines.empty(), "kernel:log", "a message of level %s was logged at level %d", name_of(lv),
                          (int)level);
            else {
                char want[64];
                snprintf(want, sizeof want, "[%s] 100%% of %d", name_of(lv), v);
                SIM_CHECK(lines.size() == 1 && lines[0].find(want) != std::string::npos, "kernel:log",
                          "a message of level %s came out as %zu lines ('%s')", name_of(lv), lines.size(),
                          lines.empty() ? "" : lines[0].c_str());
                nontrivial();
            }
            break;
        }
        case 4: {
            level = one_of<LogLevel>({LogLevel::INFO, LogLevel::WARN, LogLevel::ERR, LogLevel::OFF, LogLevel::DEBUG});
            {
                Sut s;
                spn::logging::set_log_level(level);
            }
            log("level %d", (int)level);
            SIM_CHECK(kernel::kernel().filter == (int)level, "kernel:level",
                      "the kernel logs up to level %d while level %d was asked for", kernel::kernel().filter,
                      (int)level);
            break;
        }
        }
        // the two readings of one clock
        i64 a = now_us(), ms, us;
        {
            Sut s;
            ms = HAL::millis().raw();
            us = HAL::micros().raw();
        }
        SIM_CHECK(ms * 1000 <= a && a - ms * 1000 < 1000 + tick_us, "kernel:clock",
                  "after %ld us the kernel is up for %ld ms", (long)a, (long)ms);
        SIM_CHECK(us <= a + 1 && a - us <= tick_us, "kernel:clock", "after %ld us the kernel is up for %ld us", (long)a,
                  (long)us);
        SIM_CHECK(ms >= last_ms && us >= last_us, "kernel:clock", "the clock went back");
        last_ms = ms, last_us = us;
        state(op * 8 + (u64)level);
    }
    exhaust_heap(false);
    if (chance(300)) {
        bool halted = false;
        spn::logging::set_log_level(LogLevel::INFO);
        const char* why = flip() ? "out of coffee" : nullptr;
        try {
            Sut s;
            if (why && flip()) { // an error that nobody handles
                spn::core::set_machine_exception_handler(nullptr);
                spn::throw_exception(spn::runtime_exception(why));
            } else
                HAL::halt(why);
        } catch (const kernel::Panic&) {
            halted = true;
        }
        leave_sut();
        auto lines = take_console();
        SIM_CHECK(halted, "kernel:halt", "halting didn't");
        SIM_CHECK(!why || (!lines.empty() && lines[0].find(why) != std::string::npos), "kernel:halt",
                  "halted without a reason");
        probe("halted");
    }
}

} // namespace

SIM_SCENARIO(kernel) { run_kernel(); }
#endif
