// Scenario: digital and analogue outputs that are set, flipped and faded, observed at the hardware.
// Decides C15 and C06 (no heap) for outputs.
#include "sim.hpp"

#include "spine/core/logging.hpp"
#include "spine/platform/gpio.hpp"
#include "spine/platform/hal.hpp"

#include <algorithm>
#include <cmath>
#include <memory>
#include <optional>

using namespace sim;
using spn::core::LogicalState;

namespace {

struct Given {
    float value;
    i64 us;
};

/// Hardware that records what it is given
struct Lamp : spn::platform::AnalogueOutput<Lamp> {
    using Base = spn::platform::AnalogueOutput<Lamp>;
    std::vector<Given> given;
    float now = 0;
    u32 p_slow = 0;
    Lamp() { given.reserve(4096); }
    void set_value(float value) {
        Host h;
        now = value;
        given.push_back(Given{value, now_us()});
        SIM_CHECK(given.size() < 60000, "output:endless", "a fade takes more than %zu steps", given.size());
        SIM_CHECK(Base::value() == value, "output:report", "the hardware is given %g while %g is reported", (double)value,
                  (double)Base::value());
        if (p_slow && chance(p_slow)) {
            advance_us((i64)draw(400000));
            fault("hardware_is_slow");
        }
    }
};
Lamp* g_lamp = nullptr;
void look_at_lamp() { // like an interrupt would
    if (g_lamp)
        SIM_CHECK(g_lamp->Base::value() == g_lamp->now, "output:report", "the output reports %g while the hardware is at %g",
                  (double)g_lamp->Base::value(), (double)g_lamp->now);
}

struct Relay : spn::platform::DigitalOutput<Relay> {
    LogicalState now = LogicalState::UNDEFINED;
    u64 sets = 0, inits = 0;
    void initialize_impl() {
        Host h;
        SIM_CHECK(sets == 0, "digital:order", "a state was given to hardware before it was initialized");
        ++inits;
    }
    void set_state_impl(LogicalState s) {
        Host h;
        SIM_CHECK(inits == 1, "digital:order", "a state was given to hardware that was initialized %lu times",
                  (unsigned long)inits);
        now = s;
        ++sets;
    }
};

void check_fade(const std::vector<Given>& g, float from, float to, float increment, i64 interval_ms, i64 began_us) {
    SIM_CHECK(!g.empty() || from == to, "fade:end", "a fade from %g to %g gave nothing to the hardware", (double)from, (double)to);
    float prev = from;
    i64 prev_us = began_us;
    for (size_t i = 0; i < g.size(); ++i) {
        float v = g[i].value;
        SIM_CHECK(v >= 0 && v <= 1, "fade:range", "a fade from %g to %g passed %g", (double)from, (double)to, (double)v);
        double step = (double)v - (double)prev;
        SIM_CHECK(to >= from ? step >= -1e-6 : step <= 1e-6, "fade:monotone", "a fade from %g to %g went from %g to %g",
                  (double)from, (double)to, (double)prev, (double)v);
        SIM_CHECK(std::abs(step) <= (double)increment * 1.0011 + 1e-6, "fade:increment",
                  "a fade in steps of %g went from %g to %g", (double)increment, (double)prev, (double)v);
        if (i > 0)
            SIM_CHECK(g[i].us - prev_us >= interval_ms * 1000 || v == prev, "fade:interval",
                      "a step of a fade came %ld us after the previous one, not %ld ms", (long)(g[i].us - prev_us),
                      (long)interval_ms);
        // (giving the hardware the same value twice is no step)
        if (v != prev || i == 0) prev_us = g[i].us;
        prev = v;
    }
    SIM_CHECK(prev == to, "fade:end", "a fade from %g to %g ended at %.9g", (double)from, (double)to, (double)prev);
}

void run_outputs() {
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(draw_uptime_us());
    limit_steps((u32)one_of<i64>({10, 30, 60}));
    std::unique_ptr<Lamp> lamp;
    std::unique_ptr<Relay> relay;
    std::unique_ptr<spn::platform::AnalogueOutput<Lamp>> unused;
    using Port = AnalogueOutput; // of the platform
    std::unique_ptr<Port> port;
    bool active = flip(), low = flip();
    {
        Sut s;
        lamp = std::make_unique<Lamp>();
        relay = std::make_unique<Relay>();
        port = std::make_unique<Port>(Port::Config{3, low, 8});
        relay->initialize(active);
        port->initialize();
    }
    SIM_CHECK(relay->now == (active ? LogicalState::ON : LogicalState::OFF) && relay->state() == relay->now,
              "digital:report", "an output that was initialized to %d is %d and reports %d", (int)active, (int)relay->now,
              (int)relay->state());
    lamp->p_slow = one_of<u32>({0, 0, 100});
    bool preempt = chance(150);
    if (!strcmp(property(), "C06")) {
        on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
        exhaust_heap(true);
    }
    g_lamp = lamp.get();
    on_clock_access(look_at_lamp);
    if (preempt) set_preemption(200, 3000);
    auto level = [&]() -> float {
        return flip() ? (float)draw(11) / 10.0f : one_of<float>({0, 1, 0.5f, 0.333f, 0.001f, 0.999f, 0.25f});
    };
    auto increment = [&]() -> float { return one_of<float>({0.1f, 0.05f, 0.01f, 1, 0.3f, 0.7f, 0.125f, 0.033f, chance(100) ? 0.003f : 0.02f, chance(50) ? 0.001f : 0.2f, chance(20) ? 0.00002f : 0.15f}); };
    u64 fades = 0;
    float port_value = 0;

    while (step()) {
        size_t op = pick({3, 3, 2, 2, 2, 1, 1});
        switch (op) {
        case 0: { // fade
            float from = lamp->now, to = level(), inc = increment();
            i64 interval = one_of<i64>({250, 1, 10, 0, 1000, 5000});
            bool by_default = chance(200);
            if (by_default) inc = 0.1f, interval = 250;
            lamp->given.clear();
            i64 began = now_us();
            {
                Sut s;
                if (by_default) lamp->fade_to(to);
                else
                    lamp->fade_to(to, inc, k_time_ms(interval));
            }
            log("fade %g to %g by %g per %ld ms: %zu steps in %ld us", (double)from, (double)to, (double)inc,
                (long)interval, lamp->given.size(), (long)(now_us() - began));
            check_fade(lamp->given, from, to, inc, interval, began);
            SIM_CHECK(lamp->Lamp::Base::value() == lamp->now, "output:report", "after a fade %g is reported instead of %g",
                      (double)lamp->Lamp::Base::value(), (double)lamp->now);
            if (lamp->given.size() > 1) ++fades;
            if (from == to) probe("fade_to_where_it_is");
            double n = std::abs((double)to - (double)from) / (double)inc;
            if (n > 1 && std::abs(n - std::round(n)) < 1e-4) probe("fade_of_whole_steps");
            if (n > 1 && std::abs(n - std::round(n)) >= 1e-4) probe("fade_with_a_remainder");
            break;
        }
        case 1: {
            float v = level();
            {
                Sut s;
                static_cast<Lamp::Base*>(lamp.get())->set_value(v);
            }
            log("set %g", (double)v);
            SIM_CHECK(lamp->now == v && lamp->Lamp::Base::value() == v, "output:report",
                      "set to %g, the hardware got %g and %g is reported", (double)v, (double)lamp->now,
                      (double)lamp->Lamp::Base::value());
            break;
        }
        case 2: {
            LogicalState before = relay->now;
            {
                Sut s;
                relay->flip();
            }
            log("flip");
            SIM_CHECK(relay->now != before && relay->now != LogicalState::UNDEFINED && relay->state() == relay->now,
                      "digital:flip", "flipping %d gave %d, and reports %d", (int)before, (int)relay->now,
                      (int)relay->state());
            break;
        }
        case 3: {
            bool on = flip();
            bool as_bool = flip();
            {
                Sut s;
                if (as_bool) relay->set_state(on);
                else
                    relay->set_state(on ? LogicalState::ON : LogicalState::OFF);
            }
            log("switch %d", (int)on);
            SIM_CHECK(relay->now == (on ? LogicalState::ON : LogicalState::OFF) && relay->state() == relay->now,
                      "digital:report", "set to %d, the hardware got %d and %d is reported", (int)on, (int)relay->now,
                      (int)relay->state());
            break;
        }
        case 4: advance_us((i64)draw(10000000)); break;
        case 5: { // the platform's own output, of which only the report and the time can be seen
            float v = level();
            {
                Sut s;
                port->set_value(v);
            }
            port_value = v;
            log("port set %g", (double)v);
            SIM_CHECK(port->value() == v, "output:report", "set to %g, %g is reported", (double)v, (double)port->value());
            break;
        }
        case 6: {
            float to = level(), inc = increment();
            i64 interval = one_of<i64>({250, 1, 10, 1000});
            i64 began = now_us();
            {
                Sut s;
                port->fade_to(to, inc, k_time_ms(interval));
            }
            i64 took = now_us() - began;
            double steps = std::ceil(std::abs((double)to - (double)port_value) / (double)inc - 0.002);
            log("port fade %g to %g by %g per %ld ms in %ld us", (double)port_value, (double)to, (double)inc, (long)interval,
                (long)took);
            SIM_CHECK((double)took >= (steps - 1) * (double)interval * 1000, "fade:interval",
                      "a fade from %g to %g by %g per %ld ms took %ld us only", (double)port_value, (double)to, (double)inc,
                      (long)interval, (long)took);
            SIM_CHECK(port->value() == to, "output:report", "after a fade to %g, %g is reported", (double)to,
                      (double)port->value());
            port_value = to;
            break;
        }
        }
        look_at_lamp();
        state(op * 4096 + (u64)(lamp->now * 100) * 4 + relay->now);
    }
    on_clock_access(nullptr);
    if (fades) nontrivial();
    exhaust_heap(false);
    set_preemption(0, 0);
}

} // namespace

SIM_SCENARIO(outputs) { run_outputs(); }
