// Scenario: a device that follows a 24 hour schedule by the clock, with stalls and a wall clock that is set.
// Decides C19, and C06 (no heap) for schedules.
#include "sim.hpp"

#include "spine/core/logging.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/structure/time/schedule.hpp"

#include <algorithm>
#include <memory>

using namespace sim;
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;
using spn::structure::time::Schedule;

namespace {

constexpr i64 DAY = 86400;

std::unique_ptr<Schedule> make(const std::vector<Schedule::Block>& b, bool by_config) {
    auto with = [&](std::initializer_list<Schedule::Block> l) {
        return by_config ? std::make_unique<Schedule>(Schedule::Config{l}) : std::make_unique<Schedule>(l);
    };
    switch (b.size()) {
    case 1: return with({b[0]});
    case 2: return with({b[0], b[1]});
    case 3: return with({b[0], b[1], b[2]});
    case 4: return with({b[0], b[1], b[2], b[3]});
    case 5: return with({b[0], b[1], b[2], b[3], b[4]});
    default: return with({b[0], b[1], b[2], b[3], b[4], b[5]});
    }
}

struct Device : EventHandler {
    Device() : EventHandler(nullptr) {}
    std::unique_ptr<EventSystem> es;
    std::unique_ptr<Schedule> schedule;
    std::vector<Schedule::Block> blocks;
    i64 epoch_s = 0; // of the wall clock, relative to the uptime
    float in_force = 0;
    u32 generation = 0;
    u64 changes = 0;

    i64 time_of_day() const { return ((epoch_s + now_ms() / 1000) % DAY + DAY) % DAY; }
    const Schedule::Block* block_at(i64 t) const {
        for (auto& b : blocks) {
            i64 since = ((t - (i64)b.start.raw()) % DAY + DAY) % DAY;
            if (since < (i64)b.duration.raw()) return &b;
        }
        return nullptr;
    }
    i64 next_start(i64 t) const {
        i64 next = DAY;
        for (auto& b : blocks)
            if ((i64)b.start.raw() > t) next = std::min(next, (i64)b.start.raw());
        return next;
    }
    void look(i64 t, float& value, i64& next) {
        k_time_s n;
        {
            Sut s;
            value = schedule->value_at(k_time_s(t));
            n = schedule->start_of_next_block(k_time_s(t));
        }
        next = (i64)n.raw();
        auto b = block_at(t);
        float want = b ? b->value : 0;
        SIM_CHECK(value == want, "schedule:value", "the value at %02ld:%02ld:%02ld is %g instead of %g", (long)(t / 3600),
                  (long)(t / 60 % 60), (long)(t % 60), (double)value, (double)want);
        i64 want_next = next_start(t);
        SIM_CHECK(next == want_next, "schedule:next", "after %ld the next block starts at %ld instead of %ld", (long)t,
                  (long)next, (long)want_next);
        if (b && t < (i64)b->start.raw()) probe("after_midnight");
        if (!b) probe("no_block");
    }
    void follow() {
        i64 t = time_of_day(), next;
        float value;
        look(t, value, next);
        if (value != in_force) {
            log("%ld: %g", (long)t, (double)value);
            ++changes;
        }
        in_force = value;
        ++generation;
        i64 ms = (next - t) * 1000 - now_ms() % 1000;
        Sut s;
        es->schedule((size_t)0, k_time_ms(ms), Event::Data(generation));
    }
    void handle_event(const Event& e) override {
        Host h;
        if (e.data().unsigned_value() != generation) return; // the clock was set since
        follow();
    }
    void run() {
        {
            Sut s;
            es->loop();
        }
        i64 t = time_of_day();
        auto b = block_at(t);
        SIM_CHECK(!b || in_force == b->value, "schedule:follow", "at %ld the value %g is in force instead of %g", (long)t,
                  (double)in_force, (double)b->value);
    }
};

void run_schedule() {
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(draw_uptime_us());
    Device d;
    // blocks that don't overlap, in the order of a day that starts at `origin`
    size_t n = (size_t)range(1, 6);
    i64 origin = one_of<i64>({0, 0, 3600 * 6, 12345, DAY - 1});
    i64 grain = one_of<i64>({3600, 60, 1});
    i64 left = DAY, at = origin;
    for (size_t i = 0; i < n && left >= grain; ++i) {
        i64 gap = pick({3, 2}) ? std::min(left - grain, (i64)draw((u64)(DAY / grain / 6) + 1) * grain) : 0;
        at += gap, left -= gap;
        i64 most = std::max<i64>(1, left / grain - (i64)(n - 1 - i));
        i64 length = i + 1 == n && chance(300) ? left : (1 + (i64)draw((u64)std::min<i64>(most, flip() ? most : 8))) * grain;
        length = std::min(length, left);
        if (length <= 0) break;
        d.blocks.push_back(
            Schedule::Block{k_time_s(at % DAY), k_time_s(length), one_of<float>({1, 0.5f, -3, 1e9f, 0}) + (float)i});
        at += length, left -= length;
    }
    if (flip()) std::sort(d.blocks.begin(), d.blocks.end(), [](auto& a, auto& b) { return a.start.raw() < b.start.raw(); });
    else if (flip())
        for (size_t i = d.blocks.size(); i > 1; --i)
            std::swap(d.blocks[i - 1], d.blocks[draw(i)]);
    for (auto& b : d.blocks)
        log("block at %ld for %ld: %g", (long)b.start.raw(), (long)b.duration.raw(), (double)b.value);
    d.epoch_s = (i64)draw(DAY);
    limit_steps((u32)one_of<i64>({20, 60}));
    {
        Sut s;
        d.schedule = make(d.blocks, flip());
        d.es = std::make_unique<EventSystem>(EventSystem::Config{
            .events_count = 1, .events_cap = 40, .handler_cap = 1, .delay_between_ticks = false});
        d.attach_event_system(d.es.get());
        d.es->attach((size_t)0, &d);
    }
    SIM_CHECK(thrown().empty(), "schedule:error", "an error was raised: %s", thrown().front().what.c_str());
    if (!strcmp(property(), "C06")) {
        on_heap_exhausted([](size_t k) { violate("heap", "%zu bytes were requested from an exhausted heap", k); });
        exhaust_heap(true);
    }
    d.follow();
    u32 set = 0;
    while (step()) {
        switch (pick({6, 4, 2, 1, 3})) {
        case 0: // exactly around the next change
        {
            i64 t = d.time_of_day(), edge = d.next_start(t);
            if (auto b = d.block_at(t)) {
                i64 since = ((t - (i64)b->start.raw()) % DAY + DAY) % DAY;
                if (flip()) edge = t + (i64)b->duration.raw() - since;
            }
            i64 us = (edge - t) * 1000000 - now_us() % 1000000 + one_of<i64>({0, -1, -1000000, 1, 1000000});
            if (us > 0) advance_us(us);
            d.run();
            break;
        }
        case 1:
            advance_ms(range(1, 3600000));
            d.run();
            break;
        case 2: // a long time
            advance_ms(range(1, 3 * DAY) * 1000);
            fault("stall");
            d.run();
            break;
        case 3: // the wall clock is set
            if (++set > 30) break;
            d.epoch_s = (i64)draw(DAY);
            fault("clock_set");
            log("the clock is set to %ld", (long)d.time_of_day());
            d.follow();
            d.run();
            break;
        case 4: { // ask about any moment
            i64 t = (i64)draw(DAY), next;
            if (!d.blocks.empty() && flip()) {
                auto& b = d.blocks[draw(d.blocks.size())];
                t = ((i64)b.start.raw() + (flip() ? (i64)b.duration.raw() : 0) + one_of<i64>({0, -1, 1}) + DAY) % DAY;
            }
            float v;
            d.look(t, v, next);
            break;
        }
        }
        state((u64)(d.time_of_day() / 600) * 2 + (d.block_at(d.time_of_day()) != nullptr));
        SIM_CHECK(thrown().empty(), "schedule:error", "an error was raised: %s", thrown().front().what.c_str());
    }
    if (d.changes > 0) nontrivial();
    exhaust_heap(false);
    Sut s;
    d.es.reset();
    d.schedule.reset();
}

} // namespace

SIM_SCENARIO(schedule) { run_schedule(); }
