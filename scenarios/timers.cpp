// Scenario: stopwatches, alarms, intervals and delays on one clock that also advances between any two reads.
// Decides C11, and C06 (no heap) for timers.
#include "platform.hpp"

#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/time/timers.hpp"

#include <algorithm>
#include <memory>
#include <vector>

using namespace sim;
using namespace spn::structure::time;

namespace {

/// a moment that is known up to preemption
struct Span {
    i64 lo, hi;
};

struct Watch {
    std::unique_ptr<Timer> t;
    Span last;
};
struct Alarm {
    std::unique_ptr<AlarmTimer> t;
    Span due;
    bool rang = false;
};
struct Interval {
    std::unique_ptr<IntervalTimer> t;
    Span previous;
    i64 interval;
    bool catch_up;
    u64 fired = 0;
};

i64 draw_duration(bool zero) {
    switch (pick({4, 2, 2, 1, 1, 1})) {
    case 0: return range(zero ? 0 : 1, 20);
    case 1: return range(1, 2000);
    case 2: return 1000ll * range(1, 900);
    case 3: return 3600000ll * range(1, 30);
    case 4: return 86400000ll * range(1, 60);
    default: return one_of<i64>({1, 16777216, 16777217, 2147483647, 4294967295ll, 4294967296ll});
    }
}

struct World {
    std::vector<Watch> watches;
    std::vector<Alarm> alarms;
    std::vector<Interval> intervals;

    void op_watch(Watch& w) {
        i64 a = now_ms();
        switch (draw(4)) {
        case 0: {
            i64 got;
            {
                Sut s;
                got = w.t->time_since_last(Timer::NoReset).raw();
            }
            i64 b = now_ms();
            log("watch: %ld ms", (long)got);
            SIM_CHECK(got >= a - w.last.hi && got <= b - w.last.lo, "timer:elapsed",
                      "%ld ms are reported, while %ld to %ld ms passed", (long)got, (long)(a - w.last.hi),
                      (long)(b - w.last.lo));
            break;
        }
        case 1: {
            i64 got;
            {
                Sut s;
                got = w.t->time_since_last().raw();
            }
            i64 b = now_ms();
            log("watch: %ld ms, reset", (long)got);
            SIM_CHECK(got >= a - w.last.hi && got <= b - w.last.lo, "timer:elapsed",
                      "%ld ms are reported, while %ld to %ld ms passed", (long)got, (long)(a - w.last.hi),
                      (long)(b - w.last.lo));
            w.last = {a, b};
            break;
        }
        case 2: {
            {
                Sut s;
                w.t->reset();
            }
            log("watch: reset");
            w.last = {a, now_ms()};
            break;
        }
        case 3: {
            i64 epoch = std::max<i64>(0, now_ms() - draw_duration(true));
            {
                Sut s;
                w.t->reset(k_time_ms(epoch));
            }
            log("watch: reset to %ld", (long)epoch);
            w.last = {epoch, epoch};
            break;
        }
        }
    }
    void op_alarm(Alarm& w) {
        i64 a = now_ms();
        bool got;
        i64 left, due;
        {
            Sut s;
            got = w.t->expired();
        }
        i64 b = now_ms();
        log("alarm: %d", (int)got);
        if (w.rang) SIM_CHECK(got, "alarm:forgot", "an alarm that expired earlier hasn't expired any more");
        else if (got)
            SIM_CHECK(b >= w.due.lo, "alarm:early", "an alarm expired %ld ms early", (long)(w.due.lo - b));
        else
            SIM_CHECK(a < w.due.hi, "alarm:late", "an alarm hasn't expired %ld ms after its moment", (long)(a - w.due.hi));
        w.rang = got;
        a = now_ms();
        {
            Sut s;
            left = w.t->time_from_now().raw();
            due = w.t->future().raw();
        }
        b = now_ms();
        SIM_CHECK(due >= w.due.lo && due <= w.due.hi, "alarm:moment", "an alarm for %ld ms reports %ld ms", (long)w.due.lo,
                  (long)due);
        SIM_CHECK(left >= due - b && left <= due - a, "alarm:moment", "an alarm is due in %ld ms instead of %ld ms",
                  (long)left, (long)(due - b));
        w.due = {due, due};
    }
    void op_interval(Interval& w) {
        i64 a = now_ms();
        if (chance(60)) {
            {
                Sut s;
                w.t->reset();
            }
            log("interval: reset");
            w.previous = {a, now_ms()};
            return;
        }
        int polls = 1 + (int)draw(4);
        for (int i = 0; i < polls; ++i) {
            a = now_ms();
            bool got;
            {
                Sut s;
                got = w.t->expired();
            }
            i64 b = now_ms();
            log("interval of %ld: %d", (long)w.interval, (int)got);
            if (got) {
                SIM_CHECK(b - w.previous.lo >= w.interval, "interval:early", "an interval of %ld ms fired after %ld ms",
                          (long)w.interval, (long)(b - w.previous.lo));
                if (w.catch_up) {
                    if (b - w.previous.lo >= 2 * w.interval && w.interval) probe("catching_up");
                    w.previous.lo += w.interval;
                    w.previous.hi += w.interval;
                } else {
                    if (b - w.previous.lo >= 2 * w.interval && w.interval) probe("intervals_skipped");
                    w.previous = {a, b};
                }
                ++w.fired;
            } else
                SIM_CHECK(a - w.previous.hi <= w.interval, "interval:late",
                          "an interval of %ld ms didn't fire after %ld ms", (long)w.interval, (long)(a - w.previous.hi));
            if (!got) break;
        }
        i64 next, left, iv;
        a = now_ms();
        {
            Sut s;
            next = w.t->future().raw();
            left = w.t->time_until_next().raw();
            iv = w.t->interval().raw();
        }
        i64 b = now_ms();
        SIM_CHECK(iv == w.interval, "interval:moment", "an interval of %ld ms reports %ld ms", (long)w.interval, (long)iv);
        SIM_CHECK(next >= w.previous.lo + w.interval && next <= w.previous.hi + w.interval, "interval:moment",
                  "the next moment is %ld ms instead of %ld ms", (long)next, (long)(w.previous.lo + w.interval));
        SIM_CHECK(left >= next - b && left <= next - a, "interval:moment", "the next moment is in %ld ms instead of %ld ms",
                  (long)left, (long)(next - b));
        w.previous = {next - w.interval, next - w.interval};
    }
    void op_clock() {
        i64 a = now_us(), ms, us;
        {
            Sut s;
            ms = HAL::millis().raw();
        }
        i64 b = now_us();
        SIM_CHECK(ms >= a / 1000 && ms <= b / 1000, "clock:millis", "%ld ms are read while the clock is at %ld us",
                  (long)ms, (long)a);
        a = now_us();
        {
            Sut s;
            us = HAL::micros().raw();
        }
        b = now_us();
        SIM_CHECK(us >= a && us <= b, "clock:micros", "%ld us are read while the clock is at %ld us", (long)us, (long)a);
    }
    void op_delay() {
        i64 a = now_us(), p = preempted_us(), want = 0;
        i64 n = draw_duration(true);
        if (!native_platform()) n = std::min<i64>(n, 2000000000); // as long as the vendors' delays can be
        u32 small = (u32)std::min<i64>(n, 1000000);
        switch (draw(6)) {
        case 0: {
            want = n * 1000;
            Sut s;
            HAL::delay(k_time_ms(n));
            break;
        }
        case 1: {
            want = n * 1000;
            Sut s;
            HAL::delay_ms(k_time_ms(n));
            break;
        }
        case 2: {
            want = (i64)small * 1000;
            Sut s;
            HAL::delay_ms(small);
            break;
        }
        case 3: {
            want = n;
            Sut s;
            HAL::delay_us(k_time_us(n));
            break;
        }
        case 4: {
            want = small;
            Sut s;
            HAL::delay_us(small);
            break;
        }
        case 5: {
            want = (i64)small * 1000000;
            Sut s;
            HAL::delay(k_time_s(small));
            break;
        }
        }
        i64 took = now_us() - a, stolen = preempted_us() - p;
        log("delay of %ld us took %ld us", (long)want, (long)took);
        SIM_CHECK(took == want + stolen, "clock:delay", "a delay of %ld us took %ld us", (long)want,
                  (long)(took - stolen));
    }
    void create() {
        i64 d = draw_duration(false);
        i64 a = now_ms();
        switch (draw(3)) {
        case 0: {
            Watch w;
            if (flip()) {
                {
                    Sut s;
                    w.t = std::make_unique<Timer>();
                }
                w.last = {a, now_ms()};
            } else {
                i64 epoch = std::max<i64>(0, a - d);
                {
                    Sut s;
                    w.t = std::make_unique<Timer>(k_time_ms(epoch));
                }
                w.last = {epoch, epoch};
            }
            watches.push_back(std::move(w));
            break;
        }
        case 1: {
            Alarm w;
            if (flip()) {
                {
                    Sut s;
                    w.t = std::make_unique<AlarmTimer>(k_time_ms(d));
                }
                w.due = {a + d, now_ms() + d};
            } else {
                {
                    Sut s;
                    w.t = std::make_unique<AlarmTimer>(k_time_ms(a + d), true);
                }
                w.due = {a + d, a + d};
            }
            alarms.push_back(std::move(w));
            break;
        }
        case 2: {
            Interval w;
            w.interval = d;
            w.catch_up = flip();
            {
                Sut s;
                w.t = w.catch_up ? std::make_unique<IntervalTimer>(k_time_ms(d), true)
                                 : std::make_unique<IntervalTimer>(k_time_ms(d));
            }
            w.previous = {a, now_ms()};
            intervals.push_back(std::move(w));
            break;
        }
        }
    }
    void poll_one() {
        size_t n = watches.size() + alarms.size() + intervals.size();
        if (!n) return;
        size_t i = draw(n);
        if (i < watches.size()) return op_watch(watches[i]);
        i -= watches.size();
        if (i < alarms.size()) return op_alarm(alarms[i]);
        op_interval(intervals[i - alarms.size()]);
    }
    i64 next_moment() {
        i64 best = INT64_MAX;
        for (auto& a : alarms)
            if (!a.rang) best = std::min(best, a.due.lo);
        for (auto& i : intervals)
            best = std::min(best, i.previous.lo + i.interval);
        return best;
    }
};

} // namespace

SIM_SCENARIO(timers) {
    World w;
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(draw_uptime_us() + (i64)draw(1000));
    limit_steps((u32)one_of<i64>({10, 30, 60, 120}));
    bool armed = !strcmp(property(), "C06");
    bool preempt = chance(300);
    for (u64 n = 1 + draw(6); n-- > 0;)
        w.create();
    if (armed) {
        on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
        exhaust_heap(true);
    }
    if (preempt) set_preemption(one_of<u32>({50, 200}), one_of<i64>({1000, 5000, 50000}));
    while (step()) {
        switch (pick({4, 4, 2, 2, 1, 1, 1})) {
        case 0:
            advance_us((i64)draw(flip() ? 3000 : 2000000));
            w.poll_one();
            break;
        case 1: w.poll_one(); break;
        case 2: { // exactly around the next moment
            i64 m = w.next_moment();
            if (m == INT64_MAX) break;
            i64 target = m * 1000 + one_of<i64>({0, -1, 999, 1000, -1000, 500});
            if (target > now_us()) {
                advance_us(target - now_us());
                probe("polled_around_a_moment");
            }
            for (auto& a : w.alarms)
                w.op_alarm(a);
            for (auto& i : w.intervals)
                w.op_interval(i);
            break;
        }
        case 3: w.op_delay(); break;
        case 4: w.op_clock(); break;
        case 5:
            advance_ms(draw_duration(true));
            fault("stall");
            log("stall");
            break;
        case 6:
            if (!armed && w.watches.size() + w.alarms.size() + w.intervals.size() < 12) w.create();
            break;
        }
        u64 fired = 0;
        for (auto& i : w.intervals)
            fired += i.fired;
        u64 rang = 0;
        for (auto& a : w.alarms)
            rang += a.rang;
        if (fired || rang) nontrivial();
        state((std::min<u64>(fired, 15) * 8 + std::min<u64>(rang, 7)) * 64 + std::min<u64>(w.watches.size(), 3) * 16
              + std::min<u64>(w.alarms.size(), 3) * 4 + std::min<u64>(w.intervals.size(), 3));
    }
    exhaust_heap(false);
}
