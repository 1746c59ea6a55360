// Scenario: a device that keeps a calendar. It takes the time from a clock chip that survives resets (as long as its
// battery does), from the moment at which it was built, or from a peer that sends timestamps, and keeps it by its
// uptime. Decides C25.
#include "sim.hpp"
#include "spine/core/debugging.hpp"
#include "spine/core/logging.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/structure/time/datetime.hpp"

#include <ctime>
#include <memory>
#include <new>
#include <optional>

using namespace sim;
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;

namespace {

constexpr i64 DAY = 86400, Y2K = 946684800;
const char* const MONTHS[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
const char* const MONTH_NAMES[] = {"January", "February", "March",     "April",   "May",      "June",
                                   "July",    "August",   "September", "October", "November", "December"};
const char* const DAYS[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};

// ---- what a calendar says, counted day by day -----------------------------------------------------------------------
bool leap(i64 y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int length(i64 y, int m) { return m == 2 ? 28 + leap(y) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }

struct Date {
    i64 year = 1970;
    int month = 1, day = 1, hour = 0, minute = 0, second = 0, week_day = 0, year_day = 0;
};
Date date_of(i64 t) {
    Date d;
    i64 days = t / DAY, rest = t % DAY;
    if (rest < 0) rest += DAY, --days;
    d.week_day = (int)(((days + 4) % 7 + 7) % 7);
    while (days < 0) {
        --d.year;
        days += 365 + leap(d.year);
    }
    while (days >= 365 + leap(d.year)) {
        days -= 365 + leap(d.year);
        ++d.year;
    }
    d.year_day = (int)days;
    while (days >= length(d.year, d.month)) {
        days -= length(d.year, d.month);
        ++d.month;
    }
    d.day = (int)days + 1;
    d.hour = (int)(rest / 3600), d.minute = (int)(rest / 60 % 60), d.second = (int)(rest % 60);
    return d;
}
i64 time_of(i64 year, i64 month, i64 day, i64 hour, i64 minute, i64 second) {
    while (month > 12)
        month -= 12, ++year;
    while (month < 1)
        month += 12, --year;
    i64 days = 0;
    for (i64 y = 1970; y < year; ++y)
        days += 365 + leap(y);
    for (i64 y = year; y < 1970; ++y)
        days -= 365 + leap(y);
    for (int m = 1; m < month; ++m)
        days += length(year, m);
    return (days + day - 1) * DAY + hour * 3600 + minute * 60 + second;
}

/// What is left when the device resets
struct Chip {
    bool powered = true; // its battery isn't empty
    i64 offset_us = 0; // of its time, from the simulated clock
    i64 seconds() const { return (now_us() + offset_us) / 1000000; }
    void set(i64 t) { offset_us = t * 1000000 - now_us(); }
};

i64 draw_moment() {
    i64 year = pick({6, 2, 1}) == 0 ? range(2020, 2040) : flip() ? range(2000, 2105) : range(1970, 2400);
    switch (pick({4, 2, 2, 1})) {
    case 0: return time_of(year, 1, 1, 0, 0, 0) + (i64)draw(366 * DAY);
    case 1: return time_of(year, 2, 28, 23, 59, 59) + range(-2, 2) + (flip() ? DAY : 0);
    case 2: return time_of(year, 12, 31, 23, 59, 59) + range(-2, 2);
    default: return time_of(year, range(1, 12), range(1, 28), range(0, 23), 59, 59) + range(-1, 1);
    }
}

struct Device : EventHandler {
    explicit Device(Chip& c) : EventHandler(nullptr), chip(c) {}
    Chip& chip;
    std::unique_ptr<EventSystem> es;
    std::string built_date, built_time;
    i64 built = 0;
    i64 base = 0, base_ms = 0; // what it was set to, and at which uptime
    i64 truth_us = 0; // what its calendar has to say, relative to the uptime
    i64 tick_ms = 1000;
    u64 ticks = 0;
    u32 p_slow = 0;

    /// Everything that a date says
    void judge(DateTime& d, i64 t, const char* how) {
        Date w;
        {
            Host h;
            w = date_of(t);
        }
        struct {
            const char* what;
            i64 is, should;
        } fields[] = {{"year", d.getYear(), w.year},
                      {"month", d.getMonth(), w.month},
                      {"day", d.getDay(), w.day},
                      {"hour", d.getHour(), w.hour},
                      {"minute", d.getMinute(), w.minute},
                      {"second", d.getSecond(), w.second},
                      {"day of week", d.getWeekDay(), w.week_day},
                      {"day of year", d.getYearDay(), w.year_day}};
        for (auto& f : fields)
            SIM_CHECK(f.is == f.should, "calendar:date", "%ld (%s) is in %s %ld instead of %ld", (long)t, how, f.what,
                      (long)f.is, (long)f.should);
        SIM_CHECK((i64)d.getUnixTime() == t, "calendar:timestamp", "%ld (%s) has timestamp %ld", (long)t, how,
                  (long)d.getUnixTime());
        SIM_CHECK((i64)d.getY2kTime() == t - Y2K, "calendar:timestamp", "%ld (%s) is %ld since 2000 instead of %ld",
                  (long)t, how, (long)d.getY2kTime(), (long)(t - Y2K));
        SIM_CHECK(d.getDST() <= 0, "calendar:date", "%ld (%s) is in summer time", (long)t, how);
        char text[100], expected[200];
        size_t n, size, format;
        {
            Host h;
            format = draw(4);
            memset(text, 'x', sizeof(text));
            switch (format) {
            case 0:
                snprintf(expected, sizeof(expected), "%s %s %02d %02d:%02d:%02d %04ld", DAYS[w.week_day],
                         MONTHS[w.month - 1], w.day, w.hour, w.minute, w.second, (long)w.year);
                break;
            case 1:
                snprintf(expected, sizeof(expected), "%04ld-%02d-%02dT%02d:%02d:%02dZ", (long)w.year, w.month, w.day,
                         w.hour, w.minute, w.second);
                break;
            case 2: snprintf(expected, sizeof(expected), "%03d/%02ld", w.year_day + 1, (long)(w.year % 100)); break;
            default: snprintf(expected, sizeof(expected), "%s%%%d", MONTH_NAMES[w.month - 1], w.week_day); break;
            }
            size = pick({3, 1}) == 0 ? 90 : draw(strlen(expected) + 3);
        }
        n = format == 0   ? d.strf_DateTime(text, size)
            : format == 1 ? d.strf_DateTime(text, size, "%Y-%m-%dT%H:%M:%SZ")
            : format == 2 ? d.strf_DateTime(text, size, "%j/%y")
                          : d.strf_DateTime(text, size, "%B%%%w");
        Host h;
        const bool fits = strlen(expected) < size;
        SIM_CHECK(n == (fits ? strlen(expected) : 0), "calendar:text",
                  "%ld takes %zu characters instead of %zu (of %zu)", (long)t, n, strlen(expected), size);
        if (fits)
            SIM_CHECK(!strcmp(text, expected), "calendar:text", "%ld is '%s' instead of '%s'", (long)t, text, expected);
        for (size_t i = size; i < sizeof(text); ++i)
            SIM_CHECK(text[i] == 'x', "calendar:text", "%zu characters were written of which %zu fit", i + 1, size);
        if (!fits) probe("text_does_not_fit");
        if (w.month == 2 && w.day == 29) probe("leap_day");
        if (w.year_day == 365) probe("day_366");
    }

    i64 now_s() const { return (now_us() + truth_us) / 1000000; } // what the calendar says, to be exact

    /// The device starts
    void boot() {
        {
            Host h;
            if (!chip.powered) {
                chip.powered = true;
                chip.set(built);
                probe("boots_from_build");
                log("boots, built at %s %s", built_date.c_str(), built_time.c_str());
            } else {
                log("boots, the chip says %ld", (long)chip.seconds());
            }
        }
        DateTime b(built_date.c_str(), built_time.c_str());
        judge(b, built, "built");
        Date f;
        i64 t;
        {
            Host h;
            t = chip.seconds(), f = date_of(t); // the chip keeps its time in fields
        }
        DateTime d((int)f.year, f.month, f.day, f.hour, f.minute, f.second);
        judge(d, t, "of the chip");
        set(d.getUnixTime());
    }
    void set(i64 t) {
        Host h;
        base = t, base_ms = now_ms();
        truth_us = t * 1000000 - base_ms * 1000;
    }

    void handle_event(const Event& e) override {
        evsys()->schedule((size_t)0, k_time_ms(tick_ms));
        {
            Host h;
            if (p_slow && chance(p_slow)) {
                advance_us((i64)draw(5000000));
                fault("slow_handler");
            }
        }
        i64 t;
        {
            Host h;
            t = base + (now_ms() - base_ms) / 1000;
            ++ticks;
        }
        DateTime d((time_t)t);
        judge(d, t, "now");
        look(d, t);
    }

    /// Other moments, from the fields of this one
    void look(DateTime& d, i64 t) {
        size_t what;
        i64 n, then;
        {
            Host h;
            what = pick({3, 2, 2, 2, 2, 1, 1}), n = range(-100, 100);
        }
        switch (what) {
        case 0: return;
        case 1: then = t + n * 60; break;
        case 2: then = t + n * DAY; break;
        case 3: then = t + n * 3600; break;
        case 4: then = t + n; break;
        case 5: {
            DateTime start(d.getYear(), d.getMonth(), 1); // of this month
            Host h;
            then = time_of(d.getYear(), d.getMonth(), 1, 0, 0, 0);
            Sut s;
            return judge(start, then, "start of the month");
        }
        default: {
            DateTime end(d.getYear(), d.getMonth() + 1, 0, 23, 59, 59); // of this month
            Host h;
            then = time_of(d.getYear(), d.getMonth() + 1, 1, 0, 0, -1);
            Sut s;
            return judge(end, then, "end of the month");
        }
        }
        DateTime other(d.getYear(), d.getMonth(), d.getDay() + (what == 2 ? (int)n : 0),
                       d.getHour() + (what == 3 ? (int)n : 0), d.getMinute() + (what == 1 ? (int)n : 0),
                       d.getSecond() + (what == 4 ? (int)n : 0));
        judge(other, then, "later or earlier");
        DateTime same(other.getUnixTime());
        judge(same, then, "the same once more");
    }
};

/// Where it is summer time for part of the year, a device without one still takes its fields for local time
void run_abroad() {
    struct Zone {
        const char* name;
        i64 offset; // from Greenwich, in minutes
        bool has_summer;
    };
    static const Zone zones[] = {{"CET-1CEST,M3.5.0,M10.5.0/3", 60, true},
                                 {"EST5EDT,M3.5.0,M10.5.0", -300, true},
                                 {"IST-5:30", 330, false},
                                 {"MST7", -420, false}};
    const Zone& zone = zones[pick({3, 2, 1, 1})];
    setenv("TZ", zone.name, 1);
    tzset();
    alignas(DateTime) char memory[sizeof(DateTime)];
    limit_steps((u32)range(3, 20));
    while (step()) {
        const i64 year = range(2000, 2099), day = range(1, 20);
        const int month = (int)range(1, 12), hour = (int)range(0, 23), minute = (int)range(0, 59),
                  second = (int)range(0, 59);
        const bool summer = zone.has_summer && month > 3 && month < 11;
        const i64 t = time_of(year, month, day, hour, minute, second) - zone.offset * 60 - (summer ? 3600 : 0);
        const Date w = date_of(time_of(year, month, day, hour, minute, second));
        char date[40], time[40];
        snprintf(date, sizeof(date), "%s %2d %04ld", MONTHS[month - 1], (int)day, (long)year);
        snprintf(time, sizeof(time), "%02d:%02d:%02d", hour, minute, second);
        const int dirt = one_of<int>({0, 1, 0xff, 0x7f});
        const bool text = flip();
        memset(memory, dirt, sizeof(memory)); // what was there before
        DateTime* d;
        {
            Sut s;
            d = text ? new (memory) DateTime(date, time)
                     : new (memory) DateTime((int)year, month, (int)day, hour, minute, second);
        }
        log("%s %s: %ld", date, time, (long)d->getUnixTime());
        SIM_CHECK((i64)d->getUnixTime() == t && (i64)d->getY2kTime() == t - Y2K, "calendar:timestamp",
                  "%s %s has timestamp %ld instead of %ld", date, time, (long)d->getUnixTime(), (long)t);
        SIM_CHECK(d->getYear() == year && d->getMonth() == month && d->getDay() == day && d->getHour() == hour
                      && d->getMinute() == minute && d->getSecond() == second && (d->getDST() > 0) == summer,
                  "calendar:date", "%s %s is at %02d:%02d:%02d", date, time, d->getHour(), d->getMinute(),
                  d->getSecond());
        SIM_CHECK(d->getWeekDay() == w.week_day && d->getYearDay() == w.year_day, "calendar:date",
                  "%s is day %d of the week and %d of the year", date, d->getWeekDay(), d->getYearDay());
        // what is shown as text is what the parts say, also when the moment came as a timestamp
        auto show = [&](DateTime& m, const char* how) {
            char is[80] = "", should[160];
            {
                Sut s;
                m.strf_DateTime(is, sizeof(is), "%Y-%m-%d %H:%M:%S %j %w");
            }
            snprintf(should, sizeof(should), "%04d-%02d-%02d %02d:%02d:%02d %03d %d", m.getYear(), m.getMonth(),
                     m.getDay(), m.getHour(), m.getMinute(), m.getSecond(), m.getYearDay() + 1, m.getWeekDay());
            SIM_CHECK(!strcmp(is, should), "calendar:text", "%s %s (%s) is '%s' instead of '%s'", date, time, how, is,
                      should);
        };
        show(*d, "local");
        {
            const i64 moment = (i64)d->getUnixTime() + range(-40000, 40000);
            memset(memory, dirt, sizeof(memory));
            d->~DateTime();
            Sut s;
            d = new (memory) DateTime((time_t)moment);
            Host h;
            SIM_CHECK((i64)d->getUnixTime() == moment && (i64)d->getY2kTime() == moment - Y2K, "calendar:timestamp",
                      "%ld has timestamp %ld", (long)moment, (long)d->getUnixTime());
            show(*d, "timestamp");
        }
        d->~DateTime();
        if (summer) probe("summer_time"), nontrivial();
    }
    SIM_CHECK(thrown().empty(), "calendar:error", "an error was raised: %s", thrown().front().what.c_str());
}

void run_calendar() {
    setenv("TZ", "UTC0", 1);
    tzset();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    install_handler();
    start_clock(0);
    Chip chip;
    const u32 p_slow = chance(400) ? one_of<u32>({10, 100}) : 0;
    const i64 tick_ms = one_of<i64>({1000, 100, 60000, 3600000, 86400000});
    i64 built = draw_moment();
    while (built < 0)
        built += 400 * DAY;
    const Date b = date_of(built);
    char date[40], time[40];
    snprintf(date, sizeof(date), "%s %2d %04ld", MONTHS[b.month - 1], b.day, (long)b.year);
    snprintf(time, sizeof(time), "%02d:%02d:%02d", b.hour, b.minute, b.second);
    chip.powered = flip();
    chip.set(draw_moment());
    limit_steps((u32)range(3, 60));
    if (chance(300)) set_preemption(one_of<u32>({2, 20, 200}), one_of<i64>({1000, 100000, 10000000}));

    std::unique_ptr<Device> d;
    auto start = [&] {
        start_clock(0);
        d = std::make_unique<Device>(chip);
        d->built_date = date, d->built_time = time, d->built = built;
        d->p_slow = p_slow, d->tick_ms = tick_ms;
        Sut s;
        d->es = std::make_unique<EventSystem>(
            EventSystem::Config{.events_count = 1, .events_cap = 2, .handler_cap = 1, .delay_between_ticks = false});
        d->attach_event_system(d->es.get());
        d->es->attach((size_t)0, d.get());
        d->boot();
        d->es->schedule((size_t)0, k_time_ms(d->tick_ms));
    };
    auto stop = [&] {
        Sut s;
        d->es.reset();
    };
    auto loop = [&] {
        {
            Sut s;
            d->es->loop();
        }
        SIM_CHECK(thrown().empty(), "calendar:error", "an error was raised: %s", thrown().front().what.c_str());
    };
    {
        Sut s;
        DateTime nothing;
        Host h;
        SIM_CHECK(nothing.getUnixTime() == 0 && nothing.getYear() == 1970 && thrown().empty(), "calendar:date",
                  "the default moment is not the start of 1970");
    }
    start();
    u64 ticks = 0;
    while (step()) {
        switch (pick({10, 4, 3, 2, 2})) {
        case 0:
            advance_ms(d->tick_ms);
            loop();
            break;
        case 1:
            advance_us((i64)draw(one_of<u64>({100000, 10000000, 1000000000})));
            loop();
            break;
        case 2: // a long time
            advance_ms((i64)draw(400 * DAY) * 1000);
            fault("stall");
            loop();
            break;
        case 3: { // a peer sends the time
            const i64 t = draw_moment();
            log("the time is set to %ld", (long)t);
            fault("clock_set");
            d->set(t);
            chip.set(t);
            break;
        }
        case 4: { // a reset, of which only the chip knows how long it took
            const i64 off = (i64)draw(one_of<u64>({10, 1000, 40000000}));
            const i64 t = chip.seconds() + off;
            if (chance(200)) {
                chip.powered = false;
                fault("battery_empty");
            }
            fault("reset");
            ticks += d->ticks;
            stop();
            start_clock(0);
            chip.set(t);
            start();
            break;
        }
        }
        state((u64)((d->now_s() / DAY) & 0xfff));
    }
    if (ticks + d->ticks > 2) nontrivial();
    stop();
    SIM_CHECK(live_allocations() == 0, "leak", "%zu allocations were not freed", live_allocations());
}

} // namespace

SIM_SCENARIO(calendar) {
    if (chance(100)) run_abroad();
    else
        run_calendar();
}
