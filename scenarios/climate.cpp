// Scenario: a controller of two rooms made of the whole library. Sensors go through stacks of filters; a latch switches the
// cooler of a fridge, a PID controller drives the heating of a room towards what a daily schedule wants, and the event loop
// keeps all of it going. Sensors spike, stick and jump, doors stay open, the node stalls and its wall clock is set.
// Decides C22, and C06 (no heap) for the whole.
#include "models.hpp"
#include "platform.hpp"

#include "spine/controller/pid.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/core/logging.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/platform/gpio.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/time/schedule.hpp"

#include <algorithm>
#include <cmath>
#include <deque>
#include <memory>
#include <optional>

using namespace sim;
using spn::controller::PID;
using spn::controller::SRLatch;
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;
using spn::core::LogicalState;
using spn::structure::time::Schedule;
using Stack = spn::filter::Stack<float>;
using BandPass = spn::filter::BandPass<float>;
using EWMA = spn::filter::EWMA<float>;
using MappedRange = spn::filter::MappedRange<float>;

namespace {

constexpr i64 DAY = 86400;

enum class Ev : size_t { SENSE, FRIDGE, ROOM, BLOCK, REPORT, COUNT };

/// Something with a temperature that strives for another one
struct Plant {
    double temperature, resting, reach, tau_s; // `reach` is how far full drive takes it from where it rests
    double drive = 0, extra = 0;
    i64 at_us = 0;
    double now() {
        i64 t = now_us();
        double target = resting + extra + reach * drive;
        temperature = target + (temperature - target) * std::exp(-(double)(t - at_us) / 1e6 / tau_s);
        at_us = t;
        return temperature;
    }
};

struct Sensor {
    u32 p_spike = 0, p_stick = 0, p_jump = 0;
    double noise = 0, offset = 0;
    int stuck = 0, jumped = 0;
    float last = 20;
    float read(double truth) {
        if (stuck > 0) {
            --stuck;
            return last;
        }
        double t = truth + noise * ((double)draw(9) - 4) / 4;
        if (jumped > 0) --jumped, t += offset;
        if (p_stick && chance(p_stick)) fault("sensor_stuck"), stuck = (int)range(1, 30);
        if (p_jump && chance(p_jump)) fault("sensor_jumps"), jumped = (int)range(2, 30), offset = (double)range(-60, 60);
        last = (float)(std::round(t * 8) / 8);
        if (p_spike && chance(p_spike)) {
            fault("sensor_spikes");
            return one_of<float>({85, -127, 0, 1000});
        }
        return last;
    }
    void heal() { p_spike = p_stick = p_jump = 0, stuck = jumped = 0; }
};

/// What a stack of filters should yield
struct FilterModel {
    bool band = false, average = false, map = false;
    // band pass
    double width = 0, offset = 0;
    int limit = 0, rejections = 0;
    bool has_value = false, first = false;
    double value = 0;
    // moving average
    double K = 1, n = 0, mean = 0, fuzz = 0;
    // mapping
    double il = 0, iu = 1, ol = 0, ou = 1;

    double out = 0, tolerance = 0;
    void sample(double s) {
        if (band) {
            if (!has_value) value = s, has_value = true;
            else if (std::abs(s - value - offset) <= width) value = s, rejections = 0;
            else if (++rejections > limit) {
                value = s, rejections = 0;
                probe("outlier_accepted");
            } else
                probe("outlier_rejected");
            s = value;
        }
        double eps = 0;
        if (average) {
            n += 1;
            double k = std::min(n, K);
            mean = n == 1 ? s : mean + (s - mean) / k;
            fuzz = n == 1 ? 0 : fuzz * (1 - 1 / k) + 2e-6 * (std::abs(s) + std::abs(mean));
            s = mean;
            eps = fuzz;
        }
        if (map) {
            double c = std::min(std::max(s, il), iu), slope = (ou - ol) / (iu - il);
            s = ol + (c - il) * slope;
            eps = eps * std::abs(slope) + 4e-6 * (std::abs(ol) + std::abs(ou) + (std::abs(il) + std::abs(iu)) * std::abs(slope));
        }
        out = s;
        tolerance = eps + 1e-9;
    }
};

struct Relay : spn::platform::DigitalOutput<Relay> {
    LogicalState pin = LogicalState::UNDEFINED;
    void initialize_impl() {}
    void set_state_impl(LogicalState s) { pin = s; }
};

struct Heating : spn::platform::AnalogueOutput<Heating> {
    float pin = -1;
    void set_value(float v) { pin = v; }
};

struct Climate;
Climate* C;

/// Listens to FRIDGE
struct Cooler : EventHandler {
    Cooler(EventSystem* es) : EventHandler(es) {}
    void handle_event(const Event& e) override;
    std::unique_ptr<SRLatch> latch;
    Relay relay;
    i64 a = 0, b = 0;
    float reading = 0;
    u64 seen = 0;
};

/// Listens to ROOM and BLOCK
struct Heater : EventHandler {
    Heater(EventSystem* es) : EventHandler(es) {}
    void handle_event(const Event& e) override;
    void follow();
    std::unique_ptr<PID> pid;
    std::unique_ptr<Schedule> schedule;
    Heating* output = nullptr;
    i64 a = 0, b = 0;
    float reading = 0;
    u64 seen = 0;
};

/// Listens to SENSE and REPORT
struct Sampler : EventHandler {
    Sampler(EventSystem* es) : EventHandler(es) {}
    void handle_event(const Event& e) override;
    std::unique_ptr<Stack> fridge_filters, room_filters;
};

/// Listens to whatever was measured, after those who act on it
struct Watcher : EventHandler {
    Watcher(EventSystem* es) : EventHandler(es) {}
    void handle_event(const Event& e) override;
};

struct Pending {
    i64 due = 0, due_hi = 0;
    u32 count = 0;
};

struct Climate {
    std::unique_ptr<EventSystem> es;
    std::unique_ptr<Cooler> cooler;
    std::unique_ptr<Heater> heater;
    std::unique_ptr<Sampler> sampler;
    std::unique_ptr<Watcher> watcher;
    std::unique_ptr<Heating> output;
    Plant fridge, room;
    Sensor fridge_sensor, room_sensor;
    FilterModel fridge_model, room_model;
    LatchModel latch;
    std::vector<Law> laws;
    std::vector<Schedule::Block> blocks;
    Pending sense, report, block;
    i64 epoch_s = 0, built = 0;
    i64 period_ms, report_ms, interval_ms;
    double lo = 0, hi = 255;
    float setpoint = 0, fridge_reading = 0, room_reading = 0, response = 0;
    u64 samples = 0, fridge_events = 0, room_events = 0, switches = 0, settings = 0;
    bool faults = true;
    u32 p_slow = 0;
    struct Log {
        i64 lo, hi;
        std::string text;
    };
    std::deque<Log> expected_logs;

    i64 time_of_day() const { return ((epoch_s + now_ms() / 1000) % DAY + DAY) % DAY; }
    float wanted_at(i64 t) const {
        for (auto& b : blocks) {
            i64 since = ((t - (i64)b.start.raw()) % DAY + DAY) % DAY;
            if (since < (i64)b.duration.raw()) return b.value;
        }
        return 0;
    }
    i64 next_start(i64 t) const {
        i64 next = DAY;
        for (auto& b : blocks)
            if ((i64)b.start.raw() > t) next = std::min(next, (i64)b.start.raw());
        return next;
    }
    void dawdle() {
        if (faults && p_slow && chance(p_slow)) {
            advance_us((i64)draw((u64)period_ms * 400));
            fault("slow_handler");
        }
    }
    void check_cooler();
    void check_heater();
    void run();
    void set_clock(i64 tod);
};

void Sampler::handle_event(const Event& e) {
    Climate& c = *C;
    if ((Ev)e.id() == Ev::REPORT) {
        i64 before;
        char line[120];
        u32 n;
        {
            Host h;
            SIM_CHECK(now_ms() >= c.report.due, "climate:rhythm", "a report came %ld ms early", (long)(c.report.due - now_ms()));
            n = ++c.report.count;
            before = now_ms();
            snprintf(line, sizeof(line), "[INFO] %u: fridge %d room %d of %d after %lu", n, (int)std::lround(c.fridge_reading * 100),
                     (int)std::lround(c.room_reading * 100), (int)c.setpoint, (unsigned long)c.samples);
        }
        SPN_LOG("%u: fridge %d room %d of %d after %lu", n, (int)std::lround(c.fridge_reading * 100),
                (int)std::lround(c.room_reading * 100), (int)c.setpoint, (unsigned long)c.samples);
        {
            Host h;
            c.expected_logs.push_back(Climate::Log{before, now_ms(), line});
            before = now_ms();
        }
        evsys()->schedule(Ev::REPORT, k_time_ms(c.report_ms));
        Host h;
        c.report.due = before + c.report_ms, c.report.due_hi = now_ms() + c.report_ms;
        return;
    }
    float fridge, room;
    {
        Host h;
        SIM_CHECK((Ev)e.id() == Ev::SENSE && e.data().unsigned_value() == c.sense.count, "climate:rhythm",
                  "event %zu carries %u instead of %u", (size_t)e.id(), e.data().unsigned_value(), c.sense.count);
        SIM_CHECK(now_ms() >= c.sense.due, "climate:rhythm", "the sensors are read %ld ms early", (long)(c.sense.due - now_ms()));
        ++c.sense.count;
        ++c.samples;
        c.dawdle();
        fridge = c.fridge_sensor.read(c.fridge.now());
        room = c.room_sensor.read(c.room.now());
    }
    const float fridge_raw = fridge, room_raw = room;
    fridge = fridge_filters->value(fridge);
    room_filters->new_sample(room);
    room = room_filters->value();
    {
        Host h;
        c.fridge_model.sample((double)fridge_raw);
        c.room_model.sample((double)room_raw);
        c.fridge_reading = fridge, c.room_reading = room;
        SIM_CHECK(std::abs((double)fridge - c.fridge_model.out) <= c.fridge_model.tolerance, "climate:filter",
                  "the fridge is at %.9g instead of %.9g after a sample of %g", (double)fridge, c.fridge_model.out,
                  (double)fridge_raw);
        SIM_CHECK(std::abs((double)room - c.room_model.out) <= c.room_model.tolerance, "climate:filter",
                  "the room is at %.9g instead of %.9g after a sample of %g", (double)room, c.room_model.out,
                  (double)room_raw);
    }
    evsys()->trigger(Ev::FRIDGE, Event::Data(fridge));
    auto event = evsys()->event(Ev::ROOM, k_time_ms(1), Event::Data(room)); // reused for as long as it is held
    if (!event) violate("climate:store", "no event for a reading");
    evsys()->trigger(event);
    event.reset();
    {
        Host h;
        SIM_CHECK(c.fridge_events == c.samples && c.room_events == c.samples, "climate:events",
                  "%lu and %lu readings were acted on after %lu samples", (unsigned long)c.fridge_events,
                  (unsigned long)c.room_events, (unsigned long)c.samples);
    }
    i64 before;
    {
        Host h;
        before = now_ms();
    }
    evsys()->schedule(Ev::SENSE, k_time_ms(c.period_ms), Event::Data(c.sense.count));
    Host h;
    c.sense.due = before + c.period_ms, c.sense.due_hi = now_ms() + c.period_ms;
}

void Cooler::handle_event(const Event& e) {
    Climate& c = *C;
    reading = e.data().value();
    {
        Host h;
        c.dawdle();
        a = now_ms();
        ++seen;
    }
    latch->new_reading(reading);
    {
        Host h;
        b = now_ms();
    }
    relay.set_state(latch->response());
}

void Heater::handle_event(const Event& e) {
    Climate& c = *C;
    if ((Ev)e.id() == Ev::BLOCK) {
        {
            Host h;
            if (e.data().unsigned_value() != c.block.count) return; // the clock was set since
            SIM_CHECK(now_ms() >= c.block.due, "climate:rhythm", "the next block starts %ld ms early",
                      (long)(c.block.due - now_ms()));
            c.dawdle();
        }
        follow();
        return;
    }
    reading = e.data().value();
    {
        Host h;
        c.dawdle();
        a = now_ms();
        ++seen;
    }
    pid->new_reading(reading);
    {
        Host h;
        b = now_ms();
    }
    const float response = pid->response();
    output->AnalogueOutput<Heating>::set_value((response - (float)c.lo) / (float)(c.hi - c.lo));
}

/// Applies what the schedule says and plans when to look again
void Heater::follow() {
    Climate& c = *C;
    i64 t, before;
    {
        Host h;
        t = c.time_of_day();
        before = now_ms();
    }
    const float value = schedule->value_at(k_time_s(t));
    const k_time_s next = schedule->start_of_next_block(k_time_s(t));
    pid->set_target_setpoint(value);
    {
        Host h;
        SIM_CHECK(value == c.wanted_at(t), "climate:schedule", "the schedule wants %g instead of %g at %ld", (double)value,
                  (double)c.wanted_at(t), (long)t);
        SIM_CHECK((i64)next.raw() == c.next_start(t), "climate:schedule", "after %ld the next block starts at %ld instead of %ld",
                  (long)t, (long)next.raw(), (long)c.next_start(t));
        if (value != c.setpoint) {
            log("the room is to be at %g", (double)value);
            ++c.settings;
        }
        c.setpoint = value;
        ++c.block.count;
    }
    const i64 ms = ((i64)next.raw() - t) * 1000 - before % 1000;
    evsys()->schedule(Ev::BLOCK, k_time_ms(ms), Event::Data(c.block.count));
    Host h;
    c.block.due = before + ms, c.block.due_hi = now_ms() + ms;
}

void Watcher::handle_event(const Event& e) {
    Host h;
    Climate& c = *C;
    if ((Ev)e.id() == Ev::FRIDGE) {
        ++c.fridge_events;
        c.check_cooler();
    } else {
        SIM_CHECK((Ev)e.id() == Ev::ROOM, "climate:events", "event %zu went to the wrong handler", (size_t)e.id());
        ++c.room_events;
        c.check_heater();
    }
}

void Climate::check_cooler() {
    Cooler& k = *cooler;
    SIM_CHECK(k.seen == fridge_events, "climate:events", "%lu of %lu readings of the fridge were acted on first",
              (unsigned long)k.seen, (unsigned long)fridge_events);
    SIM_CHECK(k.reading == fridge_reading, "climate:events", "the latch got %g instead of %g", (double)k.reading,
              (double)fridge_reading);
    bool before = latch.on, got = k.latch->response();
    latch.reading(k.a, k.b, k.reading, got);
    SIM_CHECK(got == before ? latch.may_keep : latch.may_switch, "climate:cooler",
              "a reading of %g (%g..%g) made %s of %s after %ld..%ld ms (limits %ld..%ld ms)", (double)k.reading, latch.lo,
              latch.hi, got ? "on" : "off", before ? "on" : "off", (long)latch.e_lo, (long)latch.e_hi, (long)latch.mn,
              (long)latch.mx);
    SIM_CHECK(k.relay.pin == (got ? LogicalState::ON : LogicalState::OFF) && k.relay.state() == k.relay.pin, "climate:cooler",
              "the relay is at %d and reports %d while the latch is %s", (int)k.relay.pin, (int)k.relay.state(), got ? "on" : "off");
    if (got != before) {
        ++switches;
        log("%g: cooler %s", (double)k.reading, got ? "on" : "off");
    }
    fridge.now();
    fridge.drive = got;
}

void Climate::check_heater() {
    Heater& k = *heater;
    SIM_CHECK(k.seen == room_events, "climate:events", "%lu of %lu readings of the room were acted on first",
              (unsigned long)k.seen, (unsigned long)room_events);
    SIM_CHECK(k.reading == room_reading, "climate:events", "the PID controller got %g instead of %g", (double)k.reading,
              (double)room_reading);
    float got = k.pid->response(), before = response;
    SIM_CHECK((double)got >= lo && (double)got <= hi, "climate:heater", "the response %g is not in %g..%g", (double)got, lo, hi);
    SIM_CHECK(k.pid->setpoint() == setpoint, "climate:heater", "the setpoint is %g instead of %g", (double)k.pid->setpoint(),
              (double)setpoint);
    std::vector<Law> next;
    double want = NAN;
    for (auto& l : laws) {
        bool must = k.a - (l.computed ? l.last : built) >= interval_ms;
        bool may = !l.computed || k.b - l.last >= interval_ms;
        if (!must && got == before) next.push_back(l);
        if (may)
            for (i64 at : {k.a, k.b}) {
                Law x = l;
                x.compute((double)k.reading, (double)setpoint, at);
                want = x.out;
                if (x.matches((double)got)) next.push_back(x);
                if (k.a == k.b) break;
            }
    }
    SIM_CHECK(!next.empty(), "climate:heater", "the response to %g (setpoint %g) is %g instead of %g, and was %g before",
              (double)k.reading, (double)setpoint, (double)got, want, (double)before);
    if (next.size() > 64) next.resize(64);
    laws = std::move(next);
    response = got;
    double pin = (double)output->pin;
    SIM_CHECK(output->pin == output->value() && std::abs(pin - ((double)got - lo) / (hi - lo)) <= 1e-5, "climate:heater",
              "the heating is at %g and reports %g for a response of %g", pin, (double)output->value(), (double)got);
    if ((double)got == lo || (double)got == hi) probe("saturated");
    room.now();
    room.drive = pin;
}

void Climate::run() {
    i64 begin = now_ms();
    {
        Sut s;
        es->loop();
    }
    for (Pending* p : {&sense, &report, &block})
        SIM_CHECK(p->due_hi > begin, "climate:rhythm", "event %ld is %ld ms late and was skipped",
                  (long)(p == &sense ? 0 : p == &report ? 4 : 3), (long)(begin - p->due_hi));
    for (auto& line : take_console()) {
        SIM_CHECK(!expected_logs.empty(), "climate:log", "unexpected output: '%s'", line.c_str());
        auto& want = expected_logs.front();
        bool ok = false;
        for (i64 at = want.lo; !ok && at <= want.hi; ++at) {
            char b[32];
            snprintf(b, sizeof(b), "[%08u] ", (u32)at);
            ok = b + want.text == line;
        }
        SIM_CHECK(ok, "climate:log", "'%s' was printed instead of '%s'", line.c_str(), want.text.c_str());
        expected_logs.pop_front();
    }
    SIM_CHECK(expected_logs.empty(), "climate:log", "'%s' was not printed", expected_logs.front().text.c_str());
    SIM_CHECK(thrown().empty(), "climate:error", "an error was raised: %s", thrown().front().what.c_str());
}

void Climate::set_clock(i64 tod) {
    epoch_s = ((tod - now_ms() / 1000) % DAY + DAY) % DAY;
    log("the clock is set to %ld", (long)tod);
    Sut s;
    heater->follow();
}

std::unique_ptr<Schedule> make(const std::vector<Schedule::Block>& b) {
    switch (b.size()) {
    case 1: return std::make_unique<Schedule>(Schedule::Config{{b[0]}});
    case 2: return std::make_unique<Schedule>(Schedule::Config{{b[0], b[1]}});
    case 3: return std::make_unique<Schedule>(Schedule::Config{{b[0], b[1], b[2]}});
    default: return std::make_unique<Schedule>(Schedule::Config{{b[0], b[1], b[2], b[3]}});
    }
}

/// Draws filters into both a stack and its model
std::unique_ptr<Stack> make_filters(FilterModel& m, double around) {
    m.band = !chance(250);
    m.average = flip();
    m.map = chance(300);
    BandPass::Config band;
    if (m.band) {
        band.mode = BandPass::Mode::RELATIVE;
        band.mantissa = one_of<float>({1, 2, 5});
        band.decades = 0;
        band.offset = 0.0625f; // so that no sample lies on the edge
        band.rejection_limit = (int)one_of<i64>({10, 1, 3, 5});
        band.throw_on_rejection_limit = false;
        m.width = (double)band.mantissa * 10, m.offset = (double)band.offset, m.limit = band.rejection_limit;
    }
    m.K = m.average ? (double)one_of<i64>({5, 2, 3}) : 1;
    MappedRange::Config map;
    if (m.map) { // limits what the controller gets to see
        map.input_lower_limit = map.output_lower_limit = (float)around - 40;
        map.input_upper_limit = map.output_upper_limit = (float)around + 40;
        m.il = m.ol = (double)map.input_lower_limit, m.iu = m.ou = (double)map.input_upper_limit;
    }
    Sut s;
    auto stack = std::make_unique<Stack>(3);
    if (m.band) stack->attach_filter(std::make_unique<BandPass>(std::move(band)));
    if (m.average) stack->attach_filter(std::make_unique<EWMA>(EWMA::Config{.K = (float)m.K}));
    if (m.map) stack->attach_filter(std::make_unique<MappedRange>(std::move(map)));
    if (!m.band && !m.average && !m.map) {
        stack->attach_filter(std::make_unique<EWMA>(EWMA::Config{.K = 1}));
        Host h;
        m.average = true;
    }
    return stack;
}

void run_climate() {
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::INFO);
    take_console(); // what setting up printed
    start_clock(draw_uptime_us());
    Climate c;
    C = &c;
    c.period_ms = one_of<i64>({1000, 100, 10000, 60000});
    c.report_ms = c.period_ms * range(1, 20) + (i64)draw(7);
    c.interval_ms = c.period_ms * one_of<i64>({1, 1, 3});
    double tau_s = (double)c.period_ms / 1000 * 60;
    c.fridge = Plant{22, 22, -32, tau_s};
    c.room = Plant{5, 5, 40, tau_s};
    c.fridge.at_us = c.room.at_us = now_us();
    for (Sensor* s : {&c.fridge_sensor, &c.room_sensor}) {
        s->p_spike = one_of<u32>({0, 20, 150});
        s->p_stick = one_of<u32>({0, 10});
        s->p_jump = one_of<u32>({0, 10});
        s->noise = one_of<double>({0, 0.125, 0.5});
    }
    c.p_slow = one_of<u32>({0, 0, 30});
    // the schedule
    size_t n = (size_t)range(1, 4);
    i64 origin = (i64)draw(DAY), at = origin, left = DAY;
    for (size_t i = 0; i < n && left > 1; ++i) {
        i64 gap = flip() ? (i64)draw((u64)left / 4 + 1) : 0;
        at += gap, left -= gap;
        i64 length = std::max<i64>(1, i + 1 == n && flip() ? left : (i64)draw((u64)left) + 1);
        c.blocks.push_back(Schedule::Block{k_time_s(at % DAY), k_time_s(length), (float)(10 + 4 * i)});
        at += length, left -= length;
    }
    c.epoch_s = (i64)draw(DAY);
    // controllers
    SRLatch::Config lc;
    lc.high = 5, lc.low = one_of<float>({3, 4, 1});
    auto limit = [&] { return c.period_ms * one_of<i64>({0, 0, 5, 20}) + (i64)draw(3); };
    c.latch.min_on = limit(), c.latch.min_off = limit();
    c.latch.max_on = one_of<i64>({0, 0, 0, c.latch.min_on + c.period_ms * 30});
    c.latch.max_off = one_of<i64>({0, 0, 0, c.latch.min_off + c.period_ms * 50});
    c.latch.lo = (double)lc.low, c.latch.hi = (double)lc.high;
    lc.minimal_on_time = k_time_ms(c.latch.min_on), lc.minimal_off_time = k_time_ms(c.latch.min_off);
    lc.maximal_on_time = k_time_ms(c.latch.max_on), lc.maximal_off_time = k_time_ms(c.latch.max_off);
    PID::Config pc;
    pc.output_lower_limit = one_of<float>({0, -100, 10});
    pc.output_upper_limit = pc.output_lower_limit + one_of<float>({255, 1, 100});
    c.lo = (double)pc.output_lower_limit, c.hi = (double)pc.output_upper_limit;
    float kp = one_of<float>({5, 10, 20}) / 255.0f * (float)(c.hi - c.lo);
    pc.tunings = PID::Tunings{kp, kp / (float)tau_s, one_of<float>({0, 0, kp * (float)c.interval_ms / 1000})};
    pc.sample_interval = k_time_ms(c.interval_ms);
    pc.proportionality = flip() ? PID::Proportionality::ON_ERROR : PID::Proportionality::ON_MEASUREMENT;
    bool sleeps = flip();
    i64 max_sleep_ms = one_of<i64>({1000, 100, 60000});
    i64 gap_ms = std::max<i64>(1, c.period_ms / one_of<i64>({10, 2, 50}));
    if (chance(250)) set_preemption(one_of<u32>({1, 10}), 2000);
    limit_steps((u32)one_of<i64>({30, 60, 150}));
    Law law;
    double ts = (double)c.interval_ms / 1000;
    law.kp = (double)pc.tunings.Kp, law.ki = (double)pc.tunings.Ki * ts, law.kd = (double)pc.tunings.Kd / ts;
    law.on_error = pc.proportionality == PID::Proportionality::ON_ERROR;
    law.lo = c.lo, law.hi = c.hi;
    law.out = law.sum = std::min(std::max(0.0, c.lo), c.hi);
    c.laws = {law};
    log("period %ld ms, fridge %g..%g, heating %g..%g", (long)c.period_ms, c.latch.lo, c.latch.hi, c.lo, c.hi);
    for (auto& b : c.blocks)
        log("block at %ld for %ld: %g", (long)b.start.raw(), (long)b.duration.raw(), (double)b.value);

    i64 first = range(1, c.period_ms), first_report = range(1, c.report_ms);
    c.built = c.latch.since_lo = now_ms();
    auto fridge_filters = make_filters(c.fridge_model, 5), room_filters = make_filters(c.room_model, 20);
    {
        Sut s;
        EventSystem::Config cfg{.events_count = (size_t)Ev::COUNT,
                                .events_cap = 3 + 40,
                                .handler_cap = 2,
                                .delay_between_ticks = sleeps,
                                .min_delay_between_ticks = k_time_us(k_time_ms(1)),
                                .max_delay_between_ticks = k_time_us(k_time_ms(max_sleep_ms))};
        c.es = std::make_unique<EventSystem>(cfg);
        c.cooler = std::make_unique<Cooler>(c.es.get());
        c.heater = std::make_unique<Heater>(c.es.get());
        c.sampler = std::make_unique<Sampler>(c.es.get());
        c.watcher = std::make_unique<Watcher>(c.es.get());
        c.output = std::make_unique<Heating>();
        c.heater->output = c.output.get();
        c.sampler->fridge_filters = std::move(fridge_filters);
        c.sampler->room_filters = std::move(room_filters);
        c.cooler->latch = std::make_unique<SRLatch>(std::move(lc));
        c.cooler->latch->initialize();
        c.cooler->relay.initialize();
        c.heater->schedule = make(c.blocks);
        c.heater->pid = std::make_unique<PID>(pc);
        c.heater->pid->initialize();
        c.es->attach(Ev::SENSE, c.sampler.get());
        c.es->attach(Ev::REPORT, c.sampler.get());
        c.es->attach(Ev::FRIDGE, c.cooler.get());
        c.es->attach(Ev::FRIDGE, c.watcher.get());
        c.es->attach(Ev::ROOM, c.heater.get());
        c.es->attach(Ev::ROOM, c.watcher.get());
        c.es->attach(Ev::BLOCK, c.heater.get());
        c.response = c.heater->pid->response();
    }
    c.latch.since_hi = now_ms();
    SIM_CHECK((double)c.response == law.out, "climate:heater", "a new controller responds with %g", (double)c.response);
    SIM_CHECK(thrown().empty(), "climate:error", "an error was raised: %s", thrown().front().what.c_str());
    if (!strcmp(property(), "C06")) {
        on_heap_exhausted([](size_t k) { violate("heap", "%zu bytes were requested from an exhausted heap", k); });
        exhaust_heap(true);
    }
    {
        i64 before = now_ms();
        {
            Sut s;
            c.es->schedule(Ev::SENSE, k_time_ms(first), Event::Data(c.sense.count));
            c.es->schedule(Ev::REPORT, k_time_ms(first_report));
        }
        c.sense.due = before + first, c.sense.due_hi = now_ms() + first;
        c.report.due = before + first_report, c.report.due_hi = now_ms() + first_report;
        Sut s;
        c.heater->follow();
    }

    auto run_next = [&] {
        c.run();
        if (!sleeps || now_ms() < c.sense.due - max_sleep_ms)
            advance_us(c.faults ? 1 + (i64)draw((u64)gap_ms * 1000) : gap_ms * 1000);
    };
    u32 set = 0;
    while (step()) {
        u64 loops = 1 + draw(30);
        switch (pick({60, 2, 2, 1, 2})) {
        case 0:
            while (loops-- > 0)
                run_next();
            break;
        case 1: // something else takes long
            advance_ms(range(1, c.period_ms * 5));
            fault("stall");
            break;
        case 2: // somebody opens a door
            c.fridge.now(), c.room.now();
            if (flip()) c.fridge.extra = c.fridge.extra != 0 ? 0 : 15;
            else
                c.room.extra = c.room.extra != 0 ? 0 : -15;
            fault("door_opened");
            log("door");
            break;
        case 3:
            if (++set > 30) break; // what was scheduled remains
            c.set_clock((i64)draw(DAY));
            fault("clock_set");
            break;
        case 4: // around the next change of the schedule
            if (c.block.due - now_ms() < c.period_ms * 100) {
                i64 us = (c.block.due - now_ms()) * 1000 + one_of<i64>({0, -1000, 1000, -1, 999});
                if (us > 0) advance_us(us);
                run_next();
                fault("stall");
            }
            break;
        }
        state((u64)std::lround(std::clamp(c.fridge.temperature, -15.0, 40.0)) * 64 + (u64)c.latch.on * 32
              + (u64)(c.output->pin * 7) * 4 + (u64)(c.setpoint > 0) * 2 + (c.fridge_model.rejections > 0));
    }
    if (c.switches && c.samples > 10) nontrivial();

    // the faults stop: both have to come under control
    c.faults = false;
    set_preemption(0, 0);
    c.fridge_sensor.heal(), c.room_sensor.heal();
    c.fridge.now(), c.room.now();
    c.fridge.extra = c.room.extra = 0;
    const Schedule::Block* longest = &c.blocks[0];
    for (auto& b : c.blocks)
        if (b.duration.raw() > longest->duration.raw()) longest = &b;
    c.set_clock(((i64)longest->start.raw() + 1) % DAY);
    // what a band pass holds on to, then the plant, then the slowest the latch may be
    u64 until = c.samples + 12 + 60 * 16, switches = c.switches, low = 0, high = 0;
    bool steady = (double)longest->duration.raw() > tau_s * 17 + 60;
    double worst = 0, coldest = 1e9, warmest = -1e9;
    i64 t0 = now_ms();
    while (c.samples < until) {
        u64 before = c.samples;
        run_next();
        SIM_CHECK(now_ms() - t0 < c.period_ms * 4000, "climate:rhythm", "the sensors were read %lu times too few",
                  (unsigned long)(until - c.samples));
        if (c.samples == before) continue;
        (c.latch.on ? high : low) += 1;
        if (until - c.samples < 120) { // the last two time constants
            worst = std::max(worst, std::abs(c.room.temperature - (double)c.setpoint));
            coldest = std::min(coldest, c.fridge.temperature);
            warmest = std::max(warmest, c.fridge.temperature);
        }
    }
    if (!c.latch.max_on && !c.latch.max_off) {
        SIM_CHECK(c.switches - switches >= 4 && low && high, "climate:control",
                  "the cooler was switched %lu times in %ld s", (unsigned long)(c.switches - switches),
                  (long)(now_ms() - t0) / 1000);
        // how far it may go while the latch has to wait and the filters lag
        double lag = 8 + c.fridge_model.K, warm = ((double)c.latch.min_off / (double)c.period_ms + lag) * 22 / 60,
               cold = ((double)c.latch.min_on / (double)c.period_ms + lag) * 16 / 60;
        SIM_CHECK(warmest <= c.latch.hi + warm && coldest >= c.latch.lo - cold, "climate:control",
                  "the fridge is at %g..%g instead of %g..%g", coldest, warmest, c.latch.lo - cold, c.latch.hi + warm);
        probe("fridge_under_control");
    }
    if (steady && c.setpoint > 8 && c.setpoint < 30) {
        SIM_CHECK(worst < 1, "climate:control", "the room is %g away from %g", worst, (double)c.setpoint);
        probe("room_under_control");
    }
    log("%lu samples, %lu switches", (unsigned long)c.samples, (unsigned long)c.switches);
    exhaust_heap(false);
    {
        Sut s;
        c.es.reset();
        c.cooler.reset();
        c.heater.reset();
        c.sampler.reset();
        c.watcher.reset();
        c.output.reset();
    }
    SIM_CHECK(live_allocations() == 0, "leak", "%zu allocations were not freed", live_allocations());
}

} // namespace

SIM_SCENARIO(climate) { run_climate(); }
