// Scenarios: a latch, a PID controller and its autotuning in front of simulated processes with faulty sensors.
// Decides C12 (latch), C13 (PID), C14 (autotuning), and C06 (no heap) for latch and PID.
#include "models.hpp"
#include "sim.hpp"
#include "spine/controller/pid.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/core/logging.hpp"

#include <algorithm>
#include <cmath>
#include <memory>

using namespace sim;
using spn::controller::PID;
using spn::controller::SRLatch;

namespace {

void arm() {
    if (strcmp(property(), "C06")) return;
    on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
    exhaust_heap(true);
}

// ---- latch
// ------------------------------------------------------------------------------------------------------------
void run_latch() {
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(draw_uptime_us());
    SRLatch::Config cfg;
    cfg.low = (float)range(-20, 20);
    cfg.high = cfg.low + (float)draw(10);
    auto limit = [&]() -> i64 { return one_of<i64>({0, 0, 1, 50, 1000, 60000, 3600000}); };
    i64 min_on = limit(), min_off = limit(), max_on = limit(), max_off = limit();
    cfg.minimal_on_time = k_time_ms(min_on);
    cfg.minimal_off_time = k_time_ms(min_off);
    cfg.maximal_on_time = k_time_ms(max_on);
    cfg.maximal_off_time = k_time_ms(max_off);
    float lo = cfg.low, hi = cfg.high;
    u32 w_stuck = one_of<u32>({0, 2, 6}), w_nan = one_of<u32>({0, 0, 1}), w_edge = one_of<u32>({1, 4});
    i64 pace = one_of<i64>({10, 100, 1000, 20000});
    if (chance(200)) set_preemption(one_of<u32>({20, 200}), one_of<i64>({1000, 5000}));
    limit_steps((u32)one_of<i64>({15, 40, 120}));
    log("high=%g low=%g on %ld..%ld off %ld..%ld", (double)hi, (double)lo, (long)min_on, (long)max_on, (long)min_off,
        (long)max_off);
    i64 built_lo = now_ms();
    std::unique_ptr<SRLatch> latch;
    {
        Sut s;
        latch = std::make_unique<SRLatch>(std::move(cfg));
        latch->initialize();
    }
    arm();
    bool on = false;
    LatchModel model;
    model.lo = lo, model.hi = hi;
    model.min_on = min_on, model.max_on = max_on, model.min_off = min_off, model.max_off = max_off;
    model.since_lo = built_lo, model.since_hi = now_ms();
    float value = lo;
    u64 switches = 0;
    SIM_CHECK(!latch->response(), "latch:state", "a new latch is on");

    while (step()) {
        // time passes
        switch (pick({5, 2, 2, 1})) {
        case 0: advance_us((i64)draw((u64)pace * 1000)); break;
        case 1: { // exactly to where a time limit lies
            i64 l = on ? (flip() ? min_on : max_on) : (flip() ? min_off : max_off);
            i64 target = (model.since_hi + l) * 1000 + one_of<i64>({0, -1000, 1000, -1, 999});
            if (l && target > now_us()) advance_us(target - now_us());
            break;
        }
        case 2: break;
        case 3:
            advance_ms(range(1, 7200000));
            fault("stall");
            break;
        }
        switch (pick({4, w_stuck, w_edge, w_nan, 2})) {
        case 0: value = (float)range(-400, 400) / 10.0f; break;
        case 1: fault("sensor_stuck"); break;
        case 2:
            value = one_of<float>({hi, lo, std::nextafter(hi, 1e9f), std::nextafter(lo, -1e9f),
                                   std::nextafter(hi, -1e9f), std::nextafter(lo, 1e9f), (hi + lo) / 2});
            break;
        case 3:
            value = one_of<float>({NAN, INFINITY, -INFINITY});
            fault("sensor_unreadable");
            break;
        case 4: value = flip() ? hi + 1 : lo - 1; break;
        }
        i64 a = now_ms();
        bool before = on, got;
        {
            Sut s;
            latch->new_reading(value);
            got = latch->response();
        }
        i64 b = now_ms();
        model.reading(a, b, value, got);
        const i64 e_lo = model.e_lo, e_hi = model.e_hi, mn = model.mn, mx = model.mx;
        const bool may_switch = model.may_switch, may_keep = model.may_keep;
        log("reading %g after %ld ms %s -> %s", (double)value, (long)e_lo, before ? "on" : "off", got ? "on" : "off");
        SIM_CHECK(got == before || may_switch, e_hi < mn ? "latch:minimal" : "latch:unwanted",
                  "a reading of %g (low %g, high %g) turned it %s after %ld..%ld ms (limits %ld..%ld ms)",
                  (double)value, (double)lo, (double)hi, got ? "on" : "off", (long)e_lo, (long)e_hi, (long)mn,
                  (long)mx);
        SIM_CHECK(got != before || may_keep, mx && e_lo > mx ? "latch:maximal" : "latch:ignored",
                  "a reading of %g (low %g, high %g) left it %s after %ld..%ld ms (limits %ld..%ld ms)", (double)value,
                  (double)lo, (double)hi, got ? "on" : "off", (long)e_lo, (long)e_hi, (long)mn, (long)mx);
        if (got != before) {
            if (mx && e_lo > mx) probe("forced_by_maximal_time");
            on = got;
            ++switches;
        } else if ((before ? value < lo : value > hi) && e_hi < mn)
            probe("held_by_minimal_time");
        bool again;
        {
            Sut s;
            again = latch->response();
        }
        SIM_CHECK(again == on, "latch:state", "the response changed by itself");
        state((u64)on * 4096 + (u64)(e_lo < mn) * 2048 + (u64)(mx && e_lo > mx) * 1024 + (u64)(value > hi) * 512
              + (u64)(value < lo) * 256 + std::min<u64>(switches, 30));
    }
    if (switches) nontrivial();
    exhaust_heap(false);
}

// ---- PID
// --------------------------------------------------------------------------------------------------------------
void run_pid() {
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(draw_uptime_us());
    PID::Config cfg;
    bool gentle = !chance(300); // most of the time within the limits
    auto gain = [&]() -> float {
        return gentle ? one_of<float>({0.1f, 0, 0.01f, 1, 0.3f, 0.05f, 2})
                      : one_of<float>({1, 0, 0.1f, 20, 0.3f, 5, 300});
    };
    cfg.tunings = PID::Tunings{gain(), gain(), gain()};
    cfg.output_lower_limit = one_of<float>({0, -100, 10, -5000});
    cfg.output_upper_limit = cfg.output_lower_limit + one_of<float>({255, 1, 100, 10000});
    cfg.sample_interval = k_time_ms(one_of<i64>({100, 1, 10, 250, 1000, 30000}));
    cfg.proportionality = flip() ? PID::Proportionality::ON_MEASUREMENT : PID::Proportionality::ON_ERROR;
    cfg.direction = flip() ? PID::Direction::REVERSE : PID::Direction::FORWARD;
    i64 ts = cfg.sample_interval.raw();
    double lo = cfg.output_lower_limit, hi = cfg.output_upper_limit;
    bool reverse = cfg.direction == PID::Direction::REVERSE;
    // a clock of the caller's own, that runs ahead of the system's and may skip
    bool own_clock = chance(300);
    i64 skew = own_clock ? (i64)draw(100000) : 0;
    u32 p_spike = one_of<u32>({0, 50}), p_stuck = one_of<u32>({0, 100}), p_reinit = one_of<u32>({0, 30}),
        p_tune = one_of<u32>({0, 50}), p_move = one_of<u32>({0, 50});
    PID::Tunings given = cfg.tunings;
    i64 jitter = one_of<i64>({1, 3, 20});
    bool preempt = !own_clock && chance(150);
    limit_steps((u32)one_of<i64>({15, 40, 150}));

    auto law_gains = [&](Law& l, const PID::Tunings& t, bool on_error) {
        double s = (double)ts / 1000.0, sign = reverse ? -1 : 1;
        l.kp = sign * t.Kp;
        l.ki = sign * t.Ki * s;
        l.kd = sign * t.Kd / s;
        l.on_error = on_error;
    };
    std::vector<Law> laws(1); // what it may be doing (it is not specified when exactly the very first sample is due)
    law_gains(laws[0], cfg.tunings, cfg.proportionality == PID::Proportionality::ON_ERROR);
    laws[0].lo = lo;
    laws[0].hi = hi;
    laws[0].out = std::min(std::max(0.0, lo), hi);
    laws[0].sum = laws[0].out;
    log("Kp=%g Ki=%g Kd=%g limits %g..%g interval %ld %s %s%s", (double)cfg.tunings.Kp, (double)cfg.tunings.Ki,
        (double)cfg.tunings.Kd, lo, hi, (long)ts, reverse ? "reverse" : "forward",
        laws[0].on_error ? "on error" : "on measurement", own_clock ? " own clock" : "");
    i64 built = now_ms();
    std::unique_ptr<PID> pid;
    {
        Sut s;
        pid = std::make_unique<PID>(cfg);
        pid->initialize();
    }
    arm();
    if (preempt) set_preemption(100, 3000);
    float setpoint = 0, input = 0;
    float response;
    {
        Sut s;
        response = pid->response();
    }
    SIM_CHECK(response >= lo && response <= hi, "pid:limits", "the first response %g is not in %g..%g",
              (double)response, lo, hi);
    double process = (double)range(-50, 150);
    u64 computed = 0;

    while (step()) {
        if (chance(p_reinit)) {
            Sut s;
            pid->initialize();
            for (auto& l : laws) {
                // carries on from where it is
                l.sum = std::min(std::max((double)response, l.lo), l.hi);
                l.sum_err = 1e-6 * std::abs(l.sum);
                l.last_input = input;
            }
            Host h;
            float r = pid->response();
            SIM_CHECK(r == response, "pid:bump", "reinitialising changed the response from %g to %g", (double)response,
                      (double)r);
            probe("reinitialised");
            log("reinitialise");
        }
        if (chance(p_tune)) {
            PID::Tunings t{gain(), gain(), gain()};
            bool on_error = flip(), by_default = on_error && flip();
            {
                Sut s;
                if (by_default) pid->set_tunings(t);
                else
                    pid->set_tunings(t,
                                     on_error ? PID::Proportionality::ON_ERROR : PID::Proportionality::ON_MEASUREMENT);
            }
            for (auto& l : laws)
                law_gains(l, t, on_error);
            given = t;
            probe("retuned");
            log("retune Kp=%g Ki=%g Kd=%g %s", (double)t.Kp, (double)t.Ki, (double)t.Kd,
                on_error ? "on error" : "on measurement");
        }
        if (chance(100)) {
            setpoint = gentle ? (float)process + (float)range(-40, 40) / 10.0f : (float)range(-1000, 2000) / 10.0f;
            Sut s;
            pid->set_target_setpoint(setpoint);
            SIM_CHECK(pid->setpoint() == setpoint, "pid:setpoint", "the setpoint is %g", (double)pid->setpoint());
        }
        if (chance(p_move)) { // another place in memory, the earlier one is gone
            const bool assigned = flip();
            void* place = ::operator new(sizeof(PID));
            {
                Sut s;
                auto* moved = assigned ? new (place) PID(PID::Config(cfg)) : new (place) PID(std::move(*pid));
                if (assigned) *moved = *pid;
            }
            pid.reset(static_cast<PID*>(place));
            SIM_CHECK(pid->response() == response && pid->setpoint() == setpoint, "pid:moved",
                      "the response is %g after it was %g, the setpoint %g", (double)pid->response(), (double)response,
                      (double)pid->setpoint());
            probe("moved");
        }
        // time passes
        switch (pick({6, 2, 2, 1})) {
        case 0: advance_us(ts * 1000 + (i64)draw((u64)jitter * 1000)); break;
        case 1: advance_us((i64)draw((u64)ts * 1000)); break; // a burst of readings
        case 2: {
            i64 last = laws[0].computed ? laws[0].last - skew : built;
            i64 target = (last + ts) * 1000 + one_of<i64>({0, -1, -1000, 999});
            if (target > now_us()) advance_us(target - now_us());
            break;
        }
        case 3:
            advance_ms(range(1, 600000));
            fault("stall");
            break;
        }
        if (own_clock && chance(50)) {
            i64 d = range(0, 5000) - (flip() ? 3000 : 0);
            if (skew + d >= 0) skew += d;
            fault("clock_skips");
        }
        // the process reacts
        process += ((double)response - (lo + hi) / 2) / (hi - lo) * (gentle ? 1 : 5) + (double)range(-10, 10) / 10;
        // something holds the process near its setpoint
        if (gentle) process += (setpoint - process) * 0.3;
        if (!chance(p_stuck)) input = (float)process;
        else
            fault("sensor_stuck");
        if (chance(p_spike)) {
            input = one_of<float>({1e4f, -1e4f, 0, 85, -127});
            fault("sensor_spikes");
        }
        i64 a = now_ms() + skew;
        float before = response, error;
        PID::Tunings told{0};
        {
            Sut s;
            if (own_clock) pid->new_reading(input, k_time_ms(a));
            else
                pid->new_reading(input);
            response = pid->response();
            error = pid->error();
            told = pid->tunings();
        }
        SIM_CHECK(told == given && !(told == PID::Tunings{given.Kp + 1, given.Ki, given.Kd}), "pid:tunings",
                  "the tunings are said to be %g %g %g", (double)told.Kp, (double)told.Ki, (double)told.Kd);
        i64 b = now_ms() + skew;
        SIM_CHECK(response >= lo && response <= hi, "pid:limits", "the response %g is not in %g..%g", (double)response,
                  lo, hi);
        SIM_CHECK(std::abs((double)error - std::abs((double)setpoint - (double)input))
                      <= 1e-6 * (std::abs((double)setpoint) + std::abs((double)input)),
                  "pid:error", "the error of %g to %g is said to be %g", (double)input, (double)setpoint,
                  (double)error);
        std::vector<Law> next;
        bool any_must = false, any_may = false;
        double want = NAN, tol = 0;
        i64 last = laws[0].last;
        for (auto& l : laws) {
            bool must = l.computed ? a - l.last >= ts : a - (built + skew) >= ts;
            bool may = l.computed ? b - l.last >= ts : true;
            any_must |= must;
            any_may |= may;
            if (!must && response == before) next.push_back(l);
            if (may) {
                // (the moment is not known exactly when time passes meanwhile)
                for (i64 at : {a, b}) {
                    Law c = l;
                    c.compute(input, setpoint, at);
                    want = c.out;
                    tol = c.out_err;
                    if (c.matches(response)) next.push_back(c);
                    if (a == b) break;
                }
            }
        }
        log("reading %g setpoint %g after %ld ms -> %g", (double)input, (double)setpoint, (long)(a - last),
            (double)response);
        if (next.empty()) {
            SIM_CHECK(any_may, "pid:cadence",
                      "the response changed from %g to %g only %ld ms after it was computed, not %ld", (double)before,
                      (double)response, (long)(b - last), (long)ts);
            violate(any_must && response == before ? "pid:ignored" : "pid:law",
                    "the response to %g (setpoint %g) is %g instead of %g (+- %g)", (double)input, (double)setpoint,
                    (double)response, want, tol);
        }
        if (any_must) ++computed;
        if (next.size() > 64) next.resize(64);
        if (response == (float)lo || response == (float)hi) probe("saturated");
        laws = std::move(next);
        state((u64)(response == (float)lo) * 512 + (u64)(response == (float)hi) * 256 + (u64)any_must * 128
              + (u64)reverse * 64 + (u64)laws[0].on_error * 32 + (u64)(laws[0].ki != 0) * 16
              + (u64)(laws[0].kd != 0) * 8 + std::min<u64>(computed, 7));
    }
    if (computed) nontrivial();
    exhaust_heap(false);
}

/// The controller by itself: reconfigured at any moment, and sharing its output with somebody who takes over now and
/// then
void run_pidcore() {
    using Core = spn::controller::PIDController;
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(draw_uptime_us());
    bool gentle = !chance(300);
    auto gain = [&]() -> float {
        return gentle ? one_of<float>({0.1f, 0, 0.01f, 1, 0.3f, 0.05f, 2})
                      : one_of<float>({1, 0, 0.1f, 20, 0.3f, 5, 300});
    };
    float input = 0, output = one_of<float>({0, 0, 50, -20}), setpoint = 0;
    float kp = gain(), ki = gain(), kd = gain();
    bool on_error = flip(), reverse = flip();
    i64 ts = 100; // unless set otherwise
    u32 p_limits = one_of<u32>({50, 0, 200}), p_tune = one_of<u32>({0, 50}), p_ts = one_of<u32>({0, 30}),
        p_direction = one_of<u32>({0, 20}), p_manual = one_of<u32>({0, 50}), p_spike = one_of<u32>({0, 50});
    limit_steps((u32)one_of<i64>({15, 40, 120}));
    Law law;
    law.on_error = on_error;
    law.lo = 0;
    law.hi = 255;
    law.out = output;
    auto gains = [&] {
        double t = (double)ts / 1000.0, sign = reverse ? -1 : 1;
        law.kp = sign * kp;
        law.ki = sign * ki * t;
        law.kd = sign * kd / t;
    };
    gains();
    std::unique_ptr<Core> core;
    i64 built = now_ms();
    {
        Sut s;
        core =
            std::make_unique<Core>(&input, &output, &setpoint, kp, ki, kd,
                                   on_error ? Core::Proportionality::ON_ERROR : Core::Proportionality::ON_MEASUREMENT,
                                   reverse ? Core::Direction::REVERSE : Core::Direction::FORWARD);
    }
    arm();
    log("Kp=%g Ki=%g Kd=%g %s %s output %g", (double)kp, (double)ki, (double)kd, reverse ? "reverse" : "forward",
        on_error ? "on error" : "on measurement", (double)output);
    auto clamp_sum = [&](double lo, double hi) {
        if (law.sum > hi) law.sum_err = std::max(0.0, law.sum_err - (law.sum - hi)), law.sum = hi;
        if (law.sum < lo) law.sum_err = std::max(0.0, law.sum_err - (lo - law.sum)), law.sum = lo;
    };
    auto limits = [&](float lo, float hi) {
        float before = output;
        {
            Sut s;
            core->set_output_limits(lo, hi);
        }
        log("limits %g..%g", (double)lo, (double)hi);
        if (lo >= hi) {
            fault("senseless_limits");
            SIM_CHECK(output == before, "pid:limits", "limits of %g..%g changed the response from %g to %g", (double)lo,
                      (double)hi, (double)before, (double)output);
            return;
        }
        law.lo = lo;
        law.hi = hi;
        clamp_sum(lo, hi);
        float want = std::min(std::max(before, lo), hi);
        SIM_CHECK(output == want, "pid:limits", "limits of %g..%g made %g of a response of %g", (double)lo, (double)hi,
                  (double)output, (double)before);
        law.out = output;
        probe("limits_changed");
    };
    auto initialize = [&] {
        float before = output;
        {
            Sut s;
            core->initialize();
        }
        SIM_CHECK(output == before, "pid:bump", "reinitialising changed the response from %g to %g", (double)before,
                  (double)output);
        law.sum = std::min(std::max((double)output, law.lo), law.hi);
        law.sum_err = 1e-6 * std::abs(law.sum);
        law.last_input = input;
    };
    if (flip()) limits(one_of<float>({0, -100, 10}), one_of<float>({255, 100, 11}));
    if (flip()) {
        Sut s;
        core->set_sampling_time(k_time_ms(ts = one_of<i64>({100, 1000, 10, 250, 5000})));
        gains();
    }
    initialize();
    double process = (double)range(-50, 150);
    i64 skew = 0;
    u64 computed = 0;

    while (step()) {
        if (chance(p_limits)) {
            float lo = one_of<float>({0, -100, 10, 60, -5000, output - 5});
            limits(lo, chance(30) ? lo - (float)draw(3) : lo + one_of<float>({255, 1, 40, 100, 10000}));
        }
        if (chance(p_tune)) {
            kp = gain(), ki = gain(), kd = gain();
            law.on_error = flip();
            {
                Sut s;
                core->set_tunings(
                    kp, ki, kd, law.on_error ? Core::Proportionality::ON_ERROR : Core::Proportionality::ON_MEASUREMENT);
            }
            gains();
            law.rel = 0;
            log("retune Kp=%g Ki=%g Kd=%g %s", (double)kp, (double)ki, (double)kd,
                law.on_error ? "on error" : "on measurement");
            probe("retuned");
        }
        if (chance(p_ts)) {
            i64 t = one_of<i64>({100, 1000, 10, 250, 5000, 0, -5});
            {
                Sut s;
                core->set_sampling_time(k_time_ms(t));
            }
            if (t > 0) {
                ts = t;
                gains();
                law.rel += 5e-7;
            } else
                fault("senseless_sampling_time");
            log("sampling time %ld", (long)t);
        }
        if (chance(p_direction)) {
            reverse = flip();
            {
                Sut s;
                core->set_controller_direction(reverse ? Core::Direction::REVERSE : Core::Direction::FORWARD);
            }
            gains();
            log("direction %s", reverse ? "reverse" : "forward");
        }
        if (chance(p_manual)) { // somebody takes over, and hands back
            output = (float)range(-300, 600) / 2.0f;
            law.out = output;
            fault("taken_over");
            log("somebody sets the output to %g", (double)output);
            initialize();
        }
        switch (pick({6, 2, 2, 1})) {
        case 0: advance_us(ts * 1000 + (i64)draw(5000)); break;
        case 1: advance_us((i64)draw((u64)ts * 1000)); break;
        case 2: {
            i64 target = ((law.computed ? law.last - skew : built) + ts) * 1000 + one_of<i64>({0, -1, -1000, 999});
            if (target > now_us()) advance_us(target - now_us());
            break;
        }
        case 3:
            advance_ms(range(1, 600000));
            fault("stall");
            break;
        }
        if (chance(20)) {
            skew += range(0, 5000);
            fault("clock_skips");
        }
        if (chance(100))
            setpoint = gentle ? (float)process + (float)range(-40, 40) / 10.0f : (float)range(-1000, 2000) / 10.0f;
        process += ((double)output - (law.lo + law.hi) / 2) / (law.hi - law.lo) * (gentle ? 1 : 5)
                   + (double)range(-10, 10) / 10;
        process = std::min(std::max(process, -1e4), 1e4);
        if (gentle) process += (setpoint - process) * 0.3;
        input = (float)process;
        if (chance(p_spike)) {
            input = one_of<float>({1e4f, -1e4f, 0, 85, -127});
            fault("sensor_spikes");
        }
        i64 now = now_ms() + skew;
        float before = output;
        bool did;
        {
            Sut s;
            did = core->update(k_time_ms(now));
        }
        // (when exactly the very first one is due is not specified)
        bool must = now - (law.computed ? law.last : built + skew) >= ts;
        SIM_CHECK(did || !must, "pid:ignored",
                  "a reading %ld ms after the previous computation is ignored, the interval is %ld",
                  (long)(now - law.last), (long)ts);
        SIM_CHECK(!did || must || !law.computed, "pid:cadence", "computed only %ld ms after the previous time, not %ld",
                  (long)(now - law.last), (long)ts);
        log("reading %g setpoint %g -> %g%s", (double)input, (double)setpoint, (double)output, did ? "" : " (not due)");
        if (!did) {
            SIM_CHECK(output == before, "pid:cadence", "the response changed from %g to %g without being computed",
                      (double)before, (double)output);
            continue;
        }
        law.compute(input, setpoint, now);
        SIM_CHECK(output >= law.lo && output <= law.hi, "pid:limits", "the response %g is not in %g..%g",
                  (double)output, law.lo, law.hi);
        SIM_CHECK(law.matches(output), "pid:law", "the response to %g (setpoint %g) is %g instead of %g (+- %g)",
                  (double)input, (double)setpoint, (double)output, law.out, law.out_err);
        ++computed;
        state(1024 + (u64)(output == (float)law.lo) * 512 + (u64)(output == (float)law.hi) * 256 + (u64)reverse * 64
              + (u64)law.on_error * 32 + std::min<u64>(computed, 15));
    }
    if (computed) nontrivial();
    exhaust_heap(false);
}

// ---- autotuning
// -------------------------------------------------------------------------------------------------------
struct Tuning {
    PID::Config cfg;
    PID::TuneConfig tc;
    i64 ts;
    float lower, upper;

    // the simulated process
    double temperature, ambient, gain, tau, dead, sensor_lag;
    double sensor;
    double drive = 0; // 0..1
    std::vector<std::pair<i64, double>> drive_history; // dead time
    i64 last_us;
    i64 started_us;

    // faults
    double noise;
    u32 p_slow_sensor, p_slow_sleep, p_stuck, w_steps;
    int draws_left = 20000; // later on nothing is left to chance
    bool stuck_forever = false;
    float stuck_value = 0;
    i64 heals_us = 0;

    // history
    bool own_clock;
    i64 epoch_us = 0;
    enum Phase { PREHEAT, TUNE } phase = PREHEAT;
    bool have_reading = false;
    float reading = 0;
    i64 reading_ms = 0, iteration_ms = -1;
    u64 setter_calls = 0, loop_calls = 0;
    bool finished = false, returned = false;
    i64 slowness_us = 0, slack_us = 0; // time taken by others since the previous iteration

    // relay
    bool out_on = true;
    i64 t1 = 0, t2 = 0, t_high = 0, t_low = 0;
    double mx = -1e12, mn = 1e12;
    int cycle = 0;
    double kp = 0, ki = 0, kd = 0, sp = 0, si = 0, sd = 0;
    bool tune_started = false;
    float last_set = NAN;
    i64 preheat_end_ms = -1;
    i64 preheat_start_ms = -1;

    void evolve() {
        i64 now = now_us();
        double dt = (double)(now - last_us) / 1e6;
        last_us = now;
        while (dt > 0) {
            double h = std::min(dt, tau / 20);
            double u = drive;
            if (dead > 0) {
                u = 0;
                for (auto& p : drive_history)
                    if (p.first <= now - (i64)(dead * 1e6)) u = p.second;
            }
            temperature += h / tau * (ambient + gain * u - temperature);
            sensor += sensor_lag > 0 ? std::min(1.0, h / sensor_lag) * (temperature - sensor) : temperature - sensor;
            dt -= h;
        }
        if (drive_history.size() > 400) drive_history.erase(drive_history.begin(), drive_history.begin() + 200);
    }
    i64 clock_ms() const { return (now_us() - epoch_us) / 1000; }
};
Tuning* T;

float tuning_get() {
    Host h;
    Tuning& t = *T;
    step();
    t.evolve();
    t.reading_ms = t.clock_ms();
    t.slack_us = t.slowness_us;
    t.slowness_us = 0;
    bool stuck = t.stuck_forever && now_us() < t.heals_us;
    if (t.p_slow_sensor && t.draws_left-- > 0 && chance(t.p_slow_sensor)) {
        i64 us = (i64)draw(3000000);
        advance_us(us);
        t.slowness_us += us;
        fault("sensor_is_slow");
    }
    float v = (float)t.sensor;
    if (stuck) {
        v = t.stuck_value;
        fault("sensor_stuck");
    } else if (t.noise > 0 && t.draws_left-- > 0)
        v += (float)(t.noise * ((double)draw(2001) - 1000.0) / 1000.0);
    t.reading = v;
    t.have_reading = true;
    return v;
}

i64 tuning_uptime() {
    Host h;
    return T->clock_ms();
}

// one reading led to one output
void tuning_relay(float value) {
    Tuning& t = *T;
    i64 ms = t.reading_ms;
    double in = t.reading, target = t.tc.setpoint, hyst = std::abs((double)t.tc.hysteresis);
    float up = t.tc.setpoint + std::abs(t.tc.hysteresis), down = t.tc.setpoint - std::abs(t.tc.hysteresis);
    if (t.iteration_ms >= 0) {
        i64 gap = ms - t.iteration_ms;
        SIM_CHECK(gap >= t.ts, "tune:cadence", "a sample was taken %ld ms after the previous one, not %ld", (long)gap,
                  (long)t.ts);
        i64 slack = t.slack_us / 1000 + 3;
        SIM_CHECK(gap <= t.ts + slack, "tune:cadence", "a sample was taken %ld ms after the previous one, not %ld",
                  (long)gap, (long)t.ts);
    }
    t.iteration_ms = ms;
    if (!t.tune_started) {
        t.tune_started = true;
    }
    t.mx = std::max(t.mx, in);
    t.mn = std::min(t.mn, in);
    if (t.out_on && t.reading > up) {
        t.out_on = false;
        t.t1 = ms;
        t.t_high = t.t1 - t.t2;
        t.mx = target;
        (void)hyst;
    } else if (!t.out_on && t.reading < down) {
        t.out_on = true;
        t.t2 = ms;
        t.t_low = t.t2 - t.t1;
        double ku = 4.0 * (((double)t.upper - (double)t.lower) / 2.0) / (M_PI * (t.mx - t.mn) / 2.0);
        double tu = (double)(t.t_low + t.t_high);
        double a = 0.2, ti = 0.5, td = 0.33;
        if (t.tc.aggressiveness == spn::controller::PIDAutotuner::Aggressiveness::BasicPID) a = 0.6, td = 0.125;
        if (t.tc.aggressiveness == spn::controller::PIDAutotuner::Aggressiveness::LessOvershoot) a = 0.33;
        t.kp = a * ku;
        t.ki = t.kp / (ti * tu) * (double)t.ts;
        t.kd = td * t.kp * tu / (double)t.ts;
        if (t.cycle > 1) {
            t.sp += t.kp;
            t.si += t.ki;
            t.sd += t.kd;
        }
        t.mn = target;
        ++t.cycle;
        probe("cycle");
    }
    bool done = t.cycle >= t.tc.cycles;
    float want = done || !t.out_on ? t.lower : t.upper;
    SIM_CHECK(value == want, "tune:relay",
              "a reading of %g (setpoint %g, hysteresis %g) led to output %g instead of %g", in, target, hyst,
              (double)value, (double)want);
    t.finished = done;
}

void tuning_set(float value) {
    Host h;
    Tuning& t = *T;
    t.evolve();
    ++t.setter_calls;
    i64 now = t.clock_ms();
    bool final_off = t.finished && value == 0;
    SIM_CHECK(value == t.lower || value == t.upper || final_off, "tune:limits",
              "the process was driven with %g, which is not %g or %g", (double)value, (double)t.lower, (double)t.upper);
    if (final_off) {
        t.returned = true;
        log("turned off at the end");
    } else if (t.phase == Tuning::PREHEAT) {
        // heats until the starting point is reached, or time is up
        if (t.preheat_start_ms < 0) t.preheat_start_ms = now;
        if (value == t.upper) {
            SIM_CHECK(t.have_reading && t.reading < t.tc.startpoint, "tune:preheat",
                      "it preheats although %g was read (starting point %g)", (double)t.reading,
                      (double)t.tc.startpoint);
            i64 spent = now - t.preheat_start_ms;
            SIM_CHECK(spent <= 1800000 + 6000, "tune:preheat", "it still preheats after %ld s", (long)(spent / 1000));
        } else {
            t.phase = Tuning::TUNE;
            i64 spent = now - t.preheat_start_ms;
            if (t.reading < t.tc.startpoint) {
                probe("preheating_timed_out");
                SIM_CHECK(spent + 6000 >= 1800000, "tune:preheat", "preheating stopped at %g instead of %g after %ld s",
                          (double)t.reading, (double)t.tc.startpoint, (long)(spent / 1000));
            } else
                probe("preheated");
            log("preheated to %g", (double)t.reading);
        }
        t.have_reading = false;
    } else {
        SIM_CHECK(t.have_reading, "tune:relay", "the output was set without a new reading");
        SIM_CHECK(!t.finished, "tune:cycles", "it goes on after %d cycles", t.cycle);
        bool was = t.out_on;
        if (!t.tune_started) {
            // the tuning loop starts with the output on, at the last moment that was asked for
            t.t1 = t.t2 = t.reading_ms;
        }
        tuning_relay(value);
        if (was != t.out_on)
            log("reading %g turns it %s (cycle %d)", (double)t.reading, t.out_on ? "on" : "off", t.cycle);
        t.have_reading = false;
    }
    if (value != t.last_set) log("output %g", (double)value);
    t.last_set = value;
    double u = t.returned ? 0 : value == t.upper ? 1 : 0;
    if (u != t.drive) t.drive_history.emplace_back(now_us(), u);
    t.drive = u;
    state((u64)t.phase * 4096 + (u64)t.out_on * 2048 + std::min<u64>(t.cycle, 20) * 64
          + (u64)(t.reading > t.tc.setpoint) * 32 + (u64)(value == t.upper) * 16);
}

void tuning_sleep(i64 ms) {
    Host h;
    Tuning& t = *T;
    SIM_CHECK(ms >= 0, "tune:sleep", "it sleeps for %ld ms", (long)ms);
    advance_ms(ms);
    if (t.p_slow_sleep && t.draws_left-- > 0 && chance(t.p_slow_sleep)) {
        i64 us = (i64)draw(50000);
        advance_us(us);
        t.slowness_us += us;
        fault("overslept");
    }
    const i64 hours = 40 + t.tc.cycles;
    if (now_us() - t.started_us > hours * 3600 * 1000000)
        violate("tune:endless", "tuning takes more than %ld hours (%d of %d cycles)", (long)hours, t.cycle, t.tc.cycles);
}

void run_autotune() {
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(draw_uptime_us());
    Tuning t;
    T = &t;
    t.cfg.output_lower_limit = one_of<float>({0, 0, 10, -100});
    t.cfg.output_upper_limit = t.cfg.output_lower_limit + one_of<float>({255, 1, 100});
    t.cfg.sample_interval = k_time_ms(t.ts = one_of<i64>({1000, 100, 250, 5000}));
    t.lower = t.cfg.output_lower_limit;
    t.upper = t.cfg.output_upper_limit;
    t.tau = (double)t.ts / 1000.0 * (double)range(3, 20);
    t.ambient = (double)range(0, 25);
    t.gain = (double)range(50, 300);
    t.dead = flip() ? 0 : t.tau * 0.2;
    t.sensor_lag = flip() ? 0 : t.tau * 0.3;
    t.temperature = t.sensor = t.ambient;
    t.tc.setpoint = (float)(t.ambient + t.gain * (double)range(3, 7) / 10.0);
    t.tc.hysteresis = one_of<float>({0.01f, 0, 0.5f, 2, -1});
    t.tc.cycles = (int)one_of<i64>({3, 1, 2, 4, 5, 10});
    if (chance(15)) t.tc.cycles = (int)one_of<i64>({40, 130, 260}); // hours of it
    t.tc.aggressiveness = one_of<spn::controller::PIDAutotuner::Aggressiveness>(
        {spn::controller::PIDAutotuner::Aggressiveness::LessOvershoot,
         spn::controller::PIDAutotuner::Aggressiveness::BasicPID,
         spn::controller::PIDAutotuner::Aggressiveness::NoOvershoot});
    t.tc.satured_at_start = flip();
    t.tc.startpoint = 0;
    if (flip()) t.tc.startpoint = t.tc.setpoint * (float)range(5, 12) / 10.0f;
    if (chance(100)) t.tc.startpoint = -5; // no starting point either
    if (chance(300)) { // a room that is hot already
        t.temperature = t.sensor = (double)t.tc.setpoint + (double)range(-5, 20);
    }
    t.noise = one_of<double>({0, 0, 0.05, 1});
    t.p_slow_sensor = one_of<u32>({0, 0, 20});
    t.p_slow_sleep = one_of<u32>({0, 0, 2});
    t.own_clock = flip();
    t.epoch_us = t.own_clock ? now_us() / 1000 * 1000 - one_of<i64>({0, 12345000}) : 0;
    if (t.tc.startpoint > 0 && chance(150)) {
        t.stuck_forever = true;
        t.stuck_value = flip() ? -127.0f : (float)t.ambient;
        t.heals_us = now_us() + (flip() ? range(60, 1700) : 1800 + range(0, 30) * t.ts / 1000) * 1000000;
    }
    t.last_us = t.started_us = now_us();
    t.drive_history.emplace_back(0, 0.0);
    if (!(t.tc.startpoint > 0)) t.phase = Tuning::TUNE;
    bool with_loop = flip();
    u64 loops = 0;
    limit_steps((u32)one_of<i64>({40, 150, 400}));
    log("limits %g..%g interval %ld setpoint %g start %g hysteresis %g cycles %d tau %.1f%s", (double)t.lower,
        (double)t.upper, (long)t.ts, (double)t.tc.setpoint, (double)t.tc.startpoint, (double)t.tc.hysteresis,
        t.tc.cycles, t.tau, t.own_clock ? " own clock" : "");
    std::unique_ptr<PID> pid;
    PID::Tunings result;
    {
        Sut s;
        pid = std::make_unique<PID>(t.cfg);
        pid->initialize();
    }
    i64 begin = tuning_uptime();
    t.preheat_start_ms = begin;
    if (t.phase == Tuning::TUNE) t.iteration_ms = -1;
    {
        Sut s;
        std::function<void()> loop;
        if (with_loop) loop = [&loops] { ++loops; };
        if (t.own_clock)
            result = pid->autotune(
                t.tc, tuning_set, tuning_get, loop, [] { return k_time_ms(tuning_uptime()); },
                [](k_time_ms ms) { tuning_sleep(ms.raw()); });
        else // the system's clock
            result = pid->autotune(t.tc, tuning_set, tuning_get, loop);
    }
    SIM_CHECK(t.cycle == t.tc.cycles, "tune:cycles", "it ended after %d instead of %d cycles", t.cycle, t.tc.cycles);
    SIM_CHECK(t.returned, "tune:off", "the process was not turned off at the end, the last output was %g",
              (double)t.last_set);
    double n = t.cycle - 2;
    double kp = t.cycle > 2 ? t.sp / n : t.kp, ki = t.cycle > 2 ? t.si / n : t.ki, kd = t.cycle > 2 ? t.sd / n : t.kd;
    auto near = [](double a, double b) { return std::abs(a - b) <= 2e-3 * std::abs(b) + 1e-9; };
    log("gains %g %g %g", (double)result.Kp, (double)result.Ki, (double)result.Kd);
    SIM_CHECK(near(result.Kp, kp) && near(result.Ki, ki) && near(result.Kd, kd), "tune:gains",
              "the gains are %g, %g, %g instead of %g, %g, %g after %d cycles", (double)result.Kp, (double)result.Ki,
              (double)result.Kd, kp, ki, kd, t.cycle);
    if (with_loop) SIM_CHECK(loops > 0, "tune:loop", "the loop callback was never called");
    nontrivial();
}

} // namespace

SIM_SCENARIO(latch) { run_latch(); }
SIM_SCENARIO(pid) { run_pid(); }
SIM_SCENARIO(pidcore) { run_pidcore(); }
SIM_SCENARIO(autotune) { run_autotune(); }
