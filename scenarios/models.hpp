// Reference models that more than one scenario uses.
#pragma once

#include "sim.hpp"

#include <algorithm>
#include <cmath>
#include <vector>

namespace sim {

/// What a latch may be doing, given that the moments at which it looked at the clock are only known to lie in a window
struct LatchModel {
    double lo, hi;
    i64 min_on = 0, max_on = 0, min_off = 0, max_off = 0; // ms, 0 for none
    i64 since_lo = 0, since_hi = 0; // when it entered its state
    bool on = false, startup = true;

    // about the last reading
    i64 e_lo = 0, e_hi = 0, mn = 0, mx = 0; // how long it had been in its state, and the limits of that
    bool may_keep = false, may_switch = false;

    /// A reading between the moments `a` and `b` after which it was `got`
    void reading(i64 a, i64 b, float value, bool got) {
        e_lo = a - since_hi, e_hi = b - since_lo;
        mn = on ? min_on : min_off, mx = on ? max_on : max_off;
        may_keep = may_switch = false;
        auto consider = [&](i64 e) {
            if (e < e_lo || e > e_hi) return;
            if (e < mn && !startup) {
                may_keep = true;
                return;
            }
            if (mx && e > mx) {
                may_switch = true;
                return;
            }
            bool wants = on ? (double)value < lo : (double)value > hi;
            (wants ? may_switch : may_keep) = true;
        };
        for (i64 e : {e_lo, e_hi, mn, mn - 1, mx, mx + 1})
            consider(e);
        if (startup && !on) {
            // since when a new latch is off is not known
            if (mx && e_hi + min_off >= mx) may_switch = true;
            // whether it has to wait before turning on for the first time is not specified either
            if (min_off && e_lo < min_off) may_keep = true;
        }
        if (got != on) {
            on = got;
            since_lo = a;
            since_hi = b;
            startup = false;
        }
    }
};

struct Law { // what a PID controller should do
    double kp, ki, kd; // signed, per sample
    bool on_error;
    double lo, hi;
    double sum = 0, sum_err = 0; // the integral and how far rounding may have taken it away
    double last_input = 0;
    double out = 0, out_err = 0;
    bool computed = false;
    i64 last = 0;
    double rel = 0; // by how much rounding may have changed the gains

    void compute(double input, double setpoint, i64 now) {
        const double eps = 2e-6 + rel;
        double e = setpoint - input, e_err = 1.2e-7 * (std::abs(setpoint) + std::abs(input));
        double d = input - last_input, d_err = 1.2e-7 * (std::abs(input) + std::abs(last_input));
        sum += ki * e;
        sum_err += std::abs(ki) * e_err + eps * (std::abs(ki * e) + std::abs(sum));
        if (!on_error) {
            sum -= kp * d;
            sum_err += std::abs(kp) * d_err + eps * (std::abs(kp * d) + std::abs(sum));
        }
        if (sum > hi) {
            // (the actual one may be just within the limit)
            sum_err = std::max(0.0, sum_err - (sum - hi));
            sum = hi;
        } else if (sum < lo) {
            sum_err = std::max(0.0, sum_err - (lo - sum));
            sum = lo;
        }
        out = sum - kd * d;
        out_err = sum_err + std::abs(kd) * d_err + eps * (std::abs(kd * d) + std::abs(sum));
        if (on_error) {
            out += kp * e;
            out_err += std::abs(kp) * e_err + eps * std::abs(kp * e);
        }
        if (out > hi) out = hi;
        if (out < lo) out = lo;
        out_err += 1e-6 * (std::abs(hi) + std::abs(lo)) + 1e-9;
        last_input = input;
        computed = true;
        last = now;
    }
    bool matches(double response) const { return std::abs(response - out) <= out_err; }
};

} // namespace sim
