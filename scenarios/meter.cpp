// Scenario: a device that meters. Periods on its clock, volumes that pulses of
// a flow meter stand for, energy and rates are added up, compared with limits
// and reported, in whichever units its parts hold them, while it stalls, its
// handlers are slow and its counters start over. Decides C26.
#include "sim.hpp"
#include "spine/core/debugging.hpp"
#include "spine/core/logging.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/units/primitives/compound_unit.hpp"
#include "spine/structure/units/si.hpp"

#include <cmath>
#include <limits>
#include <memory>
#include <tuple>
#include <utility>

using namespace sim;
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;
using Real = long double;
using Held = spn::structure::units::RealRawType;

namespace {

struct Unwound {};
/// Errors unwind: nothing is divided by zero then
struct Handler : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception& e) override {
        {
            Host host;
            thrown().push_back(Thrown{e.error_type(), e.what()});
        }
        throw Unwound();
    }
};

/// Carries out what may raise an error; did it?
template<typename F>
bool raises(F&& f) {
    const size_t before = thrown().size();
    bool unwound = false;
    try {
        f();
    } catch (const Unwound&) {
        unwound = true;
    }
    Host h;
    SIM_CHECK(thrown().size() - before == (unwound ? 1 : 0), "units:error", "%zu errors were raised",
              thrown().size() - before);
    if (!unwound) return false;
    SIM_CHECK(thrown().back().what == "tried to divide by zero", "units:error", "the error is '%s'",
              thrown().back().what.c_str());
    thrown().pop_back();
    probe("divided_by_zero");
    return true;
}

void settled(const char* where) {
    Host h;
    SIM_CHECK(thrown().empty(), "units:error", "%s raised an error: %s", where,
              thrown().empty() ? "" : thrown().front().what.c_str());
}

// ---- whole numbers: periods of the clock
// -----------------------------------------------------------------------------
using Clock = std::tuple<k_time_us, k_time_ms, k_time_s, k_time_m, k_time_h, k_time_d>;
constexpr i64 US[] = {1, 1000, 1000000, 60000000, 3600000000, 86400000000};
constexpr const char* CLOCK_NAMES[] = {"us", "ms", "s", "m", "h", "d"};
constexpr __int128 CLOCK_MOST = (__int128)1 << 58; // us, some 9000 years

/// Amounts of another unit that come to this many: the nearest, either one when
/// it lies halfway
struct Nearest {
    i64 lo, hi;
    bool exact;
    bool has(i64 x) const { return x == lo || x == hi; }
};
Nearest nearest(i64 raw, i64 from, i64 to) {
    const __int128 v = (__int128)raw * from;
    __int128 q = v / to, r = v % to;
    if (r < 0) r += to, --q;
    Nearest n{(i64)q, (i64)q, r == 0};
    if (2 * r > to) n.lo = n.hi = (i64)q + 1;
    else if (2 * r == to)
        n.hi = (i64)q + 1;
    return n;
}

/// Calls f with the elements i and j of a tuple
template<typename T, typename F, size_t... I>
void at_impl(T& t, size_t i, F&& f, std::index_sequence<I...>) {
    (void)((I == i ? (f(std::get<I>(t)), true) : false) || ...);
}
template<typename T, typename F>
void at(T& t, size_t i, F&& f) {
    at_impl(t, i, std::forward<F>(f), std::make_index_sequence<std::tuple_size_v<T>>());
}

i64 draw_amount() { // in us
    i64 v;
    switch (pick({4, 3, 2, 2})) {
    case 0: v = (i64)draw(100000000); break;
    case 1: v = (i64)draw(86400000000000); break;
    case 2: v = (i64)draw((u64)CLOCK_MOST / 8); break;
    default: // around half of a unit
        v = US[draw(6)] * range(0, 400) + US[draw(6)] / 2 + range(-1, 1);
        break;
    }
    return chance(250) ? -v : v;
}

struct ClockLedger {
    Clock regs;
    i64 raw[6] = {};

    i64 is(size_t i) {
        i64 v = 0;
        at(regs, i, [&](auto& r) { v = r.raw(); });
        return v;
    }
    /// Takes over what it is when that is allowed
    void expect(size_t i, i64 lo, i64 hi, const char* what, size_t j) {
        const i64 v = is(i);
        Host h;
        SIM_CHECK(v == lo || v == hi, "units:whole", "%s: %ld %s with %ld %s gives %ld instead of %ld", what,
                  (long)raw[i], CLOCK_NAMES[i], (long)raw[j], CLOCK_NAMES[j], (long)v, (long)lo);
        raw[i] = v;
    }

    void work() {
        size_t i, j, what;
        i64 amount, scalar;
        bool negative = false;
        {
            Host h;
            i = draw(6), j = draw(6), what = draw(12), amount = draw_amount(), scalar = range(-20, 20);
            log("clock %zu: %s=%ld %s=%ld amount=%ld scalar=%ld", what, CLOCK_NAMES[i], (long)raw[i], CLOCK_NAMES[j],
                (long)raw[j], (long)amount, (long)scalar);
        }
        const Nearest n = nearest(raw[j], US[j], US[i]);
        const __int128 vi = (__int128)raw[i] * US[i], vj = (__int128)raw[j] * US[j];
        auto fits = [](__int128 v) { return v < CLOCK_MOST && v > -CLOCK_MOST; };
        switch (what) {
        case 0: // a new amount
            at(regs, i, [&](auto& r) { r = std::decay_t<decltype(r)>(amount / US[i]); });
            SIM_CHECK(is(i) == amount / US[i], "units:whole", "%ld %s is set to %ld", (long)(amount / US[i]),
                      CLOCK_NAMES[i], (long)is(i));
            raw[i] = is(i);
            break;
        case 1: // the same in another unit
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { r = o; }); });
            expect(i, n.lo, n.hi, "assigning", j);
            if (!n.exact) probe("rounded");
            if (!n.exact && n.lo != n.hi) probe("halfway");
            break;
        case 2:
            at(regs, i, [&](auto& r) {
                at(regs, j, [&](auto& o) {
                    std::decay_t<decltype(r)> c(o);
                    r = std::move(c);
                });
            });
            expect(i, n.lo, n.hi, "constructing", j);
            break;
        case 3: // and that of a temporary
            at(regs, i, [&](auto& r) {
                at(regs, j, [&](auto& o) {
                    auto copy = o;
                    r = std::move(copy);
                });
            });
            expect(i, n.lo, n.hi, "moving", j);
            break;
        case 4:
            if (!fits(vi + vj)) break;
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { r += o; }); });
            expect(i, raw[i] + n.lo, raw[i] + n.hi, "adding", j);
            break;
        case 5:
            if (!fits(vi + vj)) break;
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { r = r + o; }); });
            expect(i, raw[i] + n.lo, raw[i] + n.hi, "sum", j);
            break;
        case 6:
            if (!fits(vi - vj)) break;
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { r -= o; }); });
            expect(i, raw[i] - n.lo, raw[i] - n.hi, "subtracting", j);
            break;
        case 7:
            if (!fits(vi - vj)) break;
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { r = r - o; }); });
            expect(i, raw[i] - n.lo, raw[i] - n.hi, "difference", j);
            break;
        case 8: { // scaling
            size_t how;
            {
                Host h;
                how = draw(6);
            }
            if (how < 2 && !fits(vi * scalar)) break;
            bool raised = false;
            if (how == 5) { // by a real number
                double f;
                bool divide;
                {
                    Host h;
                    divide = flip(), f = (double)range(1, 4000) / 1024;
                    if (chance(100)) f = 0;
                }
                at(regs, i, [&](auto& r) {
                    if (divide) raised = raises([&] { r /= f; });
                    else
                        r *= f;
                });
                const bool zero = divide && f == 0;
                SIM_CHECK(raised == zero, "units:error", "dividing %ld %s by %g %s an error", (long)raw[i],
                          CLOCK_NAMES[i], f, raised ? "raised" : "didn't raise");
                const Real w = zero ? (Real)raw[i] : divide ? raw[i] / (Real)f : raw[i] * (Real)f;
                SIM_CHECK(fabsl(is(i) - w) <= (zero ? 0 : 1 + fabsl(w) * 1e-6L), "units:whole",
                          "scaling %ld %s by %g (%d) gives %ld instead of %Lg", (long)raw[i], CLOCK_NAMES[i], f, divide,
                          (long)is(i), w);
                raw[i] = is(i);
                break;
            }
            const int s = (int)scalar;
            at(regs, i, [&](auto& r) {
                if (how == 0) r = r * s;
                else if (how == 1)
                    r *= s;
                else if (how == 2)
                    raised = raises([&] { r = r / s; });
                else if (how == 3)
                    raised = raises([&] { r /= s; });
                else
                    r = -r;
            });
            const bool zero = (how == 2 || how == 3) && s == 0;
            SIM_CHECK(raised == zero, "units:error", "dividing %ld %s by %d %s an error", (long)raw[i], CLOCK_NAMES[i],
                      s, raised ? "raised" : "didn't raise");
            const i64 w = zero ? raw[i] : how < 2 ? raw[i] * s : how == 4 ? -raw[i] : raw[i] / s;
            SIM_CHECK(is(i) == w, "units:whole", "scaling %ld %s by %d (%zu) gives %ld instead of %ld", (long)raw[i],
                      CLOCK_NAMES[i], s, how, (long)is(i), (long)w);
            raw[i] = is(i);
            break;
        }
        case 9: { // how often one goes into the other
            i64 q = 0;
            bool raised = false;
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { raised = raises([&] { q = (r / o).raw(); }); }); });
            const bool may = n.has(0), must = n.lo == 0 && n.hi == 0;
            SIM_CHECK(raised ? may : !must, "units:error", "dividing %ld %s by %ld %s %s an error", (long)raw[i],
                      CLOCK_NAMES[i], (long)raw[j], CLOCK_NAMES[j], raised ? "raised" : "didn't raise");
            if (!raised)
                SIM_CHECK((n.lo && q == raw[i] / n.lo) || (n.hi && q == raw[i] / n.hi), "units:whole",
                          "%ld %s goes %ld times into %ld %s", (long)raw[j], CLOCK_NAMES[j], (long)q, (long)raw[i],
                          CLOCK_NAMES[i]);
            break;
        }
        default: { // comparing, in the unit at the left
            bool lt, gt, le, ge, eq, ne;
            at(regs, i, [&](auto& r) {
                negative = r.is_negative();
                at(regs, j, [&](auto& o) { lt = r<o, gt = r> o, le = r <= o, ge = r >= o, eq = r == o, ne = r != o; });
            });
            auto told = [&](bool less, bool greater) {
                return lt == less && gt == greater && le == !greater && ge == !less && eq == (!less && !greater)
                       && ne == (less || greater);
            };
            SIM_CHECK(told(vi<vj, vi> vj) || told(raw[i]<n.lo, raw[i]> n.lo) || told(raw[i]<n.hi, raw[i]> n.hi),
                      "units:compare", "%ld %s is compared with %ld %s as <%d >%d <=%d >=%d ==%d !=%d", (long)raw[i],
                      CLOCK_NAMES[i], (long)raw[j], CLOCK_NAMES[j], lt, gt, le, ge, eq, ne);
            SIM_CHECK(negative == (raw[i] < 0), "units:compare", "%ld is%s negative", (long)raw[i],
                      negative ? "" : " not");
            if (vi == vj) probe("equal");
            break;
        }
        }
        if (!fits((__int128)raw[i] * US[i])) { // its counter starts over
            at(regs, i, [&](auto& r) { r = std::decay_t<decltype(r)>(); });
            raw[i] = is(i);
            SIM_CHECK(raw[i] == 0, "units:whole", "what starts over is %ld", (long)raw[i]);
        }
    }
    void passed(k_time_us elapsed, i64 us) { // on the clock
        for (size_t i = 0; i < 6; ++i) {
            const Nearest n = nearest(us, 1, US[i]);
            at(regs, i, [&](auto& r) { r += elapsed; });
            expect(i, raw[i] + n.lo, raw[i] + n.hi, "the time that passed", 0);
        }
    }
};

// ---- others: amounts within the precision of their type
// --------------------------------------------------------------
constexpr Real U = std::numeric_limits<Held>::epsilon();

/// A ledger of one kind of amounts: registers in every unit of it
template<typename T>
struct Ledger {
    explicit Ledger(const char* n, const Real* m, Real least, Real most) : name(n), mag(m), min(least), max(most) {}
    static constexpr size_t N = std::tuple_size_v<T>;
    const char* name;
    const Real* mag; // in base units
    Real min, max; // amounts that can be held in each unit
    T regs;
    Real value[N] = {}; // in the unit of each

    Real is(size_t i) {
        Real v = 0;
        at(regs, i, [&](auto& r) { v = r.raw(); });
        return v;
    }
    Real draw_value() { // in base units
        Real v;
        switch (pick({4, 2, 1})) {
        case 0: v = (Real)draw(1000000) / 1000; break;
        case 1: v = std::exp2((Real)range(-30, 30)) * (1 + (Real)draw(1000) / 1000); break;
        default: v = 0; break;
        }
        while (v > max)
            v /= 1000;
        if (v && v < min) v = min;
        return chance(250) ? -v : v;
    }
    void close(size_t i, Real want, Real magnitude, const char* what, size_t j) {
        const Real v = is(i);
        Host h;
        SIM_CHECK(fabsl(v - want) <= 8 * U * magnitude, "units:real",
                  "%s %s: %Lg (unit %zu) with %Lg (unit %zu) gives %Lg instead of %Lg", name, what, value[i], i,
                  value[j], j, v, want);
        value[i] = v;
    }
    void work() {
        size_t i, j, what, how;
        Real amount, scalar;
        {
            Host h;
            i = draw(N), j = draw(N), what = draw(12), how = draw(5), amount = draw_value();
            scalar = chance(100) ? 0 : (Real)range(-4000, 4000) / 256; // which a float can hold
            log("%s %zu.%zu: %zu=%Lg %zu=%Lg amount=%Lg scalar=%Lg", name, what, how, i, value[i], j, value[j], amount,
                scalar);
        }
        const Real o_ = i == j ? value[j] : value[j] * mag[j] / mag[i]; // in the unit of the first
        const Real both = fabsl(value[i]) + fabsl(o_);
        switch (what) {
        case 0:
            at(regs, i, [&](auto& r) { r = std::decay_t<decltype(r)>((Held)(amount / mag[i])); });
            close(i, amount / mag[i], fabsl(amount / mag[i]), "set", i);
            break;
        case 1:
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { r = o; }); });
            close(i, o_, i == j ? 0 : fabsl(o_), "assigned", j);
            break;
        case 2:
            at(regs, i, [&](auto& r) {
                at(regs, j, [&](auto& o) {
                    std::decay_t<decltype(r)> c(o);
                    r = std::move(c);
                });
            });
            close(i, o_, i == j ? 0 : fabsl(o_), "constructed", j);
            break;
        case 3:
            at(regs, i, [&](auto& r) {
                at(regs, j, [&](auto& o) {
                    auto copy = o;
                    r = std::move(copy);
                });
            });
            close(i, o_, i == j ? 0 : fabsl(o_), "moved", j);
            break;
        case 4:
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { r += o; }); });
            close(i, value[i] + o_, both, "added", j);
            break;
        case 5:
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { r = r + o; }); });
            close(i, value[i] + o_, both, "sum", j);
            break;
        case 6:
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { r -= o; }); });
            close(i, value[i] - o_, both, "subtracted", j);
            break;
        case 7:
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { r = r - o; }); });
            close(i, value[i] - o_, both, "difference", j);
            break;
        case 8: {
            bool raised = false;
            const Held s = (Held)scalar;
            at(regs, i, [&](auto& r) {
                if (how == 0) r = r * s;
                else if (how == 1)
                    r *= s;
                else if (how == 2)
                    raised = raises([&] { r = r / s; });
                else if (how == 3)
                    raised = raises([&] { r /= s; });
                else
                    r = -r;
            });
            const bool zero = (how == 2 || how == 3) && scalar == 0;
            SIM_CHECK(raised == zero, "units:error", "dividing %Lg by %Lg %s an error", value[i], scalar,
                      raised ? "raised" : "didn't raise");
            const Real w = zero ? value[i] : how < 2 ? value[i] * scalar : how == 4 ? -value[i] : value[i] / scalar;
            close(i, w, zero || how == 4 ? 0 : fabsl(w), "scaled", i);
            break;
        }
        case 9: {
            Real q = 0;
            bool raised = false;
            at(regs, i, [&](auto& r) { at(regs, j, [&](auto& o) { raised = raises([&] { q = (r / o).raw(); }); }); });
            SIM_CHECK(raised == (value[j] == 0), "units:error", "dividing %Lg by %Lg %s an error", value[i], value[j],
                      raised ? "raised" : "didn't raise");
            if (!raised)
                SIM_CHECK(fabsl(q - value[i] / o_) <= 8 * U * fabsl(value[i] / o_), "units:real",
                          "%s: %Lg (unit %zu) goes %Lg times into %Lg (unit %zu)", name, value[j], j, q, value[i], i);
            break;
        }
        default: {
            bool lt, gt, le, ge, eq, ne, negative;
            at(regs, i, [&](auto& r) {
                negative = r.is_negative();
                at(regs, j, [&](auto& o) { lt = r<o, gt = r> o, le = r <= o, ge = r >= o, eq = r == o, ne = r != o; });
            });
            const Real d = value[i] - o_;
            const bool near = fabsl(d) <= 8 * U * both, same = i == j && d == 0;
            SIM_CHECK((near && !same)
                          || (lt == (d < 0) && gt == (d > 0) && le == (d <= 0) && ge == (d >= 0) && eq == (d == 0)),
                      "units:compare",
                      "%s: %Lg (unit %zu) is compared with %Lg (unit %zu) as <%d >%d "
                      "<=%d >=%d ==%d !=%d",
                      name, value[i], i, value[j], j, lt, gt, le, ge, eq, ne);
            SIM_CHECK(!(lt && gt) && ne == !eq && le == !gt && ge == !lt, "units:compare",
                      "%s: %Lg (unit %zu) is compared with %Lg (unit %zu) as <%d >%d "
                      "<=%d >=%d ==%d !=%d",
                      name, value[i], i, value[j], j, lt, gt, le, ge, eq, ne);
            SIM_CHECK(negative == (value[i] < 0), "units:compare", "%Lg is%s negative", value[i],
                      negative ? "" : " not");
            if (near) probe("about_equal");
            break;
        }
        }
        const Real base = fabsl(value[i] * mag[i]);
        if (base > max || (base && base < min)) { // starts over
            at(regs, i, [&](auto& r) { r = std::decay_t<decltype(r)>(); });
            value[i] = is(i);
            SIM_CHECK(value[i] == 0, "units:real", "%s: what starts over is %Lg", name, value[i]);
        }
    }
};

using Time = std::tuple<time_us, time_ms, time_s, time_m, time_h, time_d, time_W, time_M, time_Y>;
const Real TIMES[] = {1e-6L, 1e-3L, 1, 60, 3600, 86400, 7 * 86400, 28 * 86400, 365 * 86400};
using Volume = std::tuple<litre_ml, litre, cubic_metre>;
const Real VOLUMES[] = {1e-3L, 1, 1e3L};
using Energy = std::tuple<joule_p, joule_n, joule_u, joule_m, joule, joule_k, joule_M, joule_G, joule_T>;
const Real ENERGIES[] = {1e-12L, 1e-9L, 1e-6L, 1e-3L, 1, 1e3L, 1e6L, 1e9L, 1e12L};

/// The same amount of some kind in each of its units: what the names of the units stand for
template<typename... T>
void named(const char* name, std::initializer_list<Real> magnitudes) {
    std::tuple<T...> regs;
    constexpr size_t N = sizeof...(T);
    size_t i, j;
    Real x;
    {
        Host h;
        SIM_CHECK(magnitudes.size() == N, "harness", "%s has %zu units", name, N);
        i = draw(N), j = draw(N);
        x = (Real)(Held)((Real)range(-100000, 100000) / 64);
    }
    const Real m = magnitudes.begin()[i] / magnitudes.begin()[j];
    Real v = 0, sum = 0;
    bool less = false;
    at(regs, i, [&](auto& r) {
        r = std::decay_t<decltype(r)>((Held)x);
        at(regs, j, [&](auto& o) {
            std::decay_t<decltype(o)> c(r);
            v = c.raw();
            c += r;
            sum = c.raw();
            less = r < c;
        });
    });
    SIM_CHECK(fabsl(v - x * m) <= 8 * U * fabsl(x * m), "units:real", "%s: %Lg (unit %zu) is %Lg (unit %zu)", name, x,
              i, v, j);
    SIM_CHECK(fabsl(sum - 2 * x * m) <= 16 * U * fabsl(x * m), "units:real",
              "%s: twice %Lg (unit %zu) is %Lg (unit %zu)", name, x, i, sum, j);
    SIM_CHECK(less == (x > 0), "units:compare", "%s: %Lg (unit %zu) is%s less than %Lg (unit %zu)", name, x, i,
              less ? "" : " not", sum, j);
}

void any_kind() {
    size_t kind;
    {
        Host h;
        kind = draw(26);
    }
    switch (kind) {
    case 0: return named<amp, amp_m, amp_u>("current", {1, 1e-3L, 1e-6L});
    case 1: return named<volt, volt_m, volt_u>("potential", {1, 1e-3L, 1e-6L});
    case 2: return named<coulomb, coulomb_m, coulomb_u, coulomb_n>("charge", {1, 1e-3L, 1e-6L, 1e-9L});
    case 3: return named<farad, farad_m, farad_u, farad_n, farad_p>("capacitance", {1, 1e-3L, 1e-6L, 1e-9L, 1e-12L});
    case 4: return named<gram_k, gram, gram_m, gram_u>("mass", {1e3L, 1, 1e-3L, 1e-6L});
    case 5: return named<hertz, hertz_k, hertz_M, hertz_G>("frequency", {1, 1e3L, 1e6L, 1e9L});
    case 6:
        return named<joule_p, joule_n, joule_u, joule_m, joule, joule_k, joule_M, joule_G, joule_T>(
            "energy", {1e-12L, 1e-9L, 1e-6L, 1e-3L, 1, 1e3L, 1e6L, 1e9L, 1e12L});
    case 7:
        return named<meter_k, meter, meter_d, meter_c, meter_m, meter_u, meter_n>(
            "length", {1e3L, 1, 1e-1L, 1e-2L, 1e-3L, 1e-6L, 1e-9L});
    case 8: return named<newton, newton_k>("force", {1, 1e3L});
    case 9: return named<ohm_m, ohm, ohm_k, ohm_M>("resistance", {1e-3L, 1, 1e3L, 1e6L});
    case 10: return named<pascal, pascal_k, pascal_M>("pressure", {1, 1e3L, 1e6L});
    case 11: return named<siemens, siemens_m, siemens_u>("conductance", {1, 1e-3L, 1e-6L});
    case 12: return named<watt_m, watt, watt_k, watt_M, watt_G>("power", {1e-3L, 1, 1e3L, 1e6L, 1e9L});
    case 13: return named<cubic_metre, litre, litre_ml>("volume", {1e3L, 1, 1e-3L});
    case 14: return named<lux>("illuminance", {1});
    case 15: return named<lumen>("luminous flux", {1});
    case 16: return named<mole>("amount of substance", {1});
    case 17: return named<gray>("absorbed dose", {1});
    case 18: return named<sievert>("dose equivalent", {1});
    case 19: return named<becquerel>("radioactivity", {1});
    case 20: return named<katal>("catalytic activity", {1});
    case 21: return named<henry>("inductance", {1});
    case 22: return named<tesla>("magnetic flux density", {1});
    case 23: return named<weber>("magnetic flux", {1});
    case 24: return named<kelvin>("kelvin", {1});
    default: return named<celsius>("celsius", {1});
    }
}

// ---- rates
// ---------------------------------------------------------------------------------------------------------------
template<typename N, typename D>
using Compound = spn::structure::units::CompoundUnit<N, D>;
using Rates = std::tuple<Compound<litre_ml, time_s>, Compound<litre, time_m>, Compound<cubic_metre, time_h>>;
const Real RATES[] = {1e-3L, 1.0L / 60, 1e3L / 3600};

struct RateLedger {
    Rates regs;
    Real value[3] = {NAN, NAN, NAN}, error[3] = {}; // in its own unit; NaN: there was no period

    struct Parts {
        Real n, d;
    };
    Parts parts(size_t i) {
        Parts p{};
        at(regs, i, [&](auto& r) { p = Parts{r.numerator().raw(), r.denominator().raw()}; });
        return p;
    }
    bool known(size_t i) const { return !std::isnan(value[i]); }
    void settle(size_t i, Real want, Real err, const char* what) {
        Real v = NAN;
        const bool raised = raises([&] { at(regs, i, [&](auto& r) { v = r.raw(); }); });
        const Parts p = parts(i);
        Host h;
        if (std::isnan(want)) {
            SIM_CHECK(raised, "units:error", "%s: a rate over no time is %Lg", what, v);
            value[i] = NAN;
            return;
        }
        err += 8 * U * fabsl(want);
        SIM_CHECK(!raised && fabsl(v - want) <= err, "units:rate", "%s: a rate is %Lg instead of %Lg (+/- %Lg)", what,
                  v, want, err);
        value[i] = want, error[i] = err;
        // The parts of sums grow: they are taken anew before they leave the range
        // of their type
        auto fits = [](Real x) { return x == 0 || (fabsl(x) > 1e-8L && fabsl(x) < 1e8L); };
        if (!fits(p.n) || !fits(p.d) || err > fabsl(want) * 1e-3L) {
            Sut s;
            measure(i, 1, 1);
            probe("rate_taken_anew");
        }
    }
    void measure(size_t i, Real amount, Real period) {
        at(regs, i, [&](auto& r) {
            using R = std::decay_t<decltype(r)>;
            using N = typename R::NumeratorType;
            using D = typename R::DenominatorType;
            r = R(N((Held)amount), D((Held)period));
        });
        settle(i, period ? amount / period : (Real)NAN, 0, "measured");
    }
    void work() {
        size_t i, j, what, how;
        Real amount, period, scalar;
        {
            Host h;
            i = draw(3), j = draw(3), what = draw(11), how = draw(6);
            amount = (Real)draw(1000), period = chance(60) ? 0 : (Real)range(1, 1000);
            if (chance(300)) amount /= 8, period /= 4;
            scalar = chance(100) ? 0 : (Real)range(-4000, 4000) / 256;
            log("rate %zu.%zu: %zu=%Lg %zu=%Lg %Lg/%Lg *%Lg", what, how, i, value[i], j, value[j], amount, period,
                scalar);
        }
        const Real o = value[j] * RATES[j] / RATES[i], oe = error[j] * RATES[j] / RATES[i];
        const Real reach = 16 * U * (fabsl(value[i]) + fabsl(o));
        switch (what) {
        case 0:
        case 1:
            if (how < 3) measure(i, amount, period);
            else { // from parts in other units
                at(regs, i, [&](auto& r) {
                    using R = std::decay_t<decltype(r)>;
                    r = how == 3   ? R(litre((Held)amount), time_ms((Held)period))
                        : how == 4 ? R(litre_ml((Held)amount), time_h((Held)period))
                                   : R(cubic_metre((Held)amount), time_s((Held)period));
                });
                const Real base = how == 3 ? 1e3L : how == 4 ? 1e-3L / 3600 : 1e3L;
                settle(i, period ? amount / period * base / RATES[i] : (Real)NAN, 0, "measured in other units");
            }
            break;
        case 2:
            at(regs, i, [&](auto& r) {
                at(regs, j, [&](auto& q) {
                    if (how < 3) r = q;
                    else {
                        std::decay_t<decltype(r)> c(q);
                        r = c;
                    }
                });
            });
            settle(i, o, oe, "converted");
            break;
        case 3:
        case 4:
            if (!known(i) || !known(j)) break;
            at(regs, i, [&](auto& r) {
                at(regs, j, [&](auto& q) {
                    if (how < 3) r += q;
                    else
                        r = r + q;
                });
            });
            settle(i, value[i] + o, error[i] + oe + reach, "sum");
            break;
        case 5:
        case 6:
            if (!known(i) || !known(j)) break;
            at(regs, i, [&](auto& r) {
                at(regs, j, [&](auto& q) {
                    if (how < 3) r -= q;
                    else
                        r = r - q;
                });
            });
            settle(i, value[i] - o, error[i] + oe + reach, "difference");
            break;
        case 7: {
            bool raised = false;
            const Held s = (Held)scalar;
            at(regs, i, [&](auto& r) {
                if (how == 0) r = r * s;
                else if (how == 1)
                    r *= s;
                else if (how == 2)
                    raised = raises([&] { r = r / s; });
                else if (how == 3)
                    raised = raises([&] { r /= s; });
                else
                    r = -r;
            });
            const bool zero = (how == 2 || how == 3) && scalar == 0;
            SIM_CHECK(raised == zero, "units:error", "dividing a rate by %Lg %s an error", scalar,
                      raised ? "raised" : "didn't raise");
            const Real f = zero ? 1 : how < 2 ? scalar : how >= 4 ? -1 : 1 / scalar;
            settle(i, value[i] * f, error[i] * fabsl(f), "scaled");
            break;
        }
        case 8: { // the simplest way to write it
            const Parts p = parts(i);
            const Real scaling = one_of<int>({1, 1000, 1000000});
            if (!known(i) || p.n < 0 || p.d < 0 || p.n * scaling > 1e15L || p.d * scaling > 1e15L || p.d * scaling < 1
                || (p.n && p.n * scaling < 1))
                break;
            at(regs, i, [&](auto& r) {
                if (scaling == 1000000) r.simplify();
                else
                    r.simplify((Held)scaling);
            });
            const Parts q = parts(i);
            if (p.n == truncl(p.n) && p.d == truncl(p.d) && p.n < 1e6L && p.d < 1e6L && scaling == 1) {
                u64 a = (u64)p.n, b = (u64)p.d;
                while (b) {
                    const u64 t = a % b;
                    a = b, b = t;
                }
                SIM_CHECK(fabsl(q.n - p.n / a) <= 8 * U * p.n / a && fabsl(q.d - p.d / a) <= 8 * U * p.d / a,
                          "units:rate", "%Lg/%Lg is simplified to %Lg/%Lg", p.n, p.d, q.n, q.d);
                if (a > 1) probe("simplified");
            }
            settle(i, value[i], error[i], "simplified");
            break;
        }
        default: {
            if (!known(i) || !known(j)) break;
            // Rates are told apart by their numbers, so in the same unit
            if (i != j) {
                at(regs, i, [&](auto& r) { at(regs, j, [&](auto& q) { r = q; }); });
                settle(i, o, oe, "converted");
                break;
            }
            auto compare = [&](auto& r, Real amount_, Real period_) {
                using R = std::decay_t<decltype(r)>;
                R q{typename R::NumeratorType((Held)amount_), typename R::DenominatorType((Held)period_)};
                const bool lt = r<q, gt = r> q, le = r <= q, ge = r >= q, eq = r == q, ne = r != q;
                Host h;
                const Real w = amount_ / period_, d = value[i] - w;
                SIM_CHECK(fabsl(d) <= error[i] + 8 * U * fabsl(w)
                              || (lt == (d < 0) && gt == (d > 0) && le == (d < 0) && ge == (d > 0) && !eq && ne),
                          "units:compare", "a rate of %Lg is compared with %Lg as <%d >%d <=%d >=%d ==%d !=%d",
                          value[i], w, lt, gt, le, ge, eq, ne);
                SIM_CHECK(!(lt && gt) && ne == !eq && le == !gt && ge == !lt, "units:compare",
                          "a rate of %Lg is compared with %Lg as <%d >%d <=%d >=%d ==%d !=%d", value[i], w, lt, gt, le,
                          ge, eq, ne);
            };
            if (period) at(regs, i, [&](auto& r) { compare(r, amount, period); });
            break;
        }
        }
    }
};

/// The device
struct Meter : EventHandler {
    Meter() : EventHandler(nullptr) {}
    std::unique_ptr<EventSystem> es;
    ClockLedger clock;
    Ledger<Time> time{"time", TIMES, 1e-8L, 1e10L};
    Ledger<Volume> volume{"volume", VOLUMES, 1e-12L, 1e12L};
    Ledger<Energy> energy{"energy", ENERGIES, 1e-12L, 1e12L};
    RateLedger rates;
    k_time_ms period{1000};
    i64 since = 0; // us, what the time passed is relative to
    u64 ticks = 0;
    u32 p_slow = 0;
    bool waiting = false; // for a valve
    i64 opens_from = 0, opens_to = 0; // us

    void handle_event(const Event& e) override {
        if (e.id() == 1) {
            Host h;
            const i64 now = now_us();
            SIM_CHECK(waiting, "units:delay", "a valve that wasn't asked for opens");
            SIM_CHECK(now / 1000 * 1000 >= opens_from / 1000 * 1000, "units:delay", "a valve opens %ld us early",
                      (long)(opens_from - now));
            waiting = false;
            probe("valve");
            return;
        }
        evsys()->schedule((size_t)0, period);
        size_t n;
        {
            Host h;
            ++ticks;
            if (p_slow && chance(p_slow)) {
                advance_us((i64)draw(5000000));
                fault("slow_handler");
            }
            n = draw(5);
        }
        // The time that passed since the last tick
        const i64 then = since;
        k_time_us elapsed(0);
        const i64 before = now_us();
        const k_time_us now = HAL::micros();
        const i64 after = now_us();
        elapsed = now - k_time_us(then);
        {
            Host h;
            SIM_CHECK(now.raw() >= before && now.raw() <= after, "units:whole", "the clock says %ld at %ld",
                      (long)now.raw(), (long)before);
            SIM_CHECK(elapsed.raw() == now.raw() - then, "units:whole", "%ld passed from %ld to %ld",
                      (long)elapsed.raw(), (long)then, (long)now.raw());
            since = now.raw();
        }
        clock.passed(elapsed, elapsed.raw());
        for (size_t i = 0; i < n; ++i) {
            size_t what;
            {
                Host h;
                what = draw(9);
            }
            switch (what) {
            case 0:
            case 1:
            case 2: clock.work(); break;
            case 3: time.work(); break;
            case 4: volume.work(); break;
            case 5: energy.work(); break;
            case 6: rates.work(); break;
            case 7: any_kind(); break;
            default: warmth(); break;
            }
            settled("metering");
        }
        bool open;
        {
            Host h;
            open = !waiting && chance(300);
        }
        if (open) wait();
    }

    /// A valve opens after some time that is not a whole number
    void wait() {
        Held x;
        size_t unit, how;
        {
            Host h;
            unit = draw(3), how = draw(3);
            x = (Held)draw(2000000) / (Held)one_of<int>({1, 7, 1024});
            if (unit == 1) x /= 1000;
            if (unit == 2) x /= 60000;
            if (chance(250)) { // a long time, just to be told
                unit = draw(6), how = 1 + draw(3);
                x = (Held)draw(4000000000000 / (u64)(US[unit] / 1000 + 1)) / (Held)one_of<int>({1, 7, 1024});
                if (flip()) x = -x;
            }
        }
        const Real raw = x;
        i64 k = 0, ms = 0, before = 0;
        Real back = 0;
        bool scheduled = false;
        auto convert = [&](auto t) {
            auto whole = how % 3 == 0   ? to_kernel_time(t)
                         : how % 3 == 1 ? to_kernel_time(t, std::floor)
                                        : to_kernel_time(t, std::round);
            k = whole.raw();
            back = to_real_time(whole).raw();
            const k_time_ms delay(whole);
            ms = delay.raw();
            before = now_us();
            if (how == 0) evsys()->schedule((size_t)1, delay), scheduled = true;
        };
        switch (how > 0 && unit < 6 ? unit + 10 : unit) {
        case 0: convert(time_ms(x)); break;
        case 1: convert(time_s(x)); break;
        case 2: convert(time_m(x)); break;
        case 10: convert(time_us(x)); break;
        case 11: convert(time_ms(x)); break;
        case 12: convert(time_s(x)); break;
        case 13: convert(time_m(x)); break;
        case 14: convert(time_h(x)); break;
        default: convert(time_d(x)); break;
        }
        Host h;
        if (how == 0) ++unit; // as numbered in US
        const Real want = how % 3 == 0 ? ceill(raw) : how % 3 == 1 ? floorl(raw) : roundl(raw);
        log("valve after %Lg %s, rounded %zu: %ld", raw, CLOCK_NAMES[unit], how, (long)k);
        SIM_CHECK((Real)k == want, "units:delay", "%Lg %s are rounded (%zu) to %ld whole ones", raw, CLOCK_NAMES[unit],
                  how % 3, (long)k);
        SIM_CHECK(fabsl(back - (Real)k) <= 2 * U * fabsl((Real)k), "units:delay", "%ld whole ones are %Lg", (long)k,
                  back);
        const Nearest n = nearest(k, US[unit], 1000);
        SIM_CHECK(n.has(ms), "units:delay", "%ld %s are %ld ms", (long)k, CLOCK_NAMES[unit], (long)ms);
        if (!scheduled) return;
        waiting = true;
        opens_from = before + (i64)(raw * US[unit] - 0.5L);
        opens_to = now_us() + ms * 1000 + 1000;
    }

    void warmth() {
        Held x;
        {
            Host h;
            x = (Held)range(-400000, 2000000) / 1000;
        }
        const Real c = to_celsius(kelvin(x)).raw(), k = to_kelvin(celsius(x)).raw(),
                   same = to_celsius(celsius(x)).raw(), same_k = to_kelvin(kelvin(x)).raw(),
                   round = to_kelvin(to_celsius(kelvin(x))).raw();
        const Real e = 4 * U * (fabsl(x) + 274);
        SIM_CHECK(fabsl(c - (x - 273.15L)) <= e && fabsl(k - (x + 273.15L)) <= e && same == x && same_k == x
                      && fabsl(round - x) <= e,
                  "units:real", "%g K is %Lg C, %g C is %Lg K, %Lg %Lg %Lg", (double)x, c, (double)x, k, same, same_k,
                  round);
    }
};

} // namespace

SIM_SCENARIO(meter) {
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    spn::core::set_machine_exception_handler(std::unique_ptr<spn::core::ExceptionHandler>(new Handler()));
    start_clock(draw_uptime_us());
    if (chance(300)) set_preemption(one_of<u32>({2, 20, 200}), one_of<i64>({1000, 100000, 10000000}));
    limit_steps((u32)range(3, 100));
    Meter m;
    m.p_slow = chance(300) ? one_of<u32>({10, 100}) : 0;
    m.period = k_time_ms(one_of<i64>({1000, 10, 60000, 3600000}));
    const i64 period = m.period.raw();
    {
        Sut s;
        m.es = std::make_unique<EventSystem>(
            EventSystem::Config{.events_count = 2, .events_cap = 4, .handler_cap = 1, .delay_between_ticks = false});
        m.attach_event_system(m.es.get());
        m.es->attach((size_t)0, &m);
        m.es->attach((size_t)1, &m);
        m.since = HAL::micros().raw();
        m.es->schedule((size_t)0, m.period);
    }
    while (step()) {
        switch (pick({10, 4, 2, 1})) {
        case 0: advance_ms(period); break;
        case 1: advance_us((i64)draw(one_of<u64>({1000, 1000000, 100000000}))); break;
        case 2:
            advance_ms((i64)draw(one_of<u64>({100000, 10000000, 10000000000})));
            fault("stall");
            break;
        case 3: // a counter is reset by somebody
            m.clock = ClockLedger();
            fault("counters_reset");
            break;
        }
        const i64 start = now_us();
        {
            Sut s;
            m.es->loop();
        }
        settled("the loop");
        SIM_CHECK(!m.waiting || start <= m.opens_to, "units:delay", "a valve is %ld us late",
                  (long)(start - m.opens_to));
        state((u64)(m.clock.raw[2] & 0xff));
    }
    if (m.ticks > 2) nontrivial();
    {
        Sut s;
        m.es.reset();
    }
    SIM_CHECK(live_allocations() == 0, "leak", "%zu allocations were not freed", live_allocations());
}
