// Scenarios: filters and stacks of them behind a sensor that spikes, sticks, drifts and drops out.
// Decides C16 and C06 (no heap) for filters.
#include "sim.hpp"
#include "spine/core/logging.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"

#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include <set>

using namespace sim;
using namespace spn::filter;

namespace {

template<typename V>
constexpr double EPS = sizeof(V) == 4 ? 1e-6 : 1e-14;

template<typename V>
struct Model {
    virtual ~Model() = default;
    /// `got` is what the filter returned for `s`, `errors` how many errors it raised
    virtual void sample(V s, V got, size_t errors) = 0;
    virtual void reset(V v) = 0;
    virtual const char* name() const = 0;
};

template<typename V>
struct BandPassModel : Model<V> {
    typename BandPass<V>::Config cfg;
    bool has_value = false;
    V value = 0;
    std::set<int> rejections{0}; // consecutive ones
    const char* name() const override { return "bandpass"; }
    void sample(V s, V got, size_t errors) override {
        auto same = [](V a, V b) { return a == b || (a != a && b != b); };
        if (!has_value) { // whatever comes first
            SIM_CHECK(same(got, s), "filter:bandpass", "a new bandpass returned %g for its first sample %g",
                      (double)got, (double)s);
            has_value = true;
            value = s;
            rejections = {0, 1};
            return;
        }
        double width = (double)cfg.mantissa * std::pow(10.0, (double)cfg.decades + 1);
        double mid = (cfg.mode == BandPass<V>::Mode::RELATIVE ? (double)value : 0.0) + (double)cfg.offset;
        double distance = std::abs((double)s - mid);
        double fuzz = 4 * EPS<V> * (std::abs(mid) + width + std::abs((double)s));
        bool in = distance <= width + fuzz, out = !(distance <= width - fuzz); // (both when it can't be told)
        std::set<int> next;
        bool known = false;
        if (in && same(got, s) && errors == 0) {
            next.insert(0);
            known = true;
        }
        if (out) {
            for (int r : rejections) {
                if (r + 1 > cfg.rejection_limit) {
                    if (same(got, s) && errors == (cfg.throw_on_rejection_limit ? 1 : 0)) {
                        next.insert(0);
                        known = true;
                        probe("rejection_limit_reached");
                    }
                } else if (same(got, value) && errors == 0) {
                    next.insert(r + 1);
                    known = true;
                }
            }
        }
        if (!known) {
            int least = *rejections.begin(), most = *rejections.rbegin();
            violate(errors > 1 || (errors && !cfg.throw_on_rejection_limit) ? "filter:errors" : "filter:bandpass",
                    "a bandpass at %g around %g +- %g returned %g for %g, raising %zu errors, after %d..%d of %d "
                    "rejections",
                    (double)value, mid, width, (double)got, (double)s, errors, least, most, cfg.rejection_limit);
        }
        rejections = next;
        value = got;
    }
    void reset(V v) override {
        value = v;
        has_value = true;
        rejections.insert(0); // whether that starts the count anew is not specified
    }
};

template<typename V>
struct EwmaModel : Model<V> {
    double K;
    double value = 0, n = 0, lo = 0, hi = 0, fuzz = 0;
    const char* name() const override { return "moving average"; }
    void sample(V s, V got, size_t errors) override {
        SIM_CHECK(errors == 0, "filter:errors", "a moving average raised an error");
        if (n == 0) {
            n = 1;
            value = lo = hi = (double)s;
            fuzz = 0;
        } else {
            n += 1;
            double k = std::min(n, K);
            value += ((double)s - value) / k;
            lo = std::min(lo, (double)s);
            hi = std::max(hi, (double)s);
            fuzz = fuzz * (1 - 1 / k) + 2 * EPS<V> * (std::abs((double)s) + std::abs(value) + 1e-30);
        }
        double slack = 4 * EPS<V> * (std::abs(lo) + std::abs(hi)) + 1e-30;
        SIM_CHECK((double)got >= lo - slack && (double)got <= hi + slack, "filter:average",
                  "a moving average of samples in %g..%g is %g", lo, hi, (double)got);
        SIM_CHECK(std::abs((double)got - value) <= fuzz + slack, "filter:average",
                  "a moving average of length %g is %.9g instead of %.9g after %g samples", K, (double)got, value, n);
    }
    void reset(V v) override {
        value = (double)v;
        n = 0;
    }
};

template<typename V>
struct RangeModel : Model<V> {
    typename MappedRange<V>::Config cfg;
    const char* name() const override { return "mapped range"; }
    void sample(V s, V got, size_t errors) override {
        double il = cfg.input_lower_limit, iu = cfg.input_upper_limit, ol = cfg.output_lower_limit,
               ou = cfg.output_upper_limit;
        bool outside = s < cfg.input_lower_limit || s > cfg.input_upper_limit;
        double c = std::min(std::max((double)s, il), iu);
        double want = ol + (c - il) / (iu - il) * (ou - ol);
        double slack =
            8 * EPS<V> * (std::abs(ol) + std::abs(ou) + (std::abs(il) + std::abs(iu)) / (iu - il) * std::abs(ou - ol));
        SIM_CHECK((double)got >= std::min(ol, ou) - slack && (double)got <= std::max(ol, ou) + slack, "filter:range",
                  "a range mapped to %g..%g returned %g for %g", ol, ou, (double)got, (double)s);
        SIM_CHECK(std::abs((double)got - want) <= slack, "filter:range",
                  "a mapped range returned %.9g instead of %.9g for %g", (double)got, want, (double)s);
        SIM_CHECK(errors == (outside && cfg.throw_for_value_out_of_range ? 1 : 0), "filter:errors",
                  "a mapped range raised %zu errors for %g (%g..%g)", errors, (double)s, il, iu);
        if (outside) probe("sample_outside_of_range");
    }
    void reset(V) override {}
};

template<typename V>
struct InvertModel : Model<V> {
    typename Invert<V>::Config cfg;
    const char* name() const override { return "inverter"; }
    void sample(V s, V got, size_t) override {
        double want = (double)cfg.input_upper_limit - ((double)s - (double)cfg.input_lower_limit);
        double slack =
            2 * EPS<V>
            * (std::abs((double)s) + std::abs((double)cfg.input_upper_limit) + std::abs((double)cfg.input_lower_limit));
        SIM_CHECK(std::abs((double)got - want) <= slack, "filter:invert",
                  "an inverter returned %.9g instead of %.9g for %g", (double)got, want, (double)s);
    }
    void reset(V) override {}
};

template<typename V>
struct PassModel : Model<V> {
    const char* name() const override { return "passthrough"; }
    void sample(V s, V got, size_t errors) override {
        SIM_CHECK(got == s || (got != got && s != s), "filter:pass", "a passthrough returned %g for %g", (double)got,
                  (double)s);
        SIM_CHECK(errors == 0, "filter:errors", "a passthrough raised an error");
    }
    void reset(V) override {}
};

size_t runtime_errors() {
    static size_t seen = 0, n = 0; // (a run is a process of its own)
    for (; seen < thrown().size(); ++seen)
        n += thrown()[seen].type == "Runtime exception";
    return n;
}

u64 g_calls = 0; // numbers the calls that reach filters

/// Stands in a stack for a real filter and records what goes in and comes out
template<typename V>
struct Probe : Filter<V> {
    std::unique_ptr<Filter<V>> real;
    std::unique_ptr<Model<V>> model;
    int index;
    V in = 0, out = 0;
    u64 when = 0; // number of the last call
    u64 samples = 0, resets = 0;

    std::function<V(V)> call;

    V value(V s) override {
        Host h;
        take(s, 0);
        return out;
    }
    void new_sample(V s) override {
        Host h;
        take(s, 1);
    }
    V value() const override {
        Host h;
        Sut s;
        return real->value();
    }
    void reset_to(V v) override {
        Host h;
        ++resets;
        {
            Sut s;
            real->reset_to(v);
        }
        model->reset(v);
        V got = static_cast<const Filter<V>&>(*real).value();
        SIM_CHECK(got == v, "filter:reset", "a %s that was reset to %g is at %g", model->name(), (double)v,
                  (double)got);
    }
    void take(V s, int how) {
        size_t before = runtime_errors();
        V got, now;
        const bool by_call = chance(150);
        {
            Sut sut;
            if (how == 0) got = by_call && call ? call(s) : real->value(s);
            else
                real->new_sample(s);
            now = static_cast<const Filter<V>&>(*real).value();
            if (how == 1) got = now;
        }
        SIM_CHECK(got == now || (got != got && now != now), "filter:report", "a %s returned %g but is at %g",
                  model->name(), (double)got, (double)now);
        in = s;
        out = got;
        when = ++g_calls;
        ++samples;
        model->sample(s, got, runtime_errors() - before);
    }
};

template<typename V>
std::unique_ptr<Probe<V>> make_filter(size_t kind, int index) {
    auto p = std::make_unique<Probe<V>>();
    p->index = index;
    switch (kind) {
    case 0: {
        auto m = std::make_unique<BandPassModel<V>>();
        auto& c = m->cfg;
        if (chance(150)) {
            Sut s;
            p->real = BandPass<V>::Broad();
            c = typename BandPass<V>::Config{};
            Host h;
            p->model = std::move(m);
            break;
        }
        c.mode = flip() ? BandPass<V>::Mode::ABSOLUTE : BandPass<V>::Mode::RELATIVE;
        c.mantissa = one_of<V>({1, 2, 5, (V)9.99});
        c.decades = one_of<V>({(V)0.01, 0, -1, 1, -2});
        c.offset = c.mode == BandPass<V>::Mode::ABSOLUTE ? (V)range(-20, 50) : one_of<V>({0, 0, 1, -1});
        c.rejection_limit = (int)(chance(40) ? one_of<i64>({100, 130, 260, 300, chance(100) ? 33000 : 1000})
                                             : one_of<i64>({10, 1, 2, 3, 5}));
        c.throw_on_rejection_limit = flip();
        auto copy = c;
        Sut s;
        p->real = std::make_unique<BandPass<V>>(std::move(copy));
        Host h;
        p->model = std::move(m);
        break;
    }
    case 1: {
        auto m = std::make_unique<EwmaModel<V>>();
        V K = chance(40) ? one_of<V>({300, 200, (V)260.5, 5000}) : one_of<V>({10, 1, 2, 3, 50, (V)2.5});
        size_t how = pick({4, 1, 1});
        m->K = how == 1 ? 10 : how == 2 ? 100 : (double)K;
        Sut s;
        if (how == 0) p->real = std::make_unique<EWMA<V>>(typename EWMA<V>::Config{K});
        else
            p->real = how == 1 ? EWMA<V>::Short() : EWMA<V>::Long();
        Host h;
        p->model = std::move(m);
        break;
    }
    case 2: {
        auto m = std::make_unique<RangeModel<V>>();
        auto& c = m->cfg;
        c.input_lower_limit = (V)range(-20, 20);
        c.input_upper_limit = c.input_lower_limit + (V)range(1, 60);
        size_t how = pick({4, 1, 1});
        c.output_lower_limit = how ? 0 : (V)range(-50, 50);
        c.output_upper_limit = how == 1   ? 100
                               : how == 2 ? 1000
                                          : c.output_lower_limit + (V)range(1, 100) * (flip() ? 1 : -1);
        c.throw_for_value_out_of_range = how == 0 && flip();
        auto copy = c;
        Sut s;
        if (how == 0) p->real = std::make_unique<MappedRange<V>>(std::move(copy));
        else if (how == 1)
            p->real = MappedRange<V>::Percentage((float)c.input_lower_limit, (float)c.input_upper_limit);
        else
            p->real = MappedRange<V>::Permillage((float)c.input_lower_limit, (float)c.input_upper_limit);
        Host h;
        p->model = std::move(m);
        break;
    }
    case 3: {
        auto m = std::make_unique<InvertModel<V>>();
        m->cfg.input_lower_limit = (V)range(-20, 20);
        m->cfg.input_upper_limit = m->cfg.input_lower_limit + (V)range(1, 60);
        bool how = flip();
        auto copy = m->cfg;
        Sut s;
        if (how) p->real = std::make_unique<Invert<V>>(std::move(copy));
        else
            p->real = Invert<V>::NormalizedInverter((float)copy.input_lower_limit, (float)copy.input_upper_limit);
        Host h;
        p->model = std::move(m);
        break;
    }
    default: {
        Sut s;
        p->real = std::make_unique<Passthrough<V>>(typename Passthrough<V>::Config{});
        Host h;
        p->model = std::make_unique<PassModel<V>>();
        break;
    }
    }
    auto* f = p->real.get(); // as if it were a function
    switch (kind) {
    case 0: p->call = [f](V s) { return (*static_cast<BandPass<V>*>(f))(s); }; break;
    case 1: p->call = [f](V s) { return (*static_cast<EWMA<V>*>(f))(s); }; break;
    case 2: p->call = [f](V s) { return (*static_cast<MappedRange<V>*>(f))(s); }; break;
    case 3: p->call = [f](V s) { return (*static_cast<Invert<V>*>(f))(s); }; break;
    default: p->call = [f](V s) { return (*static_cast<Passthrough<V>*>(f))(s); }; break;
    }
    return p;
}

/// A sensor that may be faulty
struct Sensor {
    double value = 20;
    u32 p_spike, p_stuck, p_drop, p_nan;
    double noise, drift;
    int stuck = 0, dropped = 0;
    Sensor(bool with_nan) {
        p_spike = one_of<u32>({0, 50, 200});
        p_stuck = one_of<u32>({0, 30});
        p_drop = one_of<u32>({0, 40});
        p_nan = with_nan ? one_of<u32>({0, 0, 30}) : 0;
        noise = one_of<double>({0.1, 0, 1, 5});
        drift = one_of<double>({0, 0.05, -1});
        value = (double)range(-50, 50);
    }
    double read() {
        value += drift;
        double v = value + noise * ((double)draw(2001) - 1000.0) / 1000.0;
        if (dropped > 0 || chance(p_drop)) {
            if (dropped-- <= 0) dropped = (int)draw(15);
            fault("sensor_drops_out");
            return one_of<double>({0, -127, 85});
        }
        if (chance(p_spike)) {
            fault("sensor_spikes");
            return v + one_of<double>({1000, -1000, 12, -12, 1e6});
        }
        if (chance(p_nan)) {
            fault("sensor_unreadable");
            return NAN;
        }
        if (stuck > 0 || chance(p_stuck)) {
            if (stuck-- <= 0) stuck = (int)draw(20);
            fault("sensor_stuck");
            return value - drift;
        }
        if (chance(50)) {
            value += (double)range(-60, 60); // the signal really jumps
            probe("signal_jumps");
        }
        return v;
    }
};

void prepare() {
    install_handler();
    thrown().reserve(1 << 17);
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(draw_uptime_us());
    limit_steps((u32)one_of<i64>({15, 40, 120, 300}));
}

template<typename V>
void run_single() {
    size_t kind = draw(5);
    auto p = make_filter<V>(kind, 0);
    Sensor sensor(kind == 0);
    log("%s", p->model->name());
    if (!strcmp(property(), "C06")) {
        on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
        exhaust_heap(true);
    }
    u32 p_reset = one_of<u32>({0, 30});
    while (step()) {
        if (chance(p_reset)) {
            V v = (V)range(-50, 50);
            p->reset_to(v);
            log("reset to %g", (double)v);
        }
        V s = (V)sensor.read();
        advance_ms(100);
        if (chance(15)) { // it stays like that
            auto* pass = dynamic_cast<BandPassModel<V>*>(p->model.get());
            i64 n =
                pass ? pass->cfg.rejection_limit + range(-1, 2) : one_of<i64>({20, 150, 300, chance(20) ? 40000 : 600});
            log("%ld times %.9g", (long)n, (double)s);
            while (n-- > 0)
                p->new_sample(s);
            fault("sensor_stuck");
        }
        if (flip()) p->new_sample(s);
        else
            p->value(s);
        log("sample %.9g -> %.9g", (double)s, (double)p->out);
        state(kind * 256 + (u64)(p->out == s) * 128 + std::min<u64>(runtime_errors(), 15) * 8
              + std::min<u64>(p->samples / 8, 7));
    }
    if (p->samples) nontrivial();
    exhaust_heap(false);
}

template<typename V>
void run_stack() {
    size_t slots = 1 + draw(6);
    std::unique_ptr<Stack<V>> stack;
    {
        Sut s;
        stack = std::make_unique<Stack<V>>((uint8_t)slots);
    }
    std::vector<Probe<V>*> attached;
    std::vector<std::unique_ptr<Filter<V>>> loose;
    int made = 0;
    for (size_t i = 0; i < slots + 2; ++i)
        loose.push_back(make_filter<V>(draw(5), made++));
    Sensor sensor(false);
    log("stack of %zu", slots);
    u32 w_change = one_of<u32>({1, 3, 0}), w_reset = one_of<u32>({0, 1});
    bool any = false;
    V last = 0;
    bool heap = !strcmp(property(), "C06");
    auto arm = [&] {
        if (!heap) return;
        on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
        exhaust_heap(true);
    };
    arm();
    auto check_value = [&](const char* when) {
        if (attached.empty()) return;
        V got, want;
        {
            Sut s;
            got = static_cast<const Stack<V>&>(*stack).value();
            want = static_cast<const Filter<V>&>(*attached.back()->real).value();
        }
        SIM_CHECK(got == want, "stack:report", "%s a stack reports %g while its last filter is at %g", when,
                  (double)got, (double)want);
    };
    while (step()) {
        switch (pick({8, w_change + (u32)attached.empty() * 10, w_change, w_reset})) {
        case 0: {
            V s = (V)sensor.read();
            bool quiet = flip();
            V got = 0;
            u64 call = g_calls;
            advance_ms(100);
            {
                Sut sut;
                if (quiet) stack->new_sample(s);
                else
                    got = stack->value(s);
                if (quiet) got = attached.empty() ? s : static_cast<const Stack<V>&>(*stack).value();
            }
            log("sample %.9g -> %.9g", (double)s, (double)got);
            V want = s;
            for (auto* p : attached) {
                SIM_CHECK(p->when == ++call, "stack:order",
                          "filter %d of a stack took its sample out of order, or not at all", p->index);
                SIM_CHECK(p->in == want, "stack:order", "filter %d of a stack took %.9g instead of %.9g", p->index,
                          (double)p->in, (double)want);
                want = p->out;
            }
            SIM_CHECK(g_calls == call, "stack:order", "a stack of %zu filters took %lu samples too many",
                      attached.size(), (unsigned long)(g_calls - call));
            SIM_CHECK(got == want, "stack:result", "a stack returned %.9g instead of %.9g", (double)got, (double)want);
            if (!attached.empty()) {
                any = true;
                last = got;
                check_value("after a sample");
            }
            if (attached.size() > 1) probe("several_filters");
            break;
        }
        case 1: {
            if (loose.empty() || attached.size() >= slots) break;
            size_t i = draw(loose.size());
            auto f = std::move(loose[i]);
            loose.erase(loose.begin() + i);
            auto* p = static_cast<Probe<V>*>(f.get());
            {
                Sut s;
                stack->attach_filter(std::move(f));
            }
            attached.push_back(p);
            log("attach filter %d (%s)", p->index, p->model->name());
            if (attached.size() == slots) probe("stack_full");
            break;
        }
        case 2: {
            if (attached.empty()) break;
            size_t i = draw(attached.size() + 1);
            std::unique_ptr<Filter<V>> f;
            {
                Sut s;
                f = stack->detach_filter((uint8_t)i);
            }
            log("detach filter at %zu", i);
            if (i == attached.size()) {
                SIM_CHECK(f == nullptr, "stack:detach", "detaching from an empty slot returned a filter");
                break;
            }
            SIM_CHECK(f.get() == attached[i], "stack:detach",
                      "detaching slot %zu did not return the filter that is there", i);
            attached.erase(attached.begin() + i);
            loose.push_back(std::move(f));
            probe("detached");
            check_value("after detaching");
            break;
        }
        case 3: {
            V v = (V)range(-50, 50);
            std::vector<u64> before;
            for (auto* p : attached)
                before.push_back(p->resets);
            {
                Sut s;
                stack->reset_to(v);
            }
            log("reset to %g", (double)v);
            for (size_t i = 0; i < attached.size(); ++i)
                SIM_CHECK(attached[i]->resets == before[i] + 1, "stack:reset",
                          "filter %d of a stack was reset %lu times", attached[i]->index,
                          (unsigned long)(attached[i]->resets - before[i]));
            check_value("after a reset");
            break;
        }
        }
        size_t n;
        {
            Sut s;
            n = stack->filter_slots_occupied();
        }
        SIM_CHECK(n == attached.size(), "stack:slots", "%zu slots are said to be occupied instead of %zu", n,
                  attached.size());
        state(4096 + attached.size() * 64 + std::min<u64>(runtime_errors(), 15) * 4 + (u64)any * 2);
    }
    (void)last;
    if (any) nontrivial();
    exhaust_heap(false);
}

} // namespace

SIM_SCENARIO(filter) {
    prepare();
    if (flip()) run_single<double>();
    else
        run_single<float>();
}
SIM_SCENARIO(filterstack) {
    prepare();
    if (flip()) run_stack<double>();
    else
        run_stack<float>();
}
