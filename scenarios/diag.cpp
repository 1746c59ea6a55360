// Scenarios: errors that are raised while handlers come, go, fail, nest and unwind; and log messages of every size.
// Decides C05 (errors), C17 (logging) and C06 (no heap) for both.
#include "platform.hpp"

#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/units/si.hpp"

#include <algorithm>
#include <memory>

using namespace sim;
using spn::core::Exception;
using spn::core::ExceptionHandler;
using spn::logging::LogLevel;

namespace {

bool armed() { return !strcmp(property(), "C06"); }
void arm() {
    if (!armed()) return;
    on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
    exhaust_heap(true);
}

// ---- errors -----------------------------------------------------------------------------------------------------------
struct Unwind {
    int depth;
};
struct CustomError : Exception {
    using Exception::Exception;
    const char* error_type() const override { return "Custom error"; }
};
// an error of the application, derived from one of the library's
struct SensorError : spn::runtime_exception {
    using runtime_exception::runtime_exception;
    const char* error_type() const override { return "Sensor error"; }
};

struct Raised {
    std::string type, what;
    int handler; // -1: none
    bool seen;
};

struct Errors;
Errors* E;

struct H : ExceptionHandler {
    int index;
    explicit H(int i) : index(i) {}
    ~H() override;
    void handle_exception(const Exception& e) override;
};

struct Errors {
    std::vector<bool> alive;
    std::vector<std::unique_ptr<ExceptionHandler>> parked; // handlers that are not installed
    std::vector<ExceptionHandler*> ptr; // by index
    int current = -1;
    std::vector<Raised> stack;
    u64 calls = 0, raised = 0;
    u32 w_replace, w_nest, w_unwind, w_remove;
    LogLevel level = LogLevel::OFF;
    std::vector<std::pair<std::string, std::string>> unhandled; // to be found on the console
    int next_msg = 0;
    std::vector<std::string> messages;
    bool heap_armed = false;

    std::unique_ptr<ExceptionHandler> fresh() {
        alive.push_back(true);
        auto h = std::make_unique<H>((int)alive.size() - 1);
        ptr.push_back(h.get());
        return h;
    }
    void install(std::unique_ptr<ExceptionHandler> h, bool keep_old) {
        int before = current;
        int index = -1;
        ExceptionHandler* raw = h.get();
        for (size_t i = 0; i < ptr.size(); ++i)
            if (raw && ptr[i] == raw && alive[i]) index = (int)i;
        std::unique_ptr<ExceptionHandler> old;
        {
            Sut s;
            old = spn::core::set_machine_exception_handler(std::move(h));
        }
        current = index;
        SIM_CHECK(old.get() == (before < 0 ? nullptr : ptr[before]), "error:handler",
                  "replacing the handler didn't return the previous one");
        ExceptionHandler* now;
        {
            Sut s;
            now = spn::core::machine_exception_handler();
        }
        SIM_CHECK(now == raw, "error:handler", "the handler that was set is not the current one");
        SIM_CHECK(before < 0 || alive[before], "error:handler", "the previous handler was destroyed");
        log("handler %d replaces %d", index, before);
        if (keep_old && old) parked.push_back(std::move(old));
    }
    void replace(bool inside) {
        std::unique_ptr<ExceptionHandler> h;
        if (!parked.empty() && flip()) {
            size_t i = draw(parked.size());
            h = std::move(parked[i]);
            parked.erase(parked.begin() + i);
        } else if (!heap_armed || parked.empty()) {
            if (alive.size() > 40) return;
            h = fresh();
        }
        if (chance(150)) {
            if (h) parked.push_back(std::move(h));
            h = nullptr;
        }
        install(std::move(h), inside || !flip());
    }
    const char* message() {
        static const char* const texts[] = {"out of cheese", "", "x", "100% of nothing: %s %d %n",
                                            "a rather long description of what went wrong, going on and on about it"};
        return texts[draw(5)];
    }

    // runs something that raises exactly one error at this level (and possibly nested ones by handlers)
    template<typename F>
    bool expect(const char* type, const char* what, F&& f) {
        ++raised;
        Raised r{type, what, current, false};
        log("raise %s: %s (handler %d)", type, what, current);
        if (current < 0) unhandled.emplace_back(type, what);
        stack.push_back(r);
        size_t depth = stack.size();
        bool unwound = false;
        try {
            Sut s;
            f();
        } catch (const Unwind& u) {
            SIM_CHECK(u.depth == (int)depth, "error:unwound", "unwinding ended at the wrong place");
            unwound = true;
        }
        SIM_CHECK(stack.size() == depth, "error:nested", "errors are not nested properly");
        r = stack.back();
        stack.pop_back();
        SIM_CHECK(r.handler < 0 || r.seen, "error:lost", "an error (%s: %s) didn't reach handler %d", type, what,
                  r.handler);
        return unwound;
    }
    void raise(bool may_divide) {
        const char* m = message();
        switch (pick({3, 1, 1, 1, 1, may_divide ? 1u : 0u, debug_build() ? 1u : 0u, 1})) {
        case 0: expect("Runtime exception", m, [&] { spn::throw_exception(spn::runtime_exception(m)); }); break;
        case 1: expect("Logic exception", m, [&] { spn::throw_exception(spn::logic_exception(m)); }); break;
        case 2: expect("Exception", m, [&] { Exception(m).throw_error(); }); break;
        case 3: expect("Custom error", m, [&] { spn::throw_exception(CustomError(m)); }); break;
        case 4: expect("Assertion exception", m, [&] { spn::throw_exception(spn::assertion_exception(m)); }); break;
        case 5: {
            float v = 3;
            volatile float zero = 0;
            float res = 0;
            expect("Runtime exception", "tried to divide by zero", [&] { res = (celsius(v) / (float)zero).raw(); });
            break;
        }
        case 6: {
            [[maybe_unused]] volatile int lives = 7;
            bool went_on = false;
            bool unwound = expect("Assertion exception", "lives == 9", [&] {
                spn_assert(lives == 9);
                went_on = true;
            });
            SIM_CHECK(went_on || unwound, "error:unwound", "an assertion didn't return");
            Sut s;
            spn_assert(lives == 7);
            spn_expect(lives == 9);
            break;
        }
        case 7: expect("Sensor error", m, [&] { spn::throw_exception(SensorError(m)); }); break;
        }
    }
    void on_error(H* h, const Exception& e) {
        SIM_CHECK(!stack.empty(), "error:spurious", "handler %d was called without an error", h->index);
        ++calls;
        size_t depth = stack.size();
        {
            Raised& r = stack.back();
            SIM_CHECK(r.handler == h->index, "error:handler", "handler %d was called instead of %d", h->index, r.handler);
            SIM_CHECK(!r.seen, "error:repeated", "handler %d was called again for the same error", h->index);
            SIM_CHECK(r.type == e.error_type() && r.what == e.what(), "error:content",
                      "handler %d was told '%s: %s' instead of '%s: %s'", h->index, e.error_type(), e.what(),
                      r.type.c_str(), r.what.c_str());
            r.seen = true;
        }
        switch (pick({6, w_replace, w_nest, w_unwind, w_remove})) {
        case 1:
            probe("handler_replaced_itself");
            replace(true);
            break;
        case 2:
            if (depth >= 3) break;
            fault("error_in_handler");
            raise(true);
            break;
        case 3:
            fault("handler_unwinds");
            throw Unwind{(int)depth};
        case 4:
            if (current < 0) break;
            probe("handler_removed_itself");
            install(nullptr, true);
            break;
        }
        SIM_CHECK(stack.size() == depth, "error:nested", "errors are not nested properly");
    }
    void check_console() {
        auto lines = take_console();
        if (level < LogLevel::WARN) {
            SIM_CHECK(lines.empty(), "error:report", "something was printed with logging turned off: %s", lines[0].c_str());
            unhandled.clear();
            return;
        }
        size_t at = 0;
        for (auto& u : unhandled) {
            bool found = false;
            for (; at < lines.size() && !found; ++at)
                found = lines[at].find("[WARN]") != std::string::npos && lines[at].find(u.first) != std::string::npos
                        && lines[at].find(u.second) != std::string::npos;
            SIM_CHECK(found, "error:report", "nobody handled '%s: %s', and it was not reported either", u.first.c_str(),
                      u.second.c_str());
            probe("reported_without_handler");
        }
        unhandled.clear();
    }
};
H::~H() {
    Host host;
    SIM_CHECK(E->alive[index], "error:handler", "a handler was destroyed twice");
    SIM_CHECK(E->current != index, "error:handler", "the installed handler was destroyed");
    E->alive[index] = false;
}
void H::handle_exception(const Exception& e) {
    Host host;
    E->on_error(this, e);
}

void run_errors() {
    Errors w;
    E = &w;
    start_clock(draw_uptime_us());
    w.level = one_of<LogLevel>({LogLevel::WARN, LogLevel::OFF, LogLevel::INFO, LogLevel::DEBUG, LogLevel::ERR});
    spn::logging::set_log_level(w.level);
    w.w_replace = one_of<u32>({0, 1, 3});
    w.w_nest = one_of<u32>({0, 1, 3});
    w.w_unwind = one_of<u32>({0, 0, 1, 2});
    w.w_remove = one_of<u32>({0, 0, 1});
    w.heap_armed = armed();
    limit_steps((u32)one_of<i64>({10, 30, 80}));
    using BP = spn::filter::BandPass<float>;
    using MR = spn::filter::MappedRange<float>;
    int limit = (int)one_of<i64>({2, 1, 3, 5});
    bool bp_throws = !chance(200), mr_throws = !chance(200);
    std::unique_ptr<BP> bp;
    std::unique_ptr<MR> mr;
    {
        Sut s;
        BP::Config bc;
        bc.mode = BP::Mode::ABSOLUTE;
        bc.mantissa = 1;
        bc.decades = 0; // +- 10
        bc.offset = 0;
        bc.rejection_limit = limit;
        bc.throw_on_rejection_limit = bp_throws;
        bp = std::make_unique<BP>(std::move(bc));
        MR::Config mc;
        mc.throw_for_value_out_of_range = mr_throws;
        mr = std::make_unique<MR>(std::move(mc));
        bp->value(0);
    }
    if (armed()) // afterwards only handlers that exist already are used
        for (int i = 0; i < 4; ++i)
            w.parked.push_back(w.fresh());
    if (!chance(150)) w.install(w.fresh(), false);
    arm();
    int rejections = 0;
    while (step()) {
        size_t op = pick({4, 3, 3, 2, 1, 1});
        switch (op) {
        case 0: w.raise(true); break;
        case 1: { // a spike in a sensor's signal
            bool outlier = !chance(250);
            float sample = outlier ? 50.0f + (float)draw(100) : (float)draw(9);
            bool raises = false;
            if (outlier) raises = ++rejections > limit;
            else
                rejections = 0;
            log("bandpass sample %g", (double)sample);
            bool unwound = false;
            float before = bp->value(), got = 0;
            if (raises && bp_throws) {
                fault("sensor_spikes");
                unwound = w.expect("Runtime exception", "BandPass: rejection limit reached",
                                   [&] { got = bp->value(sample); });
            } else {
                Sut s;
                got = bp->value(sample);
            }
            if (!unwound) {
                float want = !outlier || raises ? sample : before;
                SIM_CHECK(got == want, "error:completion", "after an error a bandpass returned %g instead of %g",
                          (double)got, (double)want);
            }
            if (raises) rejections = unwound ? limit + 1 : 0; // whoever unwinds leaves the sample unprocessed
            break;
        }
        case 2: {
            float sample = one_of<float>({0.5f, -1, 2, 1.0001f, -0.0001f, 1, 0});
            bool raises = sample < 0 || sample > 1;
            float got = 0;
            log("mapped range sample %g", (double)sample);
            bool unwound = false;
            if (raises && mr_throws) {
                fault("sensor_out_of_range");
                unwound = w.expect("Runtime exception", "MappedRange: Value out of range",
                                   [&] { got = mr->value(sample); });
            } else {
                Sut s;
                got = mr->value(sample);
            }
            float want = 100 * std::min(1.0f, std::max(0.0f, sample));
            if (!unwound)
                SIM_CHECK(std::abs(got - want) < 1e-3f, "error:completion", "after an error a range returned %g instead of %g",
                          (double)got, (double)want);
            break;
        }
        case 3: w.replace(false); break;
        case 4: advance_ms((i64)draw(100000)); break;
        case 5:
            // an integral division must not be completed, so only with a handler that unwinds
            {
                if (w.current < 0) break;
                u32 a = w.w_replace, b = w.w_nest, c = w.w_unwind, d = w.w_remove;
                // (drawn outcome 3 is forced by making it the only one that can be drawn)
                volatile i64 zero = 0;
                i64 res = 0;
                struct Forced : ExceptionHandler {
                    int n = 0;
                    void handle_exception(const Exception& e) override {
                        Host h;
                        ++n;
                        SIM_CHECK(!strcmp(e.what(), "tried to divide by zero"), "error:content", "told '%s'", e.what());
                        throw Unwind{0};
                    }
                };
                if (armed()) break;
                (void)a, (void)b, (void)c, (void)d;
                auto f = std::make_unique<Forced>();
                Forced* raw = f.get();
                auto old = spn::core::set_machine_exception_handler(std::move(f));
                bool caught = false;
                try {
                    Sut s;
                    res = (k_time_ms(5) / (i64)zero).raw();
                } catch (const Unwind&) {
                    caught = true;
                }
                SIM_CHECK(caught && raw->n == 1, "error:lost", "an integral division by zero raised %d errors", raw->n);
                fault("division_by_zero");
                auto back = spn::core::set_machine_exception_handler(std::move(old));
                SIM_CHECK(back.get() == raw, "error:handler", "replacing the handler didn't return the previous one");
                (void)res;
            }
            break;
        }
        w.check_console();
        state((u64)(w.current >= 0) * 64 + std::min<u64>(w.calls, 7) * 8 + op);
    }
    if (w.raised) nontrivial();
    exhaust_heap(false);
    w.check_console();
    int last = w.current;
    w.current = -1;
    auto h = spn::core::set_machine_exception_handler(nullptr);
    SIM_CHECK(h.get() == (last < 0 ? nullptr : w.ptr[last]), "error:handler", "the last handler wasn't returned");
    h = nullptr;
    w.parked.clear();
    for (bool a : w.alive)
        SIM_CHECK(!a, "error:handler", "a handler was never returned");
}

// ---- logs -------------------------------------------------------------------------------------------------------------
constexpr size_t LIMIT = SPINE_LOGGING_MAX_MSG_SIZE - 1;

struct Expected {
    LogLevel level;
    std::string text; // without time
    i64 lo, hi; // ms at which it may have been stamped
    bool open_end; // the rest is not known
};

const char* name_of(LogLevel l) {
    return l == LogLevel::ERR ? "ERR" : l == LogLevel::WARN ? "WARN" : l == LogLevel::INFO ? "INFO" : "DBG";
}

struct Logs;
Logs* L;

struct Logs {
    LogLevel level;
    std::vector<Expected> expected;
    u64 printed = 0;

    // a message that is printed while the arguments of another one are evaluated
    int nested(LogLevel lv, int value) {
        Host host;
        char t[64];
        snprintf(t, sizeof t, "nested %d", value);
        i64 lo = now_ms();
        {
            Sut s;
            SPN_LOG_IMPL(lv, "nested %d", value);
        }
        if (lv <= level) {
            std::string text = t;
            expected.push_back(Expected{lv, text, lo, now_ms(), lv == LogLevel::DEBUG});
            probe("nested_message");
        }
        return value;
    }
    void check(bool last) {
        if (!last && !flip()) return;
        auto lines = take_console();
        for (size_t i = 0; i < std::max(lines.size(), expected.size()); ++i) {
            SIM_CHECK(i < lines.size(), "log:lost", "message '%.60s' was not printed", expected[i].text.c_str());
            SIM_CHECK(i < expected.size(), "log:spurious", "'%.200s' was printed unasked, or again", lines[i].c_str());
            const auto& e = expected[i];
            const auto& got = lines[i];
            bool ok = false;
            std::string want;
            size_t limit = LIMIT;
            for (i64 t = e.lo; t <= e.hi && !ok; ++t) {
                char p[64];
                snprintf(p, sizeof p, "[%08u] [%s] ", (unsigned)(u32)t, name_of(e.level));
                want = p + e.text;
                // (on Zephyr the prefix is the kernel's, and no part of the message)
                if (zephyr_platform()) limit = LIMIT + strlen(p);
                if (e.open_end) ok = got.size() <= limit && got.compare(0, std::min(want.size(), limit), want, 0, limit) == 0;
                else
                    ok = got == want.substr(0, limit);
            }
            SIM_CHECK(ok, got.size() > limit ? "log:size" : "log:content",
                      "message #%zu is '%.400s' (%zu characters) instead of '%.400s'", i, got.c_str(), got.size(),
                      want.substr(0, limit).c_str());
            if (want.size() > limit) probe("message_truncated");
            if (want.size() == limit || want.size() == limit + 1) probe("message_at_the_limit");
            ++printed;
        }
        expected.clear();
    }
};

struct LoggingHandler : ExceptionHandler {
    void handle_exception(const Exception& e) override {
        Host host;
        std::string t = std::string("handling ") + e.what();
        i64 lo = now_ms();
        {
            Sut s;
            SPN_ERR("handling %s", e.what());
        }
        if (LogLevel::ERR <= L->level) L->expected.push_back(Expected{LogLevel::ERR, t, lo, now_ms(), false});
        throw Unwind{0};
    }
};

void run_logs() {
    Logs w;
    L = &w;
    start_clock(draw_uptime_us());
    {
        auto h = std::make_unique<LoggingHandler>();
        spn::logging::set_log_level(LogLevel::OFF);
        spn::core::set_machine_exception_handler(std::move(h));
    }
    w.level = one_of<LogLevel>({LogLevel::INFO, LogLevel::DEBUG, LogLevel::WARN, LogLevel::ERR, LogLevel::OFF});
    spn::logging::set_log_level(w.level);
    limit_steps((u32)one_of<i64>({10, 30, 80}));
    if (chance(200)) set_preemption(one_of<u32>({50, 300}), 3000);
    arm();
    auto level_of = [&] {
        return one_of<LogLevel>({LogLevel::INFO, LogLevel::WARN, LogLevel::ERR, LogLevel::DEBUG});
    };
    auto size = [&]() -> size_t {
        switch (pick({4, 3, 2, 1})) {
        case 0: return draw(40);
        case 1: return 222 + draw(25); // around the limit
        case 2: return draw(300);
        default: return 300 + draw(2000);
        }
    };
    while (step()) {
        size_t op = pick({5, 2, 2, 2, 1, 1, 1, 1});
        switch (op) {
        case 0: { // text of any length
            LogLevel lv = level_of();
            std::string t;
            size_t n = size();
            for (size_t i = 0; i < n; ++i)
                t += (char)(' ' + (i * 7 + n) % 95);
            int line = (int)draw(100000);
            bool raw = flip();
            log("message of %zu characters at level %s", n, name_of(lv));
            const char* file = one_of<const char*>({"app/main.cpp", "x", ""});
            i64 lo = now_ms();
            bool loggable;
            {
                Sut s;
                loggable = spn::logging::is_loggable(lv);
                if (raw && loggable) spn::logging::detail::print(lv, file, line, "fn", "%s", t.c_str());
                else if (lv == LogLevel::INFO)
                    SPN_LOG("%s", t.c_str())
                else if (lv == LogLevel::WARN)
                    SPN_WARN("%s", t.c_str())
                else if (lv == LogLevel::ERR)
                    SPN_ERR("%s", t.c_str())
                else
                    SPN_LOG_IMPL(LogLevel::DEBUG, "%s", t.c_str());
            }
            SIM_CHECK(loggable == (lv <= w.level), "log:level", "level %s is %sloggable", name_of(lv),
                      loggable ? "" : "not ");
            if (!loggable) break;
            bool exact = true;
            std::string full = t;
            if (lv == LogLevel::DEBUG) {
                if (raw) full += std::string(" (") + file + ":" + std::to_string(line) + " fn)";
                else {
                    full += " (";
                    exact = false;
                }
            }
            w.expected.push_back(Expected{lv, full, lo, now_ms(), !exact});
            break;
        }
        case 1: { // numbers
            LogLevel lv = level_of();
            int a = (int)draw(2000000) - 1000000;
            unsigned b = (unsigned)draw(1ull << 32);
            float f = (float)a / 8.0f;
            i64 lo = now_ms();
            {
                Sut s;
                SPN_LOG_IMPL(lv, "%d|%u|%.3f|%5s|%%", a, b, f, "abc");
            }
            char t[256];
            snprintf(t, sizeof t, "%d|%u|%.3f|%5s|%%", a, b, (double)f, "abc");
            log("numbers at level %s", name_of(lv));
            if (lv <= w.level) w.expected.push_back(Expected{lv, t, lo, now_ms(), lv == LogLevel::DEBUG});
            break;
        }
        case 2: { // change of level
            w.level = one_of<LogLevel>({LogLevel::INFO, LogLevel::DEBUG, LogLevel::WARN, LogLevel::ERR, LogLevel::OFF});
            LogLevel got;
            {
                Sut s;
                spn::logging::set_log_level(w.level);
                got = spn::logging::log_level();
            }
            SIM_CHECK(got == w.level, "log:level", "the level that was set is not the level");
            log("level %d", (int)w.level);
            break;
        }
        case 3: advance_us((i64)draw(5000000)); break;
        case 4: { // a message in the middle of another one
            LogLevel a = level_of(), b = level_of();
            int v = (int)draw(1000);
            i64 lo = now_ms();
            log("nested messages");
            {
                Sut s;
                SPN_LOG_IMPL(a, "outer %d", w.nested(b, v));
            }
            char t[64];
            snprintf(t, sizeof t, "outer %d", v);
            if (a <= w.level) w.expected.push_back(Expected{a, t, lo, now_ms(), a == LogLevel::DEBUG});
            break;
        }
        case 5: { // an error whose handler logs
            log("an error is raised");
            try {
                Sut s;
                // (in debug builds the library may announce it at the lowest level)
                if (w.level == LogLevel::DEBUG) break;
                spn::throw_exception(spn::runtime_exception("that"));
            } catch (const Unwind&) {
            }
            break;
        }
        case 6: { // a failing assertion
            if (!debug_build()) break;
            volatile int x = 1;
            log("an assertion fails");
            i64 lo = now_ms();
            if (w.level == LogLevel::DEBUG) {
                Sut s;
                spn_expect(x == 2);
            }
            if (w.level == LogLevel::DEBUG)
                w.expected.push_back(Expected{LogLevel::DEBUG, "Expectation failed: 'x == 2' (", lo, now_ms(), true});
            (void)x;
            break;
        }
        case 7: { // several quickly after one another
            int n = 2 + (int)draw(5);
            for (int i = 0; i < n; ++i) {
                LogLevel lv = level_of();
                i64 lo = now_ms();
                {
                    Sut s;
                    SPN_LOG_IMPL(lv, "burst %d of %d", i, n);
                }
                char t[64];
                snprintf(t, sizeof t, "burst %d of %d", i, n);
                if (lv <= w.level) w.expected.push_back(Expected{lv, t, lo, now_ms(), lv == LogLevel::DEBUG});
            }
            log("burst of %d", n);
            break;
        }
        }
        state((u64)w.level * 512 + op * 64 + std::min<u64>(w.expected.size(), 60));
        w.check(false);
    }
    w.check(true);
    if (w.printed) nontrivial();
    exhaust_heap(false);
    set_preemption(0, 0);
    spn::logging::set_log_level(LogLevel::OFF);
    spn::core::set_machine_exception_handler(nullptr);
}

} // namespace

SIM_SCENARIO(errors) { run_errors(); }
SIM_SCENARIO(logs) { run_logs(); }
