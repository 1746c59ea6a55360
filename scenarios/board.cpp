// Scenario: everything that the Arduino back end offers, on a simulated board: pins, converters, interrupts, a serial
// line that delays, refuses and fails, the console, and clocks of 32 bits that roll over. Decides C20 (and C06 for it);
// only built for the Arduino platform.
#ifdef ARDUINO
#    include "board.hpp"

#    include "platform.hpp"
#    include "spine/core/exception.hpp"
#    include "spine/core/logging.hpp"
#    include "spine/platform/hal.hpp"

#    include <cmath>
#    include <deque>
#    include <memory>

using namespace sim;
using spn::core::LogicalState;
using spn::core::TriggerType;

namespace {

u64 g_calls[4];
template<int N>
void isr() {
    ++g_calls[N];
}
void (*const ISRS[])() = {isr<0>, isr<1>, isr<2>, isr<3>};

/// A serial line with a peer at the other end, one that takes its time
struct Line : spn::io::Stream {
    std::deque<std::pair<i64, uint8_t>> to_board; // when it arrives, and what
    std::deque<uint8_t> from_board;
    std::deque<uint8_t> expected_in, expected_out;
    u32 p_read_fail = 0, p_write_fail = 0;
    size_t room = 64;
    u64 flushes = 0;
    size_t arrived() const {
        size_t n = 0;
        for (auto& [t, c] : to_board) {
            if (t > now_us()) break;
            ++n;
        }
        return n;
    }
    void initialize() override {}
    void flush() override { ++flushes; }
    size_t available() const override {
        Host h;
        return arrived();
    }
    size_t available_for_write() const override { return room; }
    bool read(uint8_t& value) override {
        Host h;
        if (!arrived()) return false;
        if (chance(p_read_fail)) {
            fault("read_failed");
            return false;
        }
        value = to_board.front().second;
        to_board.pop_front();
        return true;
    }
    bool write(const uint8_t value) override {
        Host h;
        if (room == 0) return false;
        if (chance(p_write_fail)) {
            fault("write_failed");
            return false;
        }
        --room;
        from_board.push_back(value);
        return true;
    }
    size_t write(const uint8_t* const buffer, size_t length) override {
        size_t n = 0;
        while (n < length && write(buffer[n]))
            ++n;
        return n;
    }
};

struct World {
    Line line;
    std::unique_ptr<HardwareSerial> serial;
    std::unique_ptr<HAL::UART> uart;
    i64 timeout_ms = 1000;

    struct Out {
        int pin;
        bool low;
        std::unique_ptr<DigitalOutput> o;
        bool on;
    };
    struct In {
        int pin;
        bool pull_up;
        std::unique_ptr<DigitalInput> i;
    };
    struct AOut {
        int pin;
        bool low;
        std::unique_ptr<AnalogueOutput> o;
        float value;
    };
    struct AIn {
        int pin;
        bool pull_up;
        std::unique_ptr<AnalogueInput> i;
    };
    struct Int {
        int pin;
        bool pull_up;
        std::unique_ptr<Interrupt> i;
        int cb; // -1: none
        TriggerType trigger;
        bool attached = false, attached_before = false;
    };
    std::vector<Out> outs;
    std::vector<In> ins;
    std::vector<AOut> aouts;
    std::vector<AIn> ains;
    std::vector<Int> ints;
    int bits = 8;
    u64 expected_calls[4] = {};
    i64 last_ms = 0, last_us = 0;

    int full() const { return (1 << bits) - 1; }

    void check_pins() {
        auto& b = board::board();
        for (auto& o : outs) {
            SIM_CHECK(b.pins[o.pin].mode == 1, "board:mode", "output pin %d is in mode %d", o.pin, b.pins[o.pin].mode);
            SIM_CHECK(b.pins[o.pin].driven == (int)(o.on != o.low), "board:digital",
                      "pin %d (active on %s) is at %d while it should be %s", o.pin, o.low ? "low" : "high",
                      b.pins[o.pin].driven, o.on ? "on" : "off");
            LogicalState s;
            {
                Sut in;
                s = o.o->state();
            }
            SIM_CHECK(s == (o.on ? LogicalState::ON : LogicalState::OFF), "board:digital", "pin %d reports %d", o.pin,
                      (int)s);
        }
        for (auto& o : aouts) {
            SIM_CHECK(b.pins[o.pin].duty_bits == bits, "board:analogue",
                      "an output of %d bits was given a value at %d bits", bits, b.pins[o.pin].duty_bits);
            check_duty(o, o.value, b.pins[o.pin].duty);
            float v;
            {
                Sut in;
                v = o.o->value();
            }
            SIM_CHECK(v == o.value, "board:analogue", "output %d reports %g while it drives %g", o.pin, (double)v,
                      (double)o.value);
        }
        for (int i = 0; i < 4; ++i)
            SIM_CHECK(g_calls[i] == expected_calls[i], "board:interrupt",
                      "callback %d was called %lu times instead of %lu", i, (unsigned long)g_calls[i],
                      (unsigned long)expected_calls[i]);
    }
    void check_duty(const AOut& o, float value, int duty) {
        SIM_CHECK(duty >= 0 && duty <= full(), "board:range", "an output of %d bits is given %d at a value of %g", bits,
                  duty, (double)value);
        double want = (double)(o.low ? 1.0f - value : value) * full();
        SIM_CHECK(std::abs(duty - want) <= 1.01, "board:analogue",
                  "an output of %d bits (active on %s) is given %d at a value of %g", bits, o.low ? "low" : "high",
                  duty, (double)value);
        if (value == 0.0f || value == 1.0f)
            SIM_CHECK(duty == (int)want, "board:analogue",
                      "an output of %d bits (active on %s) is given %d at a value of %g", bits, o.low ? "low" : "high",
                      duty, (double)value);
    }
    void check_clock() {
        i64 a = now_us(), ms, us;
        {
            Sut s;
            ms = HAL::millis().raw();
        }
        i64 m = now_us();
        SIM_CHECK(ms >= a / 1000 && ms <= m / 1000, "board:clock", "after %ld ms the board is up for %ld ms",
                  (long)(a / 1000), (long)ms);
        {
            Sut s;
            us = HAL::micros().raw();
        }
        i64 b = now_us();
        SIM_CHECK(us >= m && us <= b, "board:clock", "after %ld us the board is up for %ld us", (long)m, (long)us);
        SIM_CHECK(ms >= last_ms && us >= last_us, "board:clock", "the clock went back");
        last_ms = ms, last_us = us;
    }
    void take_output() {
        while (!line.from_board.empty()) {
            uint8_t c = line.from_board.front();
            SIM_CHECK(!line.expected_out.empty(), "board:uart", "the peer got 0x%02x that was not written", c);
            SIM_CHECK(line.expected_out.front() == c, "board:uart", "the peer got 0x%02x instead of 0x%02x", c,
                      line.expected_out.front());
            line.from_board.pop_front();
            line.expected_out.pop_front();
        }
        SIM_CHECK(line.expected_out.empty(), "board:uart",
                  "%zu bytes are said to be written but didn't get to the peer", line.expected_out.size());
    }
    void got(uint8_t c) {
        SIM_CHECK(!line.expected_in.empty(), "board:uart", "0x%02x was read that was not sent", c);
        SIM_CHECK(line.expected_in.front() == c, "board:uart", "0x%02x was read instead of 0x%02x", c,
                  line.expected_in.front());
        line.expected_in.pop_front();
        nontrivial();
    }
};

void run_board() {
    board::reset();
    memset(g_calls, 0, sizeof g_calls);
    World w;
    start_clock(draw_uptime_us());
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::INFO);
    limit_steps((u32)one_of<i64>({10, 30, 80}));
    w.line.p_read_fail = one_of<u32>({0, 0, 200});
    w.line.p_write_fail = one_of<u32>({0, 0, 200});
    w.bits = one_of<int>({8, 8, 10, 12});
    w.timeout_ms = one_of<i64>({1000, 1, 50});
    u32 baud = one_of<u32>({115200, 0, 9600});
    auto& b = board::board();
    // code that works with any platform's pins calls them as what they are on any platform
    const bool generic = flip();
    // pins: 2 3 18..21 can interrupt
    {
        Sut s;
        HAL::initialize(HAL::Config{baud});
    }
    SIM_CHECK(b.begins == (baud ? 1 : 0) && (!baud || b.baudrate == (i64)baud), "board:initialize",
              "the console was begun %d times at %ld baud instead of %u", b.begins, (long)b.baudrate, baud);
    int n_out = 1 + (int)draw(3), n_in = 1 + (int)draw(2), n_aout = 1 + (int)draw(2), n_int = 1 + (int)draw(4);
    const int int_pins[] = {2, 18, 21, 3, 20};
    // what ran before (a boot loader, for one) may have left pins in any mode
    if (flip())
        for (int pin : {2, 3, 4, 5, 6, 8, 9, 18, 20, 21}) {
            b.pins[pin].mode = (int)draw(4) - 1;
            b.pins[pin].driven = (int)draw(2);
        }
    for (int i = 0; i < n_out; ++i) {
        bool low = flip(), on = flip();
        Sut s;
        w.outs.push_back(
            {4 + i, low, std::make_unique<DigitalOutput>(DigitalOutput::Config{(uint8_t)(4 + i), low}), on});
        w.outs.back().o->initialize(on);
    }
    for (int i = 0; i < n_in; ++i) {
        bool pull = flip();
        Sut s;
        w.ins.push_back({8 + i, pull, std::make_unique<DigitalInput>(DigitalInput::Config{(uint8_t)(8 + i), pull})});
        if (generic) static_cast<spn::platform::DigitalInput<DigitalInput>&>(*w.ins.back().i).initialize();
        else
            w.ins.back().i->initialize();
    }
    for (int i = 0; i < n_aout; ++i) {
        bool low = flip();
        Sut s;
        w.aouts.push_back(
            {10 + i, low,
             std::make_unique<AnalogueOutput>(AnalogueOutput::Config{(uint8_t)(10 + i), low, (uint8_t)w.bits}), 0.0f});
        if (generic) static_cast<spn::platform::AnalogueOutput<AnalogueOutput>&>(*w.aouts.back().o).initialize();
        else
            w.aouts.back().o->initialize();
    }
    SIM_CHECK(b.write_resolution == w.bits, "board:analogue", "outputs of %d bits were set up for %d", w.bits,
              b.write_resolution);
    {
        bool pull = flip();
        Sut s;
        w.ains.push_back({14, pull, std::make_unique<AnalogueInput>(AnalogueInput::Config{14, pull})});
        if (generic) static_cast<spn::platform::AnalogueInput<AnalogueInput>&>(*w.ains.back().i).initialize();
        else
            w.ains.back().i->initialize();
    }
    for (int i = 0; i < n_int; ++i) {
        bool pull = flip();
        World::Int x;
        x.pin = int_pins[i], x.pull_up = pull;
        x.cb = (int)draw(5) - 1;
        x.trigger = one_of<TriggerType>(
            {TriggerType::RISING_EDGE, TriggerType::FALLING_EDGE, TriggerType::RISING_AND_FALLING_EDGE});
        Sut s;
        x.i = std::make_unique<Interrupt>(
            Interrupt::Config{(uint8_t)x.pin, x.trigger, pull, x.cb < 0 ? nullptr : ISRS[x.cb]});
        if (generic) static_cast<spn::platform::Interrupt<Interrupt>&>(*x.i).initialize();
        else
            x.i->initialize();
        w.ints.push_back(std::move(x));
    }
    {
        Sut s;
        w.serial = std::make_unique<HardwareSerial>(&w.line);
        w.uart = std::make_unique<HAL::UART>(
            HAL::UART::Config{.stream = w.serial.get(), .timeout = k_time_ms(w.timeout_ms)});
        w.uart->initialize();
    }
    if (!strcmp(property(), "C06")) {
        on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
        exhaust_heap(true);
    }
    (void)take_console();
    w.check_pins();
    while (step()) {
        size_t op = pick({4, 2, 3, 1, 4, 4, 2, 3, 3, 2, 2, 1, 1});
        switch (op) {
        case 0: { // digital output
            auto& o = w.outs[draw(w.outs.size())];
            size_t how = draw(3);
            bool on = how == 2 ? !o.on : flip();
            {
                Sut s;
                if (how == 0) o.o->set_state(on);
                else if (how == 1)
                    o.o->set_state(on ? LogicalState::ON : LogicalState::OFF);
                else
                    o.o->flip();
            }
            o.on = on;
            log("pin %d %s", o.pin, on ? "on" : "off");
            nontrivial();
            break;
        }
        case 1: { // digital input
            auto& i = w.ins[draw(w.ins.size())];
            int level = (int)draw(3) - 1;
            board::drive(i.pin, level);
            if (level < 0) fault("pin_disconnected");
            bool got;
            {
                Sut s;
                got = generic ? static_cast<const spn::platform::DigitalInput<DigitalInput>&>(*i.i).state()
                                    == LogicalState::ON
                              : i.i->state();
            }
            int want = level >= 0 ? level : i.pull_up;
            log("input %d at %d", i.pin, level);
            SIM_CHECK(got == (want != 0), "board:input", "an input at level %d (pull up %d) reads %d", level,
                      (int)i.pull_up, (int)got);
            break;
        }
        case 2: { // analogue output
            auto& o = w.aouts[draw(w.aouts.size())];
            float v = pick({1, 1, 3}) == 2 ? (float)draw(1001) / 1000.0f : (float)draw(2);
            {
                Sut s;
                if (generic) static_cast<spn::platform::AnalogueOutput<AnalogueOutput>&>(*o.o).set_value(v);
                else
                    o.o->set_value(v);
            }
            o.value = v;
            log("output %d at %g", o.pin, (double)v);
            break;
        }
        case 3: { // fade
            auto& o = w.aouts[draw(w.aouts.size())];
            float v = (float)draw(101) / 100.0f, inc = (float)(1 + draw(30)) / 100.0f;
            i64 interval = 1 + (i64)draw(100), began = now_us();
            u64 before = b.pins[o.pin].duties;
            float from = o.value;
            {
                Sut s;
                o.o->fade_to(v, inc, k_time_ms(interval));
            }
            o.value = v;
            log("output %d fades to %g", o.pin, (double)v);
            i64 steps = (i64)(b.pins[o.pin].duties - before);
            double need = std::abs((double)v - (double)from) / (double)inc;
            SIM_CHECK(steps >= need - 1e-3 - (need < 1), "board:analogue", "a fade from %g to %g by %g took %ld steps",
                      (double)from, (double)v, (double)inc, (long)steps);
            SIM_CHECK(now_us() - began >= (steps - 1) * interval * 1000, "board:analogue", "%ld steps took %ld us",
                      (long)steps, (long)(now_us() - began));
            break;
        }
        case 4: { // attach or detach an interrupt
            auto& x = w.ints[draw(w.ints.size())];
            if (x.attached && flip()) {
                Sut s;
                if (generic) static_cast<spn::platform::Interrupt<Interrupt>&>(*x.i).detach_interrupt();
                else
                    x.i->detach_interrupt();
                x.attached = false;
                log("interrupt on pin %d detached", x.pin);
                break;
            }
            int cb = (int)draw(5) - 1;
            TriggerType t = one_of<TriggerType>({TriggerType::UNDEFINED, TriggerType::RISING_EDGE,
                                                 TriggerType::FALLING_EDGE, TriggerType::RISING_AND_FALLING_EDGE});
            if (cb < 0 && x.cb < 0) cb = 1;
            if (x.attached_before && (cb < 0 || t == TriggerType::UNDEFINED)) probe("interrupt_attached_anew");
            {
                Sut s;
                if (generic)
                    static_cast<spn::platform::Interrupt<Interrupt>&>(*x.i).attach_interrupt(
                        cb < 0 ? nullptr : ISRS[cb], t);
                else
                    x.i->attach_interrupt(cb < 0 ? nullptr : ISRS[cb], t);
            }
            if (cb >= 0) x.cb = cb; // otherwise it goes on with the last one, just like the trigger
            if (t != TriggerType::UNDEFINED) x.trigger = t;
            x.attached = x.attached_before = true;
            log("interrupt on pin %d attached to %d at %d", x.pin, x.cb, (int)x.trigger);
            break;
        }
        case 5: { // an edge
            auto& x = w.ints[draw(w.ints.size())];
            int before = board::level_at(x.pin), level = (int)draw(3) - 1;
            int after = level >= 0 ? level : x.pull_up;
            if (x.attached && before != after
                && (x.trigger == TriggerType::RISING_AND_FALLING_EDGE
                    || (x.trigger == TriggerType::RISING_EDGE) == (after == 1))) {
                ++w.expected_calls[x.cb];
                probe("interrupt_fired");
            }
            board::drive(x.pin, level);
            log("pin %d goes to %d", x.pin, level);
            break;
        }
        case 6: { // analogue input
            auto& i = w.ains[0];
            bool connected = !chance(200);
            board::drive(i.pin, connected ? 0 : -1);
            int sample = pick({1, 1, 3}) == 2 ? (int)draw(1024) : (int)draw(2) * 1023;
            b.pins[i.pin].sample = sample;
            float v;
            {
                Sut s;
                v = generic ? static_cast<spn::platform::AnalogueInput<AnalogueInput>&>(*i.i).read() : i.i->read();
            }
            log("sample %d is %g", sample, (double)v);
            if (!connected) {
                fault("pin_disconnected");
                SIM_CHECK(v >= 0 && v <= 1 && (!i.pull_up || v > 0.99f), "board:sample",
                          "an analogue input (pull up %d) that is not connected reads %g", (int)i.pull_up, (double)v);
                break;
            }
            SIM_CHECK(v >= 0 && v <= 1 && std::abs((double)v * 1024 - sample) <= 1.01 && (sample || v == 0),
                      "board:sample", "a sample of %d (of 1023) is read as %g", sample, (double)v);
            break;
        }
        case 7: { // the peer sends
            size_t n = 1 + draw(chance(30) ? 600 : 8);
            i64 at = w.line.to_board.empty() ? now_us() : std::max(now_us(), w.line.to_board.back().first);
            for (size_t k = 0; k < n; ++k) {
                uint8_t c = (uint8_t)draw(256);
                at += n < 20 && chance(300) ? (i64)draw(80000) : 0;
                w.line.to_board.push_back({at, c});
                w.line.expected_in.push_back(c);
            }
            log("the peer sends %zu bytes", n);
            break;
        }
        case 8: { // read a byte
            size_t arrived = w.line.arrived(), said;
            uint8_t c = 0;
            bool ok;
            {
                Sut s;
                said = w.uart->available();
            }
            SIM_CHECK(said == arrived, "board:uart", "%zu bytes are said to be available, not %zu", said, arrived);
            size_t before = w.line.to_board.size();
            {
                Sut s;
                ok = w.uart->read(c);
            }
            log("read %d", (int)ok);
            SIM_CHECK(ok == (w.line.to_board.size() != before), "board:uart",
                      "a read said %s while %zu bytes were taken", ok ? "yes" : "no", before - w.line.to_board.size());
            if (!arrived) probe("read_without_data");
            if (ok) w.got(c);
            break;
        }
        case 9: { // read a block
            uint8_t buf[600];
            memset(buf, 0xEE, sizeof buf);
            size_t n = 1 + draw(chance(200) ? 500 : 16), r;
            i64 began = now_us();
            size_t before = w.line.to_board.size();
            {
                Sut s;
                r = w.uart->read(buf, n);
            }
            size_t taken = before - w.line.to_board.size();
            log("read %zu of %zu bytes", r, n);
            SIM_CHECK(r == taken && r <= n, "board:uart", "a read of %zu bytes returned %zu while %zu were taken", n, r,
                      taken);
            for (size_t k = 0; k < r; ++k)
                w.got(buf[k]);
            if (r < n) {
                probe("block_read_timed_out");
                i64 took = (now_us() - began) / 1000;
                SIM_CHECK(took + 1 >= w.timeout_ms && took <= (i64)(r + 1) * (w.timeout_ms + 1) + 1, "board:uart",
                          "a read gave up after %ld ms with a timeout of %ld ms", (long)took, (long)w.timeout_ms);
            }
            break;
        }
        case 10: { // write
            bool large = chance(100);
            w.line.room = large ? 200 + draw(500) : draw(3) ? 64 : draw(6);
            size_t n = 1 + draw(large ? 600 : 12), done = 0, room, had = w.line.room;
            uint8_t buf[600];
            for (size_t k = 0; k < n; ++k)
                buf[k] = (uint8_t)draw(256);
            {
                Sut s;
                room = w.uart->available_for_write();
            }
            SIM_CHECK(room == had, "board:uart", "room for %zu bytes instead of %zu", room, had);
            if (n == 1 || flip()) {
                bool ok;
                {
                    Sut s;
                    ok = w.uart->write(buf[0]);
                }
                done = ok;
            } else {
                Sut s;
                done = w.uart->write(buf, n);
            }
            log("%zu of %zu bytes written", done, n);
            SIM_CHECK(done <= n, "board:uart", "%zu of %zu bytes were written", done, n);
            for (size_t k = 0; k < done; ++k)
                w.line.expected_out.push_back(buf[k]);
            w.take_output();
            u64 flushes = w.line.flushes;
            if (flip()) {
                {
                    Sut s;
                    w.uart->flush();
                }
                SIM_CHECK(w.line.flushes == flushes + 1, "board:uart", "a flush didn't flush");
            }
            break;
        }
        case 11: { // the console
            int v = (int)draw(1000);
            char t[601];
            snprintf(t, sizeof t, "value %d", v);
            const u64 way = draw(5);
            size_t fits = 255; // what is formatted at once is cut off, as text of any length
            if (way == 4) {
                const size_t n = chance(500) ? 253 + draw(5) : 1 + draw(600);
                for (size_t k = 0; k < n; ++k)
                    t[k] = (char)('a' + (k * 7 + (size_t)v) % 26);
                t[n] = '\0';
                if (n > fits) probe("print_cut_off");
            }
            u64 f = b.serial_flushes;
            {
                Sut s;
                switch (way) {
                case 0: HAL::println(t); break;
                case 1: HAL::printf("value %d\n", v); break;
                case 2:
                    HAL::print("value ");
                    HAL::print(v);
                    HAL::println("");
                    break;
                case 3: {
                    const char* text = t;
                    HAL::print(text);
                    HAL::print("\n");
                    break;
                }
                case 4:
                    HAL::printf("%s", t);
                    HAL::println("");
                    break;
                }
                HAL::printflush();
            }
            exhaust_heap(false);
            auto lines = take_console();
            if (!strcmp(property(), "C06")) exhaust_heap(true);
            log("printed %s", t);
            bool told = lines.size() == 1 && lines[0] == t;
            if (way == 4 && strlen(t) > fits)
                told = lines.size() == 1 && lines[0].size() >= fits && std::string(t).rfind(lines[0], 0) == 0;
            SIM_CHECK(told, "board:console", "'%s' came out as %zu lines ('%s')", t, lines.size(),
                      lines.empty() ? "" : lines[0].c_str());
            SIM_CHECK(b.serial_flushes == f + 1, "board:console", "the console wasn't flushed");
            break;
        }
        case 12: { // time goes by
            i64 d = one_of<i64>({1000, 5 * 1000000ll, 3600ll * 1000000, 864000ll * 1000000}) + (i64)draw(1000000);
            advance_us(d);
            log("%ld us later", (long)d);
            break;
        }
        }
        if (flip()) {
            bool micros = flip();
            // a board waits for microseconds only as long as it can count them
            i64 want = (!micros && chance(200) ? one_of<i64>({32000, 65000, 3600000, 86400000}) : 0) + (i64)draw(3000),
                a = now_us();
            {
                Sut s;
                if (micros) HAL::delay_us(k_time_us(want));
                else
                    HAL::delay(k_time_ms(want));
            }
            i64 took = now_us() - a;
            SIM_CHECK(took == (micros ? want : want * 1000), "board:delay", "a delay of %ld %s took %ld us", (long)want,
                      micros ? "us" : "ms", (long)took);
        }
        w.check_clock();
        w.check_pins();
        state(op * 64 + w.line.arrived() % 8 * 8 + w.ints.size());
    }
    // the peer gets the last word: without faults everything that was sent arrives
    w.line.p_read_fail = 0;
    if (!w.line.to_board.empty()) set_clock_us(std::max(now_us(), w.line.to_board.back().first));
    while (!w.line.to_board.empty()) {
        uint8_t c = 0;
        bool ok;
        {
            Sut s;
            ok = w.uart->read(c);
        }
        SIM_CHECK(ok, "board:uart", "%zu bytes can't be read", w.line.to_board.size());
        w.got(c);
    }
    SIM_CHECK(w.line.expected_in.empty(), "board:uart", "%zu bytes were lost", w.line.expected_in.size());
    exhaust_heap(false);
    if (chance(40)) { // an end to it all: that is, it never ends
        log("halt for good");
        probe("halted_for_good");
        bool returned = false;
        if (board::spins([&] {
                Sut s;
                HAL::halt("out of milk");
                returned = true;
            }))
            return;
        SIM_CHECK(!returned, "board:halt", "the board carries on after it was halted");
    }
    if (chance(300)) { // an end to it all
        const char* why = flip() ? "out of coffee" : nullptr;
        i64 a = now_us();
        bool halted = false;
        log("halt");
        SIM_CHECK(board::board().interrupts, "board:interrupts", "interrupts are left disabled");
        board::board().halting = true;
        try {
            Sut s;
            if (why && flip()) { // an error that nobody handles
                spn::core::set_machine_exception_handler(nullptr);
                spn::throw_exception(spn::runtime_exception(why));
            } else
                HAL::halt(why);
        } catch (const board::Halted&) {
            halted = true;
        }
        leave_sut();
        auto lines = take_console();
        SIM_CHECK(halted && !board::board().interrupts, "board:halt", "halting didn't");
        SIM_CHECK(!lines.empty() && lines[0].find(why ? why : "") != std::string::npos, "board:halt",
                  "halted without a reason");
        SIM_CHECK(now_us() - a >= 0, "board:halt", "time");
        probe("halted");
    }
}

} // namespace

SIM_SCENARIO(board) { run_board(); }
#endif
