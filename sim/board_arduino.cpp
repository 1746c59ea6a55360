// A simulated board: pins, converters, interrupts, serial ports and 32-bit clocks behind the Arduino API.
#include "board.hpp"
#include "platform.hpp"

#include <csetjmp>
#include <csignal>
#include <sys/time.h>

#include "spine/core/exception.hpp"
#include "spine/platform/hal.hpp"

namespace spn::platform {
char* __brkval = nullptr;
} // namespace spn::platform
char* __brkval = nullptr;

namespace sim {
namespace {
i64 g_us = 0, g_looked_us = 0;
} // namespace

i64 now_us() { return g_us; }
// The clocks of the board are counters of 32 bits, so whoever wants to know the uptime has to look at them now and then: a
// board that is up is never left alone for longer than ten days.
void move_us(i64 us) {
    constexpr i64 ten_days = 864000ll * 1000000;
    const i64 until = g_us + us;
    while (until - g_looked_us > ten_days) {
        g_us = std::max(g_us, g_looked_us + ten_days);
        Host h;
        (void)HAL::millis();
    }
    g_us = until;
}
void set_clock_us(i64 us) {
    if (us < g_us) violate("board:clock", "the board's clock can't be set back");
    move_us(us - g_us);
}
bool native_platform() { return false; }
bool zephyr_platform() { return false; }

namespace {
struct Port {
    HardwareSerial serial;
    spn::platform::ArduinoUART uart;
    explicit Port(spn::io::Stream* line) : serial(line), uart(spn::platform::ArduinoUART::Config{.stream = &serial}) {}
};
} // namespace
std::shared_ptr<spn::io::Stream> make_uart(spn::io::Stream* line) {
    auto p = std::make_shared<Port>(line);
    return std::shared_ptr<spn::io::Stream>(p, &p->uart);
}

namespace board {
namespace {
Board g_board;
} // namespace
Board& board() { return g_board; }
void reset() { g_board = Board(); }

// like on a Mega: interrupts are numbered differently from pins
int vector_of(int pin) {
    switch (pin) {
    case 2: return 0;
    case 3: return 1;
    case 21: return 2;
    case 20: return 3;
    case 19: return 4;
    case 18: return 5;
    default: return -1;
    }
}
int level_at(int pin) {
    const Pin& p = g_board.pins[pin];
    if (p.mode == 1) return p.driven;
    if (p.level >= 0) return p.level;
    return p.mode == 2 ? 1 : 0; // floating pins happen to be low
}
void drive(int pin, int level) {
    int before = level_at(pin);
    g_board.pins[pin].level = level;
    int after = level_at(pin);
    int v = vector_of(pin);
    if (v < 0) return;
    auto& i = g_board.vectors[v];
    if (!i.isr || before == after) return;
    if (!(i.mode == 1 || (i.mode == 3 && after) || (i.mode == 2 && !after))) return;
    if (!g_board.interrupts) i.pending = true;
    else
        i.isr();
}
namespace {
sigjmp_buf g_out;
void enough(int) { siglongjmp(g_out, 1); }
} // namespace
bool spins(const std::function<void()>& f) {
    itimerval old{}, t{};
    t.it_value.tv_usec = 60000;
    auto* handler = signal(SIGVTALRM, enough);
    bool spun = true;
    if (!sigsetjmp(g_out, 1)) {
        setitimer(ITIMER_VIRTUAL, &t, &old);
        f();
        spun = false;
    }
    t = {};
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
    signal(SIGVTALRM, handler);
    leave_sut();
    return spun;
}
} // namespace board
} // namespace sim

using namespace sim;
using namespace sim::board;

namespace {
void must_be_pin(unsigned pin) {
    SIM_CHECK(pin < (unsigned)PINS, "board:pin", "pin %u doesn't exist", pin);
}
} // namespace

void pinMode(uint8_t pin, uint8_t mode) {
    Host h;
    must_be_pin(pin);
    SIM_CHECK(mode <= 2, "board:mode", "a pin has no mode %d", (int)mode);
    board::board().pins[pin].mode = mode;
}
void digitalWrite(uint8_t pin, uint8_t value) {
    Host h;
    must_be_pin(pin);
    board::board().pins[pin].driven = value ? 1 : 0;
    ++board::board().pins[pin].writes;
}
int digitalRead(uint8_t pin) {
    Host h;
    must_be_pin(pin);
    return level_at(pin);
}
int analogRead(uint8_t pin) {
    Host h;
    must_be_pin(pin);
    const Pin& p = board::board().pins[pin];
    if (p.level < 0 && p.mode == 2) return (1 << board::board().read_resolution) - 1;
    return p.sample;
}
void analogWrite(uint8_t pin, int value) {
    Host h;
    must_be_pin(pin);
    board::board().pins[pin].duty = value;
    board::board().pins[pin].duty_bits = board::board().write_resolution;
    ++board::board().pins[pin].duties;
}
void analogWriteResolution(int bits) { board::board().write_resolution = bits; }
void analogReadResolution(int bits) { board::board().read_resolution = bits; }
void analogReference(uint8_t) {}

int digitalPinToInterrupt(int pin) { return vector_of(pin); }
void attachInterrupt(uint8_t interrupt, void (*isr)(), int mode) {
    Host h;
    SIM_CHECK(interrupt < 8, "board:interrupt", "interrupt %d doesn't exist", (int)interrupt);
    board::board().vectors[interrupt].isr = isr;
    board::board().vectors[interrupt].mode = mode;
}
void detachInterrupt(uint8_t interrupt) {
    if (interrupt < 8) board::board().vectors[interrupt] = {};
}
void interrupts() {
    board::board().interrupts = true;
    for (auto& v : board::board().vectors)
        if (v.pending) {
            v.pending = false;
            if (v.isr) v.isr();
        }
}
void noInterrupts() {
    board::board().interrupts = false;
    if (board::board().halting) throw Halted{}; // what follows takes forever
}

uint32_t millis() {
    on_clock_access();
    g_looked_us = g_us;
    return (uint32_t)(g_us / 1000);
}
uint32_t micros() {
    on_clock_access();
    return (uint32_t)g_us;
}
void delay(uint32_t ms) {
    on_clock_access();
    move_us((i64)ms * 1000);
}
void delayMicroseconds(uint32_t us) {
    on_clock_access();
    move_us(us);
}
void yield() {}

size_t Print::write(const uint8_t* buffer, size_t size) {
    size_t n = 0;
    while (n < size && write(buffer[n]))
        ++n;
    return n;
}
#define PRINT(T, F)                                                                                                    \
    size_t Print::print(T v) {                                                                                         \
        char b[32];                                                                                                    \
        snprintf(b, sizeof b, F, v);                                                                                   \
        return write(b);                                                                                               \
    }
PRINT(int, "%d")
PRINT(unsigned, "%u")
PRINT(long, "%ld")
PRINT(unsigned long, "%lu")
PRINT(long long, "%lld")
PRINT(unsigned long long, "%llu")
size_t Print::print(double v, int digits) {
    char b[64];
    snprintf(b, sizeof b, "%.*f", digits, v);
    return write(b);
}

// waits for a byte like the real core does: the clock goes on, and bytes may arrive meanwhile
int Stream::timedRead() {
    uint32_t start = ::millis();
    do {
        int c = read();
        if (c >= 0) return c;
        ::delay(1);
    } while (::millis() - start < _timeout);
    return -1;
}
size_t Stream::readBytes(char* buffer, size_t length) {
    size_t n = 0;
    for (; n < length; ++n) {
        int c = timedRead();
        if (c < 0) break;
        buffer[n] = (char)c;
    }
    return n;
}

HardwareSerial Serial;
void HardwareSerial::begin(unsigned long baudrate) {
    board::board().baudrate = (i64)baudrate;
    ++board::board().begins;
}
int HardwareSerial::available() { return _line ? (int)_line->available() : 0; }
int HardwareSerial::read() {
    uint8_t v;
    if (!_line || !_line->read(v)) return -1;
    return v;
}
int HardwareSerial::peek() { return -1; }
int HardwareSerial::availableForWrite() { return _line ? (int)_line->available_for_write() : 64; }
void HardwareSerial::flush() {
    if (_line) _line->flush();
    else
        ++board::board().serial_flushes;
}
size_t HardwareSerial::write(uint8_t v) {
    if (_line) return _line->write(v) ? 1 : 0;
    if (v != '\r') console_write((const char*)&v, 1);
    return 1;
}
size_t HardwareSerial::write(const uint8_t* buffer, size_t size) {
    if (_line) return _line->write(buffer, size);
    for (size_t i = 0; i < size; ++i)
        write(buffer[i]);
    return size;
}
