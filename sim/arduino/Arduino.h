// A simulated Arduino core: the part of the vendor's API that a sketch sees, on top of the simulator. The widths are those
// of a 32-bit (or 8-bit) board: clocks are 32 bits and roll over.
#pragma once

#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace spn::io {
class Stream;
}

#define LOW 0x0
#define HIGH 0x1
#define INPUT 0x0
#define OUTPUT 0x1
#define INPUT_PULLUP 0x2
#define CHANGE 1
#define FALLING 2
#define RISING 3
#define DEFAULT 1
#define EXTERNAL 0
#define NOT_AN_INTERRUPT -1
#define F(s) (s)

#define INPUT_PULLDOWN 0x3
#define LED_BUILTIN 13
#define PROGMEM
#define PSTR(s) (s)
#define lowByte(w) ((uint8_t)((w) & 0xff))
#define highByte(w) ((uint8_t)((w) >> 8))
#define bitRead(value, bit) (((value) >> (bit)) & 0x01)
#define bitSet(value, bit) ((value) |= (1UL << (bit)))
#define bitClear(value, bit) ((value) &= ~(1UL << (bit)))
#define bitWrite(value, bit, bitvalue) ((bitvalue) ? bitSet(value, bit) : bitClear(value, bit))

typedef bool boolean;
typedef uint8_t byte;
typedef uint16_t word;

void pinMode(uint8_t pin, uint8_t mode);
void digitalWrite(uint8_t pin, uint8_t value);
int digitalRead(uint8_t pin);
int analogRead(uint8_t pin);
void analogWrite(uint8_t pin, int value);
void analogWriteResolution(int bits);
void analogReadResolution(int bits);
void analogReference(uint8_t mode);

int digitalPinToInterrupt(int pin);
void attachInterrupt(uint8_t interrupt, void (*isr)(), int mode);
void detachInterrupt(uint8_t interrupt);
void interrupts();
void noInterrupts();

uint32_t millis();
uint32_t micros();
void delay(uint32_t ms);
void delayMicroseconds(uint32_t us);
void yield();
inline long map(long x, long in_min, long in_max, long out_min, long out_max) {
    return (x - in_min) * (out_max - out_min) / (in_max - in_min) + out_min;
}

class Print {
public:
    virtual ~Print() = default;
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* buffer, size_t size);
    size_t write(const char* s) { return write((const uint8_t*)s, strlen(s)); }
    size_t write(const char* s, size_t n) { return write((const uint8_t*)s, n); }
    virtual int availableForWrite() { return 0; }
    virtual void flush() {}

    size_t print(const char* s) { return write(s); }
    size_t print(char c) { return write((uint8_t)c); }
    size_t print(int v);
    size_t print(unsigned v);
    size_t print(long v);
    size_t print(unsigned long v);
    size_t print(long long v);
    size_t print(unsigned long long v);
    size_t print(double v, int digits = 2);
    size_t println() { return write("\r\n"); }
    template<typename T>
    size_t println(T v) {
        size_t n = print(v);
        return n + println();
    }
};

class Stream : public Print {
public:
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
    void setTimeout(unsigned long ms) { _timeout = ms; }
    unsigned long getTimeout() { return _timeout; }
    size_t readBytes(char* buffer, size_t length);
    size_t readBytes(uint8_t* buffer, size_t length) { return readBytes((char*)buffer, length); }

protected:
    int timedRead();
    unsigned long _timeout = 1000;
};

class HardwareSerial : public Stream {
public:
    HardwareSerial() = default;
    explicit HardwareSerial(spn::io::Stream* line) : _line(line) {}
    void begin(unsigned long baudrate);
    void end() {}
    int available() override;
    int read() override;
    int peek() override;
    int availableForWrite() override;
    void flush() override;
    size_t write(uint8_t) override;
    size_t write(const uint8_t* buffer, size_t size) override;
    using Print::write;
    operator bool() { return true; }

private:
    spn::io::Stream* _line = nullptr; // none: the console
};

extern HardwareSerial Serial;

// (the real core defines these as well, and they are in the way of any C++)
#define abs(x) ((x) > 0 ? (x) : -(x))
#define constrain(amt, low, high) ((amt) < (low) ? (low) : ((amt) > (high) ? (high) : (amt)))
#define round(x) ((x) >= 0 ? (long)((x) + 0.5) : (long)((x)-0.5))
